// C10: matrix bases reconstruct the matrix; basis vectors of polynomials and rule sets lose and add nothing.
#include "bases.h"
#include "matrix/value_matrix.h"
#include "symbolic/polynomial_to_basis.h"
#include "symbolic/polynomial_to_basis_mask.h"
#include "symbolic/rules/moment_rulebook.h"
#include "symbolic/rules/moment_rulebook_to_basis.h"
#include "tensor/square_matrix.h"
#include <thread>
using namespace verif;
using namespace Moment;

namespace {
    std::string dump(const SymbolicMatrix& m) { std::string o; if (m.Dimension() > 6) return o; for (size_t i = 0; i < m.Dimension(); ++i) { o += "["; for (size_t j = 0; j < m.Dimension(); ++j) o += entry_text(m, i, j) + "; "; o += "]"; } return o; }
}

// Matrices made by the library for actual scenarios
static void system_matrices(Ctx& c, int kind, uint64_t quick, uint64_t deep) {
    c.for_cases(c.n(quick, deep), [&](Rng& r, uint64_t) {
        Tab t; t.sys = random_sys(r, kind, 8); t.ms = t.sys->ms.get(); t.desc = t.sys->desc();
        auto& s = *t.sys; auto& ms = *t.ms;
        const size_t top = s.level_cap(14, 3);
        std::vector<std::pair<const SymbolicMatrix*, std::string>> mats;
        std::string hist = s.desc();
        for (int k = 0; k < 4; ++k) {
            const size_t l = r.below(top + 1);
            const SymbolicMatrix* m; std::string what;
            switch (r.below(3)) {
                case 0: m = &ms.MomentMatrix(l); what = "MM " + std::to_string(l); break;
                case 1: { auto w = s.random_nonzero(r, 3); m = &ms.LocalizingMatrix(LocalizingMatrixIndex{l, s.make(w)}); what = "LM " + std::to_string(l) + " " + wstr(w); break; }
                default: {
                    RawPolynomial raw; for (size_t i = 1 + r.below(3); i > 0; --i) raw.emplace_back(s.make(s.random_nonzero(r, 2)), Tab::coef(r, all_coefs[r.below(5)]));
                    auto p = ms.polynomial_factory().register_and_construct(ms.Symbols(), raw);
                    m = &ms.PolynomialLocalizingMatrix(PolynomialLocalizingMatrixIndex{l, p}); what = "PLM " + std::to_string(l) + " " + Tab::text(p);
                }
            }
            mats.emplace_back(m, what); hist += " | " + what;
            if (r.coin()) check_bases(c, r, t, *m, hist, false);
        }
        c.nontrivial(hist);
        // bases after the symbol table has grown / been requested before
        for (auto& [m, what] : mats) if (m->Basis.Dense.is_done() || m->Basis.DenseComplex.is_done()) continue; else check_bases(c, r, t, *m, hist + " late: " + what, false);
    });
}
SECTION(generic) { system_matrices(c, Sys::Generic, 150, 1500); }
SECTION(locality) { system_matrices(c, Sys::Locality, 150, 1500); }
SECTION(inflation) { system_matrices(c, Sys::Inflation, 120, 1200); }
SECTION(pauli) { system_matrices(c, Sys::Pauli, 150, 1500); }
SECTION(algebraic) { system_matrices(c, Sys::Algebraic, 150, 1500); }

// Hand-made monomial matrices over arbitrary symbols
SECTION(monomial) {
    c.for_cases(c.n(1500, 20000), [&](Rng& r, uint64_t) {
        auto t = Tab::random(r); const size_t d = 1 + r.below(5); const bool herm = r.coin(); const auto cf = all_coefs[r.below(5)];
        auto m = random_mm(r, *t, d, herm, cf);
        const auto what = t->desc + (herm ? " hermitian" : "") + " monomial " + dump(*m);
        c.nontrivial(what);
        bool cplx = false; for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) if (m->SymbolMatrix(i, j).id && std::abs(m->SymbolMatrix(i, j).factor.imag()) > 1e-12) cplx = true;
        CHECK(m->HasComplexCoefficients() == cplx, "complex-coefficients", what);
        check_bases(c, r, *t, *m, what);
    });
}
SECTION(polynomial) {
    c.for_cases(c.n(1500, 20000), [&](Rng& r, uint64_t) {
        auto t = Tab::random(r); const size_t d = 1 + r.below(4); const bool herm = r.coin(); const auto cf = all_coefs[r.below(5)];
        auto m = random_pm(r, *t, d, herm, cf);
        const auto what = t->desc + (herm ? " hermitian" : "") + " polynomial " + dump(*m);
        c.nontrivial(what);
        if (herm) CHECK(m->Hermitian(), "hermitian-flag", what);
        else { auto v = t->values(r); Mat x = Tab::eval(*m, v); bool h = true; for (int i = 0; i < (int)d; ++i) for (int j = 0; j < (int)d; ++j) if (!verif::close(x(i, j), std::conj(x(j, i)))) h = false; CHECK(m->Hermitian() == h, "hermitian-flag", what << " flagged " << m->Hermitian()); }
        bool cplx = false; for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) for (auto& e : m->SymbolMatrix(i, j)) if (std::abs(e.factor.imag()) > 1e-12) cplx = true;
        CHECK(m->HasComplexCoefficients() == cplx, "complex-coefficients", what);
        check_bases(c, r, *t, *m, what);
    });
}
// sums of monomial matrices, and matrices of numbers
SECTION(composed) {
    c.for_cases(c.n(800, 8000), [&](Rng& r, uint64_t) {
        auto t = Tab::random(r); const size_t d = 1 + r.below(4);
        std::vector<std::unique_ptr<MonomialMatrix>> parts_; std::vector<const MonomialMatrix*> ptr;
        const size_t n = 2 + r.below(3); const auto cf = all_coefs[r.below(5)];
        for (size_t k = 0; k < n; ++k) { parts_.push_back(random_mm(r, *t, d, r.coin(), cf)); ptr.push_back(parts_.back().get()); }
        std::string what = t->desc + " sum of"; for (auto& p : parts_) what += " " + dump(*p);
        c.nontrivial(what);
        PolynomialMatrix sum(t->ms->Context(), t->fac(), t->msym(), std::span<const MonomialMatrix*>(ptr.data(), ptr.size()));
        auto v = t->values(r); Mat want(d, d); for (auto* p : ptr) { Mat x = Tab::eval(*p, v); for (int i = 0; i < (int)d; ++i) for (int j = 0; j < (int)d; ++j) want(i, j) += x(i, j); }
        std::string where; CHECK(same(Tab::eval(sum, v), want, where), "sum-of-matrices", what << " " << where);
        check_bases(c, r, *t, sum, what);
    });
}
SECTION(values) {
    c.for_cases(c.n(600, 6000), [&](Rng& r, uint64_t) {
        auto t = Tab::random(r, 3); const int d = 1 + (int)r.below(5); const int style = (int)r.below(4); // real sym, real, complex herm, complex
        const bool sparse_numbers = r.coin();
        Eigen::MatrixXcd x(d, d);
        for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) { x(i, j) = sparse_numbers && r.coin() ? cd{0} : style < 2 ? cd{r.sym()} : cd{r.sym(), r.sym()}; }
        if (style == 0 || style == 2) for (int i = 0; i < d; ++i) { x(i, i) = x(i, i).real(); for (int j = 0; j < i; ++j) x(i, j) = std::conj(x(j, i)); }
        if (r.chance(1, 5)) x *= cd{0, 1};
        std::unique_ptr<ValueMatrix> m; const int how = (int)r.below(4); bool all_real = true, all_herm = true;
        for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) { if (x(i, j).imag() != 0) all_real = false; if (!verif::close(x(i, j), std::conj(x(j, i)))) all_herm = false; }
        auto tol = 1.0;
        if (how == 0 && all_real) { Eigen::MatrixXd y = x.real(); m = std::make_unique<ValueMatrix>(t->ms->Context(), t->msym(), tol, y); }
        else if (how == 1 && all_real) { Eigen::SparseMatrix<double> y = Eigen::MatrixXd(x.real()).sparseView(); m = std::make_unique<ValueMatrix>(t->ms->Context(), t->msym(), tol, y); }
        else if (how == 2) { Eigen::SparseMatrix<cd> y = x.sparseView(); m = std::make_unique<ValueMatrix>(t->ms->Context(), t->msym(), tol, y); }
        else m = std::make_unique<ValueMatrix>(t->ms->Context(), t->msym(), tol, x);
        std::stringstream ss; ss << "numbers " << x << " how " << how;
        c.nontrivial(ss.str());
        Mat want(d, d); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) want(i, j) = x(i, j);
        std::string where; CHECK(same(Tab::eval(*m, t->values(r)), want, where), "value-matrix", ss.str() << " " << where);
        CHECK(m->Hermitian() == all_herm, "value-hermitian", ss.str() << " flagged " << m->Hermitian());
        CHECK(m->HasComplexCoefficients() == !all_real, "value-complex", ss.str());
        check_bases(c, r, *t, *m, ss.str());
    });
}
// one request per form, several threads
SECTION(mt_bases) {
    c.for_cases(c.n(30, 200), [&](Rng& r, uint64_t) {
        auto t = Tab::random(r); const size_t d = 3 + r.below(6);
        auto m = random_mm(r, *t, d, r.coin(), Tab::Dyadic);
        c.nontrivial(t->desc + dump(*m) + std::to_string(d));
        auto v = t->values(r); auto p = parts(*t, v); Mat want = Tab::eval(*m, v);
        std::vector<std::thread> th; std::mutex mx; std::vector<std::string> bads;
        for (int k = 0; k < 6; ++k) th.emplace_back([&, k] {
            std::string bad, where;
            for (int rep = 0; rep < 4; ++rep) {
                Mat got;
                switch ((k + rep) % 4) { case 0: got = cellular(m->Basis.Dense(), p, (int)d, bad); break; case 1: got = cellular(m->Basis.Sparse(), p, (int)d, bad); break; case 2: got = monolith(m->Basis.DenseMonolithicComplex(), p, (int)d, bad); break; default: got = monolith(m->Basis.SparseMonolithic(), p, (int)d, bad); }
                if (bad.empty() && !same(got, want, where)) bad = where;
                if (!bad.empty()) { std::lock_guard g{mx}; bads.push_back(bad); return; }
            }
        });
        for (auto& x : th) x.join();
        CHECK(bads.empty(), "concurrent-basis", t->desc << ": " << bads.front());
    });
}

// Polynomials as vectors
SECTION(vectors) {
    c.for_cases(c.n(6000, 60000), [&](Rng& r, uint64_t) {
        auto t = Tab::random(r, 8); const auto cf = all_coefs[r.below(5)];
        auto poly = t->poly(r, 6, cf); const auto what = t->desc + " " + Tab::text(poly);
        c.note(what); c.nontrivial(what);
        const auto nre = (long)t->sym().Basis.RealSymbolCount(), nim = (long)t->sym().Basis.ImaginarySymbolCount();
        PolynomialToBasisVec to{t->sym(), 1.0}; PolynomialToComplexBasisVec toc{t->sym(), 1.0};
        auto both = to(poly); auto re = to.Real(poly); auto im = to.Imaginary(poly); auto cv = toc(poly); ComplexBasisVector cv2{both};
        auto sized = [&](const auto& a, const auto& b, const char* k) { CHECK(a.size() == nre && b.size() == nim, k, what); return a.size() == nre && b.size() == nim; };
        if (!sized(both.real_part.real, both.real_part.imaginary, "vector-size") || !sized(both.imaginary_part.real, both.imaginary_part.imaginary, "vector-size") || !sized(re.real, re.imaginary, "vector-size") || !sized(im.real, im.imaginary, "vector-size") || !sized(cv.real, cv.imaginary, "vector-size") || !sized(cv2.real, cv2.imaginary, "vector-size")) return;
        std::vector<Eigen::Triplet<double>> rt, it, ct; to.add_triplet_row(poly, 0, 0, rt, it); to.add_triplet_row(poly, 0, 0, ct);
        for (int k = 0; k < 2; ++k) {
            auto v = t->values(r); auto p = parts(*t, v); const cd want = Tab::eval(poly, v);
            auto dot = [&](const auto& a, const auto& b) { cd s; for (long i = 0; i < nre; ++i) s += p.a[i] * cd{a.coeff(i)}; for (long i = 0; i < nim; ++i) s += p.b[i] * cd{b.coeff(i)}; return s; };
            CHECK(verif::close(dot(both.real_part.real, both.real_part.imaginary), want.real()), "vector-real", what);
            CHECK(verif::close(dot(both.imaginary_part.real, both.imaginary_part.imaginary), want.imag()), "vector-imaginary", what << ": " << dot(both.imaginary_part.real, both.imaginary_part.imaginary) << " instead of " << want.imag());
            CHECK(verif::close(dot(re.real, re.imaginary), want.real()), "vector-real-only", what);
            CHECK(verif::close(dot(im.real, im.imaginary), want.imag()), "vector-imaginary-only", what << ": " << dot(im.real, im.imaginary) << " instead of " << want.imag());
            CHECK(verif::close(dot(cv.real, cv.imaginary), want), "vector-complex", what);
            CHECK(verif::close(dot(cv2.real, cv2.imaginary), want), "vector-complex-from-parts", what << ": " << dot(cv2.real, cv2.imaginary) << " instead of " << want);
            auto tri = [&](const auto& ts, long row) { cd s; for (auto& x : ts) if (x.row() == row) s += x.value() * (x.col() < nre ? p.a[x.col()] : p.b[x.col() - nre]); return s; };
            CHECK(verif::close(tri(rt, 0), want.real()) && verif::close(tri(it, 0), want.imag()), "triplets", what);
            CHECK(verif::close(tri(ct, 0), want.real()) && verif::close(tri(ct, nre), want.imag()), "triplets-combined", what);
        }
        // and back (imaginary coefficients multiply i.Im(X))
        auto back = [&] { complex_basis_vec_t ci = cv.imaginary * cd{0, -1}; return ComplexBasisVecToPolynomial{t->fac()}(cv.real, ci); }();
        CHECK(back.approximately_equals(poly, 64), "complex-round-trip", what << " became " << Tab::text(back));
        CHECK(t->canonical(back).empty(), "complex-round-trip-form", what << " became " << Tab::text(back) << ": " << t->canonical(back));
        if (poly.real_factors()) {
            complex_basis_vec_t ci = cv.imaginary * cd{0, -1}; basis_vec_t a = cv.real.real(), b = ci.real(); a = a.pruned(); b = b.pruned();
            auto rb = BasisVecToPolynomial{t->fac()}(a, b);
            CHECK(rb.approximately_equals(poly, 64), "real-round-trip", what << " became " << Tab::text(rb));
        }
        // random vectors to polynomials
        basis_vec_t a(nre), b(nim); for (long i = 0; i < nre; ++i) if (r.coin()) a.insert(i) = r.range(-4, 4) / 2.0; for (long i = 0; i < nim; ++i) if (r.coin()) b.insert(i) = r.range(-4, 4) / 2.0;
        auto fv = BasisVecToPolynomial{t->fac()}(a, b); auto v = t->values(r); auto p = parts(*t, v); cd s; for (long i = 0; i < nre; ++i) s += a.coeff(i) * p.a[i]; for (long i = 0; i < nim; ++i) s += cd{0, b.coeff(i)} * p.b[i];
        CHECK(verif::close(Tab::eval(fv, v), s), "from-vector", t->desc << " " << Tab::text(fv));
        CHECK(t->canonical(fv).empty(), "from-vector-form", t->desc << " " << Tab::text(fv) << ": " << t->canonical(fv));
        // many polynomials at once
        std::vector<Polynomial> many; for (size_t k = r.below(4); k > 0; --k) many.push_back(t->poly(r, 5, cf));
        auto mono = toc(many);
        CHECK(mono.real.rows() == nre && mono.imaginary.rows() == nim && mono.real.cols() == (long)many.size() && mono.imaginary.cols() == (long)many.size(), "monolith-size", what);
        for (size_t k = 0; k < many.size(); ++k) { cd x; for (long i = 0; i < nre; ++i) x += p.a[i] * mono.real.coeff(i, (long)k); for (long i = 0; i < nim; ++i) x += p.b[i] * mono.imaginary.coeff(i, (long)k); CHECK(verif::close(x, Tab::eval(many[k], v)), "monolith", t->desc << " " << Tab::text(many[k])); }
        // masks: exactly the parts the value depends on
        PolynomialToBasisMask mask{t->sym(), 1.0}; auto [mr, mi] = mask(poly);
        std::map<symbol_name_t, std::pair<cd, cd>> f; for (auto& e : poly) (e.conjugated ? f[e.id].second : f[e.id].first) += e.factor;
        std::set<symbol_name_t> wr, wi;
        for (auto& [id, ab] : f) { auto k = t->sym()[id].basis_key(); const bool two = k.first >= 0 && k.second >= 0; if (k.first >= 0 && (!two || std::abs(ab.first + ab.second) > 1e-12)) wr.insert(k.first); if (k.second >= 0 && (!two || std::abs(ab.first - ab.second) > 1e-12)) wi.insert(k.second); }
        auto [sr, si] = PolynomialToBasisMask::masks_to_sets(mr, mi);
        CHECK(sr == wr && si == wi, "mask", what << ": {" << join(sr) << "}/{" << join(si) << "} instead of {" << join(wr) << "}/{" << join(wi) << "}");
        auto mn = fixed(*t, t->mono(r, cf)); auto em = mask.empty_mask(); mask.set_bits(em.first, em.second, mn);
        auto k = t->sym()[mn.id].basis_key(); std::set<symbol_name_t> er, ei; if (mn.id) { if (k.first >= 0) er.insert(k.first); if (k.second >= 0) ei.insert(k.second); }
        auto [gr, gi] = PolynomialToBasisMask::masks_to_sets(em.first, em.second);
        CHECK(gr == er && gi == ei, "monomial-mask", t->desc << " " << Tab::text(mn) << ": {" << join(gr) << "}/{" << join(gi) << "}");
        // conversions of unknown symbols must be refused
        if (r.chance(1, 10)) { Polynomial bad{Monomial{(symbol_name_t)t->size() + (symbol_name_t)r.below(3), 1.0, false}}; CHECK(throws([&] { to(bad); }) && throws([&] { toc(bad); }), "unknown-symbol", what); }
    });
}

// Rulebooks as matrices
#include "rules.h"
SECTION(rulebooks) {
    c.for_cases(c.n(3000, 30000), [&](Rng& r, uint64_t) {
        auto t = Tab::random(r, 6, -1, 1e6, true, true);
        auto e = random_equations(r, *t, 4); const auto what = t->desc + " " + e.text;
        c.note(what);
        Lin lin{*t}; for (auto& p : e.eqs) lin.add(p);
        auto eqs = lin; lin.solve();
        if (!lin.consistent || lin.doubtful) return;
        MomentRulebook rb{*t->ms}; rb.add_raw_rules(std::vector<Polynomial>(e.eqs)); rb.complete();
        std::string rules; for (auto& [id, rule] : rb) rules += std::to_string(id) + "->" + Tab::text(rule.RHS()) + "; ";
        c.nontrivial(what);
        size_t slanted = 0; for (auto& [id, rule] : rb) if (rule.is_partial() && std::abs(rule.partial_direction().real()) > 1e-9 && std::abs(rule.partial_direction().imag()) > 1e-9) ++slanted;
        if (slanted) c.count("slanted");
        const auto M = MomentRulebookToBasis{t->fac()}(rb);
        const auto H = MomentRulebookToBasis{t->sym(), t->fac().zero_tolerance, MomentRulebookToBasis::ExportMode::Homogeneous}(rb);
        const long n = (long)(lin.nre + lin.nim);
        CHECK(M.rows() == n && M.cols() == n && H.rows() == n && H.cols() == n, "rules-size", what);
        if (M.rows() != n || H.rows() != n) return;
        auto apply = [&](const auto& A, const std::vector<double>& x) { std::vector<double> y(n); for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) y[i] += A.coeff(i, j) * x[j]; return y; };
        auto pack = [&](const std::vector<cd>& v) { std::vector<double> x; for (auto id : t->sym().Basis.RealSymbols()) x.push_back(v[id].real()); for (auto id : t->sym().Basis.ImaginarySymbols()) x.push_back(v[id].imag()); return x; };
        auto eq = [&](const std::vector<double>& a, const std::vector<double>& b) { for (long i = 0; i < n; ++i) if (!verif::close(a[i], b[i], 1e-6)) return false; return true; };
        for (int k = 0; k < 2; ++k) {
            auto x = pack(lin.solution(r)); auto y = apply(M, x);
            CHECK(eq(x, y), "rules-keep-solutions", what << "rules " << rules << " solution (" << join(x) << ") became (" << join(y) << ")");
            auto z = apply(H, x); CHECK(eq(z, std::vector<double>(n)), "homogeneous-vanishes", what << "rules " << rules << " solution (" << join(x) << ") gives (" << join(z) << ")");
            auto any = pack(t->values(r)); auto w = apply(M, any);
            for (size_t again = slanted; again > 0; --again) w = apply(M, w); // a relation between real and imaginary part leaves one of the two in place: later rules see it only once imposed
            CHECK(verif::close(w[0], 1.0), "rules-identity", what);
            double worst = 0; for (auto& row : eqs.rows) { double s = row[lin.n], scale = 1; for (size_t i = 0; i < lin.n; ++i) { s += row[i] * w[i + 1]; scale = std::max(scale, std::abs(row[i] * w[i + 1])); } worst = std::max(worst, std::abs(s) / scale); }
            CHECK(worst < 1e-6, "rules-impose-equations", what << "rules " << rules << " (" << join(any) << ") became (" << join(w) << "), which misses an equation by " << worst);
            CHECK(eq(apply(M, w), w), "rules-idempotent", what << "rules " << rules);
        }
        for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) if (!verif::close(H.coeff(i, j), M.coeff(i, j) - (i == j))) { CHECK(false, "homogeneous-is-difference", what << "rules " << rules << " at " << i << "," << j << ": " << H.coeff(i, j) << " but rewrite has " << M.coeff(i, j)); i = n; break; }
        c.count("rulebooks"); c.count("rules", rb.size());
    });
}
