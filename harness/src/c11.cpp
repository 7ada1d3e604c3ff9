// C11: arithmetic on polynomials and symbolic matrices agrees with arithmetic on the numbers they stand for.
#include "symb.h"
#include "matrix/composite_matrix.h"
#include "matrix/value_matrix.h"
#include "symbolic/polynomial_ordering.h"
#include "symbolic/symbol_tools.h"
#include "tensor/square_matrix.h"
using namespace verif;
using namespace Moment;

namespace {
    using MT = Multithreading::MultiThreadPolicy;
    /** Something known to be equal to an expression: its value under several assignments. */
    struct Expr { Polynomial p; std::vector<cd> v; std::string how; };
    struct Pool {
        const Tab& t; std::vector<std::vector<cd>> assign; std::vector<Expr> x;
        Pool(const Tab& t, Rng& r, int n = 3) : t{t} { for (int i = 0; i < n; ++i) assign.push_back(t.values(r)); }
        template<class T> std::vector<cd> eval(const T& e) const { std::vector<cd> o; for (auto& a : assign) o.push_back(Tab::eval(e, a)); return o; }
    };
    /** Coefficients collected per term, terms of real/imaginary symbols never conjugated. */
    std::map<std::pair<long, bool>, cd> collect(const Tab& t, const Polynomial& p) {
        std::map<std::pair<long, bool>, cd> o;
        for (auto& m : p) { if (!m.id) continue; auto k = t.sym()[m.id].basis_key(); bool cj = m.conjugated; cd f = m.factor; if (k.second < 0) cj = false; else if (k.first < 0 && cj) { cj = false; f = -f; } o[{m.id, cj}] += f; }
        for (auto it = o.begin(); it != o.end();) it = std::abs(it->second) < 1e-12 ? o.erase(it) : std::next(it);
        return o;
    }
    std::map<std::pair<long, bool>, cd> conj_of(const Tab& t, const std::map<std::pair<long, bool>, cd>& c) {
        std::map<std::pair<long, bool>, cd> o;
        for (auto& [k, f] : c) { auto b = t.sym()[k.first].basis_key(); if (b.second < 0) o[k] += std::conj(f); else if (b.first < 0) o[k] -= std::conj(f); else o[{k.first, !k.second}] += std::conj(f); }
        return o;
    }
    bool same(const std::map<std::pair<long, bool>, cd>& a, const std::map<std::pair<long, bool>, cd>& b, double sign = 1) {
        auto d = a; for (auto& [k, f] : b) d[k] -= sign * f;
        return std::all_of(d.begin(), d.end(), [](auto& kv) { return std::abs(kv.second) < 1e-9; });
    }
    void expect(Ctx& c, const Pool& pool, const Polynomial& p, const std::vector<cd>& v, const char* key, const std::string& how, bool canonical = true) {
        const auto got = pool.eval(p);
        for (size_t i = 0; i < v.size(); ++i) { CHECK(verif::close(got[i], v[i]), key, pool.t.desc << ": " << how << " = " << Tab::text(p) << ": value " << got[i] << " instead of " << v[i]); if (!verif::close(got[i], v[i])) break; }
        if (canonical) { auto bad = pool.t.canonical(p); CHECK(bad.empty(), std::string(key) + "-canonical", pool.t.desc << ": " << how << " = " << Tab::text(p) << " " << bad); }
        c.count("expressions");
    }
}

// random sequences of polynomial operations over random symbol tables and both term orderings, against evaluation
SECTION(programs) {
    c.for_cases(c.n(1500, 60000), [&](Rng& r, uint64_t) {
        auto t = Tab::random(r, 10, -1, 64.0);
        Pool pool(*t, r);
        const auto style = r.pick(std::vector<Tab::Coef>(std::begin(all_coefs), std::end(all_coefs)));
        c.note(t->desc);
        const auto& F = t->fac();
        auto fresh = [&] { auto st = t->terms(r, r.below(6), style); auto v = pool.eval(st); auto how = "make(" + Tab::text(st) + ")"; Polynomial::storage_t copy = st; pool.x.push_back({F(std::move(copy)), v, how}); expect(c, pool, pool.x.back().p, v, "make", how); };
        for (int i = 0; i < 3; ++i) fresh();
        for (int step = 0; step < 20; ++step) {
            const auto a = r.pick(pool.x), b = r.pick(pool.x);
            Expr o; const char* key = ""; bool canonical = true;
            auto vec = [&](auto&& f) { o.v.clear(); for (size_t i = 0; i < a.v.size(); ++i) o.v.push_back(f(i)); };
            const auto op = r.below(15);
            const cd k = Tab::coef(r, style);
            switch (op) {
                case 0: fresh(); continue;
                case 1: key = "sum"; o.p = F.sum(a.p, b.p); o.how = "sum(P, Q) of P=" + Tab::text(a.p) + " Q=" + Tab::text(b.p); vec([&](size_t i) { return a.v[i] + b.v[i]; }); break;
                case 2: key = "append"; o.p = a.p; F.append(o.p, b.p); o.how = "append Q to P, P=" + Tab::text(a.p) + " Q=" + Tab::text(b.p); vec([&](size_t i) { return a.v[i] + b.v[i]; }); break;
                case 3: key = "difference"; o.p = F.sum(a.p, F.scale(b.p, -1.0)); o.how = "P - Q, P=" + Tab::text(a.p) + " Q=" + Tab::text(b.p); vec([&](size_t i) { return a.v[i] - b.v[i]; }); break;
                case 4: { key = "sum-monomial"; auto m = t->mono(r, style); if (!a.p.empty() && r.coin()) { m = a.p[r.below(a.p.size())]; if (r.coin()) m.factor = -m.factor; } if (r.chance(1, 8)) m.factor = 0; // the monomial as a matrix could hold it
                    SymbolTools{t->sym()}.make_canonical(m);
                    o.p = F.sum(a.p, m); o.how = "P + m, P=" + Tab::text(a.p) + " m=" + Tab::text(m); vec([&](size_t i) { return a.v[i] + Tab::eval(m, pool.assign[i]); }); break; }
                case 5: { key = "sum-two-monomials"; auto m = t->mono(r, style), n = t->mono(r, style); if (r.coin()) { n = m; if (r.coin()) n.factor = -n.factor; if (r.coin()) n.conjugated = !n.conjugated; } if (r.chance(1, 10)) m.factor = 0;
                    SymbolTools{t->sym()}.make_canonical(m); SymbolTools{t->sym()}.make_canonical(n);
                    o.p = F.sum(m, n); o.how = "m + n, m=" + Tab::text(m) + " n=" + Tab::text(n); vec([&](size_t i) { return Tab::eval(m, pool.assign[i]) + Tab::eval(n, pool.assign[i]); }); break; }
                case 6: key = "scale"; { const cd f = r.chance(1, 6) ? cd(0) : r.chance(1, 6) ? cd(1) : k; o.p = r.coin() ? F.scale(a.p, f) : a.p * f; o.how = str(f) + " * P, P=" + Tab::text(a.p); vec([&](size_t i) { return f * a.v[i]; }); } break;
                case 7: key = "conjugate"; { const bool in_place = r.coin(); if (in_place) { o.p = a.p; o.p.conjugate_in_place(t->sym()); } else o.p = a.p.conjugate(t->sym()); o.how = "conjugate of " + Tab::text(a.p); vec([&](size_t i) { return std::conj(a.v[i]); }); } break;
                case 8: key = "real-part"; o.p = a.p.Real(F); o.how = "real part of " + Tab::text(a.p); vec([&](size_t i) { return cd(a.v[i].real()); }); break;
                case 9: key = "imaginary-part"; o.p = a.p.Imaginary(F); o.how = "imaginary part of " + Tab::text(a.p); vec([&](size_t i) { return cd(a.v[i].imag()); }); break;
                case 10: key = "plus-operator"; if (t->by_hash) continue; o.p = a.p + b.p; o.how = "P + Q, P=" + Tab::text(a.p) + " Q=" + Tab::text(b.p); vec([&](size_t i) { return a.v[i] + b.v[i]; }); break;
                case 11: key = "plus-assign"; if (t->by_hash) continue; o.p = a.p; o.p += b.p; o.p *= k; o.how = "(P + Q) * k, P=" + Tab::text(a.p) + " Q=" + Tab::text(b.p) + " k=" + str(k); vec([&](size_t i) { return k * (a.v[i] + b.v[i]); }); break;
                case 12: key = "self-append"; o.p = a.p; F.append(o.p, o.p); o.how = "append P to itself, P=" + Tab::text(a.p); vec([&](size_t i) { return 2.0 * a.v[i]; }); break;
                case 13: { key = "fix-conjugates"; // terms built without the symbol table, then brought to canonical form
                    if (t->by_hash) continue; auto st = t->terms(r, r.below(5), style); auto v = pool.eval(st); auto how = Tab::text(st); Polynomial q(std::move(st)); if (r.coin()) SymbolTools{t->sym()}.make_canonical(q); else q = q.fix_cc(t->sym(), true); o.p = q; o.how = "fix_cc of " + how; o.v = v; break; }
                default: { key = "monomial"; auto m = t->mono(r, style); const cd f = m.factor; auto before = pool.eval(Polynomial::storage_t{m}); SymbolTools{t->sym()}.make_canonical(m); o.p = Polynomial{m, 64.0}; o.how = "polynomial of monomial " + str(f) + " " + Tab::text(m); o.v = before;
                    if (o.p.is_monomial()) { auto back = static_cast<Monomial>(o.p); CHECK(verif::close(Tab::eval(back, pool.assign[0]), before[0]), "monomial-cast", t->desc << ": " << o.how << " back " << Tab::text(back)); } }
            }
            double mag = 0; for (auto& v : o.v) mag = std::max(mag, std::abs(v));
            expect(c, pool, o.p, o.v, key, o.how, canonical);
            if (o.p.size() && mag < 1e3 && mag > 1e-3) { pool.x.push_back(o); c.nontrivial(t->desc + o.how); }
            if (pool.x.size() > 12) pool.x.erase(pool.x.begin() + static_cast<long>(r.below(pool.x.size())));
        }
    });
}

// Hermitian/anti-Hermitian/conjugate/equality tests, degrees and orderings of polynomials against coefficients
SECTION(predicates) {
    c.for_cases(c.n(4000, 150000), [&](Rng& r, uint64_t) {
        auto t = Tab::random(r, 8);
        const auto& F = t->fac();
        const auto style = r.coin() ? Tab::Gaussian : Tab::Dyadic;
        auto p = t->poly(r, 5, style);
        const auto how = r.below(5);
        if (how == 0) p = p.Real(F); else if (how == 1) p = F.sum(p, F.scale(p.conjugate(t->sym()), -1.0)); else if (how == 2) p = F.sum(p, p.conjugate(t->sym()));
        const auto cp = collect(*t, p), cc = conj_of(*t, cp);
        const bool herm = same(cp, cc), anti = same(cp, cc, -1);
        c.note(t->desc + " " + Tab::text(p));
        CHECK(F.is_hermitian(p) == herm, "is-hermitian", t->desc << ": " << Tab::text(p) << " reported " << F.is_hermitian(p));
        CHECK(F.is_antihermitian(p) == anti, "is-antihermitian", t->desc << ": " << Tab::text(p) << " reported " << F.is_antihermitian(p));
        CHECK(p.is_hermitian(t->sym(), 1.0) == herm && p.is_antihermitian(t->sym(), 1.0) == anti, "is-hermitian-direct", t->desc << ": " << Tab::text(p));
        // a second polynomial: unrelated, equal, conjugate, or nearly so
        auto q = t->poly(r, 5, style); const auto rel = r.below(6);
        if (rel == 0) q = p; else if (rel <= 2) q = p.conjugate(t->sym());
        else if (rel == 3) { Polynomial::storage_t d; for (auto& m : p.conjugate(t->sym())) d.push_back(m); if (!d.empty()) { auto& m = d[r.below(d.size())]; if (r.coin()) m.conjugated = !m.conjugated; else m.factor = r.coin() ? std::conj(m.factor) : -m.factor; } q = F(std::move(d)); }
        const auto cq = collect(*t, q);
        CHECK(p.is_conjugate(t->sym(), q) == same(cc, cq), "is-conjugate", t->desc << ": " << Tab::text(p) << " and " << Tab::text(q) << " reported " << p.is_conjugate(t->sym(), q));
        CHECK((p == q) == same(cp, cq) && (p != q) != (p == q) && p.approximately_equals(q, 8.0) == same(cp, cq), "equality", t->desc << ": " << Tab::text(p) << " and " << Tab::text(q));
        if (p == q) c.count("equal pairs");
        if (herm) c.count("hermitian"); if (anti) c.count("antihermitian");
        // degrees
        size_t deg = 0; for (auto& m : p) if (t->sym()[m.id].has_sequence()) deg = std::max(deg, t->sym()[m.id].sequence().size());
        CHECK(F.maximum_degree(p) == deg, "degree", t->desc << ": " << Tab::text(p) << " degree " << F.maximum_degree(p) << " instead of " << deg);
        CHECK(p.real_factors() == std::all_of(p.begin(), p.end(), [](auto& m) { return std::abs(m.factor.imag()) < 1e-15; }), "real-factors", t->desc << ": " << Tab::text(p));
        CHECK(p.is_monomial() == (p.size() <= 1), "is-monomial", Tab::text(p));
        if (!p.empty()) CHECK(p.first_id() == p[0].id && p.last_id() == p[p.size() - 1].id && p.back().id == p.last_id(), "ends", Tab::text(p));
        // orderings are strict weak orders
        std::vector<Polynomial> v{p, q}; for (int i = 0; i < 4; ++i) { v.push_back(t->poly(r, 4, Tab::One)); if (r.coin()) v.push_back(v[r.below(v.size())] * -1.0); }
        PolynomialOrdering less{F}; PolynomialOrderingWithCoefficients less_c{F};
        auto order = [&](auto& lt, const char* key) {
            for (auto& a : v) { CHECK(!lt(a, a), key, t->desc << ": " << Tab::text(a) << " less than itself");
                for (auto& b : v) { CHECK(!(lt(a, b) && lt(b, a)), key, t->desc << ": " << Tab::text(a) << " and " << Tab::text(b) << " each less than the other");
                    for (auto& d : v) { CHECK(!(lt(a, b) && lt(b, d)) || lt(a, d), key, t->desc << ": not transitive on " << Tab::text(a) << ", " << Tab::text(b) << ", " << Tab::text(d));
                        CHECK(!(!lt(a, b) && !lt(b, a) && !lt(b, d) && !lt(d, b)) || (!lt(a, d) && !lt(d, a)), key, t->desc << ": equivalence not transitive on " << Tab::text(a) << ", " << Tab::text(b) << ", " << Tab::text(d)); } } } };
        order(less, "ordering"); order(less_c, "ordering-with-coefficients");
        for (auto& a : v) for (auto& b : v) CHECK((!less_c(a, b) && !less_c(b, a)) == (a == b), "ordering-equality", t->desc << ": " << Tab::text(a) << " and " << Tab::text(b));
        // presort is a stable sort and reports the permutation
        auto st = t->terms(r, r.below(7), style), orig = st; auto perm = F.presort_data(st);
        bool ok = perm.size() == orig.size() && st.size() == orig.size(); for (size_t i = 0; ok && i < st.size(); ++i) { ok = perm[i] < orig.size() && orig[perm[i]].id == st[i].id && orig[perm[i]].conjugated == st[i].conjugated && orig[perm[i]].factor == st[i].factor; if (i && F.less(st[i], st[i - 1])) ok = false; if (i && !F.less(st[i - 1], st[i]) && perm[i] < perm[i - 1]) ok = false; }
        CHECK(ok, "presort", t->desc << ": " << Tab::text(orig) << " sorted " << Tab::text(st));
        // rounding
        { Polynomial::storage_t d; for (auto& m : p) d.emplace_back(m.id, m.factor * (r.coin() ? cd(1, 1e-13) : cd(1, 0)), m.conjugated); auto z = F(std::move(d)); auto z0 = z; z.real_or_imaginary_if_close(1e5);
          bool fine = z.size() == z0.size(); for (size_t i = 0; fine && i < z.size(); ++i) fine = std::abs(z[i].factor - z0[i].factor) < 3e-11 && !(z[i].factor.imag() != 0 && std::abs(z[i].factor.imag()) < 1e-11) && !(z[i].factor.real() != 0 && std::abs(z[i].factor.real()) < 1e-11);
          CHECK(fine, "round-off", t->desc << ": " << Tab::text(z0) << " rounded to " << Tab::text(z)); }
        c.nontrivial(c.crumb);
    });
}

// raw polynomials in words: sums, differences, products, conversion to and from symbols
SECTION(raw) {
    c.for_cases(c.n(1200, 40000), [&](Rng& r, uint64_t) {
        auto s = random_sys(r, -1, 8);
        auto& ms = *s->ms;
        auto lock = ms.get_write_lock();
        auto make = [&](size_t n, std::string& text) { RawPolynomial p; std::vector<Word> used; for (size_t k = r.below(n + 1); k > 0; --k) { Word w = s->random_letters(r, 3); if (!used.empty() && r.chance(1, 3)) w = r.pick(used); used.push_back(w); const cd f = Tab::coef(r, Tab::Gaussian); const int ph = s->kind == Sys::Generic || s->kind == Sys::Locality || s->kind == Sys::Inflation ? 0 : static_cast<int>(r.below(4)); text += str(f) + "i^" + std::to_string(ph) + wstr(w) + " "; p.emplace_back(s->make(w, ph), f); } return p; };
        std::string ta, tb; auto a = make(4, ta), b = make(4, tb);
        const auto what = s->desc() + ": A = " + ta + ", B = " + tb; c.note(what);
        const cd va = s->value(a), vb = s->value(b);
        auto canonical = [&](const RawPolynomial& p, const char* key) {
            std::set<Norm> seen; for (auto& e : p) { auto n = norm_of(e.sequence); CHECK(!n.zero && n.phase == 0 && std::abs(e.weight) > 1e-15 && seen.insert(n).second, std::string(key) + "-canonical", what << ": " << n.text() << " weight " << e.weight); } };
        auto sum = RawPolynomial::add(a, b), dif = RawPolynomial::subtract(a, b);
        CHECK(verif::close(s->value(sum), va + vb), "raw-sum", what << ": " << s->value(sum) << " instead of " << va + vb); canonical(sum, "raw-sum");
        CHECK(verif::close(s->value(dif), va - vb), "raw-difference", what << ": " << s->value(dif) << " instead of " << va - vb); canonical(dif, "raw-difference");
        auto self = RawPolynomial::subtract(a, a); CHECK(self.empty(), "raw-self-difference", what);
        auto cond = a; cond.condense(); CHECK(verif::close(s->value(cond), va), "raw-condense", what); canonical(cond, "raw-condense");
        cd vp = 0; for (auto& x : a) for (auto& y : b) { auto wx = norm_of(x.sequence), wy = norm_of(y.sequence); if (wx.zero || wy.zero) continue; Word w = wx.letters; w.insert(w.end(), wy.letters.begin(), wy.letters.end()); vp += x.weight * y.weight * s->value(s->scen->normal(w, (wx.phase + wy.phase) & 3)); }
        auto prod = RawPolynomial::distributed_product(a, b, [](const OperatorSequence& x, const OperatorSequence& y) { return x * y; }, [](cd x, cd y) { return x * y; });
        CHECK(verif::close(s->value(prod), vp), "raw-product", what << ": " << s->value(prod) << " instead of " << vp); canonical(prod, "raw-product");
        CHECK(a.is_scalar() == std::all_of(a.begin(), a.end(), [](auto& e) { return e.sequence.empty(); }), "raw-scalar", what);
        // to symbols and back
        auto p = a.to_polynomial_register_symbols(ms.polynomial_factory(), ms.Symbols());
        CHECK(verif::close(s->value(p), va), "raw-to-symbols", what << ": " << Tab::text(p) << " is " << s->value(p) << " instead of " << va);
        auto p2 = a.to_polynomial(ms.polynomial_factory()); CHECK(p2 == p, "raw-to-symbols-again", what << ": " << Tab::text(p) << " then " << Tab::text(p2));
        RawPolynomial back(p, ms.Symbols()); CHECK(verif::close(s->value(back), va), "raw-from-symbols", what << ": " << s->value(back) << " instead of " << va);
        if (r.chance(1, 10)) check_symbols(c, *s, "after registering a polynomial");
        if (p.size()) c.nontrivial(c.crumb);
    });
}

namespace {
    /** A system with matrices, values of every matrix as a numeric matrix, and the words of its entries when known. */
    struct MatExpr { std::shared_ptr<const SymbolicMatrix> own; const SymbolicMatrix* m = nullptr; Mat v{0, 0}; std::string how; std::vector<std::pair<cd, Norm>> words; bool has_words = false; size_t depth = 0; };
    Norm cat(const Sys& s, const Norm& a, const Norm& b) { if (a.zero || b.zero) { Norm z; z.zero = true; return z; } Word w = a.letters; w.insert(w.end(), b.letters.begin(), b.letters.end()); return s.scen->normal(w, (a.phase + b.phase) & 3); }
    bool is_herm(const Mat& v) { for (int i = 0; i < v.n; ++i) for (int j = i; j < v.n; ++j) if (!verif::close(v(i, j), std::conj(v(j, i)))) return false; return true; }
    void judge(Ctx& c, const Sys& s, const MatExpr& e, const char* key) {
        const auto what = s.desc() + ": " + e.how;
        CHECK(e.m->Dimension() == static_cast<size_t>(e.v.n), std::string(key) + "-dimension", what << " has dimension " << e.m->Dimension());
        if (e.m->Dimension() != static_cast<size_t>(e.v.n)) return;
        const auto got = s.values(*e.m); bool bad = false;
        for (int i = 0; i < e.v.n && !bad; ++i) for (int j = 0; j < e.v.n && !bad; ++j) if (!verif::close(got(i, j), e.v(i, j))) { bad = true; CHECK(false, key, what << ": entry (" << i << "," << j << ") " << entry_text(*e.m, i, j) << " is " << got(i, j) << " instead of " << e.v(i, j)); }
        CHECK(true, key, ""); c.count("matrix entries", static_cast<uint64_t>(e.v.n * e.v.n));
        CHECK(e.m->Hermitian() == is_herm(e.v) || bad, std::string(key) + "-hermitian", what << ": reported " << (e.m->Hermitian() ? "Hermitian" : "not Hermitian"));
        if (!bad) check_properties(c, s, *e.m, e.how, false);
        if (auto* pm = dynamic_cast<const PolynomialMatrix*>(e.m)) {
            for (int i = 0; i < e.v.n; ++i) for (int j = 0; j < e.v.n; ++j) { auto& p = pm->SymbolMatrix(i, j); for (size_t k = 0; k < p.size(); ++k) { auto& m = p[k];
                const bool ok = m.id != 0 && std::abs(m.factor) > 1e-17 && !(m.conjugated && (s.symbols()[m.id].is_hermitian() || s.symbols()[m.id].is_antihermitian())) && (!k || s.ms->polynomial_factory().less(p[k - 1], m));
                CHECK(ok, std::string(key) + "-canonical", what << ": entry (" << i << "," << j << ") " << entry_text(*pm, i, j)); } }
        } else { // words behind the symbols
            if (e.has_words && e.m->has_unaliased_operator_matrix()) { auto& om = e.m->unaliased_operator_matrix(); const auto d = e.m->Dimension(); for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) CHECK(norm_of(om(i, j)) == e.words[j * d + i].second, std::string(key) + "-words", what << ": word (" << i << "," << j << ") " << norm_of(om(i, j)).text() << " instead of " << e.words[j * d + i].second.text()); }
        }
    }
    std::string raw_text(const RawPolynomial& p) { std::string o; for (auto& e : p) o += str(e.weight) + norm_of(e.sequence).text() + " "; return o.empty() ? "0" : o; }
}

// random sequences of matrix additions and multiplications by words, symbols and polynomials, against evaluation
SECTION(matrices) {
    c.for_cases(c.n(700, 25000), [&](Rng& r, uint64_t) {
        auto s = random_sys(r, -1, 6, 64.0);
        auto& ms = *s->ms; auto& sym = ms.Symbols(); const auto& F = ms.polynomial_factory();
        std::vector<MatExpr> pool;
        { // starting matrices, one size
            const size_t lvl = s->level_cap(10, 1 + (r.chance(1, 4) ? 1 : 0));
            auto gens = s->level_words(lvl);
            auto start = [&](const Word& mid, const SymbolicMatrix& m, const std::string& how) {
                MatExpr e; e.m = &m; e.how = how; const int d = static_cast<int>(gens.size()); e.v = Mat(d, d); e.has_words = true; e.words.resize(static_cast<size_t>(d * d));
                for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) { auto n = s->sandwich(gens[static_cast<size_t>(i)], mid, 0, gens[static_cast<size_t>(j)]); e.words[static_cast<size_t>(j * d + i)] = {1.0, n}; e.v(i, j) = s->value(n); }
                pool.push_back(e); judge(c, *s, pool.back(), "start"); };
            start({}, ms.MomentMatrix(lvl), "MM" + std::to_string(lvl));
            auto w = s->random_nonzero(r, 2);
            if (!w.empty() && r.coin()) start(w, ms.LocalizingMatrix(LocalizingMatrixIndex{lvl, s->make(w)}), "LM" + std::to_string(lvl) + wstr(w));
            if (r.chance(1, 3)) { // entries without words
                const size_t d = gens.size(); std::vector<Monomial> data(d * d, Monomial{0, 0.0}); MatExpr e; e.v = Mat(static_cast<int>(d), static_cast<int>(d)); const bool h = r.coin();
                SymbolTools fix{sym};
                for (size_t i = 0; i < d; ++i) for (size_t j = h ? i : 0; j < d; ++j) { Monomial m{static_cast<symbol_name_t>(r.below(sym.size())), Tab::coef(r, Tab::Gaussian), r.coin()}; if (h && i == j) { if (sym[m.id].is_hermitian()) m.factor = m.factor.real() == 0 ? cd(1) : cd(m.factor.real()); else m = Monomial{1, 0.5}; } fix.make_canonical(m); data[j * d + i] = m; if (h && i != j) { m.factor = std::conj(m.factor); m.conjugated = !m.conjugated; fix.make_canonical(m); data[i * d + j] = m; } }
                auto mat = std::make_shared<MonomialMatrix>(ms.Context(), sym, 64.0, std::make_unique<SquareMatrix<Monomial>>(d, std::move(data)), h);
                e.own = mat; e.m = mat.get(); e.v = s->values(*mat); e.how = h ? "Hermitian symbols" : "symbols"; if (h == is_herm(e.v)) { pool.push_back(e); judge(c, *s, pool.back(), "start"); } }
        }
        auto lock = ms.get_write_lock();
        const auto policy = r.chance(1, 4) ? MT::Always : r.coin() ? MT::Never : MT::Optional;
        auto symbol = [&](size_t max_len) { for (int i = 0; i < 40; ++i) { auto id = static_cast<symbol_name_t>(r.below(sym.size())); if (!sym[id].has_sequence() || sym[id].sequence().size() > max_len) continue; Monomial m{id, r.chance(1, 10) ? cd(1) : Tab::coef(r, Tab::Gaussian), r.chance(1, 3)}; SymbolTools{sym}.make_canonical(m); return m; } return Monomial{1, 2.0}; };
        auto polynomial = [&](size_t n, size_t max_len) { Polynomial::storage_t d; for (size_t k = r.below(n + 1); k > 0; --k) d.push_back(symbol(max_len)); return F(std::move(d)); };
        // Symbols multiply as the words they are registered for, which in scenarios with aliases is one of many.
        auto word_of = [&](const Monomial& m) { return norm_of(m.conjugated ? sym[m.id].sequence_conj() : sym[m.id].sequence()); };
        for (int step = 0; step < 6; ++step) {
            const MatExpr a = r.pick(pool); const int d = a.v.n;
            MatExpr o; o.v = Mat(d, d); const char* key = ""; o.depth = a.depth + 1;
            if (a.depth > 3) continue;
            auto adopt = [&](std::unique_ptr<SymbolicMatrix> p) { o.own = std::move(p); o.m = o.own.get(); };
            const bool before = r.coin(); const std::string side = before ? " pre-" : " post-";
            // multiply: terms (coefficient, word)
            auto multiply = [&](const std::vector<std::pair<cd, Norm>>& terms) {
                for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) { cd v = 0; auto& [f, n] = a.words[static_cast<size_t>(j * d + i)]; for (auto& [k, w] : terms) v += f * k * s->value(before ? cat(*s, w, n) : cat(*s, n, w)); o.v(i, j) = v; }
                if (terms.size() == 1) { o.has_words = o.m->is_monomial() && o.m->has_unaliased_operator_matrix(); o.words = a.words; for (auto& [f, n] : o.words) { f *= terms[0].first; n = before ? cat(*s, terms[0].second, n) : cat(*s, n, terms[0].second); } } };
            auto refuses = [&](auto&& f, const char* k2) { bool thrown = false; try { f(); } catch (const errors::cannot_multiply_exception&) { thrown = true; } CHECK(thrown, k2, s->desc() << ": multiplied " << a.how << ", which has no words"); };
            switch (r.below(8)) {
                case 0: { key = "add-matrices"; const MatExpr b = r.pick(pool); if (b.v.n != d) continue; adopt(a.m->add(*b.m, F, policy)); o.how = "(" + a.how + " + " + b.how + ")"; for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) o.v(i, j) = a.v(i, j) + b.v(i, j); break; }
                case 1: { key = "add-monomial"; auto m = symbol(9); if (r.chance(1, 8)) m = Monomial{0, 0.0}; adopt(a.m->add(m, F, policy)); o.how = "(" + a.how + " + " + Tab::text(m) + ")"; for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) o.v(i, j) = a.v(i, j) + s->value(m); break; }
                case 2: { key = "add-polynomial"; auto p = polynomial(3, 9); adopt(a.m->add(p, F, policy)); o.how = "(" + a.how + " + [" + Tab::text(p) + "])"; for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) o.v(i, j) = a.v(i, j) + s->value(p); break; }
                case 3: { key = "multiply-word"; if (!a.has_words) { if (a.m->has_unaliased_operator_matrix()) continue; refuses([&] { auto w = s->make(s->random_nonzero(r, 1)); if (w.empty()) throw errors::cannot_multiply_exception{""}; a.m->pre_multiply(w, 1.0, F, sym, policy); }, "multiply-wordless"); continue; }
                    auto w = s->make(s->random_letters(r, 2), s->kind == Sys::Pauli || s->kind == Sys::Algebraic ? static_cast<int>(r.below(4)) : 0); const cd k = Tab::coef(r, Tab::Gaussian);
                    adopt(before ? a.m->pre_multiply(w, k, F, sym, policy) : a.m->post_multiply(w, k, F, sym, policy)); o.how = a.how + side + "multiplied by " + str(k) + norm_of(w).text(); multiply({{k, norm_of(w)}}); break; }
                case 4: { key = "multiply-raw"; if (!a.has_words) continue; RawPolynomial p; std::vector<std::pair<cd, Norm>> terms; for (size_t k = r.below(4); k > 0; --k) { auto w = s->make(s->random_letters(r, 2)); const cd f = Tab::coef(r, Tab::Gaussian); p.emplace_back(w, f); auto n = norm_of(w); terms.emplace_back(f * ipow(n.phase), n.zero ? n : Norm{false, 0, n.letters}); }
                    adopt(before ? a.m->pre_multiply(p, F, sym, policy) : a.m->post_multiply(p, F, sym, policy)); o.how = a.how + side + "multiplied by [" + raw_text(p) + "]"; multiply(terms); break; }
                case 5: { key = "multiply-symbol"; if (!a.has_words) continue; auto m = symbol(3); if (r.chance(1, 10)) m = Monomial{1, 1.0};
                    if (m.id == 0 && false) continue;
                    adopt(before ? a.m->pre_multiply(m, F, sym, policy) : a.m->post_multiply(m, F, sym, policy)); o.how = a.how + side + "multiplied by " + Tab::text(m) + "=" + (m.id ? word_of(m).text() : "0"); multiply({{m.id ? m.factor : 0.0, word_of(m)}}); break; }
                case 6: { key = "multiply-polynomial"; if (!a.has_words) continue; auto p = polynomial(3, 3); std::vector<std::pair<cd, Norm>> terms; for (auto& m : p) terms.emplace_back(m.factor, word_of(m));
                    adopt(before ? a.m->pre_multiply(p, F, sym, policy) : a.m->post_multiply(p, F, sym, policy)); o.how = a.how + side + "multiplied by [" + Tab::text(p) + "]"; multiply(terms); break; }
                default: { key = "clone"; if (!a.m->is_monomial()) continue; adopt(a.m->clone(policy)); o.how = "clone of " + a.how; o.v = a.v; o.has_words = a.has_words; o.words = a.words;
                    CHECK(o.m->Hermitian() == a.m->Hermitian() && o.m->HasComplexBasis() == a.m->HasComplexBasis() && o.m->HasComplexCoefficients() == a.m->HasComplexCoefficients() && o.m->Description() == a.m->Description(), "clone-properties", s->desc() << ": " << a.how); }
            }
            c.note(s->desc() + " " + o.how);
            judge(c, *s, o, key); c.count(key); c.nontrivial(c.crumb);
            pool.push_back(o);
        }
        if (r.chance(1, 6)) check_symbols(c, *s, "after matrix arithmetic");
    });
}

// matrices of numbers: construction, and multiplication by words and polynomials
SECTION(values) {
    c.for_cases(c.n(1500, 50000), [&](Rng& r, uint64_t) {
        auto s = random_sys(r, -1, 6, 4.0);
        auto& ms = *s->ms; auto& sym = ms.Symbols(); const auto& F = ms.polynomial_factory();
        auto lock = ms.get_write_lock();
        const int d = 1 + static_cast<int>(r.below(4)); const bool real = r.coin(), sparse = r.coin(); const auto shape = r.below(4);
        Eigen::MatrixXcd e = Eigen::MatrixXcd::Zero(d, d);
        for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) if (r.chance(2, 3)) e(i, j) = Tab::coef(r, real ? Tab::Dyadic : Tab::Gaussian);
        if (shape == 1) e = (e + e.adjoint()).eval(); else if (shape == 2) e = (e - e.adjoint()).eval();
        std::unique_ptr<ValueMatrix> m;
        if (sparse) { if (real) { Eigen::SparseMatrix<double> x = Eigen::MatrixXd(e.real()).sparseView(); m = std::make_unique<ValueMatrix>(ms.Context(), sym, 4.0, x); } else { Eigen::SparseMatrix<cd> x = e.sparseView(); m = std::make_unique<ValueMatrix>(ms.Context(), sym, 4.0, x); } }
        else if (real) m = std::make_unique<ValueMatrix>(ms.Context(), sym, 4.0, Eigen::MatrixXd(e.real())); else m = std::make_unique<ValueMatrix>(ms.Context(), sym, 4.0, e);
        std::stringstream ss; ss << e;
        MatExpr a; a.m = m.get(); a.v = Mat(d, d); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) a.v(i, j) = e(i, j);
        a.how = std::string(sparse ? "sparse " : "dense ") + (real ? "real" : "complex") + " values [" + ss.str() + "]";
        c.note(s->desc() + " " + a.how);
        judge(c, *s, a, "value-matrix");
        CHECK(m->AntiHermitian() == (e + e.adjoint()).isZero(1e-12), "value-antihermitian", a.how << " reported " << m->AntiHermitian());
        MatExpr o; o.v = Mat(d, d); const bool before = r.coin(); cd k; std::unique_ptr<SymbolicMatrix> res; const char* key;
        switch (r.below(4)) {
            case 0: { key = "value-times-word"; auto w = s->make(s->random_letters(r, 2), s->kind == Sys::Pauli || s->kind == Sys::Algebraic ? static_cast<int>(r.below(4)) : 0); const cd f = Tab::coef(r, Tab::Gaussian); k = f * s->value(w); res = before ? m->pre_multiply(w, f, F, sym, MT::Optional) : m->post_multiply(w, f, F, sym, MT::Optional); o.how = a.how + " times " + str(f) + norm_of(w).text(); break; }
            case 1: { key = "value-times-raw"; RawPolynomial p; for (size_t n = r.below(4); n > 0; --n) p.emplace_back(s->make(r.coin() ? Word{} : s->random_letters(r, 2)), Tab::coef(r, Tab::Gaussian)); k = s->value(p); res = before ? m->pre_multiply(p, F, sym, MT::Optional) : m->post_multiply(p, F, sym, MT::Optional); o.how = a.how + " times [" + raw_text(p) + "]"; break; }
            case 2: { key = "value-plus-polynomial"; Polynomial::storage_t st; for (size_t n = r.below(3); n > 0; --n) st.emplace_back(static_cast<symbol_name_t>(1), Tab::coef(r, Tab::Gaussian), false); auto p = F(std::move(st)); auto q = m->add(p, F, MT::Optional); o.m = q.get(); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) o.v(i, j) = a.v(i, j) + s->value(p); o.how = a.how + " + [" + Tab::text(p) + "]"; judge(c, *s, o, key); return; }
            default: { key = "value-times-scalar"; const cd f = Tab::coef(r, Tab::Gaussian); Monomial mono{1, r.chance(1, 6) ? cd(1) : f}; k = mono.factor;
                // only possible where a scalar times a matrix needs no words
                const SymbolicMatrix& base = *m; try { res = before ? base.pre_multiply(mono, F, sym, MT::Optional) : base.post_multiply(mono, F, sym, MT::Optional); } catch (const errors::cannot_multiply_exception&) { c.count("refused"); return; }
                o.how = a.how + " times scalar " + str(k); }
        }
        o.m = res.get(); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) o.v(i, j) = k * a.v(i, j);
        judge(c, *s, o, key); if (std::abs(k) > 0) c.nontrivial(c.crumb);
    });
}
