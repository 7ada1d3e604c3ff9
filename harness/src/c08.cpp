// C08: Pauli moment, localizing, commutator and anticommutator matrices equal products of actual Pauli operators.
#include "sys.h"
#include "scenarios/pauli/pauli_dictionary.h"
#include "scenarios/pauli/pauli_index_collections.h"
using namespace verif;
using namespace Moment;
using NN = Pauli::NearestNeighbourIndex;
namespace {
    enum Kind { Mom, Loc, Comm, Anti };
    const char* kname[] = {"moment", "localizing", "commutator", "anticommutator"};
    struct Built { const SymbolicMatrix* m; Kind kind; NN nn{0, 0}; std::vector<std::pair<Norm, cd>> terms; bool mono; std::string what; };
    bool supported(const Sys& s, NN nn) {
        if (!nn.neighbours) return true;
        const auto* p = s.pscen().pctx;
        if (!p->is_lattice()) return true;
        if (nn.moment_matrix_level < 2) return true;
        return nn.neighbours < 2 && nn.moment_matrix_level <= 4 && !(s.wrap && !s.symmetric && nn.moment_matrix_level > 2);
    }
    Norm prod(const Sys& s, std::initializer_list<const Word*> ws, int phase) { Word w; for (auto* x : ws) w.insert(w.end(), x->begin(), x->end()); return s.scen->normal(w, phase); }
    Word rev(const Word& w) { return {w.rbegin(), w.rend()}; }

    /** f(norm) gives the value of a word: entry (i,j) as defined. */
    template<class F> cd entry(const Sys& s, const Built& b, const Word& wi, const Word& wj, F&& f) {
        const Word ai = rev(wi); cd want{};
        for (auto& [x, c] : b.terms) switch (b.kind) {
            case Mom: want += f(prod(s, {&ai, &wj}, 0)); break;
            case Loc: want += c * f(prod(s, {&ai, &x.letters, &wj}, x.phase)); break;
            case Comm: want += c * (f(prod(s, {&ai, &wj, &x.letters}, x.phase)) - f(prod(s, {&x.letters, &ai, &wj}, x.phase))); break;
            case Anti: want += c * (f(prod(s, {&ai, &wj, &x.letters}, x.phase)) + f(prod(s, {&x.letters, &ai, &wj}, x.phase))); break;
        }
        return want;
    }
    std::vector<Word> words_of(Sys& s, NN nn) { std::vector<Word> v; for (auto& q : s.pscen().pctx->pauli_dictionary().NearestNeighbour(nn)()) v.push_back(to_word(q)); return v; }

    void check_matrix(Ctx& c, Sys& s, const Built& b) {
        auto words = words_of(s, b.nn);
        CHECK(b.m->Dimension() == words.size() && s.pauli().osg_size(b.nn) == words.size(), "dimension", b.what << ": " << b.m->Dimension() << " words " << words.size());
        if (b.m->Dimension() != words.size()) return;
        Mat v = s.values(*b.m);
        for (size_t i = 0; i < words.size(); ++i) for (size_t j = 0; j < words.size(); ++j) {
            cd want = entry(s, b, words[i], words[j], [&](const Norm& n) { return s.value(n); });
            if (!CHECK(close(v(i, j), want), "entry", b.what << " entry (" << i << "," << j << ") rows " << wstr(words[i]) << " cols " << wstr(words[j]) << ": " << entry_text(*b.m, i, j) << " value " << v(i, j) << " want " << want)) return;
        }
        check_properties(c, s, *b.m, b.what);
        if (b.mono) CHECK(b.m->is_monomial(), "monomial", b.what);
        c.count(std::string("entries-") + kname[b.kind], words.size() * words.size());
        c.nontrivial(b.what);
    }
    Built random_matrix_request(Ctx& c, Rng& r, Sys& s, std::string& hist, double cap, bool herm_only = false) {
        auto& pms = s.pauli(); auto& ctx = *s.pscen().pctx; (void)ctx;
        Built b; b.kind = static_cast<Kind>(r.below(4));
        const size_t q = s.pscen().qubits;
        do { b.nn.neighbours = r.chance(2, 5) ? 1 + r.below(s.pscen().pctx->is_lattice() ? 1 : 3) : 0;
            b.nn.moment_matrix_level = b.nn.neighbours ? r.below(4) : r.below(3);
        } while (!supported(s, b.nn) || [&] { double n = 1; const double per = b.nn.neighbours ? 3.0 : 3.0 * q; n = b.nn.neighbours ? 1 + 3.0 * q : 1; for (size_t k = b.nn.neighbours ? 1 : 0; k < b.nn.moment_matrix_level; ++k) n *= b.nn.neighbours ? per * b.nn.neighbours : per; return n > cap; }());
        const auto mt = r.chance(1, 6) ? MTP::Always : MTP::Never;
        b.mono = b.kind == Mom || r.coin();
        hist += std::string(kname[b.kind]) + std::to_string(b.nn.moment_matrix_level) + "n" + std::to_string(b.nn.neighbours);
        const size_t lvl = b.nn.moment_matrix_level, nb = b.nn.neighbours;
        if (b.kind == Mom) {
            b.terms = {{Norm{}, 1.0}}; hist += "; "; c.note(hist);
            b.m = (!nb && r.coin()) ? static_cast<const SymbolicMatrix*>(&pms.MomentMatrix(lvl, mt)) : &pms.PauliMomentMatrices(Pauli::MomentMatrixIndex{lvl, nb}, mt);
        } else if (b.mono) {
            Word w = s.random_nonzero(r, 3); const int ph = !herm_only && r.chance(1, 2) ? static_cast<int>(r.below(4)) : 0;
            auto x = s.scen->normal(w, ph); b.terms = {{x, 1.0}}; hist += x.text() + "; "; c.note(hist);
            auto seq = s.make(w, ph);
            if (b.kind == Loc) b.m = (!nb && r.coin()) ? static_cast<const SymbolicMatrix*>(&pms.LocalizingMatrix(Moment::LocalizingMatrixIndex{lvl, seq}, mt)) : &pms.PauliLocalizingMatrices(Pauli::LocalizingMatrixIndex{lvl, nb, seq}, mt);
            else if (b.kind == Comm) b.m = &pms.CommutatorMatrices(Pauli::CommutatorMatrixIndex{lvl, nb, seq}, mt);
            else b.m = &pms.AnticommutatorMatrices(Pauli::AnticommutatorMatrixIndex{lvl, nb, seq}, mt);
        } else {
            RawPolynomial raw; const bool cplx = !herm_only && r.chance(1, 3);
            for (size_t t = 1 + r.below(4); t > 0; --t) { Word w = s.random_nonzero(r, 2); cd f{std::round(r.sym() * 4) + 0.5, cplx ? std::round(r.sym() * 3) : 0.0};
                raw.emplace_back(s.make(w), f); b.terms.emplace_back(s.scen->normal(w, 0), f); }
            hist += "<" + raw.to_string(pms.Context()) + ">";
            if (r.coin()) { // from raw
                hist += " raw; "; c.note(hist); NN nn{lvl, nb};
                auto [idx, mat] = b.kind == Loc ? pms.create_and_register_localizing_matrix(nn, raw, mt) : b.kind == Comm ? pms.create_and_register_commutator_matrix(nn, raw, mt) : pms.create_and_register_anticommutator_matrix(nn, raw, mt);
                b.m = &mat; CHECK(&pms[idx] == b.m, "registered-index", hist);
            } else { // from symbols: the canonical words of the moments
                hist += " symbols; "; c.note(hist);
                Polynomial p; { auto lock = pms.get_write_lock(); p = pms.polynomial_factory().register_and_construct(pms.Symbols(), raw); }
                b.terms.clear(); for (auto& m : p) { auto n = norm_of(pms.Symbols()[m.id].sequence()); b.terms.emplace_back(n, m.factor); }
                auto look = [&]() -> const SymbolicMatrix* { return b.kind == Loc ? static_cast<const SymbolicMatrix*>(&pms.PauliPolynomialLocalizingMatrices(Pauli::PolynomialLocalizingMatrixIndex{lvl, nb, p}, mt)) : b.kind == Comm ? static_cast<const SymbolicMatrix*>(&pms.PolynomialCommutatorMatrices(Pauli::PolynomialCommutatorMatrixIndex{lvl, nb, p}, mt)) : static_cast<const SymbolicMatrix*>(&pms.PolynomialAnticommutatorMatrices(Pauli::PolynomialAnticommutatorMatrixIndex{lvl, nb, p}, mt)); };
                b.m = look(); CHECK(look() == b.m, "same-request-same-matrix", hist);
            }
        }
        b.what = hist; return b;
    }
    std::unique_ptr<Sys> pauli_sys(Rng& r, size_t maxq) { return Sys::of(Sys::Pauli, std::make_unique<PauliScen>(random_pauli_context(r, maxq)), r); }
    std::vector<Built> history(Ctx& c, Rng& r, Sys& s, double cap, bool herm = false) {
        std::vector<Built> all; std::string hist = s.desc() + (s.wrap ? "wrap " : " ") + (s.symmetric ? "sym " : "");
        for (size_t k = 1 + r.below(5); k > 0; --k) { all.push_back(random_matrix_request(c, r, s, hist, cap, herm)); check_matrix(c, s, all.back()); if (!c.violations.empty()) return all; }
        for (auto& b : all) { c.note(b.what + " re-read"); check_matrix(c, s, b); }
        check_symbols(c, s, "pauli matrices");
        return all;
    }
    /** Against explicit matrices: state sharing the symmetry of the system. */
    void physical(Ctx& c, Rng& r) {
        auto s = pauli_sys(r, 4); const size_t q = s->pscen().qubits;
        auto all = history(c, r, *s, 40);
        if (!c.violations.empty()) return;
        PauliReal real(q, r);
        if (s->symmetric) {
            if (s->wrap) { // average over translations
                std::vector<cd> sum; Mat acc = Mat::Zero(real.dim, real.dim);
                for (size_t dr = 0; dr < s->col; ++dr) for (size_t dc = 0; dc < s->row; ++dc) {
                    std::vector<size_t> to(q); for (size_t k = 0; k < q; ++k) to[k] = (k / s->col + dc) % s->row * s->col + (k % s->col + dr) % s->col;
                    auto perm = [&](int idx) { int o = 0; for (size_t k = 0; k < q; ++k) if (idx >> (q - 1 - k) & 1) o |= 1 << (q - 1 - to[k]); return o; };
                    for (int i = 0; i < real.dim; ++i) for (int j = 0; j < real.dim; ++j) acc(perm(i), perm(j)) += real.rho(i, j);
                }
                real.rho = acc / acc.trace();
            } else { Mat one = random_density(r, 2), t = one; for (size_t k = 1; k < q; ++k) t = kron(t, one); real.rho = t; }
        }
        std::vector<cd> val; for (size_t i = 0; i < s->symbols().size(); ++i) val.push_back(i ? real.expect(s->symbols()[i].sequence()) : cd{});
        auto ev = [&](const Monomial& m) { cd v = val[m.id]; return m.factor * (m.conjugated ? std::conj(v) : v); };
        for (auto& b : all) {
            auto words = words_of(*s, b.nn); const int d = static_cast<int>(words.size());
            std::vector<Mat> w; for (auto& x : words) w.push_back(real.word(x));
            Mat x = Mat::Zero(real.dim, real.dim); for (auto& [n, f] : b.terms) x += f * ipow(n.phase) * real.word(n.letters);
            Mat got(d, d);
            for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) {
                cd g{}; if (auto* mm = dynamic_cast<const MonomialMatrix*>(b.m)) g = ev(mm->SymbolMatrix(i, j)); else for (auto& m : dynamic_cast<const PolynomialMatrix&>(*b.m).SymbolMatrix(i, j)) g += ev(m);
                got(i, j) = g;
                Mat ab = w[i].adjoint() * w[j]; Mat full = b.kind == Mom ? ab : b.kind == Loc ? w[i].adjoint() * x * w[j] : b.kind == Comm ? ab * x - x * ab : ab * x + x * ab;
                const cd want = trace_product(real.rho, full);
                if (!CHECK(close(g, want), "physical-entry", b.what << " entry (" << i << "," << j << ") " << wstr(words[i]) << " " << wstr(words[j]) << ": " << g << " want " << want)) return;
            }
            if (b.kind == Mom) CHECK(is_psd(got), "moment-matrix-positive", b.what);
            c.count("physical-entries", static_cast<uint64_t>(d) * d);
        }
    }
    /** Word and polynomial products, commutators and anticommutators. */
    void algebra(Ctx& c, Rng& r) {
        const size_t q = r.coin() ? 1 + r.below(4) : 1 + r.below(70);
        PauliScen s(q); const auto& ctx = *s.pctx;
        auto rw = [&] { Word w; for (size_t k = r.below(6); k > 0; --k) w.push_back(static_cast<long>(r.below(3) + 3 * r.below(r.coin() ? q : std::min<size_t>(q, 2)))); return w; };
        const Word a = rw(), b = rw(); const int pa = static_cast<int>(r.below(4)), pb = static_cast<int>(r.below(4));
        c.note(s.desc + " i^" + std::to_string(pa) + wstr(a) + " i^" + std::to_string(pb) + wstr(b));
        auto A = s.make(a, pa), B = s.make(b, pb);
        Word ab = a, ba = b; ab.insert(ab.end(), b.begin(), b.end()); ba.insert(ba.end(), a.begin(), a.end());
        const Norm nab = s.normal(ab, pa + pb), nba = s.normal(ba, pa + pb);
        const bool commute = nab == nba;
        CHECK(norm_of(ctx.multiply(A, B)) == nab, "multiply", c.crumb << " " << norm_of(ctx.multiply(A, B)).text() << " want " << nab.text());
        CHECK(norm_of(A * B) == nab, "product", c.crumb);
        Norm cm = norm_of(ctx.commutator(A, B)), am = norm_of(ctx.anticommutator(A, B)), zero{true, 0, {}};
        CHECK(cm == (commute ? zero : nab), "commutator", c.crumb << ": " << cm.text());
        CHECK(am == (commute ? nab : zero), "anticommutator", c.crumb << ": " << am.text());
        CHECK(norm_of(A.conjugate()) == s.normal(rev(a), (4 - pa) & 3), "conjugate", c.crumb);
        // polynomials
        using Poly = std::map<Word, cd>;
        auto add = [&](Poly& p, const Norm& n, cd f) { if (!n.zero) p[n.letters] += f * ipow(n.phase); };
        auto make = [&](std::vector<std::pair<Word, cd>>& t) { RawPolynomial p; for (size_t k = r.below(4); k > 0; --k) { Word w = rw(); cd f{std::round(r.sym() * 3) + 0.5, r.coin() ? 0 : std::round(r.sym() * 2)}; p.emplace_back(s.make(w), f); t.emplace_back(w, f); } return p; };
        std::vector<std::pair<Word, cd>> tp, tq; auto P = make(tp), Q = make(tq);
        Poly pq, cq, aq;
        for (auto& [x, f] : tp) for (auto& [y, g] : tq) { Word xy = x, yx = y; xy.insert(xy.end(), y.begin(), y.end()); yx.insert(yx.end(), x.begin(), x.end());
            add(pq, s.normal(xy, 0), f * g); add(cq, s.normal(xy, 0), f * g); add(cq, s.normal(yx, 0), -f * g); add(aq, s.normal(xy, 0), f * g); add(aq, s.normal(yx, 0), f * g); }
        auto same = [&](const RawPolynomial& got, const Poly& want, const char* key) {
            Poly g; std::set<Word> dup; bool twice = false; for (auto& m : got) { auto n = norm_of(m.sequence); if (!n.zero && !dup.insert(n.letters).second) twice = true; add(g, n, m.weight); }
            bool ok = true; for (auto& [w, f] : want) if (!close(f, g[w])) ok = false; for (auto& [w, f] : g) { auto it = want.find(w); if (!close(f, it == want.end() ? cd{} : it->second)) ok = false; }
            CHECK(ok, key, c.crumb << " P=" << P.to_string(ctx) << " Q=" << Q.to_string(ctx) << " got " << got.to_string(ctx));
            CHECK(!twice, "uncombined-terms", c.crumb << " " << key << " " << got.to_string(ctx));
            for (auto& m : got) CHECK(std::abs(m.weight) > 1e-12, "zero-term-kept", c.crumb << " " << key << " " << got.to_string(ctx));
        };
        same(ctx.commutator(P, Q), cq, "poly-commutator"); same(ctx.anticommutator(P, Q), aq, "poly-anticommutator");
        c.nontrivial(c.crumb + P.to_string(ctx) + Q.to_string(ctx));
    }
}
SECTION(formal) { c.for_cases(c.n(500, 9000), [&](Rng& r, uint64_t) { auto s = pauli_sys(r, 5); history(c, r, *s, 60); }); }
SECTION(formal_more) { c.for_cases(c.n(100, 2500), [&](Rng& r, uint64_t) { auto s = pauli_sys(r, 9); history(c, r, *s, 110); }); }
SECTION(formal_chain) { c.for_cases(c.n(60, 2000), [&](Rng& r, uint64_t) {
    using namespace Pauli; auto ctx = std::make_unique<PauliContext>(4 + r.below(9), r.coin() ? WrapType::Wrap : WrapType::None, r.coin() ? SymmetryType::Translational : SymmetryType::None);
    auto s = Sys::of(Sys::Pauli, std::make_unique<PauliScen>(std::move(ctx)), r); history(c, r, *s, 120); }); }
SECTION(physical) { c.for_cases(c.n(400, 6000), [&](Rng& r, uint64_t) { physical(c, r); }); }
SECTION(algebra) { c.for_cases(c.n(10000, 300000), [&](Rng& r, uint64_t) { algebra(c, r); }); }
