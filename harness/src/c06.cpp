// C06: moment, localizing and polynomial localizing matrices contain exactly the moments they claim.
#include "sys.h"
using namespace verif;
using namespace Moment;

namespace {
    struct Built { const SymbolicMatrix* m; size_t level; std::vector<std::pair<Norm, cd>> terms; std::string what; };

    void check_entries(Ctx& c, const Sys& s, const Built& b) {
        const auto& m = *b.m; auto words = s.level_words(b.level);
        CHECK(m.Dimension() == words.size() && s.ms->osg_size(b.level) == words.size(), "dimension", b.what << ": " << m.Dimension() << " words " << words.size());
        if (m.Dimension() != words.size()) return;
        Mat v = s.values(m); uint64_t bad = 0;
        for (size_t i = 0; i < words.size() && bad < 2; ++i) for (size_t j = 0; j < words.size(); ++j) {
            cd want{};
            for (auto& [x, f] : b.terms) want += f * s.value(s.sandwich(words[i], x.letters, x.phase, words[j]));
            if (!CHECK(close(v(i, j), want), "entry", b.what << " entry (" << i << "," << j << ") rows " << wstr(words[i]) << " cols " << wstr(words[j]) << ": " << entry_text(m, i, j) << " value " << v(i, j) << " want " << want) && ++bad > 1) break;
        }
        check_properties(c, s, m, b.what);
        c.count("entries", words.size() * words.size());
        // Monomial matrices remember the operators they were built from.
        if (b.terms.size() == 1 && b.terms[0].second == cd(1.0) && m.is_monomial() && m.has_unaliased_operator_matrix()) {
            const auto& un = m.unaliased_operator_matrix(); const auto& al = m.has_aliased_operator_matrix() ? m.aliased_operator_matrix() : un;
            bool herm = true;
            for (size_t i = 0; i < words.size(); ++i) for (size_t j = 0; j < words.size(); ++j) {
                auto want = s.sandwich(words[i], b.terms[0].first.letters, b.terms[0].first.phase, words[j]);
                const auto got = norm_of(un(std::array<size_t, 2>{i, j}));
                if (!CHECK(got == want, "operator-entry", b.what << " entry (" << i << "," << j << "): " << got.text() << " want " << want.text())) return;
                const auto gota = norm_of(al(std::array<size_t, 2>{i, j}));
                CHECK(gota == s.canonical(want) || (s.kind == Sys::Pauli && !gota.zero && gota.phase == want.phase && s.rep_letters(gota.letters) == s.rep_letters(want.letters)), "moment-entry", b.what << " entry (" << i << "," << j << "): " << gota.text() << " want " << s.canonical(want).text());
                auto t = s.sandwich(words[j], b.terms[0].first.letters, b.terms[0].first.phase, words[i]);
                auto adj = t.zero ? t : s.scen->adjoint(t.letters, t.phase);
                if (!(adj == want)) herm = false;
            }
            CHECK(al.is_hermitian() || !un.is_hermitian(), "operator-hermitian-alias", b.what);
            CHECK(un.is_hermitian() == herm, "operator-hermitian", b.what << " flag " << un.is_hermitian());
        }
        c.nontrivial(b.what);
    }
    void scenario(Ctx& c, Rng& r, Sys& s, double cap, std::vector<Built>& built) {
        const size_t n = 1 + r.below(4);
        std::string hist = s.desc() + " ";
        for (size_t k = 0; k < n; ++k) {
            const auto mt = r.chance(1, 8) ? MTP::Always : MTP::Never;
            Built b;
            switch (r.below(4)) {
                case 0: case 1: {
                    b.level = r.below(s.level_cap(cap, 3) + 1); b.terms = {{Norm{}, 1.0}}; hist += "mm" + std::to_string(b.level) + "; "; c.note(hist);
                    b.m = &s.ms->MomentMatrix(b.level, mt); break; }
                case 2: {
                    b.level = r.below(s.level_cap(cap / 2, 2) + 1); auto w = s.random_nonzero(r, 3); const int ph = r.chance(1, 3) ? static_cast<int>(r.below(4)) : 0;
                    auto x = s.scen->normal(w, ph); b.terms = {{x, 1.0}}; hist += "lm" + std::to_string(b.level) + x.text() + "; "; c.note(hist);
                    b.m = &s.ms->LocalizingMatrix(LocalizingMatrixIndex{b.level, s.make(w, ph)}, mt); break; }
                default: {
                    b.level = r.below(s.level_cap(cap / 3, 2) + 1); RawPolynomial raw; const size_t t = 1 + r.below(4); const bool cplx = r.chance(1, 3);
                    for (size_t i = 0; i < t; ++i) {
                        auto w = s.random_nonzero(r, 3); cd f{std::round(r.sym() * 4), cplx ? std::round(r.sym() * 3) : 0.0}; if (f == cd{}) f = 1.0;
                        raw.emplace_back(s.make(w), f); b.terms.emplace_back(s.scen->normal(w, 0), f);
                        auto adj = s.scen->adjoint(w, 0);
                        if (r.coin() && !adj.zero) { raw.emplace_back(s.make(adj.letters), std::conj(f) * ipow(adj.phase)); b.terms.emplace_back(Norm{false, 0, adj.letters}, std::conj(f) * ipow(adj.phase)); }
                    }
                    hist += "plm" + std::to_string(b.level) + "<" + raw.to_string(s.ms->Context()) + ">; "; c.note(hist);
                    auto [idx, mat] = s.ms->create_and_register_localizing_matrix(b.level, raw, mt);
                    b.m = &mat;
                    CHECK(&(*s.ms)[idx] == b.m, "registered-index", hist); }
            }
            b.what = hist; built.push_back(b);
            check_entries(c, s, b);
            if (!c.violations.empty()) return;
        }
        // Matrices made earlier are unaffected by later ones.
        for (auto& b : built) { c.note(b.what + " re-read at end"); check_entries(c, s, b); }
    }
    void formal(Ctx& c, Rng& r, int kind, double cap, size_t size = 10) { auto s = random_sys(r, kind, size); std::vector<Built> b; scenario(c, r, *s, cap, b); }

    /** Evaluate on an actual state: entries as claimed, moment matrices positive, Hermitian flags true. */
    template<class R> void realised(Ctx& c, Rng& r, Sys& s, const R& real, double cap) {
        std::vector<Built> built; scenario(c, r, s, cap, built);
        std::vector<cd> val; for (size_t i = 0; i < s.symbols().size(); ++i) val.push_back(i == 0 ? cd{} : real.expect(s.symbols()[i].sequence()));
        auto ev = [&](const Monomial& m) { cd v = val[m.id]; return m.factor * (m.conjugated ? std::conj(v) : v); };
        for (size_t i = 1; i < val.size(); ++i) { auto k = s.symbols()[i].basis_key(); CHECK((k.first >= 0 || close(cd(val[i].real()), cd{})) && (k.second >= 0 || close(cd(val[i].imag()), cd{})), "impossible-part", c.crumb << " symbol " << i); }
        for (auto& b : built) {
            c.note(b.what + " on a state");
            const int d = static_cast<int>(b.m->Dimension()); Mat v(d, d); auto words = s.level_words(b.level);
            for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) {
                if (auto* mm = dynamic_cast<const MonomialMatrix*>(b.m)) v(i, j) = ev(mm->SymbolMatrix(i, j));
                else for (auto& e : dynamic_cast<const PolynomialMatrix*>(b.m)->SymbolMatrix(i, j)) v(i, j) += ev(e);
                cd want{};
                for (auto& [x, f] : b.terms) { Word w(words[i].rbegin(), words[i].rend()); w.insert(w.end(), x.letters.begin(), x.letters.end()); w.insert(w.end(), words[j].begin(), words[j].end()); want += f * ipow(x.phase) * real.expect(w); }
                if (!CHECK(close(v(i, j), want, 1e-7), "state-value", b.what << " entry (" << i << "," << j << ") " << entry_text(*b.m, i, j) << " value " << v(i, j) << " want " << want)) return;
            }
            if (b.m->Hermitian()) for (int i = 0; i < d; ++i) for (int j = 0; j < i; ++j) CHECK(close(v(i, j), std::conj(v(j, i)), 1e-7), "hermitian-on-state", b.what);
            if (b.terms.size() == 1 && b.terms[0].first == Norm{} && b.terms[0].second == cd(1.0)) { CHECK(b.m->Hermitian(), "moment-matrix-hermitian", b.what); CHECK(is_psd(v), "positive-semidefinite", b.what); c.count("psd"); }
        }
    }
}
SECTION(generic) { c.for_cases(c.n(400, 6000), [&](Rng& r, uint64_t) { formal(c, r, Sys::Generic, 40); }); }
SECTION(locality) { c.for_cases(c.n(500, 8000), [&](Rng& r, uint64_t) { formal(c, r, Sys::Locality, 60, r.chance(1, 4) ? 14 : 8); }); }
SECTION(inflation) { c.for_cases(c.n(500, 8000), [&](Rng& r, uint64_t) { formal(c, r, Sys::Inflation, 60, r.chance(1, 5) ? 20 : 9); }); }
SECTION(pauli) { c.for_cases(c.n(500, 8000), [&](Rng& r, uint64_t) { formal(c, r, Sys::Pauli, 60); }); }
SECTION(algebraic) { c.for_cases(c.n(600, 10000), [&](Rng& r, uint64_t) { formal(c, r, Sys::Algebraic, 50); }); }
SECTION(locality_states) { c.for_cases(c.n(200, 4000), [&](Rng& r, uint64_t) { auto s = random_sys(r, Sys::Locality, 6); LocalityReal real(s->lscen(), r, false); realised(c, r, *s, real, 25); }); }
SECTION(pauli_states) { c.for_cases(c.n(200, 4000), [&](Rng& r, uint64_t) { auto s = Sys::of(Sys::Pauli, std::make_unique<PauliScen>(random_pauli_context(r, 4, false)), r); PauliReal real(s->scen->ops() / 3, r); realised(c, r, *s, real, 40); }); }
SECTION(generic_states) { c.for_cases(c.n(200, 4000), [&](Rng& r, uint64_t) { auto s = random_sys(r, Sys::Generic); FreeReal real(s->ops(), r, 3, true); realised(c, r, *s, real, 25); }); }
SECTION(inflation_states) { c.for_cases(c.n(200, 4000), [&](Rng& r, uint64_t) { auto s = random_sys(r, Sys::Inflation, 8); InflationReal real(s->iscen(), r); realised(c, r, *s, real, 20); }); }
