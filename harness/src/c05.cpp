// C05: one symbol per moment, and every look-up finds it.
#include "sys.h"
#include "matrix_system/rulebook_storage.h"
#include "scenarios/imported/imported_matrix_system.h"
using namespace verif;
using namespace Moment;

namespace {
    struct Snapshot { std::vector<std::pair<Norm, std::pair<bool, bool>>> v; };
    Snapshot snap(const Sys& s) { Snapshot o; for (size_t i = 0; i < s.symbols().size(); ++i) { auto& y = s.symbols()[i]; auto k = y.basis_key(); o.v.emplace_back(norm_of(y.sequence()), std::make_pair(k.first >= 0, k.second >= 0)); } return o; }
    void grown(Ctx& c, const Sys& s, const Snapshot& before, const std::string& what) {
        CHECK(s.symbols().size() >= before.v.size(), "symbols-removed", what);
        for (size_t i = 0; i < std::min(before.v.size(), s.symbols().size()); ++i) {
            auto& y = s.symbols()[i]; auto k = y.basis_key();
            CHECK(norm_of(y.sequence()) == before.v[i].first, "symbol-changed-meaning", what << " symbol " << i << " was " << before.v[i].first.text() << " is " << norm_of(y.sequence()).text());
            CHECK(std::make_pair(k.first >= 0, k.second >= 0) == before.v[i].second, "symbol-changed-parts", what << " symbol " << i);
        }
    }
    void history(Ctx& c, Rng& r, Sys& s) {
        std::string hist;
        const double cap = c.thorough ? 60 : 30;
        const size_t steps = 2 + r.below(6);
        for (size_t st = 0; st < steps; ++st) {
            auto before = snap(s); std::string what;
            const auto mt = r.chance(1, 5) ? MTP::Always : MTP::Never;
            switch (r.below(8)) {
                case 0: case 1: { size_t l = r.below(s.level_cap(cap, 3) + 1); what = "mm" + std::to_string(l); c.note(s.desc() + hist + what); s.ms->MomentMatrix(l, mt); break; }
                case 2: { size_t l = r.below(s.level_cap(cap / 2, 2) + 1); auto w = s.random_nonzero(r, 3); const int ph = r.chance(1, 4) ? static_cast<int>(r.below(4)) : 0; what = "lm" + std::to_string(l) + "i^" + std::to_string(ph) + wstr(w);
                    c.note(s.desc() + hist + what); s.ms->LocalizingMatrix(LocalizingMatrixIndex{l, s.make(w, ph)}, mt); break; }
                case 3: { size_t l = r.below(s.level_cap(cap, 3) + 1); what = "dict" + std::to_string(l); c.note(s.desc() + hist + what); s.ms->generate_dictionary(l);
                    // every word of the level now has a symbol
                    for (auto& w : s.ms->Context().operator_sequence_generator(l)) {
                        auto res = s.symbols().where(w);
                        CHECK(res.found(), "dictionary-word-without-symbol", s.desc() << hist << what << " " << wstr(to_word(w)));
                        if (res.found()) { auto v = s.value(*res); if (res.is_conjugated) v = std::conj(v); v *= res.factor(); CHECK(close(v, s.value(w)), "dictionary-lookup", s.desc() << hist << what << " " << wstr(to_word(w))); }
                    }
                    break; }
                case 4: { auto w = s.random_nonzero(r, 4); const int ph = static_cast<int>(r.below(4)); what = "merge" + wstr(w); c.note(s.desc() + hist + what);
                    auto lock = s.ms->get_write_lock(); auto id = s.ms->Symbols().merge_in(s.make(w, ph));
                    CHECK(id >= 0 && static_cast<size_t>(id) < s.symbols().size(), "merge-id", s.desc() << hist << what);
                    auto res = s.symbols().where(s.make(w));
                    CHECK(res.found() && res->Id() == id, "merge-lookup", s.desc() << hist << what);
                    break; }
                case 5: { // registering a polynomial
                    RawPolynomial raw; const size_t k = 1 + r.below(4); cd want{};
                    for (size_t i = 0; i < k; ++i) { auto w = s.random_letters(r, 3); cd f{std::round(r.sym() * 4), r.coin() ? 0.0 : std::round(r.sym() * 3)}; if (f == cd{}) f = 1; raw.emplace_back(s.make(w), f); want += f * s.value(w); }
                    what = "poly"; c.note(s.desc() + hist + what);
                    auto lock = s.ms->get_write_lock();
                    auto p = raw.to_polynomial_register_symbols(s.ms->polynomial_factory(), s.ms->Symbols());
                    CHECK(close(s.value(p), want), "registered-polynomial", s.desc() << hist << raw.to_string(s.ms->Context()) << " value " << s.value(p) << " want " << want);
                    break; }
                case 6: { // look up an arbitrary word
                    auto n = s.scen->normal(s.random_letters(r, 4), static_cast<int>(r.below(4))); auto q = n.zero ? s.ms->Context().zero() : s.make(n.letters, n.phase); what = "?" + n.text(); c.note(s.desc() + hist + what);
                    auto res = s.symbols().where(q);
                    bool known = false; cd want = n.zero ? cd{} : s.value(Norm{false, 0, n.letters});
                    Word cls; if (!n.zero) { auto& [r0, adj] = s.rep(n.letters); cls = !adj.zero && Sys::shortlex_less(adj.letters, r0) ? adj.letters : r0; }
                    for (size_t i = 0; i < s.symbols().size(); ++i) { auto m = norm_of(s.symbols()[i].sequence()); if (m.zero || n.zero) { known |= m.zero && n.zero; continue; } auto& [a0, aa] = s.rep(m.letters); Word k2 = !aa.zero && Sys::shortlex_less(aa.letters, a0) ? aa.letters : a0; known |= k2 == cls; }
                    CHECK(res.found() == known, "lookup-completeness", s.desc() << hist << what << " found " << res.found() << " known " << known);
                    if (res.found()) { cd v = n.zero ? cd{} : s.value(*res); if (res.is_conjugated) v = std::conj(v); v *= res.factor(); CHECK(close(v, want), "lookup-value", s.desc() << hist << what << " gave symbol " << res->Id() << (res.is_conjugated ? "*" : "")); }
                    break; }
                default: { // polynomial localizing
                    RawPolynomial raw; const size_t k = 1 + r.below(3);
                    for (size_t i = 0; i < k; ++i) raw.emplace_back(s.make(s.random_nonzero(r, 2)), 1.0 + static_cast<double>(i));
                    what = "plm"; c.note(s.desc() + hist + what + raw.to_string(s.ms->Context()));
                    s.ms->create_and_register_localizing_matrix(r.below(s.level_cap(12, 1) + 1), raw, mt); }
            }
            hist += what + ";";
            c.note(s.desc() + " after " + hist);
            grown(c, s, before, s.desc() + " " + hist);
            check_symbols(c, s, hist.c_str());
            if (!c.violations.empty()) return;
        }
        c.nontrivial(s.desc() + hist);
    }
}
SECTION(generic) { c.for_cases(c.n(150, 3000), [&](Rng& r, uint64_t) { auto s = random_sys(r, Sys::Generic); history(c, r, *s); }); }
SECTION(locality) { c.for_cases(c.n(150, 3000), [&](Rng& r, uint64_t) { auto s = random_sys(r, Sys::Locality); history(c, r, *s); }); }
SECTION(inflation) { c.for_cases(c.n(150, 3000), [&](Rng& r, uint64_t) { auto s = random_sys(r, Sys::Inflation, r.chance(1, 5) ? 18 : 9); history(c, r, *s); }); }
SECTION(pauli) { c.for_cases(c.n(150, 3000), [&](Rng& r, uint64_t) { auto s = random_sys(r, Sys::Pauli); history(c, r, *s); }); }
SECTION(algebraic) { c.for_cases(c.n(250, 4000), [&](Rng& r, uint64_t) { auto s = random_sys(r, Sys::Algebraic); history(c, r, *s); }); }

// symbols without words: numbers are kept, parts are numbered densely and both ways, whatever is inferred about them later
SECTION(imported) { c.for_cases(c.n(400, 8000), [&](Rng& r, uint64_t) {
    Imported::ImportedMatrixSystem ims{r.chance(1, 5)}; std::string hist = "imported:";
    const long top = 1 + static_cast<long>(r.below(10)); std::vector<std::pair<bool, bool>> had{{false, false}, {true, false}};
    for (int step = 0; step < 6; ++step) {
        const size_t d = 1 + r.below(4); const bool cplx = r.chance(3, 4), herm = r.chance(2, 3); std::vector<Monomial> m(d * d, Monomial{0});
        for (size_t j = 0; j < d; ++j) for (size_t i = 0; i <= j; ++i) {
            const auto id = static_cast<symbol_name_t>(r.below(static_cast<uint64_t>(top) + 2)); const double f = r.pick(std::vector<double>{1, 1, -1, 2}); const bool conj = cplx && r.chance(1, 3);
            m[j * d + i] = Monomial{id, f, conj}; m[i * d + j] = Monomial{id, i != j && r.chance(1, 8) ? -f : f, i == j || !cplx ? conj : !conj};
        }
        if (r.chance(1, 6)) { auto lock = ims.get_write_lock(); const auto how = r.below(3); ims.Symbols().create(1 + r.below(3), how != 2, how != 0 && !ims.Symbols()[1].is_antihermitian()); hist += " create" + std::to_string(how); }
        else { hist += std::string(cplx ? " complex" : " real") + (herm ? " hermitian [" : " ["); for (auto& e : m) { std::stringstream ss; ss << e << " "; hist += ss.str(); } hist += "]";
            try { ims.import_matrix(std::make_unique<SquareMatrix<Monomial>>(d, std::vector<Monomial>(m)), cplx, herm); } catch (const Imported::errors::bad_import_matrix&) { hist += "refused"; } }
        c.note(hist);
        const auto& tab = std::as_const(ims).Symbols(); size_t re = 0, im = 0;
        CHECK(tab.size() >= had.size(), "symbols-removed", hist);
        for (size_t i = 0; i < tab.size(); ++i) {
            const auto& s = tab[i]; const auto key = s.basis_key();
            CHECK(s.Id() == static_cast<symbol_name_t>(i), "symbol-id", hist << " symbol " << i);
            CHECK(key == tab.Basis(static_cast<symbol_name_t>(i)), "basis-view", hist << " symbol " << i);
            CHECK((key.first >= 0) == !s.is_antihermitian() && (key.second >= 0) == !s.is_hermitian(), "flags", hist << " symbol " << i);
            if (i < had.size()) CHECK((had[i].first || key.first < 0) && (had[i].second || key.second < 0), "part-gained", hist << " symbol " << i);
            if (i > 0) CHECK(key.first >= 0 || key.second >= 0, "symbol-without-parts", hist << " symbol " << i);
            if (key.first >= 0) { CHECK(static_cast<size_t>(key.first) == re && re < tab.Basis.RealSymbolCount() && static_cast<size_t>(tab.Basis.RealSymbols()[re]) == i, "real-numbering", hist << " symbol " << i); ++re; CHECK(tab.Basis.imaginary_from_real(key.first) == key.second, "re-to-im", hist << " symbol " << i); }
            if (key.second >= 0) { CHECK(static_cast<size_t>(key.second) == im && im < tab.Basis.ImaginarySymbolCount() && static_cast<size_t>(tab.Basis.ImaginarySymbols()[im]) == i, "im-numbering", hist << " symbol " << i); ++im; CHECK(tab.Basis.real_from_imaginary(key.second) == key.first, "im-to-re", hist << " symbol " << i); }
            if (i < had.size()) had[i] = {key.first >= 0, key.second >= 0}; else had.emplace_back(key.first >= 0, key.second >= 0);
        }
        CHECK(tab.Basis.RealSymbolCount() == re && tab.Basis.ImaginarySymbolCount() == im, "basis-count", hist);
        c.count("imported-tables");
    }
    c.nontrivial(hist);
}); }
