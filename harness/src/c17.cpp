// C17: scalar-extended inflation matrices, the factor table and everything inferred through factors.
#include "net.h"
#include "matrix/operator_matrix/moment_matrix.h"
#include "matrix/substituted_matrix.h"
#include "probability/collins_gisin.h"
#include "probability/probability_tensor.h"
#include "scenarios/inflation/extended_matrix.h"
#include "scenarios/inflation/extension_suggester.h"
#include "scenarios/inflation/factor_table.h"
#include "symbolic/rules/moment_rulebook.h"
#include "tens.h"
using namespace verif;
using namespace Moment;
using namespace Moment::Inflation;

namespace {
    using Factors = std::vector<Word>; // sorted irreducible factors; the empty list is 1
    struct World {
        std::unique_ptr<Dist> dist; Sys* s; InflationMatrixSystem* ims; const InflationScen* sc; const InflationContext* ic;
        std::map<symbol_name_t, Factors> wordless; // what each symbol without a word stands for, from the request that introduced it
        std::string hist; std::map<Word, double> cache;
        World(Rng& r, const NetSpec& n, double tol) {
            dist = Dist::inflation(r, n, tol); s = dist->sys.get();
            ims = &s->inflation(); sc = &s->iscen(); ic = sc->ictx; hist = s->desc() + ": ";
        }
        Factors of_word(const Word& w) const { Factors f; for (auto& g : groups(*sc, w)) f.push_back(s->rep_letters(g)); std::sort(f.begin(), f.end()); return f; }
        /** (zero?, factors) of a symbol; nullopt: not yet known. */
        std::optional<std::pair<bool, Factors>> of(symbol_name_t id) const {
            const auto& sym = s->symbols()[id];
            if (sym.has_sequence()) { const auto n = norm_of(sym.sequence()); return std::make_pair(n.zero, n.zero ? Factors{} : of_word(n.letters)); }
            auto it = wordless.find(id); if (it == wordless.end()) return std::nullopt; return std::make_pair(false, it->second);
        }
        static Factors times(const Factors& a, const Factors& b) { Factors o = a; o.insert(o.end(), b.begin(), b.end()); std::sort(o.begin(), o.end()); return o; }
        double word(const Word& w) { auto it = cache.find(w); if (it != cache.end()) return it->second; return cache[w] = dist->real->expect(w).real(); }
        double value(const Factors& f) { double v = 1; for (auto& w : f) v *= word(w); return v; }
        double value(symbol_name_t id) { auto f = of(id); return !f || f->first ? 0 : value(f->second); }
        double value(const Monomial& m) { return m.factor.real() * value(m.id); }
        double value(const Polynomial& p) { double v = 0; for (auto& m : p) v += value(m); return v; }
        static std::string text(const Factors& f) { std::string o; for (auto& w : f) o += "<" + wstr(w) + ">"; return o.empty() ? "1" : o; }
        std::map<Factors, symbol_name_t> known() const { std::map<Factors, symbol_name_t> k; for (size_t i = 1; i < s->symbols().size(); ++i) if (auto f = of(i); f && !f->first) k.emplace(f->second, i); return k; }
    };

    void check_table(Ctx& c, World& w) {
        const auto& tab = w.s->symbols(); const auto& ft = w.ims->Factors(); const std::string& what = w.hist;
        CHECK(ft.size() == tab.size() && !ft.empty(), "table-size", what << ": " << ft.size() << " entries for " << tab.size() << " symbols");
        if (ft.size() != tab.size()) return;
        std::vector<size_t> worded(tab.size()), all(tab.size()); size_t re = 0, im = 0;
        for (size_t i = 0; i < tab.size(); ++i) {
            const auto& sym = tab[i]; const auto& e = ft[i]; const auto id = static_cast<symbol_name_t>(i);
            const auto at = [&] { return what + " symbol " + std::to_string(i); };
            CHECK(e.id == id && sym.Id() == id, "entry-id", at());
            const auto key = sym.basis_key();
            CHECK(sym.is_hermitian() && key.second < 0 && (i == 0 || key.first == static_cast<ptrdiff_t>(re)), "real-symbol", at() << " basis " << key.first << "," << key.second); if (i) ++re;
            auto f = w.of(id); CHECK(f.has_value(), "stray-symbol", at() << " has no word and was not asked for"); if (!f) continue;
            CHECK(std::is_sorted(e.canonical.symbols.begin(), e.canonical.symbols.end()), "factors-sorted", at() << " factors {" << join(e.canonical.symbols) << "}");
            CHECK(e.canonical.symbols.size() == e.canonical.sequences.size() && e.fundamental() == (e.canonical.symbols.size() <= 1), "factor-count", at());
            Factors got, seqs; bool ok = true; std::multiset<symbol_name_t> a, b;
            for (auto x : e.canonical.symbols) { if (x < 0 || x >= static_cast<symbol_name_t>(tab.size())) { ok = false; break; } const auto g = w.of(x); if (!g) { ok = false; break; }
                CHECK(ft[x].fundamental() && ft[x].canonical.symbols.size() == 1 && ft[x].canonical.symbols[0] == x, "factor-irreducible", at() << " factor " << x);
                if (!f->first) CHECK(g->second.size() <= 1 && !g->first, "factor-irreducible", at() << " factor " << x << " is " << World::text(g->second));
                got.insert(got.end(), g->second.begin(), g->second.end()); if (e.canonical.symbols.size() > 1) { ++all[x]; if (sym.has_sequence()) ++worded[x]; } }
            CHECK(ok, "factor-unknown", at() << " factors {" << join(e.canonical.symbols) << "}"); if (!ok) continue;
            std::sort(got.begin(), got.end());
            CHECK(got == f->second, "factors", at() << (sym.has_sequence() ? " " + norm_of(sym.sequence()).text() : "") << " has factors " << World::text(got) << " instead of " << World::text(f->second));
            for (auto& q : e.canonical.sequences) { const auto n = norm_of(q); if (n.zero) { CHECK(i == 0, "factor-sequence", at()); continue; } CHECK(n.phase == 0, "factor-sequence", at()); if (!n.letters.empty()) seqs.push_back(n.letters); }
            std::sort(seqs.begin(), seqs.end()); CHECK(seqs == f->second, "factor-sequence", at() << " lists " << World::text(seqs) << " instead of " << World::text(f->second));
            if (sym.has_sequence() && i >= 1) { Factors raw; for (auto& q : e.raw.sequences) { const auto n = norm_of(q); CHECK(!n.zero && n.phase == 0, "raw-factors", at()); if (!n.letters.empty()) raw.push_back(n.letters); } std::sort(raw.begin(), raw.end()); auto want = groups(*w.sc, norm_of(sym.sequence()).letters); if (want == Factors{Word{}}) want.clear(); CHECK(raw == want, "raw-factors", at() << " lists " << World::text(raw) << " instead of " << World::text(want)); }
            const auto back = ft.find_index_by_factors(e.canonical.symbols);
            CHECK(back.has_value() && *back >= 0 && *back < static_cast<symbol_name_t>(tab.size()) && ft[*back].canonical.symbols == e.canonical.symbols, "find-by-factors", at() << " factors {" << join(e.canonical.symbols) << "} found " << (back ? std::to_string(*back) : "nothing"));
            if (f->second.size() <= 1 && sym.has_sequence()) CHECK(back == id, "find-by-factors", at() << " is irreducible, but factor look-up gives " << (back ? std::to_string(*back) : "nothing"));
            const auto txt = e.sequence_string(); if (i == 0) CHECK(txt == "0", "factor-text", at() << " " << txt); else if (i == 1) CHECK(txt == "1", "factor-text", at() << " " << txt); else CHECK(!txt.empty() && static_cast<size_t>(std::count(txt.begin(), txt.end(), '<')) == f->second.size(), "factor-text", at() << " " << txt);
        }
        for (size_t i = 0; i < tab.size(); ++i) CHECK(ft[i].appearances >= worded[i] && ft[i].appearances <= all[i], "appearances", what << " symbol " << i << " appears " << ft[i].appearances << " times instead of " << worded[i]);
        CHECK(tab.Basis.RealSymbolCount() == re && tab.Basis.ImaginarySymbolCount() == im, "basis-count", what);
        c.count("table-entries", tab.size());
    }
    void check_products(Ctx& c, Rng& r, World& w, int n) {
        const auto& tab = w.s->symbols(); const auto& ft = w.ims->Factors(); const auto known = w.known(); const std::string& what = w.hist;
        auto any = [&] { return static_cast<symbol_name_t>(r.below(tab.size())); };
        for (int k = 0; k < n; ++k) {
            std::vector<symbol_name_t> in; const size_t count = r.chance(1, 2) ? 2 : 1 + r.below(4); for (size_t i = 0; i < count; ++i) in.push_back(any());
            if (r.chance(1, 3)) { // a product known to exist
                const auto& e = ft[any()]; if (e.id > 1) { in.assign(e.canonical.symbols.begin(), e.canonical.symbols.end()); r.shuffle(in); if (r.chance(1, 4)) in.push_back(1); } }
            bool zero = false; Factors f; for (auto x : in) { auto g = w.of(x); if (!g) return; zero |= g->first; f = World::times(f, g->second); }
            auto judge = [&](auto&& go, const char* how) {
                symbol_name_t out = -1; bool threw = false; try { out = go(); } catch (const Moment::Inflation::errors::unknown_symbol&) { threw = true; }
                const bool have = zero || known.count(f);
                CHECK(threw == !have, "product-existence", what << " " << how << " of {" << join(in) << "} = " << World::text(f) << (threw ? " reported unknown" : " answered " + std::to_string(out)) << "; symbol " << (have && !zero ? known.at(f) : 0));
                if (threw) { c.count("unknown-products"); return; }
                if (out < 0 || out >= static_cast<symbol_name_t>(tab.size())) { CHECK(false, "product", what << " " << how << " of {" << join(in) << "} is " << out); return; }
                auto g = w.of(out); CHECK(g && g->first == zero && (zero || g->second == f), "product", what << " " << how << " of {" << join(in) << "} = " << World::text(f) << " is symbol " << out << " = " << (g ? World::text(g->second) : "?")); c.count("products");
            };
            if (in.size() == 2) judge([&] { return ft.try_multiply(in[0], in[1]); }, "product");
            judge([&] { return ft.try_multiply(in); }, "list product");
        }
        for (int k = 0; k < n / 4; ++k) { // polynomials
            auto poly = [&] { Polynomial::storage_t d; for (size_t i = r.below(4); i > 0; --i) d.emplace_back(r.chance(1, 4) ? 1 : any(), cd{std::round(r.sym() * 8) / 4, 0.0}, false); return w.ims->polynomial_factory()(std::move(d)); };
            const auto a = poly(), b = poly(); bool have = true;
            for (auto& x : a) for (auto& y : b) { auto f = w.of(x.id), g = w.of(y.id); if (!f || !g) return; if (!f->first && !g->first && !known.count(World::times(f->second, g->second))) have = false; }
            Polynomial p; bool threw = false; try { p = ft.try_multiply(w.ims->polynomial_factory(), a, b); } catch (const Moment::Inflation::errors::unknown_symbol&) { threw = true; }
            CHECK(threw == !have, "polynomial-product-existence", what << " (" << a << ") * (" << b << ")"); if (threw) continue;
            CHECK(verif::close(w.value(p), w.value(a) * w.value(b)), "polynomial-product", what << " (" << a << ") * (" << b << ") = " << p << " has value " << w.value(p) << " instead of " << w.value(a) * w.value(b)); c.count("polynomial-products");
        }
    }
    /** Request an extended matrix and check it. */
    void extend(Ctx& c, Rng& r, World& w, size_t level, const std::vector<symbol_name_t>& ext, MTP mt) {
        auto& ims = *w.ims; const auto before = ims.Symbols().size(); const auto known = w.known();
        const std::string req = "extend level " + std::to_string(level) + " by {" + join(ext) + "}" + (mt == MTP::Always ? " threads" : ""); w.hist += req + "; "; c.note(w.hist); const std::string& what = w.hist;
        const auto& mm = ims.MomentMatrix(level, mt);
        std::vector<Factors> scal; std::vector<bool> zero; for (auto x : ext) { auto f = w.of(x); if (!f) return; scal.push_back(f->second); zero.push_back(f->first); }
        const auto known2 = w.known(); const auto mid = ims.Symbols().size();
        const bool existed = ims.ExtendedMatrices.contains(ExtendedMatrixIndex{level, std::span<const symbol_name_t>(ext)}); const auto count = ims.size();
        auto [off, m] = ims.ExtendedMatrices.create(ExtendedMatrixIndex{level, std::span<const symbol_name_t>(ext)}, mt);
        CHECK(ims.size() == count + (existed ? 0 : 1), "matrix-count", what);
        if (existed) CHECK(ims.Symbols().size() == mid, "repeat-creates-symbols", what);
        const size_t d0 = mm.Dimension(), d = d0 + ext.size();
        CHECK(m.Dimension() == d && m.OriginalDimension == d0 && m.Hermitian() && m.is_monomial(), "extended-dimension", what << ": " << m.Dimension() << " (original " << m.OriginalDimension << ") instead of " << d); if (m.Dimension() != d) return;
        const auto words = w.s->level_words(level); CHECK(words.size() == d0, "generators", what); if (words.size() != d0) return;
        const auto& mono = dynamic_cast<const MonomialMatrix&>(mm); std::map<Factors, symbol_name_t> fresh;
        for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) {
            const auto& e = m.SymbolMatrix(i, j); const auto at = [&] { return what + " entry (" + std::to_string(i) + "," + std::to_string(j) + ") " + entry_text(m, i, j); };
            if (i < d0 && j < d0) { CHECK(e == mono.SymbolMatrix(i, j), "original-block", at() << " instead of " << entry_text(mm, i, j)); continue; }
            bool z = false; Factors f; for (auto k : {i, j}) { if (k < d0) f = World::times(f, w.of_word(words[k]) == Factors{Word{}} ? Factors{} : w.of_word(words[k])); else { z = z || zero[k - d0]; f = World::times(f, scal[k - d0]); } }
            CHECK(verif::close(e.factor, cd{1.0}) || e.id == 0, "entry-factor", at()); CHECK(!e.conjugated && e.id >= 0 && e.id < static_cast<symbol_name_t>(ims.Symbols().size()), "entry-form", at());
            if (e.id < 0 || e.id >= static_cast<symbol_name_t>(ims.Symbols().size())) continue;
            if (z) { CHECK(e.id == 0, "zero-entry", at() << " instead of 0"); continue; }
            if (static_cast<size_t>(e.id) >= mid && !w.wordless.count(e.id) && !ims.Symbols()[e.id].has_sequence()) w.wordless[e.id] = f;
            auto g = w.of(e.id); CHECK(g && !g->first && g->second == f, "entry", at() << " is " << (g ? World::text(g->second) : "?") << " instead of " << World::text(f));
            auto k = known2.find(f); if (k == known2.end()) { auto [it, first] = fresh.emplace(f, e.id); CHECK(it->second == e.id, "entry-duplicate", at() << " = " << World::text(f) << " also written as symbol " << it->second); }
            else CHECK(static_cast<size_t>(e.id) < mid, "entry-duplicate", at() << " = " << World::text(f) << " already was symbol " << k->second);
            CHECK(m.SymbolMatrix(j, i) == e, "extended-hermitian", at());
            c.count("extended-entries");
        }
        (void) before; (void) known;
        if (!existed) CHECK(ims.Symbols().size() == mid + fresh.size(), "needless-symbols", what << ": " << ims.Symbols().size() - mid << " new symbols for " << fresh.size() << " new products");
        check_properties(c, ims.Symbols(), m, what);
        CHECK(&ims.ExtendedMatrices(ExtendedMatrixIndex{level, std::vector<symbol_name_t>(ext)}, MTP::Never) == &m && ims.ExtendedMatrices.find_index(ExtendedMatrixIndex{level, std::span<const symbol_name_t>(ext)}) == static_cast<ptrdiff_t>(off) && &ims.get(off) == &m, "repeat", what);
        for (auto x : ext) CHECK(m.Description().find("S" + std::to_string(x)) != std::string::npos, "description", what << " " << m.Description());
        // semantics: on independent sources the matrix is the second-moment matrix of its generators: value(i,j) only depends on products
        for (int k = 0; k < 12; ++k) { const size_t i = r.below(d), j = r.below(d); double want; if (i < d0 && j < d0) want = w.dist->real->expect(w.s->sandwich(words[i], {}, 0, words[j]).zero ? Word{} : w.s->sandwich(words[i], {}, 0, words[j]).letters).real() * (w.s->sandwich(words[i], {}, 0, words[j]).zero ? 0 : 1);
            else { want = 1; for (auto q : {i, j}) want *= q < d0 ? w.word(words[q]) : w.value(ext[q - d0]); }
            CHECK(verif::close(w.value(m.SymbolMatrix(i, j)), want), "entry-value", what << " entry (" << i << "," << j << ") " << entry_text(m, i, j) << " is " << w.value(m.SymbolMatrix(i, j)) << " instead of " << want); }
        c.nontrivial(w.s->desc() + req);
    }
    void suggest(Ctx& c, Rng& r, World& w, size_t level, MTP mt) {
        auto& ims = *w.ims; const auto& mm = dynamic_cast<const MonomialMatrix&>(ims.MomentMatrix(level, MTP::Never));
        const auto set = ims.suggest_extensions(mm); w.hist += "suggest level " + std::to_string(level) + " {" + join(set) + "}; "; const std::string& what = w.hist;
        CHECK(set == ims.suggest_extensions(mm), "suggest-stable", what);
        std::set<symbol_name_t> todo, pool; for (auto x : mm.IncludedSymbols()) { auto f = w.of(x); if (f && f->second.size() > 1) { todo.insert(x); for (auto y : ims.Factors()[x].canonical.symbols) pool.insert(y); } }
        for (auto x : set) CHECK(pool.count(x), "suggest-not-factor", what << ": " << x << " is no irreducible factor of an entry");
        CHECK(set.size() <= 100, "suggest-count", what);
        const auto words = w.s->level_words(level); std::set<Factors> reach; // products of a generator with one suggested symbol
        auto gen = [&](const Word& q) { auto f = w.of_word(q); return f == Factors{Word{}} ? Factors{} : f; };
        for (auto& q : words) for (auto x : set) reach.insert(World::times(gen(q), w.of(x)->second));
        for (auto x : set) { bool useful = false; for (auto& q : words) { auto f = World::times(gen(q), w.of(x)->second); for (auto y : todo) useful = useful || w.of(y)->second == f; } CHECK(useful, "suggest-useless", what << ": " << x); }
        if (pool.size() < 100) for (auto y : todo) { auto f = w.of(y)->second; bool possible = false; for (auto x : pool) for (auto& q : words) possible = possible || World::times(gen(q), w.of(x)->second) == f;
            CHECK(!possible || reach.count(f), "suggest-incomplete", what << ": symbol " << y << " = " << World::text(f) << " could be generated"); }
        if (todo.empty()) CHECK(set.empty(), "suggest-nothing", what);
        c.count("suggestions", set.size());
        if (mm.Dimension() + set.size() < 70) extend(c, r, w, level, std::vector<symbol_name_t>(set.begin(), set.end()), mt);
    }
    bool scalar(const Polynomial& p) { for (auto& m : p) if (m.id > 1) return false; return true; }
    std::vector<symbol_name_t> random_extension(Rng& r, World& w) {
        std::vector<symbol_name_t> e; const auto n = w.s->symbols().size(); const bool special = r.chance(1, 4);
        for (size_t k = r.below(6); k > 0; --k) e.push_back(special ? static_cast<symbol_name_t>(r.below(n)) : n > 2 ? static_cast<symbol_name_t>(2 + r.below(n - 2)) : 1);
        return e;
    }
    void check_tensors(Ctx& c, World& w) {
        auto& d = *w.dist; if (d.cg_elements() > 800) return;
        try { w.ims->RefreshCollinsGisin(); w.ims->RefreshProbabilityTensor(); } catch (const std::exception&) { return; }
        const auto& cg = w.ims->CollinsGisin(); const auto& pt = w.ims->ProbabilityTensor();
        for (size_t o = 0; o < cg.ElementCount; ++o) { auto e = cg.at(o); if (e->symbol_id < 0) continue; CHECK(verif::close(w.value(e->symbol_id), d.cg_value(cg.offset_to_index(o))), "cg-value", w.hist << " entry " << o << " is symbol " << e->symbol_id); c.count("cg-entries"); }
        for (size_t o = 0; o < pt.ElementCount && o < 300; ++o) { auto e = pt.at(o); if (!e->hasSymbolPoly) continue; const auto i = pt.offset_to_index(o); CHECK(verif::close(w.value(e->symbolPolynomial), d.probability(i)), "pt-value", w.hist << " entry " << o); }
    }
    void history(Ctx& c, Rng& r, int steps, bool threads, size_t ops) {
        World w(r, net_up_to(r, ops, 3, 3, 3), 1.0); auto& ims = *w.ims; auto& s = *w.s;
        auto mt = [&] { return threads ? (r.chance(2, 3) ? MTP::Always : MTP::Never) : MTP::Never; };
        for (int k = 0; k < steps; ++k) {
            const size_t lvl = r.below(s.level_cap(16, 3) + 1);
            switch (r.below(8)) {
                case 0: ims.MomentMatrix(lvl, mt()); w.hist += "mm" + std::to_string(lvl) + "; "; break;
                case 1: { auto q = s.random_nonzero(r, 6); ims.LocalizingMatrix(LocalizingMatrixIndex{std::min<size_t>(lvl, 1), s.make(q)}, mt()); w.hist += "lm" + wstr(q) + "; "; break; }
                case 2: ims.generate_dictionary(lvl); w.hist += "dictionary" + std::to_string(lvl) + "; "; break;
                case 3: suggest(c, r, w, lvl, mt()); break;
                case 4: check_products(c, r, w, 30); break;
                default: extend(c, r, w, lvl, random_extension(r, w), mt());
            }
            check_table(c, w);
        }
        check_products(c, r, w, 60);
        if (r.coin()) check_tensors(c, w);
        c.count("histories");
    }
}

SECTION(histories) { c.for_cases(c.n(500, 8000), [&](Rng& r, uint64_t) { history(c, r, 8, false, 8); }); }
SECTION(mt_histories) { c.for_cases(c.n(90, 1500), [&](Rng& r, uint64_t) { history(c, r, 6, true, 8); }); }
SECTION(larger) { c.for_cases(c.n(30, 600), [&](Rng& r, uint64_t) { history(c, r, 6, false, 24); }); }
// the same history with and without threads describes the same matrices
SECTION(mt_same) {
    c.for_cases(c.n(60, 1000), [&](Rng& r, uint64_t) {
        const auto net = net_up_to(r, 8, 3, 3, 3); const uint64_t seed = r.next(); const size_t lvl = r.below(3);
        Rng r1(seed), r2(seed); World a(r1, net, 1.0), b(r2, net, 1.0);
        const size_t l = std::min(lvl, a.s->level_cap(16, 2));
        for (auto* w : {&a, &b}) { w->ims->MomentMatrix(l, MTP::Never); auto q = Word{}; if (w->s->ops()) { Rng z(seed); q = w->s->random_nonzero(z, 6); } w->ims->LocalizingMatrix(LocalizingMatrixIndex{0, w->s->make(q)}, MTP::Never); }
        auto ext = random_extension(r, a); if (a.s->symbols().size() != b.s->symbols().size()) { CHECK(false, "same-symbols", a.hist); return; }
        extend(c, r, a, l, ext, MTP::Never); extend(c, r, b, l, ext, MTP::Always); check_table(c, a); check_table(c, b);
        CHECK(a.s->symbols().size() == b.s->symbols().size(), "same-symbols", a.hist);
    });
}
// value rules, extended through factors, hold on the distribution they came from
SECTION(rules) {
    c.for_cases(c.n(500, 8000), [&](Rng& r, uint64_t) {
        const auto net = net_up_to(r, 7, 3, 3, 3);
        World w(r, net, 1e6); auto& ims = *w.ims; auto& s = *w.s;
        auto grow = [&] { const size_t lvl = r.below(s.level_cap(14, 2) + 1); if (r.coin()) { ims.MomentMatrix(lvl, MTP::Never); w.hist += "mm" + std::to_string(lvl) + "; "; } else if (r.coin()) { auto q = s.random_nonzero(r, 5); ims.LocalizingMatrix(LocalizingMatrixIndex{0, s.make(q)}, MTP::Never); w.hist += "lm" + wstr(q) + "; "; } else extend(c, r, w, lvl, random_extension(r, w), MTP::Never); };
        ims.MomentMatrix(1, MTP::Never); for (size_t k = r.below(3); k > 0; --k) grow();
        const auto& tab = ims.Symbols(); if (tab.size() < 3) return;
        auto make = [&](std::string& text) {
            std::vector<Polynomial> rules; std::set<symbol_name_t> used;
            for (size_t k = 1 + r.below(4); k > 0; --k) {
                const auto x = static_cast<symbol_name_t>(2 + r.below(tab.size() - 2)); const auto y = static_cast<symbol_name_t>(2 + r.below(tab.size() - 2));
                if (!used.insert(x).second) continue;
                Polynomial::storage_t d{Monomial{x, 1.0, false}}; const double vx = w.value(x), vy = w.value(y);
                if (r.chance(3, 4) || x == y || std::abs(vy) < 1e-3 || std::abs(vx) < 1e-3 || !used.insert(y).second) d.emplace_back(1, -vx, false); else d.emplace_back(y, -vx / vy, false);
                auto p = ims.polynomial_factory()(std::move(d)); std::stringstream ss; ss << p; text += "{" + ss.str() + "} "; rules.push_back(std::move(p));
            }
            auto b = std::make_unique<MomentRulebook>(ims); b->add_raw_rules(std::move(rules)); b->complete(); return b;
        };
        std::vector<size_t> books;
        std::map<symbol_name_t, bool> given; // symbols the rules themselves fix to a value (to zero?)
        auto audit = [&](size_t id, bool first) {
            auto& b = ims.Rulebook(id);
            for (size_t i = 1; i < tab.size(); ++i) {
                const auto p = b.reduce(Monomial{static_cast<symbol_name_t>(i), 1.0, false}); double big = 1; for (auto& m : p) big += std::abs(m.factor);
                const double want = w.value(static_cast<symbol_name_t>(i)), got = w.value(p);
                CHECK(std::abs(got - want) <= 1e-6 * big * big, "rule-value", w.hist << " symbol " << i << " = " << World::text(w.of(i)->second) << " reduced to " << p << ", which is " << got << " instead of " << want);
                if (first) { const auto& e = ims.Factors()[i]; bool all = e.canonical.symbols.size() > 1, zero = false; for (auto x : e.canonical.symbols) { auto it = given.find(x); if (it == given.end()) all = false; else if (it->second) zero = true; }
                    if (all || (zero && e.canonical.symbols.size() > 1)) { CHECK(scalar(p), "rule-not-extended", w.hist << " symbol " << i << " = " << World::text(w.of(i)->second) << " has factors with known values, but reduces to " << p); c.count("extended-rules"); } }
                c.count("reduced-symbols");
            }
        };
        for (int k = 0; k < 5; ++k) {
            if (r.coin() || books.empty()) {
                std::string text; auto b = make(text); const auto count = ims.Rulebook.size(); w.hist += "rules " + text + "; "; c.note(w.hist);
                given.clear(); for (size_t i = 2; i < tab.size(); ++i) { auto it = b->find(static_cast<symbol_name_t>(i)); if (it != b->end() && scalar(it->second.RHS())) given[static_cast<symbol_name_t>(i)] = it->second.RHS().empty(); }
                try { auto [id, ref] = ims.Rulebook.add(std::move(b)); books.push_back(id); audit(id, true); }
                catch (const Moment::errors::invalid_moment_rule& e) { CHECK(ims.Rulebook.size() == count, "failed-add", w.hist); // only a value within rounding of zero may look contradictory
                    c.count("refused-books"); w.hist += "(refused) "; }
            } else if (r.coin()) { grow(); for (auto id : books) audit(id, false); }
            else { const size_t lvl = r.below(s.level_cap(12, 1) + 1); const auto ext = random_extension(r, w); extend(c, r, w, lvl, ext, MTP::Never);
                const auto off = ims.ExtendedMatrices.find_index(ExtendedMatrixIndex{lvl, std::span<const symbol_name_t>(ext)}); const auto id = r.pick(books);
                const auto& sub = ims.SubstitutedMatrix(SubstitutedMatrixIndex{off, static_cast<ptrdiff_t>(id)}); const auto& src = dynamic_cast<const MonomialMatrix&>(ims.get(off));
                for (size_t i = 0; i < sub.Dimension(); ++i) for (size_t j = 0; j < sub.Dimension(); ++j) {
                    double got, big = 1; if (auto* mm = dynamic_cast<const MonomialMatrix*>(&sub)) { got = w.value(mm->SymbolMatrix(i, j)); big += std::abs(mm->SymbolMatrix(i, j).factor); } else { auto& p = dynamic_cast<const PolynomialMatrix&>(sub).SymbolMatrix(i, j); got = w.value(p); for (auto& m : p) big += std::abs(m.factor); }
                    const double want = w.value(src.SymbolMatrix(i, j)); CHECK(std::abs(got - want) <= 1e-6 * big * big, "substituted-value", w.hist << " entry (" << i << "," << j << ") " << entry_text(src, i, j) << " = " << want << " became " << entry_text(sub, i, j) << " = " << got); c.count("substituted-entries"); }
            }
            check_table(c, w);
        }
        c.nontrivial(w.hist);
    });
}
// requests that must be refused, leaving everything as it was
SECTION(refusals) {
    c.for_cases(c.n(200, 3000), [&](Rng& r, uint64_t) {
        World w(r, net_up_to(r, 8, 3, 3, 3), 1.0); auto& ims = *w.ims; ims.MomentMatrix(1, MTP::Never); const auto n = ims.Symbols().size(); const auto count = ims.size();
        auto ext = random_extension(r, w); ext.insert(ext.begin() + r.below(ext.size() + 1), r.coin() ? static_cast<symbol_name_t>(n + r.below(5)) : static_cast<symbol_name_t>(-1 - static_cast<long>(r.below(3))));
        const auto mt = r.coin() ? MTP::Always : MTP::Never; w.hist += "extend by {" + join(ext) + "}" + (mt == MTP::Always ? " threads" : ""); c.note(w.hist);
        CHECK(verif::throws([&] { ims.ExtendedMatrices.create(ExtendedMatrixIndex{1, std::span<const symbol_name_t>(ext)}, mt); }), "unknown-scalar", w.hist << " accepted");
        CHECK(ims.size() == count && ims.Symbols().size() == n && !ims.ExtendedMatrices.contains(ExtendedMatrixIndex{1, std::span<const symbol_name_t>(ext)}), "failed-request-changed", w.hist);
        check_table(c, w); extend(c, r, w, 1, random_extension(r, w), mt); check_table(c, w);
        if (w.s->ops()) { // localizing matrices cannot be extended or suggested for
            auto& lm = ims.LocalizingMatrix(LocalizingMatrixIndex{1, w.s->make(Word{0})}, MTP::Never); if (lm.is_monomial()) CHECK(verif::throws([&] { (void) ims.suggest_extensions(dynamic_cast<const MonomialMatrix&>(lm)); }), "suggest-localizing", w.hist); }
        c.nontrivial(w.hist);
    });
}
