// C19: imported matrices keep their content, and only sound structure is inferred from them.
#include "bases.h"
#include "matrix/substituted_matrix.h"
#include "scenarios/imported/imported_context.h"
#include "symbolic/rules/moment_rulebook.h"
#include <thread>
using namespace verif;
using namespace Moment;
using verif::close;

namespace {
    using MTP = Multithreading::MultiThreadPolicy;
    /** Values a symbol may take: all of C, the real or the imaginary axis, another line, or only zero. */
    enum Sub { All, Real, Imag, Line, Zero };
    Sub meet(Sub a, Sub b) { if (a == All || a == b) return b == Line && a == Line ? Zero : b; if (b == All) return a; return Zero; } // (two lines: told apart by caller never being asked for both)
    /** Solutions a of c1 a + c2 conj(a) = 0 (coefficients are exact). */
    Sub solve(cd c1, cd c2) {
        const cd u = c1 + c2, v = cd{0, 1} * (c1 - c2);
        if (u == 0.0 && v == 0.0) return All;
        if (u == 0.0) return Real; if (v == 0.0) return Imag;
        return u.real() * v.imag() - u.imag() * v.real() == 0.0 ? Line : Zero;
    }
    struct Lit { long id; cd f; bool conj; };
    std::string text(const std::vector<Lit>& m, size_t d) { std::stringstream ss; for (size_t i = 0; i < d; ++i) { ss << (i ? " / " : "["); for (size_t j = 0; j < d; ++j) { auto& e = m[j * d + i]; ss << (j ? " " : ""); if (e.f != 1.0) { if (e.f.imag() == 0) ss << e.f.real() << "#"; else ss << e.f << "#"; } ss << e.id << (e.conj ? "*" : ""); } } ss << "]"; return ss.str(); }
    struct Held { size_t at; const SymbolicMatrix* m; std::vector<Lit> lit; size_t d; bool herm, gone = false; };
    struct Book { ptrdiff_t id; std::map<long, double> rules; };
    struct SubM { const SymbolicMatrix* m; size_t src, book; };
    struct World {
        Tab t; Imported::ImportedMatrixSystem* ims; bool real; std::vector<Sub> model{Zero, Real}; std::vector<Held> held; std::vector<Book> books; std::vector<SubM> subs; std::string hist;
        explicit World(bool real_in) : real{real_in} { auto p = std::make_unique<Imported::ImportedMatrixSystem>(real); ims = p.get(); t.imp = std::move(p); t.ms = ims; hist = real ? "real system:" : "system:"; t.desc = hist; }
        cd value(const Lit& e, const std::vector<cd>& v) const { return e.id == 0 ? cd{} : e.f * (e.conj ? std::conj(v[static_cast<size_t>(e.id)]) : v[static_cast<size_t>(e.id)]); }
        std::vector<cd> values(Rng& r) const { std::vector<cd> v; for (size_t i = 0; i < model.size(); ++i) v.push_back(i == 1 ? cd{1} : model[i] == Zero ? cd{} : model[i] == Real ? cd{r.sym() * 3} : model[i] == Imag ? cd{0, r.sym() * 3} : cd{r.sym() * 3, r.sym() * 3}); return v; }
        /** What importing implies, or nothing if it contradicts. */
        std::optional<std::vector<Sub>> implied(const std::vector<Lit>& m, size_t d, bool cplx, bool herm) const {
            if (real && cplx) return std::nullopt;
            auto now = model; long top = static_cast<long>(model.size()) - 1; for (auto& e : m) { if (e.id < 0) return std::nullopt; top = std::max(top, e.id); }
            while (static_cast<long>(now.size()) <= top) now.push_back(real ? Real : All);
            auto bound = [&](long id, cd c1, cd c2) { if (id == 0) return true; auto& s = now[static_cast<size_t>(id)]; const auto n = solve(c1, c2); s = meet(s, n); if (n == Line) s = Zero; return s != Zero; };
            bool ok = true;
            for (size_t j = 0; herm && j < d; ++j) for (size_t i = 0; i <= j; ++i) {
                const auto &u = m[j * d + i], &l = m[i * d + j];
                if (u.id != l.id) { ok = false; continue; }
                // conj(u) = l (complex: Hermitian) or u = l (real: symmetric)
                cd c1{}, c2{}; const bool uc = cplx ? !u.conj : u.conj; const cd uf = cplx ? std::conj(u.f) : u.f;
                (uc ? c2 : c1) += uf; (l.conj ? c2 : c1) -= l.f;
                ok &= bound(u.id, c1, c2);
            }
            if (!cplx) for (auto& e : m) ok &= bound(e.id, 1.0, -1.0);
            if (!ok) return std::nullopt;
            return now;
        }
        /** Everything the system says now. */
        void audit(Ctx& c, Rng& r, const std::string& when, bool bases) {
            auto& tab = t.sym(); const std::string what = hist + " | " + when;
            if (!CHECK(tab.size() == model.size(), "symbol-count", what << ": " << tab.size() << " symbols, expected " << model.size())) return;
            size_t re = 0, im = 0;
            for (size_t i = 0; i < model.size(); ++i) {
                auto& s = tab[static_cast<symbol_name_t>(i)]; const bool h = model[i] == Real || model[i] == Zero, a = model[i] == Imag || model[i] == Zero;
                CHECK(s.Id() == static_cast<symbol_name_t>(i), "symbol-id", what);
                CHECK(s.is_hermitian() == h && s.is_antihermitian() == a, "symbol-reality", what << ": symbol " << i << " is " << (s.is_hermitian() ? "real " : "") << (s.is_antihermitian() ? "imaginary" : "") << ", structure implies " << (h ? "real " : "") << (a ? "imaginary" : ""));
                const std::pair<ptrdiff_t, ptrdiff_t> key{a ? -1 : static_cast<ptrdiff_t>(re), h ? -1 : static_cast<ptrdiff_t>(im)};
                CHECK(s.basis_key() == key && tab.Basis(static_cast<symbol_name_t>(i)) == key, "basis-key", what << ": symbol " << i << " has parts " << s.basis_key().first << "," << s.basis_key().second << ", expected " << key.first << "," << key.second);
                if (!a) { if (re < tab.Basis.RealSymbolCount()) CHECK(tab.Basis.RealSymbols()[re] == i && tab.Basis.imaginary_from_real(key.first) == key.second, "basis-list", what << " real part " << re); ++re; }
                if (!h) { if (im < tab.Basis.ImaginarySymbolCount()) CHECK(tab.Basis.ImaginarySymbols()[im] == i && tab.Basis.real_from_imaginary(key.second) == key.first, "basis-list", what << " imaginary part " << im); ++im; }
            }
            CHECK(tab.Basis.RealSymbolCount() == re && tab.Basis.ImaginarySymbolCount() == im, "basis-count", what);
            for (auto& k : held) {
                const std::string w = what + " matrix " + std::to_string(k.at) + " " + text(k.lit, k.d);
                if (k.gone) { CHECK(verif::throws([&] { (void) std::as_const(*ims)[k.at]; }), "deleted-readable", w); continue; }
                CHECK(&std::as_const(*ims)[k.at] == k.m, "matrix-index", w);
                if (!CHECK(k.m->Dimension() == k.d && k.m->is_monomial(), "matrix-shape", w)) continue;
                auto& mm = dynamic_cast<const MonomialMatrix&>(*k.m);
                for (int rep = 0; rep < 2; ++rep) { auto v = values(r); for (size_t i = 0; i < k.d; ++i) for (size_t j = 0; j < k.d; ++j) { auto& e = mm.SymbolMatrix(i, j); auto& l = k.lit[j * k.d + i];
                    CHECK((e.id == l.id || l.id == 0) && close(e.id == 0 ? cd{} : e.factor * (e.conjugated ? std::conj(v[static_cast<size_t>(e.id)]) : v[static_cast<size_t>(e.id)]), value(l, v)), "entry", w << " entry (" << i << "," << j << ") is " << entry_text(mm, i, j)); } }
                CHECK(k.m->Hermitian() == k.herm, "hermitian-flag", w);
                check_properties(c, tab, *k.m, w); if (bases && r.coin()) check_bases(c, r, t, *k.m, w, false);
            }
            for (auto& s : subs) {
                auto& k = held[s.src]; auto& b = books[s.book]; const std::string w = what + " matrix " + std::to_string(k.at) + " by rules " + std::to_string(s.book); bool fine = true; auto v = values(r);
                for (auto& [id, x] : b.rules) { if (model[static_cast<size_t>(id)] == Imag) fine = false; v[static_cast<size_t>(id)] = x; } // (rules made before a symbol was found imaginary: contradictory)
                if (!fine) continue;
                for (size_t i = 0; i < k.d; ++i) for (size_t j = 0; j < k.d; ++j) { cd got{}; auto add = [&](const Monomial& e) { CHECK(!b.rules.contains(e.id), "substituted-symbol-left", w << " entry " << entry_text(*s.m, i, j)); if (e.id) got += e.factor * (e.conjugated ? std::conj(v[static_cast<size_t>(e.id)]) : v[static_cast<size_t>(e.id)]); };
                    if (auto* mm = dynamic_cast<const MonomialMatrix*>(s.m)) add(mm->SymbolMatrix(i, j)); else for (auto& e : dynamic_cast<const PolynomialMatrix&>(*s.m).SymbolMatrix(i, j)) add(e);
                    CHECK(close(got, value(k.lit[j * k.d + i], v)), "substituted-entry", w << " entry (" << i << "," << j << ") of " << text(k.lit, k.d) << " became " << entry_text(*s.m, i, j)); }
                check_properties(c, tab, *s.m, w);
                c.count("substituted");
            }
            c.count("audits");
        }
        /** Import, and hold the answer against the model. */
        bool import(Ctx& c, Rng& r, const std::vector<Lit>& lit, size_t d, bool cplx, bool herm) {
            std::vector<Monomial> data; for (auto& e : lit) data.emplace_back(static_cast<symbol_name_t>(e.id), e.f, e.conj);
            auto want = implied(lit, d, cplx, herm); const auto count = ims->size();
            hist += std::string(" ") + (cplx ? "complex" : "real") + (herm ? (cplx ? " Hermitian" : " symmetric") : "") + text(lit, d); c.note(hist);
            bool ok = false; size_t at = 0; const SymbolicMatrix* m = nullptr; std::string error;
            try { auto [i, ref] = ims->import_matrix(std::make_unique<SquareMatrix<Monomial>>(d, std::move(data)), cplx, herm); at = i; m = &ref; ok = true; } catch (const Imported::errors::bad_import_matrix& e) { error = e.what(); }
            if (ok) CHECK(want.has_value(), "inconsistent-accepted", hist); else CHECK(!want.has_value(), "consistent-refused", hist << ": " << error);
            if (ok != want.has_value()) return false;
            CHECK(ims->size() == count + ok, "matrix-count", hist);
            if (ok) { CHECK(at == count, "new-index", hist << " at " << at); model = *want; held.push_back({at, m, lit, d, herm}); c.count("imports"); if (herm) c.count("hermitian_imports"); } else { hist += "(refused)"; c.count("refused"); }
            audit(c, r, ok ? "after import" : "after refused import", true);
            return ok;
        }
        std::vector<Lit> random(Rng& r, size_t d, bool cplx, bool herm, long top, bool phases) const {
            auto f = [&] { cd x{r.pick(std::vector<double>{1, 1, 1, -1, 2, 0.5, -0.25, 3})}; if (cplx && phases && r.chance(1, 4)) x *= r.pick(std::vector<cd>{{0, 1}, {0, -1}, {1, 1}, {1, -1}}); return x; };
            auto one = [&] { return Lit{r.chance(1, 8) ? static_cast<long>(r.below(2)) : 2 + static_cast<long>(r.below(static_cast<uint64_t>(top))), f(), cplx && r.chance(1, 3)}; };
            std::vector<Lit> m(d * d, Lit{0, 1.0, false}); const uint64_t spoil = r.chance(1, 2) ? 0 : 1 + r.below(3);
            for (size_t j = 0; j < d; ++j) for (size_t i = 0; i <= j; ++i) {
                Lit u = one(), l = one();
                if (herm) { l = u; if (cplx) { l.f = std::conj(l.f); l.conj = !l.conj; } if (i == j) { if (cplx) { u.conj = u.conj && r.coin(); if (!r.chance(spoil, 30)) u.f = u.f.real() != 0 ? cd{u.f.real()} : cd{1}; } l = u; }
                    else if (r.chance(spoil, 10)) switch (r.below(5)) { case 0: l.conj = !l.conj && cplx; break; case 1: l.f = -l.f; break; case 2: l.f = cplx ? std::conj(l.f) : l.f; break; case 3: if (r.chance(1, 3)) l = one(); break; default: l.f *= r.pick(std::vector<double>{2, -1}); l.conj = cplx && !l.conj; } }
                m[j * d + i] = u; m[i * d + j] = l;
            }
            return m;
        }
    };
    void history(Ctx& c, Rng& r, bool phases) {
        World w(r.chance(1, 4)); const long top = 1 + static_cast<long>(r.below(r.chance(1, 10) ? 80 : 8)); size_t refused = 0;
        w.audit(c, r, "at first", false);
        for (int step = 0; step < 7 && c.violations.empty(); ++step) switch (r.below(8)) {
            default: { const bool cplx = !w.real ? r.chance(3, 4) : r.chance(1, 10), herm = r.chance(2, 3); const size_t d = r.chance(1, 15) ? 6 + r.below(5) : 1 + r.below(4);
                refused += !w.import(c, r, w.random(r, d, cplx, herm, top, phases), d, cplx, herm); break; }
            case 5: { if (w.held.empty()) break; auto& k = w.held[r.below(w.held.size())]; auto lock = w.ims->get_write_lock(); w.hist += " delete " + std::to_string(k.at); c.note(w.hist); CHECK(w.ims->delete_matrix(lock, static_cast<ptrdiff_t>(k.at)) == !k.gone, "delete-result", w.hist); k.gone = true; lock.unlock(); w.audit(c, r, "after delete", true); break; }
            case 6: { if (w.model.size() < 3) break; std::map<symbol_name_t, double> rules; Book b{0, {}}; for (size_t k = 1 + r.below(2); k > 0; --k) { const auto id = 2 + static_cast<long>(r.below(w.model.size() - 2)); if (w.model[static_cast<size_t>(id)] == Imag) continue; rules[id] = std::round(r.sym() * 8) / 4; b.rules[id] = rules[id]; }
                auto book = std::make_unique<MomentRulebook>(*w.ims); book->add_raw_rules(rules); book->complete(); b.id = w.ims->Rulebook.add(std::move(book)).first; w.books.push_back(b); w.hist += " rules {"; for (auto& [id, x] : b.rules) w.hist += std::to_string(id) + "=" + str(x) + " "; w.hist += "}"; c.note(w.hist); w.audit(c, r, "after rules", false); break; }
            case 7: { if (w.books.empty() || w.held.empty()) break; const size_t src = r.below(w.held.size()), book = r.below(w.books.size()); if (w.held[src].gone) break; bool stale = false; for (auto& [id, x] : w.books[book].rules) stale |= w.model[static_cast<size_t>(id)] == Imag; if (stale) break;
                const auto n = w.ims->size(); SubstitutedMatrixIndex idx{static_cast<ptrdiff_t>(w.held[src].at), w.books[book].id}; const bool had = w.ims->SubstitutedMatrix.contains(idx); w.hist += " substitute " + std::to_string(w.held[src].at) + " by " + std::to_string(book); c.note(w.hist); auto& m = w.ims->SubstitutedMatrix(idx, r.coin() ? MTP::Always : MTP::Never); if (!had) { CHECK(w.ims->size() == n + 1, "matrix-count", w.hist); w.subs.push_back({&m, src, book}); } w.audit(c, r, "after substitution", true); break; }
        }
        for (auto& k : w.held) if (!k.gone && r.chance(1, 3)) { auto copy = k.m->clone(r.coin() ? MTP::Always : MTP::Never); for (size_t i = 0; i < k.d; ++i) for (size_t j = 0; j < k.d; ++j) CHECK(entry_text(*copy, i, j) == entry_text(*k.m, i, j), "clone-entry", w.hist); CHECK(copy->Hermitian() == k.m->Hermitian(), "clone-flag", w.hist); if (r.coin()) check_bases(c, r, w.t, *copy, w.hist + " clone"); }
        if (w.held.size() > 1) c.nontrivial(w.hist); (void) refused;
    }
}
SECTION(histories) { c.for_cases(c.n(700, 20000), [&](Rng& r, uint64_t) { history(c, r, false); }); }
SECTION(phases) { c.for_cases(c.n(700, 20000), [&](Rng& r, uint64_t) { history(c, r, true); }); }
// every 1x1 and 2x2 structure over a few entries
SECTION(small) {
    std::vector<Lit> e; for (long id : {0L, 1L, 2L, 3L}) for (bool conj : {false, true}) for (cd f : {cd{1}, cd{-1}, cd{2}, cd{0, 1}, cd{0, -1}}) if (id > 1 || !conj) e.push_back({id, f, conj});
    const size_t n = e.size();
    c.for_cases(n * n * 4, [&](Rng& r, uint64_t k) { // off-diagonal pair x kind
        const auto &u = e[k % n], &l = e[(k / n) % n]; const bool cplx = (k / n / n) % 2, real = (k / n / n) / 2; World w(real); const auto dg = r.pick(e);
        auto fit = [&](Lit x) { if (!cplx) { x.conj = false; if (x.f.imag() != 0) x.f = 1; } return x; };
        if (r.coin()) w.import(c, r, {fit(dg)}, 1, cplx, true);
        Lit one{1, 1.0, false}; w.import(c, r, {one, fit(l), fit(u), one}, 2, cplx, true); c.nontrivial(w.hist);
    });
}
// bad requests leave everything as it was
SECTION(refusals) {
    c.for_cases(c.n(150, 3000), [&](Rng& r, uint64_t) {
        World w(r.chance(1, 4)); for (int k = 0; k < 3; ++k) { const bool cplx = !w.real && r.coin(), herm = r.coin(); const size_t d = 1 + r.below(3); w.import(c, r, w.random(r, d, cplx, herm, 6, false), d, cplx, herm); }
        const size_t d = 1 + r.below(3); auto m = w.random(r, d, !w.real, false, 6, false); m[r.below(d * d)].id = r.pick(std::vector<long>{-1, -2, -1000, std::numeric_limits<symbol_name_t>::min()}); w.import(c, r, m, d, !w.real, false);
        CHECK(verif::throws([&] { (void) w.ims->MomentMatrix(1); }), "moment-matrix-made", w.hist); CHECK(verif::throws([&] { (void) w.ims->LocalizingMatrix(LocalizingMatrixIndex{0, OperatorSequence::Identity(w.ims->Context())}); }), "localizing-matrix-made", w.hist);
        w.audit(c, r, "after refusals", true); c.nontrivial(w.hist);
    });
}
