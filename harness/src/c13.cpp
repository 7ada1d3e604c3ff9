// C13: substituted matrices are the originals with every rule applied entrywise.
#include "mats.h"
#include "rules.h"
#include "matrix/substituted_matrix.h"
#include "symbolic/rules/moment_rulebook.h"
using namespace verif;
using namespace Moment;

namespace {
    Polynomial entry(const Tab& t, const SymbolicMatrix& m, size_t i, size_t j) {
        if (m.is_monomial()) { auto& e = dynamic_cast<const MonomialMatrix&>(m).SymbolMatrix(i, j); return e.id == 0 ? Polynomial::Zero() : t.fac()({e}); }
        Polynomial::storage_t d; for (auto& e : dynamic_cast<const PolynomialMatrix&>(m).SymbolMatrix(i, j)) d.push_back(e);
        return t.fac()(std::move(d));
    }
    double norm(const Polynomial& p) { double s = 0; for (auto& m : p) s += std::abs(m.factor); return s; }
    std::string dump(const SymbolicMatrix& m) { std::string o = "["; for (size_t i = 0; i < m.Dimension() && i < 5; ++i) { for (size_t j = 0; j < m.Dimension() && j < 5; ++j) o += entry_text(m, i, j) + ", "; o += "; "; } return o + "]"; }
    std::string rules_text(const MomentRulebook& b) { std::string o; for (auto& [id, rule] : b) { std::stringstream ss; ss << "#" << id << (rule.is_partial() ? " ~> " : " -> ") << Tab::text(rule.RHS()) << "; "; o += ss.str(); } return o; }
    bool hermitian_value(const Mat& v, double tol) { for (int i = 0; i < v.n; ++i) for (int j = 0; j <= i; ++j) if (std::abs(v(i, j) - std::conj(v(j, i))) > tol * (1 + std::abs(v(i, j)))) return false; return true; }
    /** A substituted matrix against its source and rules. */
    void check_sub(Ctx& c, Rng& r, const Tab& t, const SymbolicMatrix& src, const MomentRulebook& b, const SymbolicMatrix& sub, const std::string& what, const Lin* lin) {
        const size_t d = src.Dimension();
        CHECK(sub.Dimension() == d, "dimension", what << ": " << sub.Dimension() << " instead of " << d);
        if (sub.Dimension() != d) return;
        const bool mono = src.is_monomial() && b.is_monomial();
        CHECK(sub.is_monomial() == mono, "kind", what << ": monomial " << sub.is_monomial());
        CHECK(&sub.symbols == &t.sym(), "symbols", what);
        auto* info = dynamic_cast<const SubstitutedMatrix*>(&sub);
        CHECK(info && &info->source_matrix == &src && &info->rules == &b, "provenance", what);
        for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) {
            const auto want = b.reduce(entry(t, src, i, j)); const auto got = entry(t, sub, i, j);
            Polynomial::storage_t diff; for (auto& m : want) diff.push_back(m); for (auto& m : got) diff.push_back(Monomial{m.id, -m.factor, m.conjugated});
            CHECK(norm(t.fac()(std::move(diff))) <= 1e-8 * (1 + norm(want)), "entry", what << " entry (" << i << "," << j << "): " << entry_text(src, i, j) << " became " << Tab::text(got) << " instead of " << Tab::text(want));
            if (sub.is_monomial()) { auto& e = dynamic_cast<const MonomialMatrix&>(sub).SymbolMatrix(i, j); CHECK(!e.conjugated || t.sym()[e.id].basis_key().second >= 0, "entry-canonical", what << " entry (" << i << "," << j << "): " << Tab::text(e)); }
            else { auto bad = t.canonical(dynamic_cast<const PolynomialMatrix&>(sub).SymbolMatrix(i, j)); CHECK(bad.empty(), "entry-canonical", what << " entry (" << i << "," << j << "): " << entry_text(sub, i, j) << ": " << bad); }
        }
        if (lin) for (int k = 0; k < 2; ++k) {
            auto v = lin->solution(r); Mat x = Tab::eval(src, v), y = Tab::eval(sub, v); double s = 1; for (auto& z : v) s = std::max(s, std::abs(z));
            for (int i = 0; i < (int) d; ++i) for (int j = 0; j < (int) d; ++j) CHECK(std::abs(x(i, j) - y(i, j)) <= 1e-7 * s * (1 + norm(entry(t, sub, i, j)) + norm(entry(t, src, i, j))), "value", what << " entry (" << i << "," << j << "): " << entry_text(src, i, j) << " is " << x(i, j) << " on a solution, " << entry_text(sub, i, j) << " is " << y(i, j));
        }
        // Hermiticity: never claimed wrongly; kept where source and rules have it
        auto v = t.values(r); Mat y = Tab::eval(sub, v); const bool herm = hermitian_value(y, 1e-7);
        CHECK(!sub.Hermitian() || herm, "hermitian-claimed", what << " is flagged Hermitian: " << dump(sub));
        if (src.Hermitian() && b.is_hermitian()) CHECK(herm, "hermitian-lost", what << ": " << dump(src) << " became " << dump(sub));
        if (src.Hermitian() && b.is_hermitian() && sub.is_monomial()) CHECK(sub.Hermitian(), "hermitian-flag-lost", what << ": " << dump(sub));
        if (!sub.is_monomial()) { // flag found from entries, up to rounding
            bool exact = true; for (size_t i = 0; i < d && exact; ++i) for (size_t j = 0; j < d && exact; ++j) for (auto& m : entry(t, sub, i, j)) { const double a = m.factor.real() * 16, z = m.factor.imag() * 16; if (a != std::round(a) || z != std::round(z)) exact = false; }
            if (exact) { CHECK(sub.Hermitian() == herm, "hermitian-flag", what << ": flagged " << sub.Hermitian() << ": " << dump(sub)); c.count("exact-polynomial-matrices"); }
        }
        check_properties(c, t.sym(), sub, what);
        c.count("entries", d * d);
        c.count(mono ? "monomial-results" : "polynomial-results");
        if (sub.Hermitian()) c.count("hermitian-results");
    }
    /** A rulebook (random mix), completed; nullptr if the equations are contradictory or ill-conditioned. */
    std::unique_ptr<MomentRulebook> random_book(Ctx& c, Rng& r, const Tab& t, std::unique_ptr<Lin>& lin, std::string& text, size_t max_eqs, bool monomial = false) {
        Equations e;
        if (monomial) {
            e.forced = false;
            for (size_t k = 1 + r.below(max_eqs); k > 0; --k) {
                auto any = [&] { return static_cast<symbol_name_t>(t.size() > 2 ? 2 + r.below(t.size() - 2) : 1); };
                const auto x = any(); if (x == 1) continue; const auto cf = all_coefs[r.below(5)];
                Polynomial::storage_t d{Monomial{x, 1.0, r.coin()}};
                const size_t how = r.below(3);
                if (how == 1) { cd v = Tab::coef(r, cf); auto k2 = t.sym()[x].basis_key(); if (k2.second < 0 && r.chance(9, 10)) v = v.real(); else if (k2.first < 0) v = cd{0, v.real()}; d.push_back(Monomial{1, v, false}); }
                else if (how == 2) { const auto y = any(); cd f = Tab::coef(r, cf); auto kx = t.sym()[x].basis_key(), ky = t.sym()[y].basis_key(); const bool rx = kx.second < 0, ix = kx.first < 0, ry = ky.second < 0, iy = ky.first < 0; if ((rx && ry) || (ix && iy)) f = f.real(); else if ((rx && iy) || (ix && ry)) f = cd{0, f.real()}; d.push_back(Monomial{y, f, r.coin()}); }
                e.eqs.push_back(t.fac()(std::move(d)));
            }
            for (auto& p : e.eqs) e.text += "{" + Tab::text(p) + "} ";
        } else e = random_equations(r, t, max_eqs);
        lin = std::make_unique<Lin>(t); for (auto& p : e.eqs) lin->add(p); lin->solve();
        text = e.text;
        if (lin->doubtful || !lin->consistent) { c.count("skipped-books"); return nullptr; }
        auto b = std::make_unique<MomentRulebook>(*t.ms); b->add_raw_rules(std::move(e.eqs)); b->complete();
        return b;
    }
}

// hand-made matrices over symbols of every kind
static void handmade(Ctx& c, Rng& r, bool monomial_rules) {
    auto t = Tab::random(r, 8, -1, 1e6, true, true);
    if (t->size() < 3) return;
    std::unique_ptr<Lin> lin; std::string text;
    auto b = random_book(c, r, *t, lin, text, 5, monomial_rules);
    if (!b) return;
    b->set_name("rules");
    const size_t d = 1 + r.below(4); const bool herm = r.chance(2, 3); const auto cf = all_coefs[r.below(5)];
    std::unique_ptr<SymbolicMatrix> src; if (r.chance(2, 3)) src = random_mm(r, *t, d, herm, cf); else src = random_pm(r, *t, d, herm, cf);
    const auto what = t->desc + " " + text + (herm ? "hermitian " : "") + dump(*src);
    c.note(what);
    for (auto mt : {MTP::Never, MTP::Always, MTP::Optional}) {
        if (mt == MTP::Always && !r.chance(1, 6)) continue;
        auto sub = b->create_substituted_matrix(t->msym(), *src, mt);
        check_sub(c, r, *t, *src, *b, *sub, what + " by " + rules_text(*b), lin.get());
        CHECK(sub->Description().find(src->Description()) != std::string::npos && sub->Description().find("rules") != std::string::npos, "description", what << ": " << sub->Description());
        auto twice = b->create_substituted_matrix(t->msym(), *sub, mt); // nothing further to rewrite
        auto v = t->values(r); Mat x = Tab::eval(*sub, v), y = Tab::eval(*twice, v);
        for (int i = 0; i < (int) d; ++i) for (int j = 0; j < (int) d; ++j) CHECK(std::abs(x(i, j) - y(i, j)) <= 1e-6 * (1 + norm(entry(*t, *sub, i, j)) * 3), "twice", what << " by " << rules_text(*b) << ": applying the rules again changes entry (" << i << "," << j << ") " << entry_text(*sub, i, j) << " to " << entry_text(*twice, i, j));
        auto copy = sub->clone(MTP::Never); Mat z = Tab::eval(*copy, v); bool same = copy->Hermitian() == sub->Hermitian() && copy->is_monomial() == sub->is_monomial(); for (int i = 0; i < (int) d; ++i) for (int j = 0; j < (int) d; ++j) if (!verif::close(x(i, j), z(i, j))) same = false;
        CHECK(same, "clone", what << " by " << rules_text(*b));
    }
    c.nontrivial(what);
}
SECTION(handmade_general) { c.for_cases(c.n(2500, 60000), [&](Rng& r, uint64_t) { handmade(c, r, false); }); }
SECTION(handmade_monomial) { c.for_cases(c.n(2500, 60000), [&](Rng& r, uint64_t) { handmade(c, r, true); }); }

// oriented rules added directly: they may give a Hermitian symbol a value that is not Hermitian
SECTION(injected) { c.for_cases(c.n(2000, 40000), [&](Rng& r, uint64_t) {
    auto t = Tab::random(r, 8, -1, 1e6, true, true);
    if (t->size() < 4) return;
    MomentRulebook b{*t->ms}; b.set_name("rules");
    const size_t n = t->size(), low = 2 + r.below(n - 3); const bool mono = r.chance(2, 3); const auto cf = all_coefs[r.below(5)]; // symbols from low on are rewritten, in terms of those before
    for (size_t x = low; x < n; ++x) { if (r.chance(1, 3)) continue;
        Polynomial::storage_t p; for (size_t k = mono ? 1 : r.below(3); k > 0; --k) { const auto y = static_cast<symbol_name_t>(1 + r.below(low - 1)); p.push_back(Monomial{y, Tab::coef(r, cf), y != 1 && r.coin()}); }
        CHECK(b.inject(static_cast<symbol_name_t>(x), t->fac()(std::move(p))), "inject", t->desc); }
    b.complete();
    std::unique_ptr<SymbolicMatrix> src; const size_t d = 1 + r.below(4); const bool herm = r.chance(3, 4); if (r.chance(3, 4)) src = random_mm(r, *t, d, herm, cf); else src = random_pm(r, *t, d, herm, cf);
    const auto what = t->desc + " " + (herm ? "hermitian " : "") + dump(*src) + " by " + rules_text(b);
    c.note(what);
    auto sub = b.create_substituted_matrix(t->msym(), *src, MTP::Never);
    check_sub(c, r, *t, *src, b, *sub, what, nullptr);
    if (src->Hermitian() && !b.is_hermitian()) c.count("non-hermitian-rules");
    if (src->Hermitian() && !sub->Hermitian()) c.count("hermiticity-lost");
    c.nontrivial(what);
}); }

// the matrix system: rulebooks and matrices of a scenario, requests in any order, growth in between
static void system_case(Ctx& c, Rng& r, int kind) {
    Tab t; t.sys = random_sys(r, kind, 6, 1e6); t.ms = t.sys->ms.get(); t.desc = t.sys->desc();
    auto& s = *t.sys; auto& ms = *s.ms;
    struct Src { ptrdiff_t idx; }; std::vector<ptrdiff_t> mats; std::vector<std::pair<size_t, std::unique_ptr<Lin>>> books;
    std::map<std::pair<ptrdiff_t, size_t>, std::pair<ptrdiff_t, std::string>> made;
    std::string hist = t.desc + ": "; std::set<size_t> used;
    std::set<std::pair<ptrdiff_t, size_t>> fresh;
    auto grow = [&] {
        const size_t lvl = r.below(s.level_cap(14, 2) + 1);
        switch (r.below(3)) {
            case 0: mats.push_back((ptrdiff_t) ms.MomentMatrix.create(lvl).first); hist += "mm" + std::to_string(lvl) + "; "; break;
            case 1: { auto w = s.random_nonzero(r, 3); const size_t l = std::min<size_t>(lvl, 1); mats.push_back((ptrdiff_t) ms.LocalizingMatrix.create(LocalizingMatrixIndex{l, s.make(w, r.chance(1, 3) ? (int) r.below(4) : 0)}).first); hist += "lm" + std::to_string(l) + wstr(w) + "; "; break; }
            default: { if (!ms.Symbols().size()) return; RawPolynomial p; for (size_t i = 1 + r.below(3); i > 0; --i) p.emplace_back(s.make(s.random_nonzero(r, 2)), cd{std::round(r.sym() * 4) + 0.5, r.coin() ? 0 : std::round(r.sym() * 3)});
                mats.push_back((ptrdiff_t) ms.create_and_register_localizing_matrix(std::min<size_t>(lvl, 1), p, MTP::Never).first); hist += "plm; "; }
        }
    };
    grow();
    for (int step = 0; step < 14; ++step) {
        const auto op = r.below(10);
        if (op < 2) grow();
        else if (op < 4 || books.empty()) {
            if (t.size() < 3) continue;
            std::unique_ptr<Lin> lin; std::string text;
            const bool mono = r.coin();
            auto b = random_book(c, r, t, lin, text, 4, mono);
            if (!b) continue;
            const size_t had = ms.Rulebook.size(); size_t id = had;
            try { auto [at, ref] = ms.Rulebook.add(std::move(b)); id = at; CHECK(&ms.Rulebook(id) == &ref && id == had && ms.Rulebook.size() == had + 1, "book-index", hist); }
            catch (const std::exception& x) { // a factorising scenario may lack the symbol for a product, or find a contradiction
                CHECK(s.kind == Sys::Inflation, "book-refused", hist << " adding " << text << ": " << x.what()); CHECK(ms.Rulebook.size() == had && b, "failed-add", hist << " adding " << text << ": " << x.what()); c.count("refused-books"); continue; }
            // factorising scenarios add rules: no longer decided by the linear system alone
            books.emplace_back(id, s.kind == Sys::Inflation ? nullptr : std::move(lin)); hist += "rules" + std::to_string(id) + " " + text + "; ";
        } else if (op < 5 && !books.empty()) { // merge before use
            const size_t at = r.below(books.size()); bool dead = false;
            auto& [id, lin] = books[at];
            std::unique_ptr<Lin> extra; std::string text; auto b = random_book(c, r, t, extra, text, 2, r.coin()); if (!b) continue;
            Lin both(t); if (lin) { both.rows = lin->rows; for (auto& x : extra->rows) both.rows.push_back(x); }
            // rows of different length if symbols were added since
            if (lin && !lin->rows.empty() && lin->n != extra->n) continue;
            if (lin) { both.solve(); if (both.doubtful || !both.consistent) continue; }
            const auto before = rules_text(ms.Rulebook(id)); const bool use = used.count(id) != 0;
            bool threw = false; try { ms.Rulebook.merge_in(id, std::move(*b)); } catch (const errors::already_in_use&) { threw = true; } catch (const std::exception& x) { CHECK(!lin, "merge-refused", hist << " merging " << text << ": " << x.what()); dead = true; }
            if (dead) { CHECK(rules_text(ms.Rulebook(id)) == before && !ms.Rulebook(id).pending_rules(), "failed-merge-changed", hist << " merging " << text << " into " << id << ": " << before << " became " << rules_text(ms.Rulebook(id))); c.count("refused-merges"); continue; }
            if (lin || use) CHECK(threw == use, "merge-in-use", hist << " merging " << text << " into " << id);
            if (threw) CHECK(rules_text(ms.Rulebook(id)) == before, "merge-changed", hist << " merging " << text << " into " << id);
            else { if (lin) { auto l = std::make_unique<Lin>(t); l->rows = both.rows; l->solve(); lin = std::move(l); } hist += "merge " + text + " into " + std::to_string(id) + "; "; c.count("merges"); }
        } else {
            const auto m = r.pick(mats); auto& [id, lin] = books[r.below(books.size())];
            hist += "sub " + std::to_string(m) + " by " + std::to_string(id) + "; "; c.note(hist);
            auto& src = ms[m]; auto& b = ms.Rulebook(id);
            const SubstitutedMatrixIndex idx{m, (ptrdiff_t) id};
            const size_t before = ms.size(); const bool known = made.count({m, id}) != 0;
            CHECK(ms.SubstitutedMatrix.contains(idx) == known, "contains", hist);
            auto [off, sub] = ms.SubstitutedMatrix.create(idx, r.chance(1, 5) ? MTP::Always : MTP::Never);
            used.insert(id);
            CHECK(&ms.SubstitutedMatrix(idx) == &sub && &ms[(ptrdiff_t) off] == &sub && ms.SubstitutedMatrix.find_index(idx) == (ptrdiff_t) off, "index", hist);
            CHECK(ms.size() == before + (known ? 0 : 1), "count", hist);
            if (known) { auto& was = made[{m, id}]; CHECK(was.first == (ptrdiff_t) off && was.second == dump(sub), "changed", hist << ": " << was.second << " became " << dump(sub)); c.count("repeats"); }
            else { made[{m, id}] = {(ptrdiff_t) off, dump(sub)}; mats.push_back((ptrdiff_t) off); }
            if (!known) {
                // the linear system refers to the symbols known when the book was made
                std::unique_ptr<Lin> now; if (lin && lin->n == Lin{t}.n) { now = std::make_unique<Lin>(t); now->rows = lin->rows; now->solve(); }
                check_sub(c, r, t, src, b, sub, hist + " by " + rules_text(b), now.get());
            }
        }
    }
    for (auto& [k, v] : made) { CHECK(dump(ms[v.first]) == v.second, "later-changed", hist << ": matrix " << v.first); }
    c.nontrivial(hist);
}
SECTION(system_locality) { c.for_cases(c.n(160, 4000), [&](Rng& r, uint64_t) { system_case(c, r, Sys::Locality); }); }
SECTION(system_algebraic) { c.for_cases(c.n(160, 4000), [&](Rng& r, uint64_t) { system_case(c, r, Sys::Algebraic); }); }
SECTION(system_inflation) { c.for_cases(c.n(100, 3000), [&](Rng& r, uint64_t) { system_case(c, r, Sys::Inflation); }); }
SECTION(system_pauli) { c.for_cases(c.n(160, 4000), [&](Rng& r, uint64_t) { system_case(c, r, Sys::Pauli); }); }

// large matrices rewritten by several threads at once
SECTION(mt_large) {
    c.for_cases(c.n(60, 1200), [&](Rng& r, uint64_t) {
        auto t = Tab::random(r, 30, 1, 1e6, true, true);
        if (t->size() < 3) return;
        std::unique_ptr<Lin> lin; std::string text;
        auto b = random_book(c, r, *t, lin, text, 8, r.coin());
        if (!b) return;
        const size_t d = 1 + r.below(40); const bool herm = r.coin(); const auto cf = all_coefs[r.below(5)];
        std::unique_ptr<SymbolicMatrix> src; if (r.chance(2, 3)) src = random_mm(r, *t, d, herm, cf); else src = random_pm(r, *t, d, herm, cf);
        const auto what = t->desc + " " + text + " dimension " + std::to_string(d);
        c.note(what);
        auto a = b->create_substituted_matrix(t->msym(), *src, MTP::Never), z = b->create_substituted_matrix(t->msym(), *src, MTP::Always);
        check_sub(c, r, *t, *src, *b, *z, what + " threads", lin.get());
        CHECK(a->is_monomial() == z->is_monomial() && a->Hermitian() == z->Hermitian() && a->IncludedSymbols() == z->IncludedSymbols() && a->RealBasisIndices() == z->RealBasisIndices() && a->ImaginaryBasisIndices() == z->ImaginaryBasisIndices(), "threads-properties", what);
        for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) CHECK(entry_text(*a, i, j) == entry_text(*z, i, j), "threads-entry", what << " (" << i << "," << j << "): " << entry_text(*a, i, j) << " vs " << entry_text(*z, i, j));
        c.nontrivial(what);
    });
}
