// C12: moment rulebooks rewrite soundly and completely, whatever the insertion order.
#include "rules.h"
#include "symbolic/rules/moment_rulebook.h"
using namespace verif;
using namespace Moment;

namespace {
    struct Book { std::unique_ptr<MomentRulebook> b; std::string how; };
    using Cmp = MomentRulebook::RulebookComparisonResult;
    /** Add equations to a rulebook in one of the supported ways; throws whatever the library throws. */
    Book build(Rng& r, const Tab& t, std::vector<Polynomial> eqs, size_t mode) {
        Book o{std::make_unique<MomentRulebook>(*t.ms), ""};
        switch (mode) {
            case 0: o.how = "one batch"; o.b->add_raw_rules(std::move(eqs)); if (o.b->complete() != o.b->size()) throw std::logic_error{"complete() miscounts"}; break;
            case 1: o.how = "one at a time"; r.shuffle(eqs); for (auto& e : eqs) { o.b->add_raw_rule(Polynomial{e}); o.b->complete(); } break;
            case 2: o.how = "two batches"; { r.shuffle(eqs); const size_t k = r.below(eqs.size() + 1); for (size_t i = 0; i < k; ++i) o.b->add_raw_rule(Polynomial{eqs[i]}); o.b->complete(); std::vector<Polynomial> rest(eqs.begin() + (long)k, eqs.end()); o.b->add_raw_rules(std::move(rest)); o.b->complete(); } break;
            case 3: o.how = "merged books"; { r.shuffle(eqs); const size_t k = r.below(eqs.size() + 1); MomentRulebook other(*t.ms);
                for (size_t i = 0; i < eqs.size(); ++i) (i < k ? *o.b : other).add_raw_rule(Polynomial{eqs[i]});
                o.b->complete(); other.complete(); const size_t was = o.b->size(); if (o.b->combine_and_complete(std::move(other)) + was != o.b->size()) throw std::logic_error{"combine_and_complete() miscounts"}; } break;
            case 4: o.how = "several merged books"; { r.shuffle(eqs); for (size_t i = 0; i < eqs.size();) { MomentRulebook other(*t.ms); for (size_t k = 1 + r.below(3); k > 0 && i < eqs.size(); --k) other.add_raw_rule(Polynomial{eqs[i++]}); other.complete(); o.b->combine_and_complete(std::move(other)); } } break;
            case 5: o.how = "conjugated and scaled"; { r.shuffle(eqs); for (auto& e : eqs) { Polynomial p = r.coin() ? e.conjugate(t.sym()) : Polynomial{e}; o.b->add_raw_rule(t.fac().scale(p, Tab::coef(r, Tab::Gaussian))); } o.b->complete(); } break;
            default: o.how = "vectors of rules"; { r.shuffle(eqs); for (size_t i = 0; i < eqs.size();) { std::vector<Polynomial> part; for (size_t k = 1 + r.below(3); k > 0 && i < eqs.size(); --k) part.push_back(eqs[i++]); o.b->add_raw_rules(std::move(part)); } o.b->complete(); }
        }
        return o;
    }
    constexpr size_t modes = 7;
    std::string rules_text(const MomentRulebook& b) { std::string o; for (auto& [id, rule] : b) { std::stringstream ss; ss << "#" << id << (rule.is_partial() ? " ~> " : " -> ") << Tab::text(rule.RHS()) << "; "; o += ss.str(); } return o; }
    /** Number of independent real equations a completed book imposes, judged from its rules alone. */
    size_t book_rank(const Tab& t, const MomentRulebook& b) {
        size_t n = 0;
        for (auto& [id, rule] : b) { auto k = t.sym()[id].basis_key(); n += rule.is_partial() ? 1 : static_cast<size_t>(k.first >= 0) + static_cast<size_t>(k.second >= 0); }
        return n;
    }
    double scale_of(const Polynomial& p, const std::vector<cd>& v) { double s = 1; for (auto& m : p) s += std::abs(Tab::eval(m, v)); return s; }
    bool near(cd a, cd b, double scale) { return std::abs(a - b) <= 1e-7 * scale; }
    double norm(const Polynomial& p) { double s = 0; for (auto& m : p) s += std::abs(m.factor); return s; }
    /** Everything a completed rulebook promises, given the solution set of its equations. */
    void check_book(Ctx& c, Rng& r, const Tab& t, const MomentRulebook& b, const std::vector<Polynomial>& eqs, const Lin& lin, const std::string& what, const std::vector<std::vector<cd>>& sols) {
        const auto full = [&] { return what + " => " + rules_text(b); };
        CHECK(!b.pending_rules(), "pending", what << ": completed rulebook still has pending rules");
        CHECK(book_rank(t, b) == lin.rank, "rank", full() << " imposes " << book_rank(t, b) << " real equations, the input " << lin.rank);
        bool all_mono = true, all_herm = true;
        for (auto& [id, rule] : b) {
            CHECK(rule.LHS() == id, "rule-id", full());
            CHECK(id > 1 && static_cast<size_t>(id) < t.size(), "rule-target", full() << " rewrites symbol " << id);
            auto bad = t.canonical(rule.RHS()); CHECK(bad.empty(), "rule-canonical", full() << ": #" << id << ": " << bad);
            if (rule.RHS().size() > 1) all_mono = false;
            const auto k = t.sym()[id].basis_key();
            for (auto& v : sols) {
                const cd l = v[id], x = Tab::eval(rule.RHS(), v);
                CHECK(near(l, x, scale_of(rule.RHS(), v)), "rule-false", full() << ": #" << id << " = " << l << " becomes " << x << " on a solution");
                const cd z = Tab::eval(rule.as_polynomial(t.fac()), v);
                CHECK(near(z, 0, scale_of(rule.RHS(), v)), "rule-polynomial", full() << ": #" << id << " as polynomial has value " << z << " on a solution");
                if (k.second < 0 && std::abs(x.imag()) > 1e-7) all_herm = false;
            }
            // A rule's right-hand side is fully reduced, save the rule's own free part.
            for (auto& m : rule.RHS()) if (m.id != id || !rule.is_partial()) { auto it = b.find(m.id); CHECK(it == b.end() || it->second.is_partial(), "not-interreduced", full() << ": rule #" << id << " mentions #" << m.id); CHECK(t.fac().key(Monomial{m.id}) < t.fac().key(Monomial{id}), "rule-not-decreasing", full() << ": rule #" << id << " mentions #" << m.id); }
        }
        CHECK(b.is_monomial() == all_mono, "is-monomial", full() << " is_monomial() = " << b.is_monomial());
        (void) all_herm;
        // inputs vanish
        for (auto& e : eqs) for (int cj = 0; cj < 2; ++cj) {
            Polynomial p = cj ? e.conjugate(t.sym()) : Polynomial{e};
            const double n = norm(p); auto q = b.reduce(p);
            CHECK(norm(q) <= 1e-7 * (1 + n), "input-remains", full() << ": input " << Tab::text(p) << " reduces to " << Tab::text(q));
        }
        // reduction keeps values; idempotent; commutes with conjugation; blind to adding the equations
        for (int i = 0; i < 6; ++i) {
            const auto p = t.poly(r, 5, r.pick(std::vector<Tab::Coef>(std::begin(all_coefs), std::end(all_coefs))));
            const auto q = b.reduce(p);
            auto bad = t.canonical(q); CHECK(bad.empty(), "reduced-canonical", full() << ": " << Tab::text(p) << " reduces to " << Tab::text(q) << ": " << bad);
            for (auto& v : sols) CHECK(near(Tab::eval(p, v), Tab::eval(q, v), scale_of(p, v) + scale_of(q, v)), "reduce-value", full() << ": " << Tab::text(p) << " reduces to " << Tab::text(q) << ": " << Tab::eval(p, v) << " vs " << Tab::eval(q, v));
            auto diff = [&](const Polynomial& x, const Polynomial& y) { Polynomial::storage_t d; for (auto& m : x) d.push_back(m); for (auto& m : y) d.push_back(Monomial{m.id, -m.factor, m.conjugated}); return norm(t.fac()(std::move(d))); };
            const double sc = 1 + norm(p) + norm(q);
            CHECK(diff(b.reduce(q), q) <= 1e-7 * sc, "not-idempotent", full() << ": " << Tab::text(p) << " -> " << Tab::text(q) << " -> " << Tab::text(b.reduce(q)));
            CHECK(diff(b.reduce(p.conjugate(t.sym())), q.conjugate(t.sym())) <= 1e-7 * sc, "conjugation", full() << ": " << Tab::text(p) << " -> " << Tab::text(q) << " but its conjugate -> " << Tab::text(b.reduce(p.conjugate(t.sym()))));
            Polynomial copy{p}; const bool ever = b.reduce_in_place(copy);
            CHECK(copy == q, "in-place", full() << ": " << Tab::text(p));
            bool has = std::any_of(p.begin(), p.end(), [&](auto& m) { return b.find(m.id) != b.end(); });
            CHECK(ever == has, "in-place-flag", full() << ": " << Tab::text(p) << " flag " << ever);
            auto [ri, pi] = b.match(p); CHECK((ri != b.end()) == has, "match", full() << ": " << Tab::text(p)); if (ri != b.end()) CHECK(pi != p.end() && pi->id == ri->first, "match", full() << ": " << Tab::text(p));
            if (!eqs.empty()) {
                Polynomial e = r.pick(eqs); if (r.coin()) e = e.conjugate(t.sym());
                const auto q2 = b.reduce(t.fac().sum(p, t.fac().scale(e, Tab::coef(r, Tab::Gaussian))));
                CHECK(diff(q, q2) <= 1e-6 * (sc + norm(e)), "normal-form", full() << ": " << Tab::text(p) << " -> " << Tab::text(q) << " but plus a multiple of " << Tab::text(e) << " -> " << Tab::text(q2));
            }
            const auto m = t.mono(r, Tab::Gaussian);
            const auto qm = b.reduce(m);
            for (auto& v : sols) CHECK(near(Tab::eval(m, v), Tab::eval(qm, v), scale_of(qm, v) + 4), "reduce-monomial-value", full() << ": " << Tab::text(m) << " reduces to " << Tab::text(qm));
            if (m.id != 0) { CHECK(diff(qm, b.reduce(t.fac()({m}))) <= 1e-7 * (1 + norm(qm)), "monomial-vs-polynomial", full() << ": " << Tab::text(m) << " reduces to " << Tab::text(qm) << " but as polynomial " << Tab::text(b.reduce(t.fac()({m})))); }
            // monomial reduction
            const bool ruled = b.find(m.id) != b.end(); const bool mono = !ruled || b.find(m.id)->second.RHS().size() <= 1;
            std::optional<Monomial> out; const bool threw = [&] { try { out = b.reduce_monomial(m); return false; } catch (const errors::not_monomial& e) { return true; } }();
            CHECK(threw == !mono, "reduce-monomial-throws", full() << ": " << Tab::text(m) << " threw " << threw);
            if (out) for (auto& v : sols) CHECK(near(Tab::eval(m, v), Tab::eval(*out, v), 5), "reduce-monomial", full() << ": " << Tab::text(m) << " -> " << Tab::text(*out));
            c.count("reductions");
        }
    }
    std::vector<std::vector<cd>> solutions(Rng& r, const Lin& lin) { std::vector<std::vector<cd>> s; for (int i = 0; i < 3; ++i) s.push_back(lin.solution(r)); return s; }
    std::string desc(const Tab& t, const Equations& e, const std::string& how) { return t.desc + ": " + e.text + " (" + how + ")"; }
    bool hermitian_by_value(Rng& r, const Tab& t, const MomentRulebook& b) {
        // does every rule for a real symbol have a real right-hand side under every assignment?
        for (int i = 0; i < 2; ++i) { auto v = t.values(r); for (auto& [id, rule] : b) if (t.sym()[id].is_hermitian() && std::abs(Tab::eval(rule.RHS(), v).imag()) > 1e-7 * scale_of(rule.RHS(), v)) return false; }
        return true;
    }
    void equations_case(Ctx& c, Rng& r, int imported, size_t maxsym, size_t maxeq) {
        auto t = Tab::random(r, maxsym, imported, 1e6, true, true);
        if (t->size() < 3) return;
        auto e = random_equations(r, *t, maxeq);
        Lin lin(*t); for (auto& p : e.eqs) lin.add(p); lin.solve();
        if (lin.doubtful) { c.count("skipped-ill-conditioned"); return; }
        c.note(t->desc + " " + e.text);
        std::vector<std::vector<cd>> sols; if (lin.consistent) sols = solutions(r, lin);
        std::vector<Book> books;
        for (size_t k = 0; k < 3; ++k) {
            const size_t mode = k == 0 ? 0 : r.below(modes);
            std::string err; bool contradiction = false;
            try { books.push_back(build(r, *t, e.eqs, mode)); }
            catch (const errors::invalid_moment_rule& x) { contradiction = true; err = x.what(); }
            catch (const std::exception& x) { err = x.what(); CHECK(false, "unexpected-exception", desc(*t, e, std::to_string(mode)) << ": " << err); }
            if (lin.consistent) { CHECK(err.empty(), "consistent-rejected", desc(*t, e, std::to_string(mode)) << ": " << err); c.count("consistent"); }
            else { CHECK(contradiction, "contradiction-accepted", desc(*t, e, books.empty() ? "" : books.back().how) << " => " << (books.empty() ? "" : rules_text(*books.back().b))); c.count("contradictions"); if (!contradiction) books.pop_back(); }
            if (!err.empty()) continue;
            check_book(c, r, *t, *books.back().b, e.eqs, lin, desc(*t, e, books.back().how), sols);
            CHECK(books.back().b->is_hermitian() == hermitian_by_value(r, *t, *books.back().b), "is-hermitian", desc(*t, e, books.back().how) << " => " << rules_text(*books.back().b) << " is_hermitian() = " << books.back().b->is_hermitian());
        }
        for (size_t i = 0; i + 1 < books.size(); ++i) {
            auto& x = *books[i].b; auto& y = *books[i + 1].b;
            auto [res, ra, rb] = x.compare_rulebooks(y);
            CHECK(res == Cmp::AEqualsB && !ra && !rb, "order-dependent", desc(*t, e, books[i].how + " vs " + books[i + 1].how) << " => " << rules_text(x) << " vs " << rules_text(y));
            for (int k = 0; k < 3; ++k) {
                const auto p = t->poly(r, 5, Tab::Gaussian);
                const auto a = x.reduce(p), b = y.reduce(p);
                Polynomial::storage_t d; for (auto& m : a) d.push_back(m); for (auto& m : b) d.push_back(Monomial{m.id, -m.factor, m.conjugated});
                CHECK(norm(t->fac()(std::move(d))) <= 1e-6 * (1 + norm(a) + norm(p)), "order-dependent-reduction", desc(*t, e, books[i].how + " vs " + books[i + 1].how) << ": " << Tab::text(p) << " -> " << Tab::text(a) << " or " << Tab::text(b));
            }
        }
        c.nontrivial(t->desc + e.text);
        c.count("equation-sets");
    }
}

// sets of equations over symbols of every kind, each added in several ways
SECTION(imported_small) { c.for_cases(c.n(2500, 100000), [&](Rng& r, uint64_t) { equations_case(c, r, 1, 4, 5); }); }
SECTION(imported_large) { c.for_cases(c.n(600, 20000), [&](Rng& r, uint64_t) { equations_case(c, r, 1, 16, 14); }); }
SECTION(systems) { c.for_cases(c.n(700, 15000), [&](Rng& r, uint64_t) { equations_case(c, r, 0, 10, 8); }); }

// many equations constraining few complex symbols: partial rules meeting full ones, other partial ones, and their conjugates
SECTION(partial) {
    c.for_cases(c.n(2000, 60000), [&](Rng& r, uint64_t) {
        auto t = std::make_unique<Tab>();
        t->imp = std::make_unique<MatrixSystem>(std::make_unique<Imported::ImportedContext>(false), 1e6); t->ms = t->imp.get();
        const size_t n = 2 + r.below(4); for (size_t i = 0; i < n; ++i) { const bool cx = r.chance(3, 4); t->msym().create(true, cx); t->desc += cx ? 'c' : 'r'; }
        Equations e; e.forced = r.chance(7, 8);
        auto v0 = t->values(r);
        for (size_t k = 1 + r.below(2 * n); k > 0; --k) {
            // K_d(X) = real combination of other such directions + constant
            Polynomial::storage_t d;
            for (size_t j = 1 + r.below(3); j > 0; --j) {
                auto x = static_cast<symbol_name_t>(2 + r.below(n));
                const cd dir = r.coin() ? r.pick(std::vector<cd>{1, {0, 1}, {0.6, 0.8}, {0.8, -0.6}, {-1, 0}}) : std::polar(1.0, r.sym() * 3.1);
                const double s = Tab::coef(r, Tab::Dyadic).real();
                d.push_back(Monomial{x, s * std::conj(dir), false}); d.push_back(Monomial{x, s * dir, true});
            }
            if (r.chance(1, 3)) for (auto& m : d) m.factor *= cd{0, 1};
            Polynomial p = t->fac()(std::move(d));
            if (e.forced) { const cd x = Tab::eval(p, v0); Polynomial::storage_t q; for (auto& m : p) q.push_back(m); q.push_back(Monomial{1, -x, false}); p = t->fac()(std::move(q)); }
            e.eqs.push_back(p);
        }
        for (auto& p : e.eqs) e.text += "{" + Tab::text(p) + "} ";
        Lin lin(*t); for (auto& p : e.eqs) lin.add(p); lin.solve();
        if (lin.doubtful) { c.count("skipped-ill-conditioned"); return; }
        c.note(t->desc + " " + e.text);
        std::vector<std::vector<cd>> sols; if (lin.consistent) sols = solutions(r, lin);
        for (int k = 0; k < 2; ++k) {
            const size_t mode = r.below(modes);
            try {
                auto b = build(r, *t, e.eqs, mode);
                CHECK(lin.consistent, "partial-contradiction-accepted", desc(*t, e, b.how) << " => " << rules_text(*b.b));
                if (lin.consistent) { check_book(c, r, *t, *b.b, e.eqs, lin, desc(*t, e, b.how), sols); for (auto& [id, rule] : *b.b) if (rule.is_partial()) c.count("partial-rules"); }
            } catch (const errors::invalid_moment_rule& x) { CHECK(!lin.consistent, "partial-consistent-rejected", desc(*t, e, std::to_string(mode)) << ": " << x.what()); c.count("contradictions"); }
        }
        c.nontrivial(t->desc + e.text);
    });
}

// whether one book implies another is decided by their solution sets
SECTION(compare) {
    c.for_cases(c.n(1500, 40000), [&](Rng& r, uint64_t) {
        auto t = Tab::random(r, 6, -1, 1e6, true, true);
        if (t->size() < 3) return;
        auto v0 = t->values(r); for (auto& x : v0) x = {std::round(x.real() * 4) / 4, std::round(x.imag() * 4) / 4}; v0[1] = 1;
        const auto cf = all_coefs[r.below(5)];
        auto eq = [&] { Polynomial p = random_equation(r, *t, cf); const cd x = Tab::eval(p, v0); Polynomial::storage_t d; for (auto& m : p) d.push_back(m); d.push_back(Monomial{1, -x, false}); return t->fac()(std::move(d)); };
        std::vector<Polynomial> a, b;
        for (size_t k = r.below(4); k > 0; --k) a.push_back(eq());
        if (r.coin()) b = a;
        for (size_t k = r.below(3); k > 0; --k) b.push_back(eq());
        if (r.chance(1, 3) && !b.empty()) { const auto p = r.pick(b); b.push_back(t->fac().scale(p, 0.5)); }
        if (r.chance(1, 4) && !b.empty()) b.erase(b.begin() + (long) r.below(b.size()));
        if (r.chance(1, 5) && b.size() >= 2) { b[0] = t->fac().sum(b[0], t->fac().scale(b[1], Tab::coef(r, Tab::Dyadic))); }
        Lin la(*t), lb(*t), both(*t);
        for (auto& p : a) { la.add(p); both.add(p); } for (auto& p : b) { lb.add(p); both.add(p); }
        la.solve(); lb.solve(); both.solve();
        if (la.doubtful || lb.doubtful || both.doubtful || !both.consistent) { c.count("skipped"); return; }
        std::string text = t->desc + " A:"; for (auto& p : a) text += "{" + Tab::text(p) + "}"; text += " B:"; for (auto& p : b) text += "{" + Tab::text(p) + "}";
        c.note(text);
        auto x = build(r, *t, a, a.empty() ? 0 : r.below(modes)), y = build(r, *t, b, b.empty() ? 0 : r.below(modes));
        const bool ainb = both.rank == lb.rank, bina = both.rank == la.rank;
        auto [res, ra, rb] = x.b->compare_rulebooks(*y.b);
        const auto want = ainb && bina ? Cmp::AEqualsB : ainb ? Cmp::BContainsA : bina ? Cmp::AContainsB : Cmp::Disjoint;
        CHECK(res == want, "compare", text << " => " << rules_text(*x.b) << " / " << rules_text(*y.b) << ": got " << (int) res << " instead of " << (int) want);
        auto* n1 = x.b->first_noncontained_rule(*y.b); auto* n2 = y.b->first_noncontained_rule(*x.b);
        CHECK((n1 == nullptr) == bina, "contained", text << " A implies B: " << (n1 == nullptr));
        CHECK((n2 == nullptr) == ainb, "contained", text << " B implies A: " << (n2 == nullptr));
        CHECK(n2 == ra && n1 == rb, "compare-rules", text << ": compare_rulebooks names different rules than first_noncontained_rule");
        if (n1) CHECK(y.b->find(n1->LHS()) != y.b->end() && &y.b->find(n1->LHS())->second == n1, "noncontained-owner", text);
        if (n2) CHECK(x.b->find(n2->LHS()) != x.b->end() && &x.b->find(n2->LHS())->second == n2, "noncontained-owner", text);
        c.count(want == Cmp::AEqualsB ? "equal" : want == Cmp::Disjoint ? "disjoint" : "contained");
        c.nontrivial(text);
    });
}

// assignments of values to symbols
SECTION(assignments) {
    c.for_cases(c.n(1500, 40000), [&](Rng& r, uint64_t) {
        auto t = Tab::random(r, 8, -1, 1e6, true, true);
        if (t->size() < 3) return;
        MomentRulebook::raw_map_t re; MomentRulebook::raw_complex_map_t co;
        const bool complex = r.coin(); const bool forced = r.chance(3, 4);
        Lin lin(*t); std::string text = t->desc + ": ";
        std::vector<Polynomial> eqs;
        for (size_t k = 1 + r.below(5); k > 0; --k) {
            const auto id = static_cast<symbol_name_t>(r.chance(1, 12) ? 1 : 2 + r.below(t->size() - 2));
            cd v = id == 1 ? cd{r.coin() ? 1.0 : 0.5} : r.chance(1, 4) ? cd{0} : complex ? Tab::coef(r, Tab::Gaussian) : Tab::coef(r, Tab::Dyadic);
            if (forced) { auto b = t->sym()[id].basis_key(); if (b.second < 0) v = v.real(); else if (b.first < 0) v = {0, v.imag()}; if (id == 1) v = 1; }
            if (complex ? !co.emplace(id, v).second : !re.emplace(id, v.real()).second) continue;
            if (!complex) v = v.real();
            Polynomial::storage_t d{Monomial{id, 1.0, false}, Monomial{1, -v, false}}; eqs.push_back(t->fac()(std::move(d))); lin.add(eqs.back());
            std::stringstream ss; ss << "#" << id << "=" << v << " "; text += ss.str();
        }
        lin.solve(); if (lin.doubtful) return;
        c.note(text);
        MomentRulebook b(*t->ms); bool threw = false;
        try { if (complex) b.add_raw_rules(co); else b.add_raw_rules(re); CHECK(b.raw_rule_size() == eqs.size(), "raw-size", text); b.complete(); }
        catch (const errors::invalid_moment_rule&) { threw = true; }
        CHECK(threw == !lin.consistent, "assignment-verdict", text << (threw ? " rejected" : " accepted => " + rules_text(b)));
        if (!threw && lin.consistent) {
            auto sols = solutions(r, lin); check_book(c, r, *t, b, eqs, lin, text, sols);
            for (auto& [id, v] : co) { auto q = b.reduce(Monomial{id}); CHECK(q.size() == (v == cd{0} ? 0 : 1) && (q.empty() || (q[0].id == 1 && std::abs(q[0].factor - v) < 1e-12)), "assigned-value", text << ": #" << id << " -> " << Tab::text(q)); }
            for (auto& [id, v] : re) { auto q = b.reduce(Monomial{id, 1.0, true}); auto bk = t->sym()[id].basis_key(); (void) bk; CHECK(q.size() == (v == 0 ? 0 : 1) && (q.empty() || (q[0].id == 1 && std::abs(q[0].factor - v) < 1e-12)), "assigned-value", text << ": #" << id << "* -> " << Tab::text(q)); }
        }
        c.count(threw ? "contradictions" : "assignments"); c.nontrivial(text);
    });
}

// a contradiction is reported each time, and what was known before stays usable
SECTION(failure) {
    c.for_cases(c.n(1500, 40000), [&](Rng& r, uint64_t) {
        auto t = Tab::random(r, 6, -1, 1e6, true, true);
        if (t->size() < 3) return;
        auto v0 = t->values(r); for (auto& x : v0) x = {std::round(x.real() * 4) / 4, std::round(x.imag() * 4) / 4}; v0[1] = 1;
        auto eq = [&](cd shift) { Polynomial p = random_equation(r, *t, Tab::Gaussian); const cd x = Tab::eval(p, v0); Polynomial::storage_t d; for (auto& m : p) d.push_back(m); d.push_back(Monomial{1, -x + shift, false}); return t->fac()(std::move(d)); };
        std::vector<Polynomial> good, bad;
        for (size_t k = 1 + r.below(3); k > 0; --k) good.push_back(eq(0));
        for (size_t k = 1 + r.below(3); k > 0; --k) bad.push_back(eq(r.coin() ? cd{1} : cd{0}));
        bad.push_back(t->fac().sum(r.pick(good), t->fac()({Monomial{1, r.coin() ? cd{1} : cd{0, 1}, false}})));
        Lin lg(*t), lb(*t), all(*t); for (auto& p : good) { lg.add(p); all.add(p); } for (auto& p : bad) { lb.add(p); all.add(p); }
        lg.solve(); lb.solve(); all.solve();
        if (lg.doubtful || all.doubtful || lb.doubtful || !lg.consistent || all.consistent) { c.count("skipped"); return; }
        std::string text = t->desc + " good:"; for (auto& p : good) text += "{" + Tab::text(p) + "}"; text += " bad:"; for (auto& p : bad) text += "{" + Tab::text(p) + "}";
        c.note(text);
        auto book = build(r, *t, good, r.below(modes));
        auto& b = *book.b; auto sols = solutions(r, lg);
        const auto before = rules_text(b); const bool bm = b.is_monomial(), bh = b.is_hermitian();
        if (lb.consistent && r.coin()) {
            MomentRulebook other(*t->ms); other.set_name("other"); for (auto& p : bad) other.add_raw_rule(Polynomial{p}); other.complete();
            b.set_name("mine");
            const auto other_before = rules_text(other);
            CHECK(verif::throws([&] { b.combine_and_complete(std::move(other)); }), "merge-contradiction-accepted", text << " => " << rules_text(b));
            CHECK(rules_text(b) == before && b.is_monomial() == bm && b.is_hermitian() == bh && !b.pending_rules() && b.name() == "mine", "failed-merge-changed-book", text << " before " << before << " after " << rules_text(b));
            CHECK(rules_text(other) == other_before, "failed-merge-changed-other", text);
            check_book(c, r, *t, b, good, lg, text, sols);
            // still usable
            MomentRulebook again(*t->ms); for (auto& p : good) again.add_raw_rule(Polynomial{p}); again.complete(); b.combine_and_complete(std::move(again));
            check_book(c, r, *t, b, good, lg, text + " (again)", sols);
            c.count("failed-merges");
        } else {
            for (auto& p : bad) b.add_raw_rule(Polynomial{p});
            CHECK(verif::throws([&] { b.complete(); }), "contradiction-accepted", text << " => " << rules_text(b));
            // asking again must not quietly forget the offending equation
            const bool again = verif::throws([&] { b.complete(); });
            CHECK(again, "contradiction-forgotten", text << " is rejected once, then completes => " << rules_text(b));
            c.count("failed-completions");
        }
        c.nontrivial(text);
    });
}

// single rules: construction, splitting, merging, reduction
SECTION(rules) {
    c.for_cases(c.n(4000, 150000), [&](Rng& r, uint64_t) {
        auto t = Tab::random(r, 6, -1, 1e6, true, true);
        if (t->size() < 3) return;
        const auto cf = all_coefs[r.below(5)];
        Polynomial p = random_equation(r, *t, cf);
        const auto text = t->desc + ": " + Tab::text(p);
        Lin lin(*t); lin.add(p); lin.solve(); if (lin.doubtful) { c.count("skipped"); return; }
        c.note(text);
        std::optional<MomentRule> rule; bool threw = false;
        try { rule.emplace(t->fac(), Polynomial{p}); } catch (const errors::invalid_moment_rule&) { threw = true; }
        CHECK(threw == (p.size() == 1 && p[0].id == 1), "rule-throws", text);
        if (!rule) return;
        CHECK(rule->is_trivial() == p.empty(), "rule-trivial", text);
        if (rule->is_trivial()) { CHECK(rule->as_polynomial(t->fac()).empty(), "trivial-polynomial", text); return; }
        auto split = rule->split();
        CHECK(!rule->split().has_value(), "split-twice", text);
        // rule + split == input
        Lin two(*t); two.add(rule->as_polynomial(t->fac())); if (split) two.add(*split);
        Lin both(*t); both.rows = two.rows; both.add(p); two.solve(); both.solve();
        const size_t cap = lin.consistent ? 0 : 1; (void) cap;
        if (!two.doubtful && !both.doubtful) CHECK(two.rank == lin.rank && both.rank == lin.rank && two.consistent == lin.consistent && both.consistent == lin.consistent, "rule-meaning", text << ": rule #" << rule->LHS() << " -> " << Tab::text(rule->RHS()) << " with remainder " << (split ? Tab::text(*split) : "none"));
        if (split && lin.consistent) { for (auto& v : solutions(r, lin)) CHECK(near(Tab::eval(*split, v), 0, scale_of(*split, v)), "split-value", text << ": remainder " << Tab::text(*split)); }
        CHECK(rule->is_partial() == (std::abs(rule->partial_direction()) > 0.5), "partial-direction", text);
        if (rule->is_partial()) CHECK(std::abs(std::abs(rule->partial_direction()) - 1) < 1e-9, "partial-direction", text << ": " << rule->partial_direction());
        if (lin.consistent) {
            auto sols = solutions(r, lin);
            for (int i = 0; i < 4; ++i) {
                const auto q = t->poly(r, 4, cf);
                const bool has = std::any_of(q.begin(), q.end(), [&](auto& m) { return m.id == rule->LHS(); });
                CHECK(rule->matches(q) == has, "matches", text << " on " << Tab::text(q));
                auto [n, it] = rule->match_info(q); size_t cnt = 0; for (auto& m : q) cnt += m.id == rule->LHS();
                CHECK(n == cnt, "match-info", text << " on " << Tab::text(q) << ": " << n); if (cnt) CHECK(it != q.end() && it->id == rule->LHS() && (it == q.begin() || (it - 1)->id != rule->LHS()), "match-info", text << " on " << Tab::text(q));
                const auto s = rule->reduce(t->fac(), q);
                for (auto& v : sols) CHECK(near(Tab::eval(q, v), Tab::eval(s, v), scale_of(q, v) + scale_of(s, v)), "rule-reduce", text << ": " << Tab::text(q) << " -> " << Tab::text(s));
                auto bad = t->canonical(s); CHECK(bad.empty(), "rule-reduce-canonical", text << ": " << Tab::text(q) << " -> " << Tab::text(s) << ": " << bad);
                Monomial m = t->mono(r, cf); if (r.coin()) m.id = rule->LHS();
                if (m.id == 0) continue;
                const auto sm = rule->reduce(t->fac(), m);
                for (auto& v : sols) CHECK(near(Tab::eval(m, v), Tab::eval(sm, v), scale_of(sm, v) + 4), "rule-reduce-monomial", text << ": " << Tab::text(m) << " -> " << Tab::text(sm));
                if (rule->RHS().is_monomial()) { const auto mm = rule->reduce_monomial(t->sym(), m); for (auto& v : sols) CHECK(near(Tab::eval(m, v), Tab::eval(mm, v), 5), "rule-monomial", text << ": " << Tab::text(m) << " -> " << Tab::text(mm)); if (mm.id > 1 && mm.conjugated && m.id == rule->LHS()) CHECK(t->sym()[mm.id].basis_key().second >= 0, "rule-monomial-canonical", text << ": " << Tab::text(mm)); }
                c.count("rule-reductions");
            }
        }
        c.nontrivial(text);
    });
}

// rules given directly, and rules that fix one direction of a complex symbol
SECTION(direct) {
    c.for_cases(c.n(2000, 60000), [&](Rng& r, uint64_t) {
        auto t = Tab::random(r, 6, 1, 1e6, true, true);
        if (t->size() < 4) return;
        // X constrained in direction d to be a real polynomial of lower symbols
        std::vector<symbol_name_t> cx; for (size_t i = 3; i < t->size(); ++i) if (t->sym()[i].basis_key().first >= 0 && t->sym()[i].basis_key().second >= 0) cx.push_back((symbol_name_t) i);
        if (!cx.empty()) {
            const auto x = r.pick(cx);
            cd d = std::polar(1.0, r.unit() * 3.14159); if (r.chance(1, 3)) d = r.coin() ? cd{1} : cd{0, 1};
            Polynomial::storage_t st; for (size_t k = r.below(4); k > 0; --k) { auto y = static_cast<symbol_name_t>(1 + r.below((size_t) x - 1)); const cd f = Tab::coef(r, Tab::Gaussian); st.push_back(Monomial{y, f, false}); st.push_back(Monomial{y, std::conj(f), true}); }
            for (size_t i = 0; i < st.size(); i += 2) if (t->sym()[st[i].id].is_antihermitian() ) { st[i + 1].conjugated = true; }
            auto p = t->fac()(Polynomial::storage_t{st});
            MomentRule rule(t->fac(), x, d, Polynomial{p});
            std::stringstream ss; ss << t->desc << ": #" << x << " in direction " << d << " is " << Tab::text(p); const auto text = ss.str(); c.note(text);
            CHECK(rule.LHS() == x && rule.is_partial(), "partial-ctor", text);
            for (int i = 0; i < 3; ++i) {
                auto v = t->values(r); const double want = Tab::eval(p, v).real();
                // project onto the constraint
                const cd free = v[x] / d; v[x] = d * cd{want, free.imag()};
                CHECK(near(Tab::eval(rule.RHS(), v), v[x], scale_of(rule.RHS(), v)), "partial-fixed", text << " => " << Tab::text(rule.RHS()) << " changes a symbol that satisfies it");
                auto w = v; w[x] += d * r.sym(); const cd y = Tab::eval(rule.RHS(), w);
                CHECK(near((y / d).real(), want, scale_of(rule.RHS(), w)) && near((y / d).imag(), (w[x] / d).imag(), scale_of(rule.RHS(), w)), "partial-projects", text << " => " << Tab::text(rule.RHS()) << " maps " << w[x] << " to " << y);
            }
            // the orthogonal direction makes it full
            Polynomial::storage_t st2; for (size_t k = r.below(3); k > 0; --k) { auto y = static_cast<symbol_name_t>(1 + r.below((size_t) x - 1)); const cd f = Tab::coef(r, Tab::Gaussian); st2.push_back(Monomial{y, f, false}); st2.push_back(Monomial{y, std::conj(f), true}); }
            auto p2 = t->fac()(std::move(st2));
            const cd d2 = d * (r.coin() ? cd{0, 1} : cd{0, -1});
            MomentRule second(t->fac(), x, d2, Polynomial{p2});
            MomentRule merged{rule}; merged.merge_partial(t->fac(), std::move(second));
            CHECK(!merged.is_partial(), "merge-partial", text);
            for (int i = 0; i < 2; ++i) { auto v = t->values(r); const cd want = d * Tab::eval(p, v) + d2 * Tab::eval(p2, v); CHECK(near(Tab::eval(merged.RHS(), v), want, scale_of(merged.RHS(), v)), "merge-partial", text << " and in direction " << d2 << " is " << Tab::text(p2) << " => " << Tab::text(merged.RHS())); }
            c.count("partial-rules");
        }
        // injected full rules in triangular form
        MomentRulebook b(*t->ms); std::vector<Polynomial> eqs; std::string text = t->desc + ": "; std::set<symbol_name_t> lhs; bool fine = true, herm = true;
        for (size_t i = t->size() - 1; i >= 2 && fine; --i) if (r.chance(1, 3)) lhs.insert((symbol_name_t) i);
        for (auto x : lhs) {
            Polynomial::storage_t st; for (size_t k = r.below(3); k > 0; --k) { auto y = static_cast<symbol_name_t>(1 + r.below((size_t) x - 1)); if (!lhs.contains(y)) st.push_back(Monomial{y, Tab::coef(r, Tab::Gaussian), r.coin()}); }
            auto p = t->fac()(std::move(st)); auto k = t->sym()[x].basis_key();
            if (k.second < 0) p = p.Real(t->fac()); else if (k.first < 0) { p = p.Imaginary(t->fac()); p = t->fac().scale(p, cd{0, 1}); }
            text += "#" + std::to_string(x) + " := " + Tab::text(p) + "; ";
            CHECK(b.inject(x, Polynomial{p}), "inject", text);
            if (r.chance(1, 4)) CHECK(!b.inject(MomentRule{x, Polynomial::Zero()}), "inject-twice", text);
            Polynomial::storage_t d; for (auto& m : p) d.push_back(m); d.push_back(Monomial{x, -1.0, false}); eqs.push_back(t->fac()(std::move(d)));
        }
        (void) herm;
        Lin lin(*t); for (auto& p : eqs) lin.add(p); lin.solve();
        if (!lin.doubtful && lin.consistent) {
            c.note(text);
            CHECK(b.size() == lhs.size() && b.empty() == lhs.empty(), "inject-size", text);
            check_book(c, r, *t, b, eqs, lin, text, solutions(r, lin));
            CHECK(b.is_hermitian(), "inject-hermitian", text);
        }
        c.nontrivial(text);
    });
}

// once used, a book only grows where that is announced
SECTION(usage) {
    c.for_cases(c.n(300, 5000), [&](Rng& r, uint64_t) {
        auto t = Tab::random(r, 6, 0, 1e6, true, true);
        if (t->size() < 4) return;
        const bool safe = r.coin();
        MomentRulebook b(*t->ms, safe);
        auto& mm = t->ms->MomentMatrix(1);
        CHECK(!b.in_use() && b.empty() && b.size() == 0 && !b.pending_rules() && b.complete() == 0, "fresh", t->desc);
        const auto x = static_cast<symbol_name_t>(2 + r.below(t->size() - 2));
        if (r.coin()) { b.add_raw_rule(Polynomial{Monomial{x}}); CHECK(b.pending_rules() && b.raw_rule_size() == 1, "pending", t->desc); b.complete(); }
        auto sub = b.create_substituted_matrix(t->msym(), mm);
        c.note(t->desc);
        CHECK(b.in_use(), "in-use", t->desc);
        const auto before = rules_text(b);
        const auto y = static_cast<symbol_name_t>(2 + r.below(t->size() - 2));
        auto attempt = [&](bool want) {
            MomentRulebook other(*t->ms); other.add_raw_rule(Polynomial{Monomial{y}}); other.complete();
            auto ok = [&](auto&& f) { try { f(); return true; } catch (const errors::already_in_use&) { return false; } };
            CHECK(ok([&] { b.combine_and_complete(std::move(other)); }) == want, "use-merge", t->desc);
            CHECK(ok([&] { b.add_raw_rule(Polynomial{Monomial{y}}); }) == want, "use-add", t->desc);
            CHECK(ok([&] { b.add_raw_rules(std::vector<Polynomial>{Polynomial{Monomial{y}}}); }) == want, "use-add", t->desc);
            CHECK(ok([&] { b.add_raw_rules(MomentRulebook::raw_map_t{{y, 0.0}}); }) == want, "use-add", t->desc);
            CHECK(ok([&] { b.add_raw_rules(MomentRulebook::raw_complex_map_t{{y, 0.0}}); }) == want, "use-add", t->desc);
            CHECK(ok([&] { b.inject(y, Polynomial::Zero()); }) == want, "use-inject", t->desc);
            CHECK(ok([&] { b.complete(); }) == want, "use-complete", t->desc);
            if (!want) { CHECK(rules_text(b) == before && !b.pending_rules(), "use-changed", t->desc); }
            else CHECK(b.reduce(Monomial{y}).empty(), "use-expanded", t->desc);
        };
        attempt(false);
        CHECK(b.enable_expansion() == safe, "enable", t->desc);
        attempt(safe);
        b.disable_expansion();
        CHECK(!verif::throws([&] { const bool u = b.in_use(); CHECK(u, "still-in-use", t->desc); }), "disable", t->desc);
        { MomentRulebook other(*t->ms); other.add_raw_rule(Polynomial{Monomial{y}}); other.complete(); CHECK(verif::throws([&] { b.combine_and_complete(std::move(other)); }), "disable", t->desc); }
        // pending rules may not be merged
        MomentRulebook p(*t->ms), q(*t->ms); p.add_raw_rule(Polynomial{Monomial{x}});
        CHECK(verif::throws([&] { q.combine_and_complete(std::move(p)); }), "merge-pending", t->desc);
        q.add_raw_rule(Polynomial{Monomial{x}}); p.complete();
        CHECK(verif::throws([&] { q.combine_and_complete(std::move(p)); }), "merge-pending", t->desc);
        // names
        MomentRulebook n1(*t->ms), n2(*t->ms); n1.add_raw_rule(Polynomial{Monomial{x}}); n1.complete(); n2.add_raw_rule(Polynomial{Monomial{y}}); n2.complete(); n1.set_name("one"); if (r.coin()) n2.set_name("two"); const std::string want = n2.name().empty() ? "one" : "two";
        n1.combine_and_complete(std::move(n2)); CHECK(n1.name() == want, "name", t->desc << ": " << n1.name());
        c.nontrivial(t->desc + std::to_string(x) + "," + std::to_string(y));
    });
}
