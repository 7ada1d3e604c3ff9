// C03: algebraic rewriting. Oracle: an independent Knuth-Bendix completion (all overlaps, i^k phases, zero) and concrete models.
#include "numeric.h"
#include "scenarios/algebraic/algebraic_context.h"
#include "scenarios/algebraic/algebraic_precontext.h"
#include "scenarios/algebraic/operator_rule.h"
#include "scenarios/algebraic/operator_rulebook.h"
#include "scenarios/algebraic/name_table.h"
#include "dictionary/dictionary.h"
using namespace verif;
using namespace Moment;
using namespace Moment::Algebraic;

namespace {
    using Mode = AlgebraicPrecontext::ConjugateMode;
    using HS = HashedSequence;

    bool shortlex_less(const Word& a, const Word& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; }
    struct Rule { Word lhs; Norm rhs; };
    std::string rtext(const Rule& r) { return wstr(r.lhs) + "->" + r.rhs.text(); }

    struct RefKB {
        std::map<Word, Norm> rules;
        size_t max_rules, max_len; bool failed = false;
        RefKB(size_t mr, size_t ml) : max_rules{mr}, max_len{ml} { }
        bool one_step(Norm& n) const {
            for (size_t pos = 0; pos <= n.letters.size(); ++pos)
                for (auto& [l, r] : rules) {
                    if (pos + l.size() > n.letters.size() || !std::equal(l.begin(), l.end(), n.letters.begin() + pos)) continue;
                    if (r.zero) { n = {true, 0, {}}; return true; }
                    Word out(n.letters.begin(), n.letters.begin() + pos);
                    out.insert(out.end(), r.letters.begin(), r.letters.end());
                    out.insert(out.end(), n.letters.begin() + pos + l.size(), n.letters.end());
                    n.letters = out; n.phase = (n.phase + r.phase) & 3;
                    return true;
                }
            return false;
        }
        Norm reduce(Norm n) const {
            if (n.zero) return {true, 0, {}};
            while (!n.zero && one_step(n)) { }
            return n;
        }
        std::vector<std::pair<Norm, Norm>> pending;
        bool collapsed() const { return rules.count({}) > 0; }
        void equate(Norm a, Norm b) { pending.emplace_back(std::move(a), std::move(b)); }
        void drain() {
            size_t work = 0;
            while (!pending.empty() && !failed) {
                if (++work > 4000) { failed = true; return; }
                auto [a, b] = pending.back(); pending.pop_back();
                a = reduce(a); b = reduce(b);
                if (a.zero && b.zero) continue;
                if (a.zero) std::swap(a, b);
                if (!b.zero && a.letters == b.letters) {
                    if (a.phase == b.phase) continue;
                    b = {true, 0, {}};
                } else if (!b.zero && shortlex_less(a.letters, b.letters)) std::swap(a, b);
                // a.letters -> b * i^{-a.phase}
                Norm rhs = b; if (!rhs.zero) rhs.phase = (b.phase - a.phase + 4) & 3;
                if (a.letters.size() > max_len) { failed = true; return; }
                // remove rules whose lhs is reducible by the new one
                Word lhs = a.letters;
                for (auto it = rules.begin(); it != rules.end(); ) {
                    if (std::search(it->first.begin(), it->first.end(), lhs.begin(), lhs.end()) != it->first.end() || lhs.empty()) {
                        pending.emplace_back(Norm{false, 0, it->first}, it->second);
                        it = rules.erase(it);
                    } else ++it;
                }
                rules[lhs] = rhs;
                if (rules.size() > max_rules) { failed = true; return; }
            }
        }
        /** false if a critical pair is unresolved (adds it when fix is set) */
        bool critical_pairs(bool fix, std::string* why = nullptr) {
            auto copy = rules;
            for (auto& [l1, r1] : copy) for (auto& [l2, r2] : copy) {
                for (size_t ov = 1; ov <= std::min(l1.size(), l2.size()); ++ov) {
                    if (l1 == l2 && ov == l1.size()) continue;
                    if (!std::equal(l1.end() - ov, l1.end(), l2.begin())) continue;
                    // l1 + tail(l2)
                    Norm a = r1; if (!a.zero) a.letters.insert(a.letters.end(), l2.begin() + ov, l2.end());
                    Norm b = r2; if (!b.zero) { Word p(l1.begin(), l1.end() - ov); p.insert(p.end(), b.letters.begin(), b.letters.end()); b.letters = p; }
                    auto ra = reduce(a), rb = reduce(b);
                    if (!(ra == rb)) {
                        if (why) *why = "rules " + wstr(l1) + "->" + r1.text() + " and " + wstr(l2) + "->" + r2.text() + " overlap by " + std::to_string(ov) + ": normal forms " + ra.text() + " and " + rb.text();
                        if (!fix) return false;
                        equate(ra, rb); drain(); return false;
                    }
                }
                if (l1 != l2 && l2.size() < l1.size()) {
                    for (size_t p = 0; p + l2.size() <= l1.size(); ++p) {
                        if (!std::equal(l2.begin(), l2.end(), l1.begin() + p)) continue;
                        Norm b = r2; if (!b.zero) { Word w(l1.begin(), l1.begin() + p); w.insert(w.end(), b.letters.begin(), b.letters.end()); w.insert(w.end(), l1.begin() + p + l2.size(), l1.end()); b.letters = w; }
                        auto ra = reduce(r1), rb = reduce(b);
                        if (!(ra == rb)) {
                            if (why) *why = "rule " + wstr(l2) + "->" + r2.text() + " inside " + wstr(l1) + "->" + r1.text() + ": normal forms " + ra.text() + " and " + rb.text();
                            if (!fix) return false;
                            equate(ra, rb); drain(); return false;
                        }
                    }
                }
            }
            return true;
        }
        bool complete() {
            drain();
            for (int it = 0; it < 300 && !failed; ++it) if (critical_pairs(true)) {
                for (auto& [l, rhs] : rules) rhs = reduce(rhs); // interreduced: unique for the theory
                return true;
            }
            failed = true; return false;
        }
    };

    struct Alg {
        size_t raw; Mode mode; bool commutative, normal;
        AlgebraicPrecontext apc;
        std::vector<Rule> rules;
        std::vector<std::vector<std::pair<int, int>>> model; // monomial matrices: per op, per column: (row or -1, phase)
        Alg(size_t n, Mode m, bool com, bool nor) : raw{n}, mode{m}, commutative{com}, normal{nor}, apc{static_cast<oper_name_t>(n), m} { }
        size_t ops() const { return static_cast<size_t>(apc.num_operators); }
        long conj_op(long o) const {
            if (mode == Mode::SelfAdjoint) return o;
            if (mode == Mode::Interleaved) return o ^ 1;
            return (o + static_cast<long>(raw)) % static_cast<long>(2 * raw);
        }
        Norm conj(const Norm& n) const {
            if (n.zero) return n;
            Norm o{false, (4 - n.phase) & 3, {}};
            for (auto it = n.letters.rbegin(); it != n.letters.rend(); ++it) o.letters.push_back(conj_op(*it));
            return o;
        }
        std::string text() const {
            std::string s = "algebraic(ops " + std::to_string(raw) + (mode == Mode::SelfAdjoint ? " hermitian" : mode == Mode::Bunched ? " bunched" : " interleaved") + (commutative ? " commutative" : "") + (normal ? " normal" : "") + "; ";
            for (auto& r : rules) s += rtext(r) + " ";
            return s + ")";
        }
        HS seq(const Norm& n) const { return n.zero ? HS{true} : HS{to_storage(n.letters), apc.hasher, sign_of(n.phase)}; }
        std::vector<OperatorRule> lib_rules(Rng& r) const {
            std::vector<OperatorRule> out;
            for (auto& x : rules) {
                // distribute the sign arbitrarily between both sides
                const int extra = r.coin() ? 0 : r.below(4);
                Norm rhs = x.rhs; if (!rhs.zero) rhs.phase = (rhs.phase + extra) & 3;
                out.emplace_back(HS{to_storage(x.lhs), apc.hasher, sign_of(extra)}, seq(rhs));
            }
            return out;
        }
        using MM = std::vector<std::pair<int, int>>;
        static MM mul(const MM& a, const MM& b) { MM o; for (auto [r, p] : b) o.push_back(r < 0 || a[r].first < 0 ? std::make_pair(-1, 0) : std::make_pair(a[r].first, (a[r].second + p) & 3)); return o; }
        static MM adj(const MM& a) { MM o(a.size(), {-1, 0}); for (size_t c = 0; c < a.size(); ++c) if (a[c].first >= 0) o[a[c].first] = {static_cast<int>(c), (4 - a[c].second) & 3}; return o; }
        MM eval(const Norm& n) const {
            const size_t d = model[0].size();
            MM m; for (size_t i = 0; i < d; ++i) m.emplace_back(n.zero ? -1 : static_cast<int>(i), n.zero ? 0 : n.phase);
            if (n.zero) return m;
            for (auto o : n.letters) m = mul(m, model[o]);
            return m;
        }
    };
    Alg::MM random_partial(Rng& r, int d, bool hermitian) {
        Alg::MM m(d, {-1, 0});
        if (hermitian) {
            std::vector<int> idx; for (int i = 0; i < d; ++i) idx.push_back(i);
            r.shuffle(idx);
            for (size_t i = 0; i < idx.size(); ) {
                if (r.chance(1, 6)) { ++i; continue; }
                if (i + 1 < idx.size() && r.coin()) {
                    const int p = r.below(4);
                    m[idx[i]] = {idx[i + 1], p}; m[idx[i + 1]] = {idx[i], (4 - p) & 3}; i += 2;
                } else { m[idx[i]] = {idx[i], r.coin() ? 0 : 2}; ++i; }
            }
        } else {
            std::vector<int> idx; for (int i = 0; i < d; ++i) idx.push_back(i);
            r.shuffle(idx);
            for (int i = 0; i < d; ++i) if (!r.chance(1, 5)) m[i] = {idx[i], r.coin() ? 0 : static_cast<int>(r.below(4))};
        }
        return m;
    }
    Word nonempty(Rng& r, size_t ops, size_t maxlen) { Word w; const size_t l = 1 + r.below(maxlen); for (size_t i = 0; i < l; ++i) w.push_back(r.below(ops)); return w; }

    Alg random_alg(Rng& r, bool with_model) {
        const Mode mode = r.chance(1, 2) ? Mode::SelfAdjoint : r.coin() ? Mode::Bunched : Mode::Interleaved;
        Alg a(1 + r.below(mode == Mode::SelfAdjoint ? 4 : 2), mode, r.chance(1, 5), r.chance(1, 3));
        const size_t n = a.ops();
        if (with_model) {
            a.commutative = a.normal = false;
            const int d = 1 + r.below(4);
            a.model.resize(n);
            for (size_t i = 0; i < a.raw; ++i) {
                auto m = random_partial(r, d, mode == Mode::SelfAdjoint);
                if (mode == Mode::SelfAdjoint) a.model[i] = m;
                else if (mode == Mode::Bunched) { a.model[i] = m; a.model[i + a.raw] = Alg::adj(m); }
                else { a.model[2 * i] = m; a.model[2 * i + 1] = Alg::adj(m); }
            }
            // words of short length, grouped by value up to phase
            std::vector<Word> words{{}}; size_t from = 0;
            for (int l = 0; l < 3; ++l) { size_t to = words.size(); for (size_t i = from; i < to; ++i) for (size_t o = 0; o < n; ++o) { auto w = words[i]; w.push_back(o); words.push_back(w); } from = to; }
            std::vector<Rule> all;
            for (size_t i = 1; i < words.size(); ++i) {
                auto vi = a.eval({false, 0, words[i]});
                if (std::all_of(vi.begin(), vi.end(), [](auto& x) { return x.first < 0; })) { all.push_back({words[i], {true, 0, {}}}); continue; }
                for (size_t j = 0; j < i; ++j) for (int p = 0; p < 4; ++p) if (a.eval({false, p, words[j]}) == vi) all.push_back({words[i], {false, p, words[j]}});
            }
            const size_t k = 1 + r.below(5);
            for (size_t i = 0; i < k && !all.empty(); ++i) a.rules.push_back(r.pick(all));
        } else {
            const size_t k = r.below(5);
            const bool phases = r.coin();
            for (size_t i = 0; i < k; ++i) {
                Word l = nonempty(r, n, 4), q = random_word(r, n, l.size());
                if (r.chance(1, 4)) { a.rules.push_back({l, {true, 0, {}}}); continue; }
                if (shortlex_less(l, q)) std::swap(l, q);
                if (l.empty()) continue;
                a.rules.push_back({l, {false, phases ? static_cast<int>(r.below(4)) : (r.chance(1, 5) ? 2 : 0), q}});
            }
        }
        return a;
    }
    /** Reference equational theory of the algebra, with adjoint closure. */
    RefKB theory(const Alg& a) {
        RefKB kb(60, 12);
        auto add = [&](const Word& l, const Norm& rhs) {
            kb.equate({false, 0, l}, rhs);
            kb.equate(a.conj({false, 0, l}), a.conj(rhs));
        };
        for (auto& x : a.rules) add(x.lhs, x.rhs);
        if (a.commutative) for (size_t i = 0; i < a.ops(); ++i) for (size_t j = 0; j < i; ++j) add({(long)i, (long)j}, {false, 0, {(long)j, (long)i}});
        if (a.normal && a.mode != Mode::SelfAdjoint) for (size_t i = 0; i < a.ops(); ++i) { long s = a.conj_op(i); if (s > (long)i) add({s, (long)i}, {false, 0, {(long)i, s}}); }
        return kb;
    }
    Norm norm_hs(const HS& s) { if (s.zero()) return {true, 0, {}}; return {false, sign_int(s.get_sign()), to_word(s)}; }
    RefKB exposed(const OperatorRulebook& rb) {
        RefKB kb(10000, 64);
        for (auto& [h, rule] : rb.rules()) { Norm rhs = norm_hs(rule.RHS()); kb.rules[to_word(rule.LHS())] = rhs; }
        return kb;
    }

    void check_reduction(Ctx& c, const Alg& a, const OperatorRulebook& rb, const RefKB* truth, bool complete, Rng& r, int reps) {
        auto own = exposed(rb);
        for (int i = 0; i < reps; ++i) {
            Norm w{false, static_cast<int>(r.below(4)), random_word(r, a.ops(), 9)};
            if (w.letters.empty()) w.phase = 0;
            c.note(a.text() + " word " + w.text());
            const HS in = a.seq(w);
            const HS out = rb.reduce(in);
            const Norm o = norm_hs(out);
            // consistent hash, no increase
            CHECK(out.hash() == (o.zero ? 0 : static_cast<uint64_t>(ref_hash(o.letters, a.ops()))), "reduced-hash", c.crumb << " -> " << o.text());
            CHECK(!out.zero() || out.get_sign() == SequenceSignType::Positive, "zero-with-sign", c.crumb);
            CHECK(out.hash() <= in.hash(), "increase", c.crumb << " -> " << o.text());
            CHECK(rb.reduce(out) == out, "idempotent", c.crumb << " -> " << o.text());
            if (!o.zero) CHECK(!rb.can_reduce(out.raw()), "not-normal", c.crumb << " -> " << o.text());
            CHECK(rb.can_reduce(in.raw()) == (out.hash() != in.hash() || !(out == in)), "can-reduce", c.crumb << " -> " << o.text());
            // other routes
            HS copy = in; rb.reduce_in_place(copy);
            CHECK(norm_hs(copy) == o && copy.hash() == out.hash(), "in-place", c.crumb << " in place " << norm_hs(copy).text() << " vs " << o.text());
            const Norm it = norm_hs(rb.reduce_via_iteration(in)), se = norm_hs(rb.reduce_via_search(in));
            for (auto* alt : {&it, &se}) {
                if (truth) CHECK(truth->reduce(*alt) == truth->reduce(w), "unsound-route", c.crumb << " -> " << alt->text());
                if (!a.model.empty()) CHECK(a.eval(*alt) == a.eval(w), "unsound-model", c.crumb << " -> " << alt->text());
                CHECK(own.reduce(*alt) == *alt, "route-not-normal", c.crumb << " -> " << alt->text());
                if (complete) CHECK(*alt == o, "route-dependent", c.crumb << " -> " << o.text() << " or " << alt->text());
            }
            if (truth) CHECK(truth->reduce(o) == truth->reduce(w), "unsound", c.crumb << " -> " << o.text() << " but these differ modulo the rules");
            if (!a.model.empty()) CHECK(a.eval(o) == a.eval(w), "unsound-model", c.crumb << " -> " << o.text());
            if (complete) {
                if (truth) CHECK(o == truth->reduce(w), "normal-form", c.crumb << " -> " << o.text() << " want " << truth->reduce(w).text());
                CHECK(norm_hs(rb.reduce(a.seq(a.conj(w)))) == norm_hs(rb.reduce(a.seq(a.conj(o)))), "adjoint-closure", c.crumb);
            }
            c.count("reductions");
            if (o.letters != w.letters) c.count("words_changed");
        }
    }
    void rulebook_case(Ctx& c, Rng& r, bool with_model) {
        Alg a = random_alg(r, with_model);
        c.note(a.text());
        RefKB kb = theory(a);
        const bool known = kb.complete();
        if (known && kb.collapsed()) { c.count("collapsed"); return; } // identity is zero: no such algebra
        const RefKB* truth = known ? &kb : nullptr;
        OperatorRulebook rb{a.apc};
        if (r.coin()) r.shuffle(a.rules);
        auto lr = a.lib_rules(r);
        if (r.coin()) rb.add_rules(lr); else for (auto& x : lr) rb.add_rule(x);
        if (a.commutative) rb.add_rules(OperatorRulebook::commutator_rules(a.apc));
        if (a.normal) rb.add_rules(OperatorRulebook::normal_rules(a.apc));
        c.note(a.text() + " before completion");
        check_reduction(c, a, rb, truth, false, r, 6);
        bool lib_collapsed = false;
        auto audit = [&](bool reported, const char* when) {
            for (auto& [h, rule] : rb.rules()) {
                const Norm l{false, 0, to_word(rule.LHS())}, q = norm_hs(rule.RHS());
                CHECK(h == rule.LHS().hash(), "rule-key", c.crumb);
                CHECK(rule.RHS().hash() < rule.LHS().hash(), "rule-direction", c.crumb << " " << l.text() << "->" << q.text());
                if (truth) CHECK(truth->reduce(l) == truth->reduce(q), "unsound-rule", c.crumb << " " << when << " rule " << l.text() << "->" << q.text());
                if (!a.model.empty()) CHECK(a.eval(l) == a.eval(q), "unsound-rule-model", c.crumb << " " << when << " rule " << l.text() << "->" << q.text());
            }
            for (auto& [h, rule] : rb.rules()) lib_collapsed |= rule.LHS().empty(); // sound (checked above): nothing is left
            if (lib_collapsed) return;
            // Original equations are still implied
            if (reported) for (auto& x : a.rules) {
                const auto l = norm_hs(rb.reduce(a.seq({false, 0, x.lhs}))), q = norm_hs(rb.reduce(a.seq(x.rhs)));
                CHECK(l == q, "equation-lost", c.crumb << " " << when << ": " << rtext(x) << " sides reduce to " << l.text() << ", " << q.text());
            }
            if (reported) {
                auto own = exposed(rb); std::string why;
                const bool confluent = own.critical_pairs(false, &why);
                CHECK(confluent, "not-confluent", c.crumb << " reported complete " << when << "; " << why);
                c.count("reported_complete");
            }
        };
        c.note(a.text());
        if (rb.is_complete()) { audit(true, "at once"); if (!lib_collapsed) check_reduction(c, a, rb, truth, true, r, 4); }
        const size_t iters = 1 + r.below(40);
        c.note(a.text() + " completing");
        const bool done = rb.complete(iters);
        c.note(a.text() + " iterations " + std::to_string(iters));
        audit(done, "after completion");
        if (lib_collapsed) { c.count("collapsed_in_library"); return; }
        check_reduction(c, a, rb, truth, done, r, 10);
        if (done) {
            CHECK(rb.is_complete(), "complete-twice", c.crumb);
            // completeness is stable
            CHECK(rb.complete(10), "complete-again", c.crumb);
            check_reduction(c, a, rb, truth, true, r, 3);
        }
        c.count(done ? "completed" : "gave_up"); if (known) c.count("word_problem_known");
        c.nontrivial(a.text());
    }
    void context_case(Ctx& c, Rng& r) {
        Alg a = random_alg(r, r.coin());
        if (!a.model.empty()) a.commutative = false;
        RefKB kb = theory(a);
        const bool known = kb.complete();
        if (known && kb.collapsed()) return;
        c.note("context " + a.text());
        auto ctx = std::make_unique<AlgebraicContext>(a.apc, a.commutative, a.normal, a.lib_rules(r));
        if (!r.chance(1, 4)) ctx->attempt_completion(30);
        const bool complete = ctx->is_complete();
        const std::string base = c.crumb + (complete ? " complete" : " incomplete");
        for (int i = 0; i < 6; ++i) {
            Norm u{false, static_cast<int>(r.below(4)), random_word(r, a.ops(), 5)}, v{false, static_cast<int>(r.below(4)), random_word(r, a.ops(), 5)};
            c.note(base + " u=" + u.text() + " v=" + v.text());
            OperatorSequence U{to_storage(u.letters), *ctx, sign_of(u.phase)}, V{to_storage(v.letters), *ctx, sign_of(v.phase)};
            Norm uv = u; uv.phase = (u.phase + v.phase) & 3; uv.letters.insert(uv.letters.end(), v.letters.begin(), v.letters.end());
            auto UV = U * V; auto CU = U.conjugate(); auto VUc = V.conjugate() * U.conjugate();
            auto same = [&](const OperatorSequence& got, const Norm& want, const char* what) {
                const auto g = norm_of(got);
                CHECK(!got.zero() || got.get_sign() == SequenceSignType::Positive, "context-zero-sign", c.crumb << " " << what);
                CHECK(got.hash() == (g.zero ? 0 : static_cast<uint64_t>(ref_hash(g.letters, a.ops()))), "context-hash", c.crumb << " " << what);
                if (known) CHECK(kb.reduce(g) == kb.reduce(want), "context-unsound", c.crumb << " " << what << " gives " << g.text());
                if (known && complete) CHECK(g == kb.reduce(want), "context-normal-form", c.crumb << " " << what << " gives " << g.text() << " want " << kb.reduce(want).text());
                if (!a.model.empty()) CHECK(a.eval(g) == a.eval(want), "context-model", c.crumb << " " << what << " gives " << g.text());
            };
            same(U, u, "u"); same(V, v, "v"); same(UV, uv, "uv"); same(CU, a.conj(u), "u*"); same(VUc, a.conj(uv), "v*u*");
            same(UV.conjugate(), a.conj(uv), "(uv)*");
            auto neg = -U; Norm nu = u; nu.phase = (nu.phase + 2) & 3; same(neg, nu, "-u");
            if (complete) {
                auto canon = ctx->get_if_canonical(to_storage(u.letters));
                OperatorSequence plain{to_storage(u.letters), *ctx};
                CHECK(canon.has_value() == (norm_of(plain) == Norm{false, 0, u.letters}), "get-if-canonical", c.crumb);
                if (canon) CHECK(*canon == plain, "canonical-value", c.crumb);
            }
        }
        c.nontrivial(base);
    }
}

SECTION(model_rules) { c.for_cases(c.n(700, 9000), [&](Rng& r, uint64_t) { rulebook_case(c, r, true); }); }
SECTION(free_rules) { c.for_cases(c.n(1500, 30000), [&](Rng& r, uint64_t) { rulebook_case(c, r, false); }); }
SECTION(context) { c.for_cases(c.n(700, 9000), [&](Rng& r, uint64_t) { context_case(c, r); }); }
SECTION(add_rules) {
    // Adding rules one by one never loses an equation, whatever their order (checked against the reference theory).
    c.for_cases(c.n(1500, 20000), [&](Rng& r, uint64_t) {
        Alg a = random_alg(r, false); a.commutative = a.normal = false;
        RefKB kb(60, 12); for (auto& x : a.rules) kb.equate({false, 0, x.lhs}, x.rhs);
        c.note(a.text());
        if (!kb.complete() || kb.collapsed()) return;
        OperatorRulebook rb{a.apc};
        for (auto& x : a.lib_rules(r)) {
            const auto sz = rb.size();
            const auto added = rb.add_rule(x);
            CHECK(static_cast<ptrdiff_t>(rb.size()) - static_cast<ptrdiff_t>(sz) == added, "added-count", c.crumb << " size " << sz << " -> " << rb.size() << " reported " << added);
        }
        RefKB got(60, 12);
        for (auto& [h, rule] : rb.rules()) got.equate({false, 0, to_word(rule.LHS())}, norm_hs(rule.RHS()));
        if (!got.complete()) return;
        // same theory: same completed reduced system
        CHECK(got.rules == kb.rules, "theory-changed", c.crumb << " rulebook " << str(rb));
        c.nontrivial(a.text());
        auto before = got.rules;
        rb.reduce_ruleset();
        RefKB after(60, 12);
        for (auto& [h, rule] : rb.rules()) after.equate({false, 0, to_word(rule.LHS())}, norm_hs(rule.RHS()));
        if (after.complete()) CHECK(after.rules == kb.rules, "reduce-ruleset-theory", c.crumb << " reduced " << str(rb));
    });
}
SECTION(rule_ops) {
    // Single rules: sign distribution, conjugate, implied rules.
    c.for_cases(c.n(2000, 30000), [&](Rng& r, uint64_t) {
        Alg a = random_alg(r, false);
        Word l = nonempty(r, a.ops(), 4), q = random_word(r, a.ops(), 4);
        if (shortlex_less(l, q)) std::swap(l, q);
        const int pl = r.below(4), pq = r.below(4);
        c.note(a.text() + " rule i^" + std::to_string(pl) + wstr(l) + " -> i^" + std::to_string(pq) + wstr(q));
        if (l.empty()) return;
        OperatorRule rule{HS{to_storage(l), a.apc.hasher, sign_of(pl)}, HS{to_storage(q), a.apc.hasher, sign_of(pq)}};
        // u = k u only holds for u = 0
        const bool vanishes = l == q && pl != pq;
        CHECK(vanishes || sign_int(rule.rule_sign()) == ((pq - pl + 4) & 3), "rule-sign", c.crumb << " " << str(rule));
        CHECK(to_word(rule.LHS()) == l && (vanishes || to_word(rule.RHS()) == q), "rule-words", c.crumb);
        CHECK(rule.trivial() == (l == q && pl == pq), "rule-trivial", c.crumb << " " << str(rule));
        if (l != q) {
            auto cr = rule.conjugate(a.apc);
            Norm L = a.conj({false, 0, l}), Q = a.conj({false, (pq - pl + 4) & 3, q});
            if (shortlex_less(L.letters, Q.letters)) { std::swap(L, Q); }
            Norm want{false, (Q.phase - L.phase + 4) & 3, Q.letters};
            CHECK(to_word(cr.LHS()) == L.letters && norm_hs(cr.RHS()) == want, "rule-conjugate", c.crumb << " -> " << str(cr));
            CHECK(throws([&] { OperatorRule bad{HS{to_storage(q), a.apc.hasher}, HS{to_storage(l), a.apc.hasher}}; }), "increasing-rule-accepted", c.crumb);
            // embedding: any rule A l B -> s A q B is implied
            Word A = random_word(r, a.ops(), 2), B = random_word(r, a.ops(), 2), Al = A, Aq = A;
            Al.insert(Al.end(), l.begin(), l.end()); Al.insert(Al.end(), B.begin(), B.end());
            Aq.insert(Aq.end(), q.begin(), q.end()); Aq.insert(Aq.end(), B.begin(), B.end());
            sequence_storage_t in = to_storage(Al);
            auto hint = rule.matches_anywhere(in.begin(), in.end());
            CHECK(hint != in.end(), "embedded-match", c.crumb);
            if (hint != in.end()) {
                auto out = rule.apply_match_with_hint(in, hint);
                Word first = Al; auto pos = std::search(first.begin(), first.end(), l.begin(), l.end());
                Word w2(first.begin(), pos); w2.insert(w2.end(), q.begin(), q.end()); w2.insert(w2.end(), pos + l.size(), first.end());
                CHECK(to_word(out) == w2, "apply-match", c.crumb << " to " << wstr(Al) << " gives " << wstr(to_word(out)));
            }
        }
        c.nontrivial(c.crumb);
    });
}
