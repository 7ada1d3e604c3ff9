// C16: inflated-network moments: canonical forms under source-copy relabelling, and exact factorisation.
#include "net.h"
using namespace verif;
using namespace Moment;
using namespace Moment::Inflation;

namespace {
    struct Net {
        std::unique_ptr<Sys> sys; // borrows scenario tables and the reference
        const InflationContext* ic; const InflationScen* s;
        static std::unique_ptr<Net> make(Rng& r, const NetSpec& n) {
            auto o = std::make_unique<Net>(); auto sc = std::make_unique<InflationScen>(n);
            o->s = sc.get(); o->ic = sc->ictx; o->sys = Sys::of(Sys::Inflation, std::move(sc), r); return o;
        }
    };
    void check_word(Ctx& c, const Net& n, const InflationReal* real, const Word& raw, int phase) {
        auto& sys = *n.sys; auto& s = *n.s;
        const auto nf = s.normal(raw, phase); const auto seq = n.sys->make(raw, phase);
        CHECK(norm_of(seq) == nf, "normal-form", s.desc << " " << wstr(raw));
        const auto canon = n.ic->canonical_moment(seq); const auto cn = norm_of(canon);
        const std::string what = s.desc + " word " + nf.text();
        if (nf.zero) { CHECK(cn.zero, "zero", what); return; }
        const Norm want = sys.canonical(nf);
        CHECK(cn == want, "canonical", what << " has canonical moment " << cn.text() << " instead of " << want.text());
        CHECK(cn.letters.size() == nf.letters.size() && cn.phase == nf.phase, "length", what << " became " << cn.text());
        CHECK(norm_of(n.ic->canonical_moment(canon)) == cn, "idempotent", what << " -> " << cn.text() << " -> " << norm_of(n.ic->canonical_moment(canon)).text());
        CHECK(canon.hash() == n.ic->hash(canon.raw()) && canon == n.sys->make(cn.letters, cn.phase), "hash", what);
        if (n.ic->can_have_aliases()) {
            CHECK(norm_of(n.ic->simplify_as_moment(seq)) == cn && norm_of(n.ic->simplify_as_moment(OperatorSequence{seq})) == cn, "simplify", what);
            const bool can = n.ic->can_be_simplified_as_moment(seq);
            CHECK(can || cn == nf, "can-be-simplified", what << " cannot be simplified, but becomes " << cn.text());
            CHECK(!n.ic->can_be_simplified_as_moment(canon), "can-be-simplified", what << ": canonical form " << cn.text() << " said to be simplifiable");
            CHECK(can == (s.normal(sys.relabel(nf.letters), 0).letters != nf.letters || can), "can-be-simplified", what);
        } else CHECK(cn == nf && !n.ic->can_be_simplified_as_moment(seq), "no-aliases", what);
        const auto orbit = sys.orbit(nf); CHECK(orbit.count(cn), "not-a-relabelling", what << " became " << cn.text() << ", which is no relabelling of source copies");
        if (real) CHECK(verif::close(real->expect(seq), real->expect(canon)), "canonical-value", what << " is " << real->expect(seq) << ", canonical form " << cn.text() << " is " << real->expect(canon));
        // factors
        const auto f = n.ic->factorize(seq); std::vector<Word> got; for (auto& x : f) { CHECK(!x.zero() && (f.size() == 1 || sign_int(x.get_sign()) == 0), "factor-sign", what); got.push_back(to_word(x)); CHECK(s.normal(got.back(), 0).letters == got.back() && x.hash() == n.ic->hash(x.raw()), "factor-form", what << " factor " << wstr(got.back())); }
        std::sort(got.begin(), got.end()); auto wantf = groups(s, nf.letters); if (nf.letters.empty()) wantf = {Word{}};
        auto show = [](const std::vector<Word>& v) { std::string o; for (auto& w : v) o += "<" + wstr(w) + ">"; return o; };
        if (phase == 0) CHECK(got == wantf, "factors", what << " factored as " << show(got) << " instead of " << show(wantf));
        if (real && phase == 0) { cd p = 1; for (auto& x : f) p *= real->expect(x); CHECK(verif::close(p, real->expect(seq)), "factor-value", what << " is " << real->expect(seq) << ", product of factors is " << p); }
        // sources
        const auto cs = n.ic->connected_sources(seq); std::set<size_t> src, ref; for (auto x : cs) src.insert(x);
        size_t priv = 0; std::map<int, size_t> imp; for (size_t o = 0; o < s.net.outcomes.size(); ++o) if (s.obs_sources[o].empty()) imp[static_cast<int>(o)] = priv++;
        for (auto o : nf.letters) { const int ob = s.obs[o]; if (s.obs_sources[ob].empty()) ref.insert(s.net.sources.size() * s.net.inflation + imp[ob]); for (size_t j = 0; j < s.obs_sources[ob].size(); ++j) ref.insert(s.obs_sources[ob][j] * s.net.inflation + s.copy[o][j]); }
        CHECK(src == ref, "connected-sources", what << " {" << join(src) << "} instead of {" << join(ref) << "}");
        c.count("words"); c.nontrivial(std::to_string(f.size()) + " factors" + (cn == nf ? "" : " moved"));
    }
    /** Index arithmetic. */
    void check_indices(Ctx& c, Rng& r, const Net& n) {
        auto& s = *n.s; auto& ic = *n.ic; const auto inf = s.net.inflation; const std::string& what = s.desc;
        CHECK(ic.size() == s.obs.size() && ic.Inflation() == inf && ic.Observables().size() == s.net.outcomes.size(), "sizes", what);
        size_t priv = 0; for (auto& x : s.obs_sources) priv += x.empty();
        CHECK(ic.source_variant_count() == s.net.sources.size() * inf + priv, "source-count", what << " " << ic.source_variant_count());
        size_t global = 0; std::vector<OVIndex> all;
        for (size_t o = 0; o < s.net.outcomes.size(); ++o) {
            const auto& obs = ic.Observables()[o]; size_t copies = 1; for (size_t j = 0; j < s.obs_sources[o].size(); ++j) copies *= inf;
            CHECK(obs.variants.size() == copies && static_cast<size_t>(obs.variant_count) == copies && obs.count_copies(inf) == copies && obs.singleton == s.obs_sources[o].empty(), "variants", what << " observable " << o);
            if (obs.variants.size() != copies) return;
            for (size_t x = 0; x < s.net.sources.size(); ++x) CHECK(obs.contains_source(static_cast<oper_name_t>(x)) == (s.net.sources[x].count(static_cast<oper_name_t>(o)) > 0), "contains-source", what << " observable " << o << " source " << x);
            for (size_t v = 0; v < copies; ++v, ++global) {
                const auto& var = obs.variants[v]; const OVIndex ov{static_cast<oper_name_t>(o), static_cast<oper_name_t>(v)}; all.push_back(ov);
                std::vector<int> cp; for (size_t j = 0; j < s.obs_sources[o].size(); ++j) cp.push_back(static_cast<int>(var.indices[j]));
                auto it = s.lookup.find({static_cast<int>(o), cp, 0}); const size_t nops = s.net.outcomes[o] ? s.net.outcomes[o] - 1 : 1;
                if (nops) CHECK(it != s.lookup.end() && it->second == var.operator_offset, "operator-offset", what << " observable " << o << " variant " << v);
                for (size_t k = 0; k < nops; ++k) CHECK(ic.operator_number(static_cast<oper_name_t>(o), static_cast<oper_name_t>(v), static_cast<oper_name_t>(k)) == var.operator_offset + static_cast<long>(k), "operator-number", what);
                std::vector<oper_name_t> ix(var.indices.begin(), var.indices.end());
                CHECK(obs.flatten_index(inf, ix) == static_cast<oper_name_t>(v) && &obs.variant(ix) == &var && var.flat_index == static_cast<oper_name_t>(v), "flatten", what << " observable " << o << " variant " << v);
                auto un = obs.unflatten_index(inf, static_cast<oper_name_t>(v)); CHECK(std::vector<oper_name_t>(un.begin(), un.end()) == ix, "unflatten", what);
                CHECK(ic.obs_variant_to_index(ov) == static_cast<oper_name_t>(global), "variant-index", what << " observable " << o << " variant " << v);
                const auto back = ic.index_to_obs_variant(static_cast<oper_name_t>(global)); CHECK(back.observable == ov.observable && back.variant == ov.variant, "variant-index-inverse", what);
                for (size_t k = 0; k < ix.size(); ++k) if (!obs.singleton) { auto f = var.source_variants.find(obs.sources[k]); CHECK(f != var.source_variants.end() && f->second == ix[k], "source-variants", what); }
            }
        }
        CHECK(ic.observable_variant_count() == global, "variant-count", what);
        // independence of variants
        for (int k = 0; k < 20 && !all.empty(); ++k) {
            auto a = r.pick(all), b = r.pick(all); const auto& va = ic.Observables()[a.observable].variants[a.variant]; const auto& vb = ic.Observables()[b.observable].variants[b.variant];
            bool link = false; if (s.obs_sources[a.observable].empty() || s.obs_sources[b.observable].empty()) link = a.observable == b.observable;
            for (size_t i = 0; i < s.obs_sources[a.observable].size(); ++i) for (size_t j = 0; j < s.obs_sources[b.observable].size(); ++j) link |= s.obs_sources[a.observable][i] == s.obs_sources[b.observable][j] && va.indices[i] == vb.indices[j];
            CHECK(va.independent(vb) == !link && vb.independent(va) == !link, "independent", what << " " << a << " and " << b);
        }
        // joint outcomes
        for (int k = 0; k < 6 && !all.empty(); ++k) {
            std::vector<OVIndex> q; size_t total = 1; for (size_t j = r.below(4); j > 0; --j) { auto x = r.pick(all); if (s.net.outcomes[x.observable]) { q.push_back(x); total *= s.net.outcomes[x.observable]; } }
            auto opo = ic.outcomes_per_observable(q); CHECK(opo.size() == q.size(), "outcomes-per-observable", what); for (size_t j = 0; j < q.size() && j < opo.size(); ++j) CHECK(opo[j] == s.net.outcomes[q[j].observable], "outcomes-per-observable", what);
            std::set<std::vector<long>> seen;
            for (size_t x = 0; x < total && !q.empty(); ++x) {
                auto u = ic.unflatten_outcome_index(q, static_cast<oper_name_t>(x)); std::vector<long> key; CHECK(u.size() == q.size(), "unflatten-outcome", what); size_t expect = 0;
                for (size_t j = 0; j < u.size(); ++j) { CHECK(u[j].observable_variant.observable == q[j].observable && u[j].observable_variant.variant == q[j].variant && u[j].outcome >= 0 && static_cast<size_t>(u[j].outcome) < s.net.outcomes[q[j].observable], "unflatten-outcome", what); key.push_back(u[j].outcome); expect = expect * s.net.outcomes[q[j].observable] + u[j].outcome; }
                CHECK(expect == x && ic.flatten_outcome_index(u) == x, "flatten-outcome", what << " outcome " << x << " became " << expect << " / " << ic.flatten_outcome_index(u)); seen.insert(key);
            }
            if (!q.empty()) CHECK(seen.size() == total, "outcome-bijection", what);
        }
        c.count("networks");
    }
}

SECTION(exhaustive) {
    c.for_cases(c.n(60, 500), [&](Rng& r, uint64_t) {
        auto n = Net::make(r, net_up_to(r, 9, 3)); InflationReal real(*n->s, r);
        check_indices(c, r, *n);
        const size_t ops = n->s->ops(); size_t top = 0, count = 1; while (top < 5 && count * ops < 4000) { count *= ops; ++top; }
        for (size_t l = 0; l <= top; ++l) { Word w(l, 0); while (true) { check_word(c, *n, l <= 3 ? &real : nullptr, w, 0); size_t i = 0; while (i < l && ++w[i] == static_cast<long>(ops)) w[i++] = 0; if (i == l) break; } }
    });
}
SECTION(random_words) {
    c.for_cases(c.n(250, 3000), [&](Rng& r, uint64_t) {
        auto n = Net::make(r, net_up_to(r, 60, 4, 4, 5)); InflationReal real(*n->s, r);
        check_indices(c, r, *n); if (!n->s->ops()) return;
        for (int k = 0; k < 20; ++k) { auto w = random_word(r, n->s->ops(), 7); std::set<std::pair<int, int>> v; for (auto o : w) { if (n->s->obs_sources[n->s->obs[o]].empty()) v.insert({-1, n->s->obs[o]}); for (size_t j = 0; j < n->s->copy[o].size(); ++j) v.insert({n->s->obs_sources[n->s->obs[o]][j], n->s->copy[o][j]}); } check_word(c, *n, v.size() <= 10 ? &real : nullptr, w, r.chance(1, 5) ? 2 : 0); }
    });
}
SECTION(same_class) {
    // any relabelling of copies of a word names a moment of the same value; canonical forms of different classes differ
    c.for_cases(c.n(150, 2000), [&](Rng& r, uint64_t) {
        auto n = Net::make(r, net_up_to(r, 24, 3)); if (!n->s->ops()) return;
        std::map<Word, Word> first; // canonical -> true class representative
        for (int k = 0; k < 60; ++k) {
            const auto nf = n->s->normal(random_word(r, n->s->ops(), 4), 0); if (nf.zero) continue;
            Word cls = nf.letters; for (auto& o : n->sys->orbit(nf)) if (o.letters < cls) cls = o.letters;
            const auto cn = norm_of(n->ic->canonical_moment(n->sys->make(nf.letters))).letters;
            auto [it, fresh] = first.emplace(cn, cls); CHECK(it->second == cls, "classes-merged", n->s->desc << " " << wstr(nf.letters) << " shares canonical form " << wstr(cn) << " with a word that is no relabelling of it");
        }
        c.count("classes", first.size()); c.nontrivial(std::to_string(first.size() / 10) + "0 classes");
    });
}
SECTION(bad_networks) {
    c.for_cases(c.n(200, 2000), [&](Rng& r, uint64_t) {
        auto n = random_network(r, 4, 3, 3, 3, 20); const size_t no = n.outcomes.size(); auto src = n.sources; if (src.empty()) src.emplace_back();
        const bool bad = r.coin(); if (bad) r.pick(src).insert(static_cast<oper_name_t>(r.coin() ? no + r.below(3) : -1));
        bool threw = false; try { CausalNetwork net{n.outcomes, std::move(src)}; } catch (const Moment::Inflation::errors::bad_source&) { threw = true; }
        CHECK(threw == bad, "bad-source", n.text()); c.nontrivial(bad ? "bad" : "good");
    });
}
