// C14: Collins-Gisin and probability tensors agree with actual distributions.
#include "tens.h"
#include "symbolic/rules/moment_rulebook.h"
using namespace verif;
using namespace Moment;
using Locality::PMIndex; using Locality::PMOIndex; using Inflation::OVIndex; using Inflation::OVOIndex;

namespace {
    void each(const Idx& lo, const Idx& hi, const std::function<void(const Idx&)>& f) { // column major
        for (size_t d = 0; d < lo.size(); ++d) if (lo[d] >= hi[d]) return;
        Idx i = lo;
        while (true) { f(i); size_t d = 0; while (d < i.size() && ++i[d] == hi[d]) { i[d] = lo[d]; ++d; } if (d == i.size()) return; }
    }
    Idx ones(size_t n) { return Idx(n, 1); }
    Idx hi_of(const Idx& dims) { return dims; }
    /** One Collins-Gisin entry. */
    void check_cg_entry(Ctx& c, const Dist& d, const CollinsGisinEntry& e, const Idx& i, const std::string& what, bool fresh) {
        const auto& s = *d.sys;
        const auto w = d.cg_word(i); const auto n = s.scen->normal(w, 0);
        CHECK(norm_of(e.sequence) == n, "cg-word", what << " entry " << itext(i) << " is " << norm_of(e.sequence).text() << " instead of " << n.text());
        auto look = s.symbols().where(e.sequence);
        if (fresh) CHECK((e.symbol_id >= 0) == look.found(), "cg-missing", what << " entry " << itext(i) << " symbol " << e.symbol_id << " although the table " << (look.found() ? "has it" : "does not have it"));
        if (e.symbol_id >= 0 && look.found()) {
            CHECK(e.symbol_id == look->Id() && e.real_index == look->basis_key().first && e.is_alias == look.is_aliased, "cg-symbol", what << " entry " << itext(i) << " symbol " << e.symbol_id << " real index " << e.real_index << " alias " << e.is_alias << "; table says " << look->Id() << " " << look->basis_key().first << " " << look.is_aliased);
            CHECK(verif::close(d.symbol(Monomial{e.symbol_id, 1.0}), d.cg_value(i)), "cg-value", what << " entry " << itext(i) << " has value " << d.symbol(Monomial{e.symbol_id, 1.0}) << " not " << d.cg_value(i));
            c.count("cg-entries");
        } else CHECK(e.symbol_id < 0 && e.real_index < 0, "cg-symbol", what << " entry " << itext(i) << " unknown but has numbers");
    }
    void check_cg(Ctx& c, Rng& r, const Dist& d, const CollinsGisin& cg, const std::string& what, bool fresh) {
        Idx dims; for (auto& x : d.dims) dims.push_back(x.cg());
        CHECK(cg.Dimensions == dims && cg.DimensionCount == dims.size() && cg.ElementCount == d.cg_elements(), "cg-dimensions", what << ": " << itext(cg.Dimensions) << " instead of " << itext(dims));
        if (cg.Dimensions != dims) return;
        const bool expl = cg.ElementCount <= 1024;
        CHECK((cg.StorageType == TensorStorageType::Explicit) == expl, "cg-storage", what);
        std::set<size_t> missing;
        auto one = [&](const Idx& i, size_t off) {
            CHECK(cg.index_to_offset(i) == off && cg.offset_to_index(off) == i, "cg-offset", what << " " << itext(i) << " has offset " << cg.index_to_offset(i) << " not " << off);
            const auto by_index = cg(i); check_cg_entry(c, d, by_index, i, what, fresh);
            const auto by_off = cg.at(off), nc1 = cg.elem_no_checks(off), nc2 = cg.elem_no_checks(i);
            CHECK(by_off->sequence == by_index->sequence && nc1->sequence == by_index->sequence && nc2->sequence == by_index->sequence && by_off->symbol_id == by_index->symbol_id && nc1->symbol_id == by_index->symbol_id && nc2->symbol_id == by_index->symbol_id, "cg-access", what << " " << itext(i));
            if (by_index->symbol_id < 0) missing.insert(off);
        };
        if (cg.ElementCount <= 3000) {
            size_t off = 0; each(Idx(dims.size(), 0), dims, [&](const Idx& i) { one(i, off++); });
            off = 0; for (auto it = cg.begin(); it != cg.end(); ++it, ++off) { CHECK(it.offset() == off && it.index() == cg.offset_to_index(off) && it->sequence == cg.at(off)->sequence && it->symbol_id == cg.at(off)->symbol_id, "cg-iterate", what << " offset " << off); if (off > cg.ElementCount) break; }
            CHECK(off == cg.ElementCount, "cg-iterate", what << " visited " << off << " entries of " << cg.ElementCount);
            if (expl) CHECK(cg.MissingSymbols() == missing && cg.HasAllSymbols() == missing.empty() && cg.Data().size() == cg.ElementCount, "cg-missing-set", what << " lists {" << join(cg.MissingSymbols()) << "} missing, actually {" << join(missing) << "}");
        } else for (int k = 0; k < 100; ++k) { auto i = d.random_cg(r); size_t off = 0, str = 1; for (size_t j = 0; j < i.size(); ++j) { off += i[j] * str; str *= dims[j]; } one(i, off); }
        // out of range
        { Idx i = d.random_cg(r); const size_t j = r.below(i.size()); i[j] = dims[j] + r.below(2); CHECK(verif::throws([&] { (void) cg(i); }) && verif::throws([&] { (void) cg.index_to_offset(i); }) && verif::throws([&] { (void) cg.at(cg.ElementCount + r.below(2)); }), "cg-range", what << " accepted " << itext(i)); i[j] = 0; i.push_back(0); CHECK(verif::throws([&] { (void) cg(i); }), "cg-range", what << " accepted too many indices"); }
        // splice
        { Idx lo, hi; for (auto x : dims) { lo.push_back(r.below(x)); hi.push_back(lo.back() + r.below(x - lo.back() + 1)); }
          auto& m = const_cast<CollinsGisin&>(cg); auto range = m.Splice(lo, hi); std::vector<Idx> seen, want; each(lo, hi, [&](const Idx& i) { want.push_back(i); });
          size_t n = 0; for (auto it = range.begin(); it != range.end(); ++it) { seen.emplace_back(it.index().begin(), it.index().end()); CHECK(it->sequence == cg(it.index())->sequence && it.offset() == cg.index_to_offset(it.index()) && it.block_offset() == n, "splice-entry", what << " " << itext(it.index())); if (++n > 4000) break; }
          CHECK(seen == want && range.size() == want.size(), "splice", what << " " << itext(lo) << " to " << itext(hi) << ": visited " << seen.size() << " entries of " << want.size()); }
        c.nontrivial(expl ? (missing.empty() ? "explicit complete" : "explicit incomplete") : "virtual");
    }
    void check_pt_entry(Ctx& c, const Dist& d, const CollinsGisin& cg, const ProbabilityTensor& pt, const ProbabilityTensorElement& e, const Idx& i, const std::string& what, bool fresh) {
        const double want = d.probability(i);
        const double got = d.cg_poly(cg, e.cgPolynomial);
        CHECK(verif::close(got, want), "pt-cg-value", what << " entry " << itext(i) << " = " << pt.elem_as_string(e) << " has value " << got << " but the probability is " << want);
        bool all = true; for (auto& m : e.cgPolynomial) all &= cg.at(m.id - 1)->symbol_id >= 0;
        if (fresh) CHECK(e.hasSymbolPoly == all, "pt-missing", what << " entry " << itext(i) << " " << pt.elem_as_string(e) << ": symbols " << (all ? "known" : "unknown") << ", flag " << e.hasSymbolPoly);
        if (e.hasSymbolPoly) { const double v = d.symbols(e.symbolPolynomial); CHECK(verif::close(v, want), "pt-symbol-value", what << " entry " << itext(i) << " = " << pt.elem_as_string(e) << " has value " << v << " but the probability is " << want); c.count("pt-entries"); }
        VirtualPolynomialView view{cg, e.cgPolynomial}; double vv = 0; size_t n = 0; for (auto it = view.begin(); it != view.end(); ++it) { auto [seq, f] = *it; vv += f.real() * d.word(seq); ++n; }
        CHECK(verif::close(vv, want) && n == view.size(), "pt-view", what << " entry " << itext(i));
    }
    void check_pt(Ctx& c, Rng& r, const Dist& d, const CollinsGisin& cg, const ProbabilityTensor& pt, const std::string& what, bool fresh) {
        Idx dims; for (auto& x : d.dims) dims.push_back(x.pt());
        CHECK(pt.Dimensions == dims && pt.ElementCount == d.pt_elements(), "pt-dimensions", what << ": " << itext(pt.Dimensions) << " instead of " << itext(dims));
        if (pt.Dimensions != dims) return;
        const bool expl = pt.StorageType == TensorStorageType::Explicit; bool complete = true;
        auto one = [&](const Idx& i, size_t off) {
            CHECK(pt.index_to_offset(i) == off, "pt-offset", what << " " << itext(i));
            const auto e = pt(i); check_pt_entry(c, d, cg, pt, e, i, what, fresh); complete &= e->hasSymbolPoly;
            const auto f = pt.at(off), g = pt.elem_no_checks(i); CHECK(f->cgPolynomial == e->cgPolynomial && g->cgPolynomial == e->cgPolynomial && f->hasSymbolPoly == e->hasSymbolPoly && (!e->hasSymbolPoly || (f->symbolPolynomial == e->symbolPolynomial && g->symbolPolynomial == e->symbolPolynomial)) && pt.CGPolynomial(i) == e->cgPolynomial, "pt-access", what << " " << itext(i));
            const auto info = pt.element_info(i); Idx base, imp; for (size_t k = 0; k < dims.size(); ++k) if (i[k]) { auto [m, o] = d.dims[k].pt_at(i[k]); if (!d.dims[k].mmts[m].free && o + 1 == d.dims[k].mmts[m].outcomes) imp.push_back(k); }
            CHECK(info.implicitMmts == imp, "pt-implicit", what << " entry " << itext(i) << " lists implicit " << itext(info.implicitMmts) << " instead of " << itext(imp));
        };
        if (pt.ElementCount <= 400) { size_t off = 0; each(Idx(dims.size(), 0), dims, [&](const Idx& i) { one(i, off++); }); if (expl && fresh) CHECK(pt.HasAllPolynomials() == complete, "pt-complete", what); }
        else for (int k = 0; k < 60; ++k) { auto i = d.random_pt(r); size_t off = 0, str = 1; for (size_t j = 0; j < i.size(); ++j) { off += i[j] * str; str *= dims[j]; } one(i, off); }
        // identity: outcomes of any measurement sum to the entry without it
        for (int k = 0; k < 10; ++k) {
            Idx i = d.random_pt(r); const size_t p = r.below(dims.size()); const size_t m = r.below(d.dims[p].mmts.size()); if (d.dims[p].mmts[m].free) continue;
            i[p] = 0; std::map<symbol_name_t, double> sum; for (auto& t : pt.CGPolynomial(i)) sum[t.id] -= t.factor.real();
            for (size_t o = 0; o < d.dims[p].mmts[m].outcomes; ++o) { i[p] = d.dims[p].pt_offset(m) + o; for (auto& t : pt.CGPolynomial(i)) sum[t.id] += t.factor.real(); }
            for (auto& [id, f] : sum) CHECK(std::abs(f) < 1e-9, "normalisation", what << " outcomes of measurement " << m << " of party " << p << " at " << itext(i) << " do not sum to the marginal: residue " << f << " at CG entry " << id - 1);
            c.count("normalisations");
        }
        c.nontrivial(std::string(expl ? "explicit" : "virtual") + (complete ? " complete" : " incomplete"));
    }
    struct Query { std::vector<std::pair<size_t, size_t>> free; std::vector<std::tuple<size_t, size_t, size_t>> fixed; Idx clo, chi, plo, phi; };
    /** Some measurements free, some with outcome fixed. */
    Query query(Rng& r, const Dist& d, bool explicit_only) {
        Query q; const size_t n = d.dims.size(); q.clo = q.plo = Idx(n, 0); q.chi = q.phi = ones(n);
        std::vector<size_t> order; for (size_t i = 0; i < n; ++i) order.push_back(i); r.shuffle(order);
        for (auto p : order) {
            if (r.chance(1, 3)) continue;
            const auto& dm = d.dims[p]; const size_t m = r.below(dm.mmts.size()); const auto& mm = dm.mmts[m]; const size_t pn = mm.free ? 1 : mm.outcomes;
            if (r.coin() && !(explicit_only && mm.ops.empty())) {
                const size_t o = r.below(explicit_only ? mm.ops.size() : pn); q.fixed.emplace_back(p, m, o);
                q.clo[p] = dm.cg_offset(m) + o; q.chi[p] = q.clo[p] + 1; q.plo[p] = dm.pt_offset(m) + o; q.phi[p] = q.plo[p] + 1;
            } else if (n < 6 || q.free.size() < 3) {
                q.free.emplace_back(p, m); q.clo[p] = dm.cg_offset(m); q.chi[p] = q.clo[p] + mm.ops.size(); q.plo[p] = dm.pt_offset(m); q.phi[p] = q.plo[p] + pn;
            }
        }
        return q;
    }
    template<class Range, class T> void check_range(Ctx& c, const T& tensor, const Range& range, const Idx& lo, const Idx& hi, const std::string& what) {
        std::vector<Idx> want, seen; each(lo, hi, [&](const Idx& i) { want.push_back(i); });
        for (auto it = range.begin(); it != range.end(); ++it) { seen.emplace_back(it.index().begin(), it.index().end()); (void) *it; if (seen.size() > want.size() + 5) break; }
        CHECK(seen == want && range.size() == want.size() && static_cast<const void*>(&range.Tensor()) == static_cast<const void*>(&tensor), "measurement-range", what << ": visits " << seen.size() << " entries" << (seen.empty() ? "" : " from " + itext(seen.front()) + " to " + itext(seen.back())) << "; should be " << want.size() << (want.empty() ? "" : " from " + itext(want.front()) + " to " + itext(want.back())));
        c.count("ranges");
    }
    std::string qtext(const Query& q) { std::string s = "free"; for (auto& [p, m] : q.free) s += " (" + std::to_string(p) + "," + std::to_string(m) + ")"; s += " fixed"; for (auto& [p, m, o] : q.fixed) s += " (" + std::to_string(p) + "," + std::to_string(m) + ")=" + std::to_string(o); return s; }
    void locality_ranges(Ctx& c, Rng& r, const Dist& d, const std::string& what) {
        auto& lms = d.sys->locality(); auto& ctx = lms.localityContext; auto& cg = lms.LocalityCollinsGisin();
        for (int k = 0; k < 6; ++k) {
            auto q = query(r, d, true);
            std::vector<PMIndex> fr; std::vector<PMOIndex> fx; std::vector<size_t> gi; std::vector<oper_name_t> go;
            for (auto [p, m] : q.free) { fr.emplace_back(ctx, p, m); gi.push_back(fr.back().global_mmt); go.push_back(-1); }
            for (auto [p, m, o] : q.fixed) { fx.emplace_back(ctx, p, m, o); gi.push_back(fx.back().global_mmt); go.push_back(static_cast<oper_name_t>(o)); }
            check_range(c, static_cast<const CollinsGisin&>(cg), cg.measurement_to_range(fr, fx), q.clo, q.chi, what + " CG " + qtext(q));
            check_range(c, static_cast<const CollinsGisin&>(cg), cg.CollinsGisin::measurement_to_range(gi, go), q.clo, q.chi, what + " CG global " + qtext(q));
            if (fx.empty()) { check_range(c, static_cast<const CollinsGisin&>(cg), cg.measurement_to_range(fr), q.clo, q.chi, what + " CG " + qtext(q)); check_range(c, static_cast<const CollinsGisin&>(cg), cg.CollinsGisin::measurement_to_range(gi), q.clo, q.chi, what + " CG global " + qtext(q)); }
            if (!fr.empty() && !d.dims[q.free[0].first].mmts[q.free[0].second].ops.empty()) { auto twice = fr; twice.push_back(PMIndex(ctx, q.free[0].first, r.below(d.dims[q.free[0].first].mmts.size()))); CHECK(verif::throws([&] { (void) cg.measurement_to_range(twice); }), "same-party-twice", what); }
        }
    }
    void locality_pt_queries(Ctx& c, Rng& r, const Dist& d, const Locality::LocalityProbabilityTensor& pt, const std::string& what) {
        auto& ctx = d.sys->locality().localityContext;
        for (int k = 0; k < 5; ++k) {
            auto q = query(r, d, false);
            std::vector<PMIndex> fr; std::vector<PMOIndex> fx;
            for (auto [p, m] : q.free) fr.emplace_back(ctx, p, m);
            for (auto [p, m, o] : q.fixed) fx.emplace_back(ctx, p, m, o);
            auto range = pt.measurement_to_range(fr, fx);
            check_range(c, static_cast<const ProbabilityTensor&>(pt), range, q.plo, q.phi, what + " PT " + qtext(q));
            if (fx.empty()) check_range(c, static_cast<const ProbabilityTensor&>(pt), pt.measurement_to_range(fr), q.plo, q.phi, what + " PT " + qtext(q));
            Idx at(d.dims.size(), 0); for (auto [p, m, o] : q.fixed) at[p] = d.dims[p].pt_offset(m) + o;
            const auto cond = pt.outcome_to_element(fx);
            CHECK(cond->cgPolynomial == pt.CGPolynomial(at), "outcome-element", what << " " << qtext(q));
            // explicit values
            std::vector<double> given, truth; bool have = true; each(q.plo, q.phi, [&](const Idx& i) { truth.push_back(d.probability(i)); given.push_back(r.coin() ? truth.back() : r.sym() * 2); have &= pt(i)->hasSymbolPoly; });
            std::vector<Polynomial> rules; bool threw = false;
            try { rules = pt.explicit_value_rules(range, given); } catch (const errors::BadPTError&) { threw = true; }
            CHECK(threw == !have, "value-rules-refused", what << " " << qtext(q) << ": symbols " << (have ? "known" : "missing") << " but " << (threw ? "refused" : "accepted"));
            if (!threw) {
                CHECK(rules.size() == truth.size(), "value-rules-count", what);
                for (size_t i = 0; i < rules.size() && i < truth.size(); ++i) { const double v = d.symbols(rules[i]); CHECK(verif::close(v, truth[i] - given[i]), "value-rule", what << " " << qtext(q) << " rule " << i << " has residue " << v << " on a distribution of probability " << truth[i] << " when " << given[i] << " is imposed"); }
                c.count("value-rules", rules.size());
            }
            // conditional values: P(free, fixed) = v P(fixed)
            const double pc = d.probability(at); threw = false; rules.clear();
            for (size_t i = 0; i < given.size(); ++i) if (r.coin()) given[i] = pc > 1e-6 ? truth[i] / pc : 0.5;
            try { rules = pt.explicit_value_rules(range, cond, given); } catch (const errors::BadPTError&) { threw = true; }
            CHECK(threw == (!have || !cond->hasSymbolPoly), "condition-rules-refused", what << " " << qtext(q));
            if (!threw) {
                CHECK(rules.size() == truth.size(), "condition-rules-count", what);
                for (size_t i = 0; i < rules.size() && i < truth.size(); ++i) { const double v = d.symbols(rules[i]); CHECK(verif::close(v, truth[i] - given[i] * pc), "condition-rule", what << " " << qtext(q) << " rule " << i << " has residue " << v << " on a distribution of joint " << truth[i] << " and condition " << pc << " when " << given[i] << " is imposed"); }
                c.count("condition-rules", rules.size());
            }
        }
    }
    std::vector<std::vector<size_t>> small_spec(Rng& r, bool single = false) {
        while (true) { auto s = LocalityScen::random_spec(r, 4, 3, 4, 12, single ? 1 : 2); size_t cg = 1; for (auto& p : s) { size_t n = 1; for (auto o : p) n += o - 1; cg *= n; } if (cg <= 260) return s; }
    }
    NetSpec small_net(Rng& r) {
        while (true) { auto n = random_network(r, 3, 3, 2, 3, 7); InflationScen s(n, false); std::map<std::pair<int, std::vector<int>>, size_t> var; for (size_t i = 0; i < s.obs.size(); ++i) ++var[{s.obs[i], s.copy[i]}]; size_t cg = 1; for (auto& [k, m] : var) cg *= m + 1; if (cg <= 300) return n; }
    }
}

SECTION(locality_small) {
    c.for_cases(c.n(150, 1500), [&](Rng& r, uint64_t) {
        auto d = Dist::locality(r, small_spec(r, r.chance(1, 5))); const std::string base = d->desc();
        auto& lms = d->sys->locality();
        CHECK(verif::throws([&] { (void) lms.CollinsGisin(); }) && verif::throws([&] { (void) lms.ProbabilityTensor(); }), "tensor-before-request", base);
        std::string hist; std::unique_ptr<Locality::LocalityProbabilityTensor> virt;
        const size_t steps = 3;
        for (size_t k = 0; k <= steps; ++k) {
            if (k || r.coin()) { if (k == steps && r.chance(2, 3)) { d->grow_all(); hist += "; all words"; } else hist += "; " + d->grow(r, k); }
            const std::string what = base + hist;
            if (k && r.chance(1, 3)) { check_cg(c, r, *d, lms.CollinsGisin(), what + " (not refreshed)", false); }
            if (r.coin()) d->refresh(0);
            d->refresh(1);
            check_cg(c, r, *d, lms.CollinsGisin(), what, true);
            check_pt(c, r, *d, lms.CollinsGisin(), lms.ProbabilityTensor(), what, true);
            locality_ranges(c, r, *d, what);
            locality_pt_queries(c, r, *d, lms.LocalityProbabilityTensor(), what);
            if (!virt) virt = std::make_unique<Locality::LocalityProbabilityTensor>(lms, TensorStorageType::Virtual);
            check_pt(c, r, *d, lms.CollinsGisin(), *virt, what + " virtual", true);
            locality_pt_queries(c, r, *d, *virt, what + " virtual");
        }
    });
}

SECTION(locality_large) {
    c.for_cases(c.n(30, 250), [&](Rng& r, uint64_t) {
        std::vector<std::vector<size_t>> spec; size_t cg = 1, pt = 1;
        do { cg = pt = 1; spec.clear(); const size_t np = 2 + r.below(r.coin() ? 5 : 3); for (size_t p = 0; p < np; ++p) { std::vector<size_t> m(1 + r.below(np > 4 ? 3 : 6)); size_t n = 1, q = 1; for (auto& o : m) { o = 2 + r.below(np > 4 ? 1 : 4); n += o - 1; q += o; } cg *= n; pt *= q; spec.push_back(m); } } while (pt < 700 || pt > 60000 || spec.size() > 6);
        auto d = Dist::locality(r, spec); auto& lms = d->sys->locality(); std::string hist;
        for (size_t k = 0; k < 3; ++k) {
            if (k) { if (d->cg_elements() <= 2500 && r.coin()) { d->grow_all(2500); hist += "; all words"; } else { for (int j = 0; j < 40; ++j) d->word_matrix(d->cg_word(d->random_cg(r))); hist += "; words"; } }
            d->refresh(1); const std::string what = d->desc() + hist;
            check_cg(c, r, *d, lms.CollinsGisin(), what, true);
            check_pt(c, r, *d, lms.CollinsGisin(), lms.ProbabilityTensor(), what, true);
            locality_ranges(c, r, *d, what);
            locality_pt_queries(c, r, *d, lms.LocalityProbabilityTensor(), what);
        }
    });
}

SECTION(imposed_distribution) {
    // the rules of a full joint distribution complete without contradiction, keep every value, and fix every probability of their measurements
    c.for_cases(c.n(300, 4000), [&](Rng& r, uint64_t) {
        std::vector<std::vector<size_t>> spec; do spec = small_spec(r); while (spec.size() > 3);
        auto d = Dist::locality(r, spec, 1e6); auto& lms = d->sys->locality(); auto& ctx = lms.localityContext;
        d->grow_all(); d->refresh(1); auto& pt = lms.LocalityProbabilityTensor();
        std::vector<PMIndex> mm; Idx lo(spec.size(), 0), hi = ones(spec.size());
        for (size_t p = 0; p < spec.size(); ++p) if (!r.chance(1, 4)) { const size_t m = r.below(spec[p].size()); mm.emplace_back(ctx, p, m); lo[p] = d->dims[p].pt_offset(m); hi[p] = lo[p] + spec[p][m]; }
        if (mm.empty()) return;
        std::vector<double> v; each(lo, hi, [&](const Idx& i) { v.push_back(d->probability(i)); });
        auto rules = pt.explicit_value_rules(pt.measurement_to_range(mm), v);
        MomentRulebook book(lms); book.add_raw_rules(std::vector<Polynomial>(rules)); bool bad = false;
        try { book.complete(); } catch (const std::exception& e) { bad = true; CHECK(false, "consistent-values-refused", d->desc() << " " << mm.size() << " measurements: " << e.what()); }
        if (bad) return;
        Idx zlo = lo; for (auto& x : zlo) x = 0; size_t fixed = 0;
        each(zlo, hi, [&](const Idx& i) {
            bool in = true; for (size_t p = 0; p < i.size(); ++p) in &= i[p] == 0 || (hi[p] > 1 && i[p] >= lo[p]);
            if (!in) return;
            auto red = book.reduce(pt(i)->symbolPolynomial); const bool scalar = red.empty() || (red.size() == 1 && red.begin()->id == 1);
            CHECK(scalar && std::abs(d->symbols(red) - d->probability(i)) < 1e-7, "imposed-value", d->desc() << " entry " << itext(i) << " of an imposed distribution reduces to value " << d->symbols(red) << " over " << red.size() << " terms, should be the number " << d->probability(i)); ++fixed;
        });
        for (int k = 0; k < 15; ++k) { auto i = d->random_pt(r); auto red = book.reduce(pt(i)->symbolPolynomial); CHECK(std::abs(d->symbols(red) - d->probability(i)) < 1e-6, "imposed-other", d->desc() << " entry " << itext(i) << " reduces to value " << d->symbols(red) << " instead of " << d->probability(i)); }
        // a contradicting distribution is refused
        auto w = v; const size_t at = r.below(w.size()); w[at] += 0.25; MomentRulebook no(lms); no.add_raw_rules(pt.explicit_value_rules(pt.measurement_to_range(mm), w));
        CHECK(verif::throws([&] { no.complete(); }), "unnormalised-accepted", d->desc() << " " << mm.size() << " measurements, values sum to 1.25");
        c.count("imposed", fixed); c.nontrivial(std::to_string(mm.size()) + " parties");
    });
}

SECTION(inflation) {
    c.for_cases(c.n(200, 2500), [&](Rng& r, uint64_t) {
        auto d = Dist::inflation(r, small_net(r)); const std::string base = d->desc();
        auto& ims = d->sys->inflation(); std::string hist; const auto& ic = *d->sys->iscen().ictx;
        for (size_t k = 0; k <= 3; ++k) {
            if (k || r.coin()) { if (k == 3 && r.chance(2, 3)) { d->grow_all(350); hist += "; all words"; } else hist += "; " + d->grow(r, k); }
            const std::string what = base + hist;
            d->refresh(1); const auto& cg = ims.InflationCollinsGisin(); const auto& pt = ims.InflationProbabilityTensor();
            check_cg(c, r, *d, cg, what, true);
            check_pt(c, r, *d, cg, pt, what, true);
            auto ov = [&](size_t dim) { oper_name_t v = 0; for (size_t j = 0; j < dim; ++j) if (d->variant[j].first == d->variant[dim].first) ++v; return OVIndex{static_cast<oper_name_t>(d->variant[dim].first), v}; };
            for (int j = 0; j < 5; ++j) {
                auto q = query(r, *d, true);
                std::vector<OVIndex> fr; std::vector<OVOIndex> fx; for (auto [p, m] : q.free) { fr.push_back(ov(p)); CHECK(ic.obs_variant_to_index(fr.back()) == static_cast<oper_name_t>(p), "variant-index", what); } for (auto [p, m, o] : q.fixed) fx.emplace_back(ov(p), static_cast<oper_name_t>(o));
                check_range(c, static_cast<const CollinsGisin&>(cg), cg.measurement_to_range(fr, fx), q.clo, q.chi, what + " CG " + qtext(q));
                if (fx.empty()) check_range(c, static_cast<const CollinsGisin&>(cg), cg.measurement_to_range(fr), q.clo, q.chi, what + " CG " + qtext(q));
                q = query(r, *d, false); fr.clear(); fx.clear(); for (auto [p, m] : q.free) fr.push_back(ov(p)); for (auto [p, m, o] : q.fixed) fx.emplace_back(ov(p), static_cast<oper_name_t>(o));
                auto range = pt.measurement_to_range(fr, fx); check_range(c, static_cast<const ProbabilityTensor&>(pt), range, q.plo, q.phi, what + " PT " + qtext(q));
                if (fx.empty()) check_range(c, static_cast<const ProbabilityTensor&>(pt), pt.measurement_to_range(fr), q.plo, q.phi, what + " PT " + qtext(q));
                Idx at(d->dims.size(), 0); for (auto [p, m, o] : q.fixed) at[p] = 1 + o;
                CHECK(pt.outcome_to_element(fx)->cgPolynomial == pt.CGPolynomial(at), "outcome-element", what << " " << qtext(q));
                std::vector<double> v; bool have = true; each(q.plo, q.phi, [&](const Idx& i) { v.push_back(d->probability(i)); have &= pt(i)->hasSymbolPoly; });
                if (have) { auto rules = pt.explicit_value_rules(range, v); for (size_t i = 0; i < rules.size(); ++i) CHECK(std::abs(d->symbols(rules[i])) < 1e-9, "value-rule", what << " " << qtext(q) << " rule " << i); c.count("value-rules", rules.size()); }
            }
        }
    });
}
