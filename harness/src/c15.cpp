// C15: full correlators and correlator conversions agree with actual distributions.
#include "tens.h"
using namespace verif;
using namespace Moment;
using Locality::PMIndex; using Locality::PMOIndex;

namespace {
    void each(const Idx& hi, const std::function<void(const Idx&)>& f) {
        Idx i(hi.size(), 0);
        while (true) { f(i); size_t d = 0; while (d < i.size() && ++i[d] == hi[d]) { i[d] = 0; ++d; } if (d == i.size()) return; }
    }
    struct Corr {
        const Dist& d; std::map<Idx, double> cache;
        /** <prod A_m> with A = P0 - P1, from the state itself. */
        double operator()(const Idx& i) {
            auto it = cache.find(i); if (it != cache.end()) return it->second;
            double v;
            if (d.loc) { Mat m = Mat::Identity(d.loc->dim, d.loc->dim); for (size_t p = 0; p < i.size(); ++p) if (i[p]) m = m * (d.loc->proj[p][i[p] - 1][0] - d.loc->proj[p][i[p] - 1][1]); v = trace_product(d.loc->rho, m).real(); }
            else {
                std::vector<size_t> in; for (size_t p = 0; p < i.size(); ++p) if (i[p]) in.push_back(p);
                v = 0; for (size_t b = 0; b < (1ULL << in.size()); ++b) { std::vector<std::tuple<int, std::vector<int>, int>> ask; int sign = 1; for (size_t k = 0; k < in.size(); ++k) { const int o = (b >> k) & 1; if (o) sign = -sign; ask.emplace_back(d.variant[in[k]].first, d.variant[in[k]].second, o); } v += sign * d.inf->joint(ask); }
            }
            return cache[i] = v;
        }
    };
    void check_fc(Ctx& c, Rng& r, const Dist& d, Corr& corr, const CollinsGisin& cg, const FullCorrelator& fc, const std::string& what, bool fresh) {
        Idx dims; for (auto& x : d.dims) dims.push_back(x.mmts.size() + 1);
        CHECK(fc.Dimensions == dims, "dimensions", what << " " << itext(fc.Dimensions) << " instead of " << itext(dims));
        if (fc.Dimensions != dims) return;
        bool complete = true;
        auto one = [&](const Idx& i) {
            const auto e = fc(i); const double want = corr(i), got = d.cg_poly(cg, e->cgPolynomial);
            CHECK(verif::close(got, want), "cg-value", what << " entry " << itext(i) << " = " << fc.elem_as_string(e) << " has value " << got << " but the correlator is " << want);
            bool all = true; for (auto& m : e->cgPolynomial) all &= cg.at(m.id - 1)->symbol_id >= 0;
            if (fresh) CHECK(e->hasSymbolPoly == all, "missing", what << " entry " << itext(i) << " flag " << e->hasSymbolPoly << ", symbols known " << all);
            if (e->hasSymbolPoly) { const double v = d.symbols(e->symbolPolynomial); CHECK(verif::close(v, want), "symbol-value", what << " entry " << itext(i) << " = " << fc.elem_as_string(e) << " has value " << v << " but the correlator is " << want); c.count("symbolic-entries"); }
            complete &= e->hasSymbolPoly;
            const auto f = fc.at(fc.index_to_offset(i)); CHECK(f->cgPolynomial == e->cgPolynomial && f->hasSymbolPoly == e->hasSymbolPoly && fc.CGPolynomial(i) == e->cgPolynomial, "access", what << " " << itext(i));
            size_t n = 0; for (auto x : i) n += x > 0; c.nontrivial(std::to_string(n) + " bodies"); c.count("entries");
        };
        if (fc.ElementCount <= 300) { each(dims, one); if (fresh && fc.StorageType == TensorStorageType::Explicit) CHECK(fc.HasAllPolynomials() == complete, "complete", what); }
        else for (int k = 0; k < 60; ++k) { Idx i; for (auto x : dims) i.push_back(r.below(x)); one(i); }
        size_t n = 0; if (fc.ElementCount <= 2000) { for (auto it = fc.begin(); it != fc.end(); ++it) { CHECK(it.offset() == n && it->cgPolynomial == fc.at(n)->cgPolynomial, "iterate", what << " offset " << n); ++n; } CHECK(n == fc.ElementCount, "iterate", what); }
    }
    std::vector<std::vector<size_t>> binary(Rng& r, size_t parties, size_t mmts) { std::vector<std::vector<size_t>> s(parties); for (auto& p : s) p.assign(1 + r.below(mmts), 2); return s; }
    void locality_case(Ctx& c, Rng& r, const std::vector<std::vector<size_t>>& spec, size_t words) {
        auto d = Dist::locality(r, spec); auto& lms = d->sys->locality(); auto& ctx = lms.localityContext; Corr corr{*d, {}};
        CHECK(lms.CanHaveFullCorrelator(), "can-have", d->desc());
        std::string hist; std::unique_ptr<Locality::LocalityFullCorrelator> virt;
        for (size_t k = 0; k < 4; ++k) {
            if (k || r.coin()) { if (k == 3 && d->cg_elements() <= words) { d->grow_all(words); hist += "; all words"; } else if (k == 3) { for (int j = 0; j < 60; ++j) d->word_matrix(d->cg_word(d->random_cg(r))); hist += "; words"; } else hist += "; " + d->grow(r, k); }
            const std::string what = d->desc() + hist;
            d->refresh(2); const auto& fc = lms.LocalityFullCorrelator();
            check_fc(c, r, *d, corr, lms.CollinsGisin(), fc, what, true);
            if (!virt) virt = std::make_unique<Locality::LocalityFullCorrelator>(lms, TensorStorageType::Virtual);
            check_fc(c, r, *d, corr, lms.CollinsGisin(), *virt, what + " virtual", true);
            for (int j = 0; j < 5; ++j) {
                std::vector<PMIndex> q; Idx i(spec.size(), 0); std::vector<size_t> order; for (size_t p = 0; p < spec.size(); ++p) order.push_back(p); r.shuffle(order);
                for (auto p : order) if (r.coin()) { const size_t m = r.below(spec[p].size()); q.emplace_back(ctx, p, m); i[p] = m + 1; }
                CHECK(fc.mmt_to_element(q)->cgPolynomial == fc.CGPolynomial(i) && virt->mmt_to_element(q)->cgPolynomial == fc.CGPolynomial(i), "measurement-element", what << " " << itext(i));
                if (!q.empty()) { auto t = q; t.emplace_back(ctx, q[0].party, r.below(spec[q[0].party].size())); CHECK(verif::throws([&] { (void) fc.mmt_to_element(t); }), "same-party-twice", what); }
                auto b = q; b.emplace_back(static_cast<party_name_t>(spec.size()), 0); CHECK(verif::throws([&] { (void) fc.mmt_to_element(b); }), "bad-party", what);
                const size_t p0 = r.below(spec.size()); std::vector<PMIndex> bm{PMIndex(static_cast<party_name_t>(p0), static_cast<Moment::mmt_name_t>(spec[p0].size()))}; CHECK(verif::throws([&] { (void) fc.mmt_to_element(bm); }), "bad-measurement", what);
            }
        }
    }
}

SECTION(locality_few_parties) { c.for_cases(c.n(400, 4000), [&](Rng& r, uint64_t) { locality_case(c, r, binary(r, 1 + r.below(3), 4), 200); }); }
SECTION(locality_many_parties) { c.for_cases(c.n(400, 4000), [&](Rng& r, uint64_t) { locality_case(c, r, binary(r, 4 + r.below(3), 2), 300); }); }
SECTION(locality_large) { c.for_cases(c.n(30, 200), [&](Rng& r, uint64_t) { std::vector<std::vector<size_t>> s; size_t n; do { s = binary(r, 2 + r.below(5), 30); n = 1; for (auto& p : s) n *= p.size() + 1; } while (n < 1025 || n > 20000); locality_case(c, r, s, 0); }); }

SECTION(inflation) {
    c.for_cases(c.n(400, 4000), [&](Rng& r, uint64_t) {
        NetSpec net; size_t dims;
        do { net = random_network(r, 3, 3, 2, 3, 7); for (auto& o : net.outcomes) o = 2; dims = 1; InflationScen s(net, false); for (size_t i = 0; i < s.obs.size(); ++i) dims *= 2; } while (dims > 300);
        auto d = Dist::inflation(r, net); auto& ims = d->sys->inflation(); Corr corr{*d, {}};
        CHECK(verif::throws([&] { ims.RefreshFullCorrelator(); }), "unsupported-refused", d->desc());
        std::string hist; std::unique_ptr<Inflation::InflationFullCorrelator> fc;
        for (size_t k = 0; k < 3; ++k) {
            if (k) { if (k == 2) { d->grow_all(350); hist += "; all words"; } else hist += "; " + d->grow(r, k); }
            d->refresh(0);
            if (!fc) fc = std::make_unique<Inflation::InflationFullCorrelator>(ims, r.coin() ? TensorStorageType::Explicit : TensorStorageType::Virtual); else fc->fill_missing_polynomials();
            check_fc(c, r, *d, corr, ims.CollinsGisin(), *fc, d->desc() + hist, true);
        }
    });
}

SECTION(conversion) {
    c.for_cases(c.n(4000, 60000), [&](Rng& r, uint64_t) {
        auto spec = binary(r, 2, 6); auto d = Dist::locality(r, spec); Corr corr{*d, {}};
        Locality::TensorConvertor tc(d->sys->locality().localityContext);
        const Idx dims{spec[0].size() + 1, spec[1].size() + 1}; const size_t n = dims[0] * dims[1];
        CHECK(tc.tensor_info.Dimensions == dims, "dimensions", d->desc());
        std::vector<double> cgv, fcv; each(dims, [&](const Idx& i) { cgv.push_back(d->cg_value(i)); fcv.push_back(corr(i)); });
        std::vector<double> f(n); for (auto& x : f) x = r.chance(1, 3) ? 0.0 : r.gauss() * 3;
        auto dot = [](const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for (size_t i = 0; i < a.size() && i < b.size(); ++i) s += a[i] * b[i]; return s; };
        const auto as_cg = tc.full_correlator_to_collins_gisin(f), as_fc = tc.collins_gisin_to_full_correlator(f);
        CHECK(as_cg.size() == n && as_fc.size() == n, "size", d->desc());
        CHECK(verif::close(dot(f, fcv), dot(as_cg, cgv)), "fc-to-cg-value", d->desc() << ": functional [" << join(f) << "] has value " << dot(f, fcv) << " on correlators, converted " << dot(as_cg, cgv) << " on the same state");
        CHECK(verif::close(dot(f, cgv), dot(as_fc, fcv)), "cg-to-fc-value", d->desc() << ": functional [" << join(f) << "] has value " << dot(f, cgv) << " on probabilities, converted " << dot(as_fc, fcv) << " on the same state");
        // arbitrary (also unphysical) behaviours p: E_ab = 4p_ab - 2p_a - 2p_b + 1
        std::vector<double> p(n), e(n); for (auto& x : p) x = r.gauss(); p[0] = 1;
        for (size_t b = 0; b < dims[1]; ++b) for (size_t a = 0; a < dims[0]; ++a) { const double pa = p[a], pb = p[b * dims[0]], pab = p[a + b * dims[0]]; e[a + b * dims[0]] = a && b ? 4 * pab - 2 * pa - 2 * pb + 1 : a ? 2 * pa - 1 : b ? 2 * pb - 1 : 1; }
        CHECK(verif::close(dot(f, e), dot(as_cg, p), 1e-8) && verif::close(dot(f, p), dot(as_fc, e), 1e-8), "behaviour-value", d->desc() << " functional [" << join(f) << "]");
        auto back1 = tc.collins_gisin_to_full_correlator(as_cg), back2 = tc.full_correlator_to_collins_gisin(as_fc);
        for (size_t i = 0; i < n; ++i) CHECK(verif::close(back1[i], f[i]) && verif::close(back2[i], f[i]), "round-trip", d->desc() << " element " << i << ": " << f[i] << " came back as " << back1[i] << " / " << back2[i]);
        std::vector<double> wrong(n + (r.coin() ? 1 : -1), 1.0); CHECK(verif::throws([&] { tc.full_correlator_to_collins_gisin(wrong); }) && verif::throws([&] { tc.collins_gisin_to_full_correlator(wrong); }), "wrong-size", d->desc());
        c.count("functionals"); c.nontrivial(std::to_string(dims[0]) + "x" + std::to_string(dims[1]));
    });
}

SECTION(refusals) {
    c.for_cases(c.n(1000, 10000), [&](Rng& r, uint64_t) {
        auto spec = LocalityScen::random_spec(r, 4, 3, 3, 10, r.chance(1, 4) ? 1 : 2); bool bin = true; for (auto& p : spec) for (auto o : p) bin &= o == 2;
        auto d = Dist::locality(r, spec); auto& lms = d->sys->locality();
        CHECK(lms.CanHaveFullCorrelator() == bin, "can-have", d->desc());
        bool threw = false; try { lms.RefreshFullCorrelator(); } catch (const std::logic_error&) { threw = true; }
        CHECK(threw == !bin, "refresh", d->desc()); if (!bin) CHECK(verif::throws([&] { (void) lms.FullCorrelator(); }), "refresh", d->desc());
        threw = false; try { Locality::TensorConvertor tc(lms.localityContext); } catch (const std::exception&) { threw = true; }
        CHECK(threw == (!bin || spec.size() != 2), "convertor", d->desc());
        c.nontrivial(bin ? "binary" : "other");
    });
}
