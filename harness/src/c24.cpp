// C24: hostile and malformed arguments are refused (or handled), and leave the objects they were given to usable.
#include "tens.h"
#include "reqs.h"
#include "symm.h"
#include "scenarios/imported/imported_matrix_system.h"
#include "scenarios/pauli/indices/nearest_neighbour_index.h"
#include "scenarios/pauli/pauli_matrix_system.h"
#include "matrix/substituted_matrix.h"
#include "matrix/polynomial_matrix.h"
#include "symbolic/polynomial_to_basis.h"
#include "symbolic/rules/moment_rulebook.h"
#include <climits>
#include <limits>
using namespace Moment;
using namespace Moment::Locality;
using namespace Moment::Inflation;
using namespace verif;

namespace {
    /** Did f return (1), or throw (0)? */
    template<class F> bool accepted(F&& f, std::string* why = nullptr) { return !verif::throws(f, why); }
    /** f is to be accepted exactly if `good`. */
    template<class F> bool expect(Ctx& c, bool good, const char* key, const std::string& what, F&& f) {
        c.note(what);
        std::string why; const bool ok = accepted(f, &why);
        c.count(good ? "valid" : "refused");
        CHECK(ok == good, key, what << (good ? ": refused (" + why + ")" : ": accepted"));
        return ok && good;
    }
    /** f may do either, but must come back. */
    template<class F> bool any(Ctx& c, const std::string& what, F&& f) {
        c.note(what); const bool ok = accepted(f); c.count(ok ? "handled" : "reported"); ++c.evaluations; return ok;
    }
    /** Interesting sizes around a limit. */
    std::vector<size_t> sizes_around(Rng& r, size_t limit) {
        return {limit, limit + 1, limit + 2, 2 * limit + 1, 65535, 65536, 65537, 65536 + r.below(limit + 1), (size_t{1} << 31), (size_t{1} << 32), (size_t{1} << 32) + 1, SIZE_MAX / 3 + 1, SIZE_MAX / 2 + 1, SIZE_MAX - 1, SIZE_MAX};
    }
    /** A letter outside [0, n). */
    long bad_letter(Rng& r, size_t n) {
        switch (r.below(6)) { case 0: return -1; case 1: return INT16_MIN; case 2: return -1 - static_cast<long>(r.below(100)); case 3: return INT16_MAX; case 4: return static_cast<long>(n); default: return std::min<long>(INT16_MAX, static_cast<long>(n + r.below(300))); }
    }
    constexpr size_t limit16 = 32767;
}

// ---- sizes of scenarios
SECTION(generic_sizes) {
    c.for_cases(c.n(60, 600), [&](Rng& r, uint64_t) {
        for (auto n : sizes_around(r, limit16)) expect(c, n <= limit16, "generic-size", "Context(" + std::to_string(n) + ")", [&] { Context x(n); if (x.size() != n) throw std::logic_error("wrong size " + std::to_string(x.size())); });
        const size_t n = r.below(limit16 + 1); expect(c, true, "generic-size", "Context(" + std::to_string(n) + ")", [&] { Context x(n); if (x.size() != n) throw std::logic_error("wrong size"); });
        c.nontrivial("generic " + std::to_string(n));
    });
}
SECTION(locality_sizes) {
    auto make = [](const std::vector<std::vector<long>>& spec) {
        std::vector<Party> ps; long id = 0;
        for (auto& p : spec) { std::vector<Measurement> ms; for (auto o : p) ms.emplace_back("m", static_cast<oper_name_t>(o)); ps.emplace_back(static_cast<party_name_t>(id++), "P", std::move(ms)); }
        return std::make_unique<LocalityContext>(std::move(ps));
    };
    c.for_cases(c.n(150, 2500), [&](Rng& r, uint64_t k) {
        // random scenarios whose operator totals fall on both sides of the limit; outcome counts below one are refused when they are not asserted
        std::vector<std::vector<long>> spec(r.below(5)); size_t total = 0; bool fits = true;
        const bool big = r.coin();
        for (auto& p : spec) { p.resize(r.below(4)); size_t mine = 0; for (auto& o : p) { o = big ? 1 + r.below(r.coin() ? 32767 : 9000) : 1 + r.below(5); mine += o - 1; } fits &= mine <= limit16; total += mine; }
        fits &= total <= limit16;
        std::string t; for (auto& p : spec) t += "{" + join(p) + "}";
        std::unique_ptr<LocalityContext> ctx;
        if (expect(c, fits, "locality-size", "LocalityContext(" + t + ") with " + std::to_string(total) + " operators", [&] { ctx = make(spec); })) {
            CHECK(ctx->size() == total && ctx->Parties.size() == spec.size(), "locality-size-value", t << ": " << ctx->size());
            size_t op = 0; bool ok = true;
            for (size_t p = 0; p < spec.size(); ++p) { ok &= static_cast<size_t>(ctx->Parties[p].global_offset()) == op; for (auto x : ctx->Parties[p].operators()) { ok &= static_cast<size_t>(x) == op; ++op; } }
            CHECK(ok && op == total, "locality-operators", t);
        }
        c.nontrivial("locality " + t);
        // many parties, many measurements
        if (k % 10 == 0) {
            for (long n : {0L, 1L, 100L, 32767L}) for (long m : {0L, 1L, 2L, 400L, 32767L}) {
                if (n * m > 40000) continue;
                expect(c, n * m <= 32767, "locality-list-size", "MakeList(" + std::to_string(n) + "," + std::to_string(m) + ",2)", [&] { LocalityContext x(Party::MakeList(static_cast<party_name_t>(n), static_cast<mmt_name_t>(m), 2)); if (static_cast<long>(x.size()) != n * m) throw std::logic_error("wrong size"); });
            }
        }
        // MakeList with explicit lists, lengths random
        std::vector<size_t> mpp(r.below(4)), opm; size_t want = 0; for (auto& m : mpp) { m = r.below(4); want += m; }
        if (r.chance(1, 6) && !mpp.empty()) { auto hs = sizes_around(r, limit16); mpp[r.below(mpp.size())] = r.pick(hs); }
        const size_t have = r.chance(2, 3) ? want : r.below(want + 3); bool good_o = true; size_t ops = 0;
        std::vector<size_t> per; for (size_t i = 0; i < have; ++i) { opm.push_back(1 + r.below(4)); if (r.chance(1, 12)) { auto hs = sizes_around(r, limit16); opm.back() = r.coin() ? 0 : r.pick(hs); } good_o &= opm.back() >= 1 && opm.back() <= limit16; if (good_o) ops += opm.back() - 1; }
        size_t need = 0; bool over = false; for (auto m : mpp) { if (m > have - std::min(need, have)) { over = true; break; } need += m; }
        std::string lt = "MakeList({" + join(mpp) + "},{" + join(opm) + "})";
        const bool clear = !over && need == have;
        if (over || !good_o) { if (over) expect(c, false, "list-short", lt, [&] { LocalityContext x(Party::MakeList(mpp, opm)); }); else any(c, lt, [&] { LocalityContext x(Party::MakeList(mpp, opm)); }); }
        else if (clear && ops <= limit16) expect(c, true, "list-good", lt, [&] { LocalityContext x(Party::MakeList(mpp, opm)); if (x.size() != ops) throw std::logic_error("wrong size"); });
        else any(c, lt, [&] { LocalityContext x(Party::MakeList(mpp, opm)); });
    });
}
SECTION(pauli_sizes) {
    using namespace Moment::Pauli;
    c.for_cases(c.n(60, 600), [&](Rng& r, uint64_t) {
        const size_t lim = limit16 / 3;
        for (auto n : sizes_around(r, lim)) {
            auto w = r.coin() ? WrapType::Wrap : WrapType::None;
            expect(c, n <= lim, "pauli-chain-size", "PauliContext(" + std::to_string(n) + ")", [&] { PauliContext x(n, w, SymmetryType::None); if (x.size() != 3 * n || x.qubit_size != n) throw std::logic_error("wrong size"); });
        }
        for (int k = 0; k < 10; ++k) {
            const auto hs = sizes_around(r, lim); size_t a = r.coin() ? r.pick(hs) : r.below(300), b = r.coin() ? r.pick(hs) : r.below(300);
            if (!a || !b) continue;
            const bool good = a <= lim && b <= lim && a * b <= lim;
            expect(c, good, "pauli-lattice-size", "PauliContext(" + std::to_string(a) + "," + std::to_string(b) + ")", [&] { PauliContext x(a, b); if (x.size() != 3 * a * b || x.qubit_size != a * b || x.col_height != a || x.row_width != b) throw std::logic_error("wrong size"); });
            c.nontrivial("pauli " + std::to_string(a) + "x" + std::to_string(b));
        }
        for (auto [a, b] : {std::pair<size_t, size_t>{0, 0}, {0, 3}, {3, 0}, {0, SIZE_MAX}, {SIZE_MAX, 0}})
            any(c, "PauliContext(" + std::to_string(a) + "," + std::to_string(b) + ")", [&] { PauliContext x(a, b); (void) x.to_string(); });
        for (auto w : {WrapType::None, WrapType::Wrap}) for (auto s : {SymmetryType::None, SymmetryType::Translational}) any(c, "empty chain", [&] { PauliContext x(0, w, s); (void) x.to_string(); });
    });
}
SECTION(inflation_sizes) {
    c.for_cases(c.n(150, 2500), [&](Rng& r, uint64_t) {
        // networks
        std::vector<size_t> outs(r.below(4)); for (auto& o : outs) { o = r.below(5); if (r.chance(1, 15)) { auto hs = sizes_around(r, limit16); o = r.pick(hs); } }
        std::vector<std::set<oper_name_t>> src(r.below(4)); bool bad_src = false;
        for (auto& s : src) for (size_t i = 0, n = r.below(3); i < n; ++i) { long o = r.chance(1, 12) ? bad_letter(r, outs.size()) : static_cast<long>(r.below(outs.size() + (r.chance(1, 20) ? 1 : 0))); bad_src |= o < 0 || o >= static_cast<long>(outs.size()); s.insert(static_cast<oper_name_t>(o)); }
        auto lvls = sizes_around(r, limit16); size_t level = r.chance(1, 3) ? r.pick(lvls) : r.below(r.coin() ? 4 : 250);
        std::string t = "network(outcomes " + join(outs) + "; sources "; for (auto& s : src) t += "{" + join(s) + "}"; t += "; level " + std::to_string(level) + ")";
        std::optional<CausalNetwork> net;
        if (!expect(c, !bad_src, "network", t, [&] { auto s = src; net.emplace(outs, std::move(s)); })) { c.nontrivial(t); return; }
        // how many operators?
        bool fits = true; unsigned __int128 ops = 0, variants = 0;
        for (size_t o = 0; o < outs.size(); ++o) {
            unsigned __int128 cp = 1; for (auto& s : src) if (s.count(static_cast<oper_name_t>(o))) cp = std::min<unsigned __int128>(cp * level, 1u << 30);
            const unsigned __int128 n = outs[o] ? outs[o] - 1 : 1; ops += cp * n; variants += cp; fits &= cp <= limit16 && n <= limit16;
        }
        fits &= ops <= limit16 && variants <= limit16;
        if (level > 60 && fits && ops > 3000) return; // valid, but expensive
        if (!fits) {
            expect(c, false, "inflation-too-big", t, [&] { InflationContext x(std::move(*net), level); });
        } else if (level == 0 || level > limit16 || (src.size() + outs.size()) * level > limit16) {
            any(c, t, [&] { InflationContext x(std::move(*net), level); (void) x.to_string(); });
        } else if (expect(c, true, "inflation-size", t, [&] { InflationContext x(std::move(*net), level); if (x.size() != static_cast<size_t>(ops) || x.observable_variant_count() != static_cast<size_t>(variants)) throw std::logic_error("wrong size"); (void) x.to_string(); })) {}
        c.nontrivial(t);
    });
}
SECTION(algebraic_sizes) {
    using namespace Moment::Algebraic;
    c.for_cases(c.n(40, 400), [&](Rng& r, uint64_t) {
        for (long n : {0L, 1L, 5L, 16383L, 16384L, 20000L, 32766L, 32767L, -1L, -2L, -32768L, static_cast<long>(r.range(-300, 300))})
            for (auto m : {AlgebraicPrecontext::ConjugateMode::SelfAdjoint, AlgebraicPrecontext::ConjugateMode::Bunched, AlgebraicPrecontext::ConjugateMode::Interleaved}) {
                const bool self = m == AlgebraicPrecontext::ConjugateMode::SelfAdjoint; const bool good = n >= 0 && (self || 2 * n <= 32767);
                expect(c, good, "algebraic-size", "AlgebraicPrecontext(" + std::to_string(n) + (self ? ")" : ", complex)"), [&] {
                    AlgebraicPrecontext apc(static_cast<oper_name_t>(n), m); const size_t want = self ? n : 2 * n;
                    if (static_cast<size_t>(apc.num_operators) != want) throw std::logic_error("wrong size");
                    if (want < 100) { AlgebraicContext x(apc, false, false, std::vector<OperatorRule>{}); if (x.size() != want) throw std::logic_error("wrong size"); }
                });
                c.nontrivial("algebraic " + std::to_string(n) + std::to_string(self));
            }
    });
}
// ---- words with letters that are not operators
SECTION(words) {
    c.for_cases(c.n(400, 6000), [&](Rng& r, uint64_t) {
        auto s = random_scen(r); if (!s || s->ops() == 0) return;
        const size_t n = s->ops(); const std::string kind = s->desc.substr(0, s->desc.find('('));
        const bool checked = dynamic_cast<LocalityContext*>(s->ctx) || dynamic_cast<InflationContext*>(s->ctx) || dynamic_cast<Pauli::PauliContext*>(s->ctx);
        for (int k = 0; k < 30; ++k) {
            Word w = random_word(r, n, 6); const bool bad = r.coin();
            if (bad) { const size_t times = 1 + r.below(2); for (size_t i = 0; i < times; ++i) w.insert(w.begin() + static_cast<long>(r.below(w.size() + 1)), bad_letter(r, n)); }
            const std::string what = s->desc + " word " + wstr(w);
            bool made = false; OperatorSequence seq = OperatorSequence::Identity(*s->ctx);
            if (bad && !checked) made = any(c, what, [&] { seq = OperatorSequence{to_storage(w), *s->ctx}; });
            else expect(c, !bad, "word", what, [&] { seq = OperatorSequence{to_storage(w), *s->ctx}; });
            if (bad) { any(c, what, [&] { (void) s->ctx->get_if_canonical(to_storage(w)); }); sequence_storage_t st = to_storage(w); auto sg = SequenceSignType::Positive; any(c, what + " simplification", [&] { (void) s->ctx->additional_simplification(st, sg); }); }
            (void) made;
            c.nontrivial(kind + wstr(w));
        }
        // still answers properly
        for (int k = 0; k < 6; ++k) { Word w = random_word(r, n, 5); auto got = norm_of(s->make(w)); CHECK(got == s->normal(w), "usable-after", s->desc << " word " << wstr(w) << " is " << got.text()); }
    });
}
// ---- tensors
namespace {
    enum Why { Ok, Bad };
    struct Pick { std::vector<std::pair<long, long>> free; std::vector<std::tuple<long, long, long>> fixed; bool good = true, out_cg = true, out_pt = true; };
    /** A list of dimensions (each once), with measurement and perhaps outcome; sometimes something in it is out of range. */
    Pick hostile_pick(Rng& r, const Dist& d, bool local) {
        Pick p; const size_t n = d.dims.size(); std::vector<size_t> order; for (size_t i = 0; i < n; ++i) order.push_back(i); r.shuffle(order);
        for (auto i : order) {
            if (r.chance(1, 3)) continue;
            const size_t m = r.below(d.dims[i].mmts.size()); const auto& mm = d.dims[i].mmts[m]; const long po = mm.free ? 1 : static_cast<long>(mm.outcomes), co = static_cast<long>(mm.ops.size());
            if (r.coin()) p.free.emplace_back(i, m);
            else {
                long o; switch (r.below(8)) { case 0: o = co; break; case 1: o = po; break; case 2: o = po + 1; break; case 3: o = local ? 65536 + r.below(2) : -1; break; case 4: o = local ? 2147483647L + r.below(2) : INT16_MIN; break; case 5: o = local ? 4294967295L : INT16_MAX; break; default: o = static_cast<long>(r.below(po)); }
                p.fixed.emplace_back(i, m, o); p.out_cg &= o >= 0 && o < co; p.out_pt &= o >= 0 && o < po;
            }
        }
        return p;
    }
    template<class T, class R> void visit(const R& range, size_t cap = 3000) { size_t n = 0; for (auto it = range.begin(); it != range.end() && n < cap; ++it, ++n) { (void) *it; (void) it.index().size(); } }
    std::string ptext(const Pick& p) { std::string s = "free"; for (auto& [a, b] : p.free) s += " (" + std::to_string(a) + "," + std::to_string(b) + ")"; s += " fixed"; for (auto& [a, b, o] : p.fixed) s += " (" + std::to_string(a) + "," + std::to_string(b) + ")=" + std::to_string(o); return s; }
    /** Elements by index and by offset; splices. */
    template<class T> void hostile_tensor(Ctx& c, Rng& r, T& t, const std::string& what) {
        const size_t n = t.DimensionCount;
        for (int k = 0; k < 6; ++k) {
            Idx i; bool good = true; const size_t len = r.chance(1, 6) ? r.below(n + 3) : n; good &= len == n;
            for (size_t d = 0; d < len; ++d) { size_t dim = d < n ? t.Dimensions[d] : 2; size_t v = r.below(dim); if (r.chance(1, 8)) { v = r.pick(std::vector<size_t>{dim, dim + 1, 2 * dim, SIZE_MAX, SIZE_MAX - dim, size_t{1} << 32}); } good &= v < dim; i.push_back(v); }
            expect(c, good, "tensor-index", what + " element " + itext(i), [&] { (void) *(t(i).operator->()); if (t.offset_to_index(t.index_to_offset(i)) != i) throw std::logic_error("offset"); });
        }
        for (size_t o : {size_t{0}, static_cast<size_t>(t.ElementCount) - 1, static_cast<size_t>(t.ElementCount), static_cast<size_t>(t.ElementCount) + 1, SIZE_MAX, SIZE_MAX / 2, static_cast<size_t>(r.below(t.ElementCount * 2 + 1))})
            expect(c, o < t.ElementCount, "tensor-offset", what + " offset " + std::to_string(o), [&] { (void) *(t.at(o).operator->()); (void) t.offset_to_index(o); });
        for (int k = 0; k < 6; ++k) {
            Idx lo, hi; bool good = true;
            for (size_t d = 0; d < n; ++d) {
                size_t a = r.below(t.Dimensions[d]), b = a + r.below(t.Dimensions[d] - a + 1);
                switch (r.below(n == 1 ? 6 : 14)) { case 0: a = t.Dimensions[d] + r.below(2); break; case 1: b = t.Dimensions[d] + 1 + r.below(3); break; case 2: b = SIZE_MAX; break; case 3: std::swap(a, b); break; default: break; }
                good &= a < t.Dimensions[d] && b <= t.Dimensions[d] && a <= b; lo.push_back(a); hi.push_back(b);
            }
            if (r.chance(1, 8)) { (r.coin() ? lo : hi).push_back(0); good = false; }
            if (r.chance(1, 12)) { lo.clear(); good = false; }
            expect(c, good, "splice", what + " splice " + itext(lo) + itext(hi), [&] { auto range = t.Splice(Idx(lo), Idx(hi)); size_t want = 1; for (size_t d = 0; d < n; ++d) want *= hi[d] - lo[d]; size_t seen = 0; if (want < 5000) { for (auto it = range.begin(); it != range.end() && seen <= want; ++it) ++seen; if (seen != want) throw std::logic_error("visits " + std::to_string(seen)); } });
        }
    }
}
SECTION(locality_tensors) {
    c.for_cases(c.n(120, 1500), [&](Rng& r, uint64_t) {
        auto d = Dist::locality(r, LocalityScen::random_spec(r, 3, 3, 4, 8, r.chance(1, 3) ? 1 : 2)); for (int k = 0; k < 2; ++k) if (r.coin()) d->grow(r, k + 1);
        const bool fcs = d->sys->locality().CanHaveFullCorrelator(); d->refresh(0); d->refresh(1); if (fcs) d->refresh(2);
        auto& lms = d->sys->locality(); auto& ctx = lms.localityContext; auto& cg = lms.LocalityCollinsGisin(); auto& pt = lms.LocalityProbabilityTensor(); const std::string what = d->desc();
        size_t nm = 0; for (auto& p : d->dims) nm += p.mmts.size();
        auto g = [&](long p, long m) { PMIndex i(ctx, static_cast<party_name_t>(p), static_cast<mmt_name_t>(m)); return i; };
        hostile_tensor(c, r, const_cast<LocalityCollinsGisin&>(cg), what + " CG"); hostile_tensor(c, r, const_cast<LocalityProbabilityTensor&>(pt), what + " PT"); if (fcs) hostile_tensor(c, r, const_cast<LocalityFullCorrelator&>(lms.LocalityFullCorrelator()), what + " FC");
        for (int k = 0; k < 12; ++k) {
            auto p = hostile_pick(r, *d, true); std::vector<PMIndex> fr; std::vector<PMOIndex> fx; bool good = true; std::string extra;
            for (auto [a, b] : p.free) fr.push_back(g(a, b));
            for (auto [a, b, o] : p.fixed) { PMOIndex i(ctx, static_cast<party_name_t>(a), static_cast<mmt_name_t>(b), 0); i.outcome = static_cast<uint32_t>(o); fx.push_back(i); }
            if (r.chance(1, 3)) { // a measurement that does not exist
                PMIndex bad = g(0, 0); bad.global_mmt = static_cast<mmt_name_t>(0); const size_t id = r.pick(std::vector<size_t>{nm, nm + 1, nm + 7, 32767, 65535}); bad.global_mmt = static_cast<decltype(bad.global_mmt)>(id); const size_t as = static_cast<size_t>(bad.global_mmt); extra = " global " + std::to_string(as); if (as >= nm) { good = false; if (r.coin()) fr.insert(fr.begin() + static_cast<long>(r.below(fr.size() + 1)), bad); else { PMOIndex o(ctx, 0, 0, 0); o.global_mmt = bad.global_mmt; fx.push_back(o); } }
            } else if (r.chance(1, 4) && !fr.empty()) { const auto& f = p.free[r.below(p.free.size())]; if (!d->dims[f.first].mmts[f.second].ops.empty() || true) { fr.push_back(g(f.first, r.below(d->dims[f.first].mmts.size()))); good = false; extra = " party twice"; } }
            const std::string t = what + " " + ptext(p) + extra;
            expect(c, good && p.out_cg, "cg-range", t + " CG", [&] { visit<int>(cg.measurement_to_range(fr, fx)); });
            expect(c, good && p.out_pt, "pt-range", t + " PT", [&] { visit<int>(pt.measurement_to_range(fr, fx)); });
            if (fx.empty()) { expect(c, good, "cg-range", t + " CG free", [&] { visit<int>(cg.measurement_to_range(fr)); }); expect(c, good, "pt-range", t + " PT free", [&] { visit<int>(pt.measurement_to_range(fr)); }); }
            if (fr.empty()) expect(c, good && p.out_pt, "pt-element", t, [&] { (void) pt.outcome_to_element(fx)->hasSymbolPoly; });
            // by number of measurement
            std::vector<size_t> gi; std::vector<oper_name_t> go; bool ok = good, ok0 = good;
            for (auto& f : fr) { gi.push_back(static_cast<size_t>(f.global_mmt)); go.push_back(-1); }
            for (size_t i = 0; i < fx.size(); ++i) { gi.push_back(static_cast<size_t>(fx[i].global_mmt)); if (fx[i].outcome > 32767) { go.push_back(32767); } else go.push_back(static_cast<oper_name_t>(fx[i].outcome)); }
            ok &= p.out_cg;
            if (r.chance(1, 8)) { gi.push_back(r.pick(std::vector<size_t>{nm, SIZE_MAX, size_t{1} << 32, size_t{1} << 16})); go.push_back(-1); ok = ok0 = false; }
            expect(c, ok, "cg-range", t + " CG by number", [&] { visit<int>(cg.CollinsGisin::measurement_to_range(gi, go)); });
            if (!gi.empty()) { auto shorter = go; shorter.pop_back(); expect(c, false, "cg-range-length", t, [&] { (void) cg.CollinsGisin::measurement_to_range(gi, shorter); }); auto longer = go; longer.push_back(-1); expect(c, false, "cg-range-length", t, [&] { (void) cg.CollinsGisin::measurement_to_range(gi, longer); }); }
            if (fx.empty()) expect(c, ok0, "cg-range", t + " CG by number, free", [&] { visit<int>(cg.CollinsGisin::measurement_to_range(gi)); });
            c.nontrivial(t);
            // values: wrong number of them
            if (good && p.out_pt) {
                auto range = pt.measurement_to_range(fr, fx); const size_t want = range.size(); if (want > 400) continue;
                for (size_t n : {size_t{0}, want - 1, want, want + 1, 2 * want + 3}) {
                    std::vector<double> v(n, 0.125); if (r.chance(1, 3) && n) v[r.below(n)] = r.pick(std::vector<double>{std::nan(""), INFINITY, -INFINITY, 1e308, -1e-320});
                    bool have = true; for (auto& e : range) have &= e.hasSymbolPoly;
                    expect(c, n == want && have, "value-count", t + " with " + std::to_string(n) + " of " + std::to_string(want) + " values", [&] { if (pt.explicit_value_rules(range, v).size() != want) throw std::logic_error("count"); });
                }
            }
        }
        for (int k = 0; k < 5; ++k) { auto i = d->random_cg(r); CHECK(verif::close(d->word(cg(i)->sequence), d->cg_value(i)), "usable-after", what << " CG " << itext(i)); }
    });
}
SECTION(inflation_tensors) {
    c.for_cases(c.n(120, 1500), [&](Rng& r, uint64_t) {
        auto d = Dist::inflation(r, random_network(r, 3, 2, 2, 3, 8)); for (int k = 0; k < 2; ++k) if (r.coin()) d->grow(r, k + 1);
        const bool fcs = d->sys->inflation().CanHaveFullCorrelator(); for (int w = 0; w < (fcs ? 3 : 2); ++w) d->refresh(w);
        auto& ims = d->sys->inflation(); const auto& ic = *d->sys->iscen().ictx; const auto& cg = ims.InflationCollinsGisin(); const auto& pt = ims.InflationProbabilityTensor(); const std::string what = d->desc();
        const size_t nobs = d->sys->iscen().net.outcomes.size();
        auto copies = [&](long o) -> long { long n = 0; for (auto& v : d->variant) n += v.first == o; return n; };
        hostile_tensor(c, r, const_cast<InflationCollinsGisin&>(cg), what + " CG"); hostile_tensor(c, r, const_cast<InflationProbabilityTensor&>(pt), what + " PT"); if (fcs) hostile_tensor(c, r, const_cast<InflationFullCorrelator&>(ims.InflationFullCorrelator()), what + " FC");
        for (int k = 0; k < 12; ++k) {
            auto p = hostile_pick(r, *d, false); std::vector<OVIndex> fr; std::vector<OVOIndex> fx; bool good = true; std::string extra;
            auto ov = [&](size_t dim) { oper_name_t v = 0; for (size_t j = 0; j < dim; ++j) v += d->variant[j].first == d->variant[dim].first; return OVIndex{static_cast<oper_name_t>(d->variant[dim].first), v}; };
            for (auto [a, b] : p.free) fr.push_back(ov(a));
            for (auto [a, b, o] : p.fixed) fx.emplace_back(ov(a), static_cast<oper_name_t>(o));
            if (r.chance(1, 3)) {
                OVIndex bad{static_cast<oper_name_t>(r.below(nobs)), 0};
                if (r.coin()) bad.observable = static_cast<oper_name_t>(bad_letter(r, nobs)); else bad.variant = static_cast<oper_name_t>(bad_letter(r, static_cast<size_t>(copies(bad.observable))));
                good = false; extra = " unknown (" + std::to_string(bad.observable) + "," + std::to_string(bad.variant) + ")";
                if (r.coin()) fr.insert(fr.begin() + static_cast<long>(r.below(fr.size() + 1)), bad); else fx.emplace_back(bad, oper_name_t{0});
                expect(c, false, "variant-number", what + extra, [&] { (void) ic.obs_variant_to_index(bad); });
                any(c, what + extra, [&] { (void) ic.operator_number(0, 0, 0); });
            } else if (r.chance(1, 4) && !fr.empty()) { fr.push_back(r.pick(fr)); good = false; extra = " twice"; }
            const std::string t = what + " " + ptext(p) + extra;
            expect(c, good && p.out_cg, "cg-range", t + " CG", [&] { visit<int>(cg.measurement_to_range(fr, fx)); });
            expect(c, good && p.out_pt, "pt-range", t + " PT", [&] { visit<int>(pt.measurement_to_range(fr, fx)); });
            if (fx.empty()) { expect(c, good, "cg-range", t + " CG free", [&] { visit<int>(cg.measurement_to_range(fr)); }); expect(c, good, "pt-range", t + " PT free", [&] { visit<int>(pt.measurement_to_range(fr)); }); }
            if (fr.empty()) expect(c, good && p.out_pt, "pt-element", t, [&] { (void) pt.outcome_to_element(fx)->hasSymbolPoly; });
            c.nontrivial(t);
            if (good && p.out_pt) {
                auto range = pt.measurement_to_range(fr, fx); const size_t want = range.size(); if (want > 400) continue; bool have = true; for (auto& e : range) have &= e.hasSymbolPoly;
                for (size_t n : {size_t{0}, want - 1, want, want + 1, 2 * want + 3}) { std::vector<double> v(n, 0.125); expect(c, n == want && have, "value-count", t + " with " + std::to_string(n) + " of " + std::to_string(want) + " values", [&] { if (pt.explicit_value_rules(range, v).size() != want) throw std::logic_error("count"); }); }
            }
            // flattening of outcomes
            std::vector<OVIndex> in; long total = 1; bool proj = true; for (size_t i = 0; i < 1 + r.below(3); ++i) { auto v = ov(r.below(d->dims.size())); in.push_back(v); const auto oc = d->sys->iscen().net.outcomes[v.observable]; proj &= oc > 0; total *= static_cast<long>(oc); }
            const long num = r.pick(std::vector<long>{0, total - 1, total, total + 1, -1, INT16_MIN, INT16_MAX});
            if (proj && num >= 0 && num < total) expect(c, true, "unflatten", what + " outcome " + std::to_string(num), [&] { auto u = ic.unflatten_outcome_index(in, static_cast<oper_name_t>(num)); if (u.size() != in.size()) throw std::logic_error("size"); });
            else any(c, what + " outcome " + std::to_string(num), [&] { (void) ic.unflatten_outcome_index(in, static_cast<oper_name_t>(num)); });
            const long gv = r.coin() ? bad_letter(r, d->dims.size()) : static_cast<long>(r.below(d->dims.size()));
            expect(c, gv >= 0 && gv < static_cast<long>(d->dims.size()), "variant-by-number", what + " " + std::to_string(gv), [&] { const auto got = ic.index_to_obs_variant(static_cast<oper_name_t>(gv)); if (!(got == ov(static_cast<size_t>(gv)))) throw std::logic_error("wrong"); });
        }
        for (int k = 0; k < 5; ++k) { auto i = d->random_cg(r); CHECK(verif::close(d->word(cg(i)->sequence), d->cg_value(i)), "usable-after", what << " CG " << itext(i)); }
    });
}
// ---- systems of matrices
namespace {
    std::vector<ptrdiff_t> bad_indices(Rng& r, size_t n) { const auto m = static_cast<ptrdiff_t>(n); return {m, m + 1, m + static_cast<ptrdiff_t>(r.below(1000)), -1, -2, -m - 1, PTRDIFF_MIN, PTRDIFF_MAX, ptrdiff_t{1} << 32, (ptrdiff_t{1} << 32) + (m ? m - 1 : 0), -(ptrdiff_t{1} << 32)}; }
    /** Two systems of one scenario: hostile requests go to the first only. */
    struct Twin { std::unique_ptr<Sys> a, b; };
    Twin twin(Rng& r, int kind, size_t size) { const uint64_t seed = r.next(); Rng p(seed), q(seed); Twin t; t.a = random_sys(p, kind, size); t.b = random_sys(q, kind, size); return t; }
    template<class S> std::string dump(const S& m) { std::string s; for (size_t i = 0; i < std::min<size_t>(m.Dimension(), 12); ++i) for (size_t j = 0; j < std::min<size_t>(m.Dimension(), 12); ++j) s += entry_text(m, i, j) + " "; return s; }
}
SECTION(inflation_text) { // lists of outcomes that name observables and copies which do not exist are still printed
    c.for_cases(c.n(600, 10000), [&](Rng& r, uint64_t) {
        InflationScen s(random_network(r, 3, 3, 3, 3, 12)); auto& ctx = *s.ictx; std::vector<Moment::Inflation::OVOIndex> idx; std::string what = s.desc + ":"; size_t no_obs = 0, no_var = 0, bad = 0;
        const auto& obs = ctx.Observables(); const long n = static_cast<long>(obs.size());
        for (size_t k = 1 + r.below(3); k > 0; --k) {
            const long o = r.chance(1, 3) ? r.pick(std::vector<long>{n, n + 1, -1, SHRT_MAX, SHRT_MIN}) : static_cast<long>(r.below(static_cast<uint64_t>(n))); const bool bad_o = o < 0 || o >= n;
            const long vars = bad_o ? 1 : static_cast<long>(obs[static_cast<size_t>(o)].variant_count), v = r.chance(1, 2) ? r.pick(std::vector<long>{vars, vars + 1, -1, SHRT_MAX, SHRT_MIN}) : static_cast<long>(r.below(static_cast<uint64_t>(vars)));
            idx.emplace_back(static_cast<oper_name_t>(o), static_cast<oper_name_t>(v), static_cast<oper_name_t>(r.below(4)));
            bad += bad_o || v < 0 || v >= vars || static_cast<size_t>(idx.back().outcome) >= obs[static_cast<size_t>(o)].outcomes; no_obs += bad_o; no_var += !bad_o && s.net.inflation > 1 && (v < 0 || v >= vars); what += " (" + std::to_string(o) + "," + std::to_string(v) + ")";
        }
        c.note(what); const auto t = ctx.format_sequence(idx);
        auto times = [&](const std::string& x) { size_t k = 0; for (size_t at = t.find(x); at != std::string::npos; at = t.find(x, at + 1)) ++k; return k; };
        CHECK(times("[UNK: ") == no_obs && times("[UNK-VAR: ") == no_var, "unknown-marked", what << " is '" << t << "'");
        if (bad) CHECK(verif::throws([&] { (void) ctx.flatten_outcome_index(idx); }), "flatten-unknown", what);
        else (void) ctx.flatten_outcome_index(idx);
        if (no_obs + no_var) c.nontrivial(what);
    });
}
SECTION(matrix_systems) {
    c.for_cases(c.n(150, 2500), [&](Rng& r, uint64_t k) {
        auto tw = twin(r, static_cast<int>(k % 5), 6); auto &a = *tw.a, &b = *tw.b; auto& ms = *a.ms; const std::string base = a.desc(); std::string hist = base + ": ";
        const bool cut = a.kind == Sys::Algebraic;
        std::vector<std::pair<Req, const SymbolicMatrix*>> made; std::set<size_t> gone; size_t books = 0;
        for (int step = 0; step < 8; ++step) {
            if (r.chance(2, 3)) {
                Req q = random_req(r, a, 12); if (q.kind >= 2) q.kind = static_cast<int>(r.below(2)); hist += text(q); c.note(hist);
                bool ka = true, kb = true; const SymbolicMatrix *x = nullptr, *y = nullptr;
                try { x = &ask(a, q, MTP::Never); } catch (const std::exception&) { ka = false; }
                try { y = &ask(b, q, MTP::Never); } catch (const std::exception&) { kb = false; }
                if (!CHECK(ka == kb, "usable-after", hist << ": " << ka << kb)) return;
                if (ka && !cut) compare(c, a, *x, b, *y, hist);
                if (ka) CHECK(dump(*x) == dump(*y), "usable-after", hist << " differs after refused requests");
            }
            // matrices by index
            for (auto i : bad_indices(r, ms.size())) {
                const std::string t = hist + " matrix " + std::to_string(i);
                expect(c, false, "matrix-index", t, [&] { (void) std::as_const(ms)[i]; }); expect(c, false, "matrix-index", t + " get", [&] { (void) ms.get(i); });
                CHECK(!ms.has_matrix(i), "has-matrix", t);
                { auto lock = ms.get_write_lock(); CHECK(!ms.delete_matrix(lock, i), "delete-unknown", t); }
                if (ms.size()) expect(c, false, "substitute-unknown", t, [&] { (void) ms.SubstitutedMatrix(SubstitutedMatrixIndex{i, ptrdiff_t{0}}, MTP::Never); });
            }
            for (size_t i = 0; i < ms.size(); ++i) CHECK(ms.has_matrix(static_cast<ptrdiff_t>(i)) && std::as_const(ms)[static_cast<ptrdiff_t>(i)].Dimension() == std::as_const(*b.ms)[static_cast<ptrdiff_t>(i)].Dimension(), "usable-after", hist);
            // rulebooks by index
            for (auto i : bad_indices(r, books)) {
                const std::string t = hist + " rulebook " + std::to_string(i); const auto u = static_cast<size_t>(i);
                expect(c, false, "rulebook-index", t, [&] { (void) ms.Rulebook(u); }); expect(c, false, "rulebook-index", t, [&] { (void) std::as_const(ms.Rulebook).find(u); }); CHECK(!ms.Rulebook.contains(u), "rulebook-index", t);
                expect(c, false, "rulebook-index", t + " merge", [&] { MomentRulebook bk(ms); (void) ms.Rulebook.merge_in(u, std::move(bk)); });
                if (ms.size()) { expect(c, false, "substitute-unknown", t, [&] { (void) ms.SubstitutedMatrix(SubstitutedMatrixIndex{ptrdiff_t{0}, i}, MTP::Never); }); CHECK(!ms.SubstitutedMatrix.contains(SubstitutedMatrixIndex{ptrdiff_t{0}, i}), "substitute-unknown", t); }
            }
            if (r.chance(1, 3)) { for (auto* s : {&a, &b}) { auto bk = std::make_unique<MomentRulebook>(*s->ms); s->ms->Rulebook.add(std::move(bk)); } hist += "empty rules; "; ++books; }
            if (books) for (size_t i = 0; i < books; ++i) CHECK(ms.Rulebook.contains(i) && ms.Rulebook(i).size() == 0, "usable-after", hist);
            // words that do not exist, as the word of a localizing matrix
            if (a.kind == Sys::Locality || a.kind == Sys::Inflation || a.kind == Sys::Pauli) {
                Word w = random_word(r, a.ops(), 3); w.insert(w.begin() + static_cast<long>(r.below(w.size() + 1)), bad_letter(r, a.ops()));
                expect(c, false, "word", hist + " localizing " + wstr(w), [&] { (void) ms.LocalizingMatrix(LocalizingMatrixIndex{r.below(2), OperatorSequence{to_storage(w), ms.Context()}}, MTP::Never); });
                expect(c, false, "word", hist + " polynomial localizing " + wstr(w), [&] { RawPolynomial p; p.emplace_back(OperatorSequence{to_storage(w), ms.Context()}, 1.0); (void) ms.create_and_register_localizing_matrix(0, p, MTP::Never); });
            }
            // huge levels are looked for, not found
            for (size_t l : {SIZE_MAX, SIZE_MAX / 2, size_t{1} << 40, size_t{1000}}) { CHECK(!ms.MomentMatrix.contains(l) && ms.MomentMatrix.find_index(l) < 0 && !ms.LocalizingMatrix.contains(LocalizingMatrixIndex{l, OperatorSequence::Identity(ms.Context())}), "huge-level", hist << " level " << l); auto lk = ms.get_read_lock(); CHECK(verif::throws([&] { (void) std::as_const(ms.MomentMatrix).find(lk, l); }), "huge-level", hist << " level " << l); }
        }
        CHECK(ms.size() == b.ms->size() && a.symbols().size() == b.symbols().size(), "usable-after", hist << ": " << ms.size() << " matrices, " << a.symbols().size() << " symbols; expected " << b.ms->size() << ", " << b.symbols().size());
        check_symbols(c, a, "after hostile requests"); c.nontrivial(hist);
    });
}
// ---- numbers that are not numbers, and tolerances
SECTION(numbers) {
    c.for_cases(c.n(150, 2500), [&](Rng& r, uint64_t k) {
        auto s = random_sys(r, static_cast<int>(k % 5), 6); auto& ms = *s->ms; ms.MomentMatrix(1, MTP::Never); const auto n = static_cast<symbol_name_t>(ms.Symbols().size());
        auto bad = [&] { return r.pick(std::vector<double>{std::nan(""), INFINITY, -INFINITY, 1e308, -1e308, 5e-324, -0.0, 1e-320, std::numeric_limits<double>::max()}); };
        auto cbad = [&] { return cd{r.coin() ? bad() : r.sym(), r.coin() ? bad() : r.sym()}; }; auto id = [&] { return static_cast<symbol_name_t>(r.below(static_cast<size_t>(n))); };
        auto& pf = ms.polynomial_factory(); std::string what = s->desc();
        auto poly = [&] { Polynomial::storage_t d; for (size_t i = 0, m = 1 + r.below(4); i < m; ++i) d.emplace_back(id(), r.coin() ? cbad() : cd{r.sym(), 0}, r.coin()); return pf(std::move(d)); };
        for (int j = 0; j < 8; ++j) {
            Polynomial p; any(c, what + " polynomial", [&] { p = poly(); }); std::string t = what; any(c, what, [&] { t += " " + verif::str(p); });
            any(c, t, [&] { (void) p.is_hermitian(ms.Symbols(), 1.0); (void) p.conjugate(ms.Symbols()); auto q = p; q.scale(cbad()); (void) pf.sum(p, poly()); (void) p.Real(pf); (void) p.Imaginary(pf); q.real_or_imaginary_if_close(1.0); (void) p.approximately_equals(q); });
            any(c, t + " basis", [&] { PolynomialToBasisVec v(ms.Symbols(), 1.0); (void) v(p); PolynomialToComplexBasisVec w(ms.Symbols(), 1.0); (void) w(p); });
            any(c, t + " rules", [&] { MomentRulebook b(ms); b.add_raw_rule(poly()); b.add_raw_rule(poly()); b.complete(); (void) b.reduce(p); });
            any(c, t + " rule map", [&] { MomentRulebook b(ms); b.add_raw_rules(std::map<symbol_name_t, double>{{id(), bad()}, {id(), r.sym()}}); b.complete(); (void) b.reduce(p); });
            any(c, t + " rule map, complex", [&] { MomentRulebook b(ms); b.add_raw_rules(std::map<symbol_name_t, cd>{{id(), cbad()}, {id(), cbad()}}); b.complete(); (void) b.reduce(p); });
            any(c, t + " substitution", [&] { auto b = std::make_unique<MomentRulebook>(ms); b->add_raw_rules(std::map<symbol_name_t, double>{{id(), bad()}}); b->complete(); auto [i, ref] = ms.Rulebook.add(std::move(b)); (void) ms.SubstitutedMatrix(SubstitutedMatrixIndex{ptrdiff_t{0}, static_cast<ptrdiff_t>(i)}, MTP::Never); });
            any(c, t + " product", [&] { (void) ms.MomentMatrix(1).pre_multiply(Monomial{id(), cbad()}, pf, ms.Symbols(), MTP::Never); });
            any(c, t + " sum", [&] { (void) ms.MomentMatrix(1).add(p, pf, MTP::Never); });
            RawPolynomial raw; for (size_t i = 0; i < 1 + r.below(3); ++i) raw.emplace_back(s->make(random_word(r, s->ops(), 2)), cbad());
            any(c, t + " localizing", [&] { (void) ms.create_and_register_localizing_matrix(r.below(2), raw, MTP::Never); });
            c.nontrivial(t);
        }
        for (size_t i = 0; i < ms.size(); ++i) if (ms.has_matrix(static_cast<ptrdiff_t>(i))) any(c, what + " matrix shown", [&] { auto& m = std::as_const(ms)[static_cast<ptrdiff_t>(i)]; (void) verif::str(m); (void) m.Basis.DenseComplex(); (void) m.Basis.SparseComplex(); (void) m.Basis.DenseMonolithicComplex(); if (!m.HasComplexCoefficients()) (void) m.Basis.Dense(); });
        const double tol = r.pick(std::vector<double>{std::nan(""), INFINITY, -1, 0, 1e300}); auto z = random_sys(r, static_cast<int>(k % 5), 5, tol);
        any(c, z->desc() + " tolerance " + std::to_string(tol), [&] { (void) z->ms->MomentMatrix(1, MTP::Never); RawPolynomial raw; raw.emplace_back(z->make(random_word(r, z->ops(), 2)), 0.5); (void) z->ms->create_and_register_localizing_matrix(0, raw, MTP::Never); });
        check_symbols(c, *s, "after strange numbers");
        auto& m1 = ms.MomentMatrix(1, MTP::Never); bool fine = true; for (size_t i = 0; i < m1.Dimension() && fine; ++i) fine = CHECK(norm_of(m1.unaliased_operator_matrix()(std::array<size_t, 2>{0, i})) == s->scen->normal(to_word(ms.Context().operator_sequence_generator(1)[i]), 0), "usable-after", what);
    });
}

// ---- symmetry groups and symmetrized systems
SECTION(symmetries) {
    c.for_cases(c.n(120, 2000), [&](Rng& r, uint64_t) {
        auto s = random_sym(r); auto want = closure(s.gens, 32); if (want.empty()) return;
        std::vector<repmat_t> gens; for (auto& g : s.gens) gens.push_back(sparse(g));
        const auto d = s.gens.front().rows(); const std::string& what = s.desc;
        // groups that are larger than allowed, or not finite
        for (size_t cap : {size_t{0}, size_t{1}, want.size() - 1, want.size(), want.size() + 1, SIZE_MAX}) {
            any(c, what + " group of at most " + std::to_string(cap), [&] { auto g = Group::dimino_generation(gens, cap); CHECK(g.size() == want.size(), "group", what << " has " << g.size() << " elements instead of " << want.size()); });
        }
        if (d > 2) {
            Dense bad = Dense::Identity(d, d); const auto kind = r.below(5);
            switch (kind) { case 0: bad(1, 2) = 1; break; case 1: bad(1, 1) = 2; break; case 2: { const double a = 1 + r.unit(); bad(1, 1) = bad(2, 2) = std::cos(a); bad(1, 2) = -std::sin(a); bad(2, 1) = std::sin(a); break; } case 3: bad(1, 1) = std::nan(""); break; default: bad(1, 1) = INFINITY; }
            auto with = gens; with.insert(with.begin() + static_cast<long>(r.below(with.size() + 1)), sparse(bad));
            if (kind >= 3) any(c, what + " with a generator that is not a matrix of numbers", [&] { (void) Group::dimino_generation(with, 40); });
            else expect(c, false, "infinite-group", what + " with an element of infinite order " + std::to_string(kind), [&] { (void) Group::dimino_generation(with, 40); });
        }
        // representations that do not fit
        auto group = [&](std::vector<repmat_t> e) { return std::make_unique<Group>(s.sys->ms->Context(), std::make_unique<Representation>(1, std::move(e))); };
        expect(c, false, "null-representation", what, [&] { Group g(s.sys->ms->Context(), nullptr); });
        for (auto n : {d - 1, d + 1, d * 2, d * d, decltype(d){1}}) if (n != d && n > 0) { repmat_t m(static_cast<int>(n), static_cast<int>(n)); m.setIdentity(); expect(c, false, "wrong-dimension", what + " dimension " + std::to_string(n), [&] { (void) group({m}); }); }
        auto g = group(Group::dimino_generation(gens, 64)); auto& gr = *g;
        for (size_t l : {size_t{0}, size_t{2}, size_t{3}, SIZE_MAX, SIZE_MAX / 2}) expect(c, false, "representation-unknown", what + " representation " + std::to_string(l), [&] { (void) std::as_const(gr).representation(l); });
        expect(c, false, "word-length-0", what, [&] { (void) gr.create_representation(0); });
        CHECK(gr.size == want.size() && gr.representation(1).size() == want.size() && gr.create_representation(1).size() == want.size(), "usable-after", what);
        // systems
        const size_t len = 2; auto base = std::shared_ptr<MatrixSystem>(std::move(s.sys->ms)); base->MomentMatrix(1, MTP::Never);
        std::unique_ptr<SymmetrizedMatrixSystem> sms; any(c, what + " symmetrized", [&] { sms = std::make_unique<SymmetrizedMatrixSystem>(std::shared_ptr<MatrixSystem>(base), std::move(g), len, std::make_unique<LUMapCoreProcessor>(), -1.0, MTP::Never); });
        if (!sms) return;
        for (size_t l : {size_t{2}, size_t{3}, size_t{1000}, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX / 2 + 2, SIZE_MAX - 1, SIZE_MAX}) {
            const std::string t = what + " level " + std::to_string(l);
            expect(c, false, "level", t, [&] { (void) sms->MomentMatrix(l, MTP::Never); });
            expect(c, false, "level", t + " localizing", [&] { (void) sms->LocalizingMatrix(LocalizingMatrixIndex{l, OperatorSequence::Identity(base->Context())}, MTP::Never); });
            { auto lk = base->get_read_lock(); CHECK(base->MomentMatrix.find_index(l) < 0 || l < 3, "base-touched", t); }
        }
        for (auto i : bad_indices(r, base->size())) expect(c, false, "base-matrix-index", what + " base matrix " + std::to_string(i), [&] { (void) sms->DerivedMatrices(i, MTP::Never); });
        const auto& map = sms->map(); const auto nb = static_cast<symbol_name_t>(base->Symbols().size()), nt = static_cast<symbol_name_t>(sms->Symbols().size());
        for (symbol_name_t id : {symbol_name_t{-1}, INT32_MIN, INT32_MAX, static_cast<symbol_name_t>(nb + 1), static_cast<symbol_name_t>(nb + 1000)}) {
            expect(c, false, "map-unknown", what + " symbol " + std::to_string(id), [&] { (void) map(id); }); expect(c, false, "map-unknown", what + " monomial " + std::to_string(id), [&] { (void) map(Monomial{id, 1.0}); });
        }
        for (symbol_name_t id : {symbol_name_t{-1}, INT32_MIN, INT32_MAX, nt, static_cast<symbol_name_t>(nt + 1000)}) {
            expect(c, false, "map-unknown", what + " inverse symbol " + std::to_string(id), [&] { (void) map.inverse(id); }); expect(c, false, "map-unknown", what + " inverse monomial " + std::to_string(id), [&] { (void) map.inverse(Monomial{id, 1.0}); });
        }
        auto& mm = sms->MomentMatrix(1, MTP::Never); CHECK(mm.Dimension() == base->MomentMatrix(1).Dimension() && std::isfinite(std::abs(map(symbol_name_t{1}).empty() ? cd{} : map(symbol_name_t{1})[0].factor)), "usable-after", what);
        c.nontrivial(what);
    });
}
// ---- matrices brought from elsewhere
SECTION(imports) {
    c.for_cases(c.n(200, 4000), [&](Rng& r, uint64_t) {
        const bool real = r.coin(); Imported::ImportedMatrixSystem a(real), b(real); std::string hist = real ? "real: " : "complex: ";
        auto good = [&](Rng q) { const auto d = 1 + q.below(3); std::vector<Monomial> m; for (size_t i = 0; i < d * d; ++i) m.emplace_back(static_cast<symbol_name_t>(q.below(5)), real ? cd{q.sym(), 0} : cd{q.sym(), q.sym()}, !real && q.coin()); return std::make_pair(d, std::move(m)); };
        auto matrix = [](std::pair<size_t, std::vector<Monomial>> x) { return std::make_unique<SquareMatrix<Monomial>>(x.first, std::move(x.second)); };
        for (int step = 0; step < 8; ++step) {
            if (r.coin()) {
                Rng q = r; r.next(); bool ka = true, kb = true;
                try { (void) a.import_matrix(matrix(good(q)), !real, false); } catch (const std::exception&) { ka = false; }
                try { (void) b.import_matrix(matrix(good(q)), !real, false); } catch (const std::exception&) { kb = false; }
                hist += "matrix; "; c.note(hist); CHECK(ka && kb, "usable-after", hist << ka << kb);
            }
            auto m = good(r); r.next(); auto& raw = m.second; auto& e = raw[r.below(raw.size())]; bool must = true, cplx = !real, herm = false; std::string how;
            switch (r.below(4)) {
                case 0: e.id = r.pick(std::vector<symbol_name_t>{-1, INT32_MIN, static_cast<symbol_name_t>(-1 - static_cast<long>(r.below(1000)))}); how = "negative symbol"; break;
                case 1: if (real) { cplx = true; how = "complex"; } else { e.id = -3; how = "negative symbol"; } break;
                case 2: e.factor = r.pick(std::vector<cd>{{std::nan(""), 0}, {INFINITY, 0}, {1e308, 0}, {5e-324, 0}}); must = false; herm = r.coin(); how = "strange factor"; break;
                default: herm = true; if (m.first > 1) { raw[1].id = 1; raw[m.first].id = 2; how = "not Hermitian"; } else { e.id = -1; how = "negative symbol"; } break;
            }
            hist += how + "; ";
            if (must) { expect(c, false, "bad-import", hist, [&] { (void) a.import_matrix(matrix(std::move(m)), cplx, herm); }); CHECK(a.size() == b.size(), "usable-after", hist); }
            else { Imported::ImportedMatrixSystem other(real); any(c, hist, [&] { auto [i, x] = other.import_matrix(matrix(std::move(m)), cplx, herm); (void) verif::str(x); (void) x.Basis.SparseComplex(); }); }
            for (int what = 0; what < 3; ++what) expect(c, false, "procedural", hist, [&] { if (what == 0) (void) a.MomentMatrix(r.below(3), MTP::Never); else if (what == 1) (void) a.LocalizingMatrix(LocalizingMatrixIndex{r.below(2), OperatorSequence::Identity(a.Context())}, MTP::Never); else { RawPolynomial p; p.emplace_back(OperatorSequence::Identity(a.Context()), 1.0); (void) a.PolynomialLocalizingMatrix(PolynomialLocalizingMatrixIndex{0, p.to_polynomial(a.polynomial_factory())}, MTP::Never); } });
        }
        CHECK(a.size() == b.size(), "usable-after", hist);
        for (size_t i = 0; i < a.size() && i < b.size(); ++i) CHECK(dump(std::as_const(a)[static_cast<ptrdiff_t>(i)]) == dump(std::as_const(b)[static_cast<ptrdiff_t>(i)]), "usable-after", hist << " matrix " << i);
        c.nontrivial(hist);
    });
}
