// Shared by the monitors of probability tensors and correlators: a scenario, its tensors and an actual distribution.
#pragma once
#include "sys.h"
#include "probability/collins_gisin.h"
#include "probability/full_correlator.h"
#include "probability/probability_tensor.h"
#include "probability/virtual_polynomial_view.h"
#include "scenarios/inflation/inflation_collins_gisin.h"
#include "scenarios/inflation/inflation_full_correlator.h"
#include "scenarios/inflation/inflation_probability_tensor.h"
#include "scenarios/locality/locality_collins_gisin.h"
#include "scenarios/locality/locality_full_correlator.h"
#include "scenarios/locality/locality_probability_tensor.h"
#include "scenarios/locality/tensor_conversion.h"

namespace verif {
    using Moment::CollinsGisin;
    using Idx = std::vector<size_t>;
    /** One dimension of the tensors: its measurements' outcome counts (0: one free operator) and operators. */
    struct DimRef {
        struct Mmt { size_t outcomes; bool free; std::vector<long> ops; };
        std::vector<Mmt> mmts;
        size_t cg() const { size_t n = 1; for (auto& m : mmts) n += m.ops.size(); return n; }
        size_t pt() const { size_t n = 1; for (auto& m : mmts) n += m.free ? 1 : m.outcomes; return n; }
        long cg_op(size_t i) const { --i; for (auto& m : mmts) { if (i < m.ops.size()) return m.ops[i]; i -= m.ops.size(); } return -1; }
        std::pair<size_t, size_t> pt_at(size_t i) const { --i; for (size_t k = 0; k < mmts.size(); ++k) { const size_t n = mmts[k].free ? 1 : mmts[k].outcomes; if (i < n) return {k, i}; i -= n; } return {0, 0}; }
        size_t cg_offset(size_t k) const { size_t n = 1; for (size_t j = 0; j < k; ++j) n += mmts[j].ops.size(); return n; }
        size_t pt_offset(size_t k) const { size_t n = 1; for (size_t j = 0; j < k; ++j) n += mmts[j].free ? 1 : mmts[j].outcomes; return n; }
    };
    struct Dist {
        std::unique_ptr<Sys> sys; std::unique_ptr<Realisation> real; std::vector<DimRef> dims;
        const LocalityReal* loc = nullptr; const InflationReal* inf = nullptr;
        mutable std::map<Word, double> cache; mutable std::map<Idx, double> pcache;
        std::vector<std::pair<int, std::vector<int>>> variant; // inflation: per dimension observable and copies
        const std::string& desc() const { return sys->desc(); }
        size_t cg_elements() const { size_t n = 1; for (auto& d : dims) n *= d.cg(); return n; }
        size_t pt_elements() const { size_t n = 1; for (auto& d : dims) n *= d.pt(); return n; }
        static std::unique_ptr<Dist> locality(Rng& r, const std::vector<std::vector<size_t>>& spec, double tol = 1.0) {
            auto o = std::make_unique<Dist>();
            auto sc = std::make_unique<LocalityScen>(spec); long op = 0;
            for (auto& p : spec) { DimRef d; for (auto n : p) { DimRef::Mmt m{n, false, {}}; for (size_t k = 0; k + 1 < n; ++k) m.ops.push_back(op++); d.mmts.push_back(m); } o->dims.push_back(d); }
            o->sys = Sys::of(Sys::Locality, std::move(sc), r, tol);
            auto re = std::make_unique<LocalityReal>(o->sys->lscen(), r, spec.size() <= 2); o->loc = re.get(); o->real = std::move(re);
            return o;
        }
        static std::unique_ptr<Dist> inflation(Rng& r, const NetSpec& net, double tol = 1.0) {
            auto o = std::make_unique<Dist>(); auto sc = std::make_unique<InflationScen>(net); long op = 0;
            for (size_t i = 0; i < net.outcomes.size(); ++i) {
                size_t copies = 1; for (size_t j = 0; j < sc->obs_sources[i].size(); ++j) copies *= net.inflation;
                for (size_t v = 0; v < copies; ++v) {
                    DimRef d; DimRef::Mmt m{net.outcomes[i], net.outcomes[i] == 0, {}}; const size_t n = net.outcomes[i] ? net.outcomes[i] - 1 : 1;
                    std::vector<int> cp; size_t q = v; for (size_t j = 0; j < sc->obs_sources[i].size(); ++j) { cp.push_back(static_cast<int>(q % net.inflation)); q /= net.inflation; }
                    for (size_t k = 0; k < n; ++k) m.ops.push_back(op++);
                    d.mmts.push_back(m); o->dims.push_back(d); o->variant.emplace_back(static_cast<int>(i), cp);
                }
            }
            o->sys = Sys::of(Sys::Inflation, std::move(sc), r, tol);
            auto re = std::make_unique<InflationReal>(o->sys->iscen(), r); o->inf = re.get(); o->real = std::move(re);
            return o;
        }
        double word(const Word& w) const { auto it = cache.find(w); if (it != cache.end()) return it->second; const double v = real->expect(w).real(); cache.emplace(w, v); return v; }
        double word(const OperatorSequence& s) const { if (s.zero()) return 0; return (ipow(sign_int(s.get_sign())) * word(to_word(s))).real(); }
        Word cg_word(const Idx& i) const { Word w; for (size_t d = 0; d < dims.size(); ++d) if (i[d]) w.push_back(dims[d].cg_op(i[d])); return w; }
        double cg_value(const Idx& i) const { return word(cg_word(i)); }
        /** The probability a PT index names, from the distribution itself. */
        double probability(const Idx& i) const {
            auto it = pcache.find(i); if (it != pcache.end()) return it->second;
            double v;
            if (loc) {
                Mat m = Mat::Identity(loc->dim, loc->dim);
                for (size_t d = 0; d < dims.size(); ++d) if (i[d]) { auto [k, o] = dims[d].pt_at(i[d]); m = m * loc->proj[d][k][o]; }
                v = trace_product(loc->rho, m).real();
            } else {
                bool any_free = false; for (size_t d = 0; d < dims.size(); ++d) any_free |= i[d] && dims[d].mmts[0].free;
                if (!any_free) {
                    std::vector<std::tuple<int, std::vector<int>, int>> ask;
                    for (size_t d = 0; d < dims.size(); ++d) if (i[d]) ask.emplace_back(variant[d].first, variant[d].second, static_cast<int>(i[d] - 1));
                    v = inf->joint(ask);
                } else { // one implicit outcome at a time
                    for (size_t d = 0; d < dims.size(); ++d) if (i[d] && !dims[d].mmts[0].free && i[d] == dims[d].mmts[0].outcomes) {
                        Idx j = i; j[d] = 0; v = probability(j);
                        for (size_t k = 1; k < i[d]; ++k) { j[d] = k; v -= probability(j); }
                        return pcache[i] = v;
                    }
                    v = cg_value(i);
                }
            }
            return pcache[i] = v;
        }
        double symbol(const Monomial& m) const { return m.id == 0 ? 0.0 : (m.factor * word(sys->symbols()[m.id].sequence())).real(); }
        double symbols(const Polynomial& p) const { double v = 0; for (auto& m : p) v += symbol(m); return v; }
        double cg_poly(const CollinsGisin& cg, const Polynomial& p) const { double v = 0; for (auto& m : p) v += m.factor.real() * cg_value(cg.offset_to_index(m.id - 1)); return v; }
        Idx random_cg(Rng& r) const { Idx i; for (auto& d : dims) i.push_back(r.chance(1, 3) ? 0 : r.below(d.cg())); return i; }
        Idx random_pt(Rng& r) const { Idx i; for (auto& d : dims) i.push_back(r.chance(1, 3) ? 0 : r.below(d.pt())); return i; }
        /** Grow the symbol table in one of several ways. */
        std::string grow(Rng& r, size_t step) {
            auto& ms = sys->sys();
            switch (r.below(4)) {
                case 0: for (int k = 0; k < 5; ++k) word_matrix(cg_word(random_cg(r))); return "words";
                case 1: { const size_t l = std::min<size_t>(1 + step, sys->level_cap(40, 2)); ms.MomentMatrix(l, MTP::Never); return "moment matrix " + std::to_string(l); }
                case 2: { auto w = sys->random_nonzero(r, 2); const size_t l = sys->level_cap(25, 1); ms.LocalizingMatrix(Moment::LocalizingMatrixIndex{l, sys->make(w)}, MTP::Never); return "localizing matrix"; }
                default: ms.generate_dictionary(sys->level_cap(60, 2)); return "dictionary";
            }
        }
        void word_matrix(const Word& w) { sys->sys().LocalizingMatrix(Moment::LocalizingMatrixIndex{0, sys->make(w)}, MTP::Never); }
        void grow_all(size_t cap = 1200) { // every CG word
            Idx i(dims.size(), 0); size_t n = 0;
            do { word_matrix(cg_word(i)); size_t d = 0; while (d < dims.size() && ++i[d] == dims[d].cg()) i[d++] = 0; if (d == dims.size()) break; } while (++n < cap);
        }
        void refresh(int what) {
            auto& m = dynamic_cast<Moment::MaintainsTensors&>(sys->sys());
            if (what == 0) m.RefreshCollinsGisin(); else if (what == 1) m.RefreshProbabilityTensor(); else m.RefreshFullCorrelator();
        }
        const Moment::MaintainsTensors& tensors() const { return dynamic_cast<const Moment::MaintainsTensors&>(*sys->ms); }
    };
    inline std::string itext(std::span<const size_t> i) { return "[" + join(std::vector<size_t>(i.begin(), i.end())) + "]"; }
}
