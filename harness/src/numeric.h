// Actual states and operators ("realisations") of scenarios, used as oracles.
#pragma once
#include "scen.h"
#include "tinymat.h"

namespace verif {
    /** Values of words of a scenario on one concrete state. */
    struct Realisation {
        virtual ~Realisation() = default;
        virtual cd expect(const Word& w) const = 0;                    // <w>
        cd expect(const Moment::OperatorSequence& s) const {
            if (s.zero()) return 0.0;
            return ipow(sign_int(s.get_sign())) * expect(to_word(s));
        }
    };
    struct MatrixRealisation : Realisation {
        std::vector<Mat> ops; Mat rho; int dim = 1;
        Mat word(const Word& w) const { Mat m = Mat::Identity(dim, dim); for (auto o : w) m = m * ops[o]; return m; }
        Mat word(const Moment::OperatorSequence& s) const {
            if (s.zero()) return Mat::Zero(dim, dim);
            return ipow(sign_int(s.get_sign())) * word(to_word(s));
        }
        using Realisation::expect;
        cd expect(const Word& w) const override { return trace_product(rho, word(w)); }
    };
    /** Generic projective measurements on independent local spaces; any joint state. */
    struct LocalityReal : MatrixRealisation {
        // all outcomes, including implicit last one: proj[party][mmt][outcome]
        std::vector<std::vector<std::vector<Mat>>> proj;
        LocalityReal(const LocalityScen& s, Rng& r, bool rank_positive = true, int max_total = 64) {
            const size_t np = s.outcomes.size();
            std::vector<int> d(np);
            for (size_t p = 0; p < np; ++p) { size_t mo = 1; for (auto o : s.outcomes[p]) mo = std::max(mo, o); d[p] = static_cast<int>(rank_positive ? mo + (np <= 2 ? 1 : 0) : 2); if (d[p] < 2) d[p] = 2; }
            dim = 1; for (auto x : d) dim *= x;
            proj.resize(np);
            int before = 1;
            for (size_t p = 0; p < np; ++p) {
                const int after = dim / before / d[p];
                for (auto nout : s.outcomes[p]) {
                    Mat u = random_unitary(r, d[p]);
                    // assign basis vectors to outcomes, each at least once if possible
                    std::vector<int> owner(d[p]);
                    for (int i = 0; i < d[p]; ++i) owner[i] = i < static_cast<int>(nout) ? i : static_cast<int>(r.below(nout));
                    if (!rank_positive) for (auto& o : owner) o = static_cast<int>(r.below(nout));
                    std::vector<Mat> outs;
                    for (size_t o = 0; o < nout; ++o) {
                        Mat x = Mat::Zero(d[p], d[p]);
                        for (int i = 0; i < d[p]; ++i) if (owner[i] == static_cast<int>(o)) for (int a = 0; a < d[p]; ++a) for (int b = 0; b < d[p]; ++b) x(a, b) += u(a, i) * std::conj(u(b, i));
                        outs.push_back(kron(kron(Mat::Identity(before, before), x), Mat::Identity(after, after)));
                    }
                    for (size_t o = 0; o + 1 < nout; ++o) ops.push_back(outs[o]);
                    proj[p].push_back(outs);
                }
                before *= d[p];
            }
            rho = random_density(r, dim);
        }
    };
    /** Independent classical sources with finitely many values; observables are functions of their sources. */
    struct InflationReal : Realisation {
        const InflationScen& s; int k;
        std::vector<std::vector<double>> prob;              // per source
        std::vector<std::vector<int>> out_of;               // observable -> flattened source values -> outcome (projective)
        std::vector<std::vector<double>> value_of;          // non-projective: real value
        InflationReal(const InflationScen& sc, Rng& r, int k_ = 2) : s{sc}, k{k_} {
            // observables without sources still get local randomness through an implicit source
            const size_t ns = s.net.sources.size() + s.net.outcomes.size();
            for (size_t i = 0; i < ns; ++i) { std::vector<double> p(k); double t = 0; for (auto& x : p) { x = 0.15 + r.unit(); t += x; } for (auto& x : p) x /= t; prob.push_back(p); }
            for (size_t o = 0; o < s.net.outcomes.size(); ++o) {
                size_t n = 1; for (size_t j = 0; j < std::max<size_t>(1, s.obs_sources[o].size()); ++j) n *= k;
                std::vector<int> f(n, 0); std::vector<double> g(n, 0);
                for (auto& x : f) x = static_cast<int>(r.below(std::max<size_t>(1, s.net.outcomes[o])));
                for (auto& x : g) x = r.sym() * 1.5;
                out_of.push_back(f); value_of.push_back(g);
            }
        }
        using Realisation::expect;
        /** global variable list: (source, copy) or (implicit of observable). */
        cd expect(const Word& w) const override {
            std::map<std::pair<int, int>, int> var; // -> position
            std::vector<std::pair<int, int>> vars;
            auto get = [&](int src, int cp) { auto [it, isnew] = var.emplace(std::make_pair(src, cp), static_cast<int>(vars.size())); if (isnew) vars.emplace_back(src, cp); return it->second; };
            std::vector<std::vector<int>> deps;
            for (auto o : w) {
                std::vector<int> d; const int ob = s.obs[o];
                if (s.obs_sources[ob].empty()) d.push_back(get(static_cast<int>(s.net.sources.size()) + ob, 0));
                for (size_t j = 0; j < s.obs_sources[ob].size(); ++j) d.push_back(get(s.obs_sources[ob][j], s.copy[o][j]));
                deps.push_back(d);
            }
            std::vector<int> val(vars.size(), 0); double total = 0;
            while (true) {
                double p = 1; for (size_t i = 0; i < vars.size(); ++i) p *= prob[vars[i].first][val[i]];
                for (size_t i = 0; i < w.size() && p != 0; ++i) {
                    int idx = 0; for (auto d : deps[i]) idx = idx * k + val[d];
                    const int ob = s.obs[w[i]];
                    if (s.net.outcomes[ob]) { if (out_of[ob][idx] != s.outcome[w[i]]) p = 0; }
                    else p *= value_of[ob][idx];
                }
                total += p;
                size_t i = 0; while (i < val.size() && ++val[i] == k) val[i++] = 0;
                if (i == val.size()) break;
            }
            return total;
        }
        /** probability that (observable,copies) all take given outcomes, any outcome incl. the implicit last one */
        double joint(const std::vector<std::tuple<int, std::vector<int>, int>>& ask) const {
            std::map<std::pair<int, int>, int> var; std::vector<std::pair<int, int>> vars;
            auto get = [&](int src, int cp) { auto [it, isnew] = var.emplace(std::make_pair(src, cp), static_cast<int>(vars.size())); if (isnew) vars.emplace_back(src, cp); return it->second; };
            std::vector<std::vector<int>> deps;
            for (auto& [ob, cp, oc] : ask) {
                std::vector<int> d;
                if (s.obs_sources[ob].empty()) d.push_back(get(static_cast<int>(s.net.sources.size()) + ob, 0));
                for (size_t j = 0; j < s.obs_sources[ob].size(); ++j) d.push_back(get(s.obs_sources[ob][j], cp[j]));
                deps.push_back(d);
            }
            std::vector<int> val(vars.size(), 0); double total = 0;
            while (true) {
                double p = 1; for (size_t i = 0; i < vars.size(); ++i) p *= prob[vars[i].first][val[i]];
                for (size_t i = 0; i < ask.size(); ++i) {
                    int idx = 0; for (auto d : deps[i]) idx = idx * k + val[d];
                    if (out_of[std::get<0>(ask[i])][idx] != std::get<2>(ask[i])) p = 0;
                }
                total += p;
                size_t i = 0; while (i < val.size() && ++val[i] == k) val[i++] = 0;
                if (i == val.size()) break;
            }
            return total;
        }
    };
    /** Random pure state of a few qubits. */
    struct PauliReal : MatrixRealisation {
        PauliReal(size_t qubits, Rng& r) {
            dim = 1 << qubits;
            Mat x(2, 2), y(2, 2), z(2, 2); x(0, 1) = x(1, 0) = 1; y(0, 1) = cd(0, -1); y(1, 0) = cd(0, 1); z(0, 0) = 1; z(1, 1) = -1;
            for (size_t q = 0; q < qubits; ++q) for (auto& p : {x, y, z})
                ops.push_back(kron(kron(Mat::Identity(1 << q, 1 << q), p), Mat::Identity(1 << (qubits - q - 1), 1 << (qubits - q - 1))));
            rho = random_density(r, dim);
        }
    };
    /** Arbitrary (non-Hermitian unless asked) matrices for free algebras. */
    struct FreeReal : MatrixRealisation {
        FreeReal(size_t n, Rng& r, int d = 3, bool hermitian = false) {
            dim = d;
            for (size_t i = 0; i < n; ++i) { Mat m = random_matrix(r, d, d) * 0.4; if (hermitian) m += m.adjoint(); ops.push_back(m); }
            rho = random_density(r, d);
        }
    };
}
