// Networks small enough for enumeration, and their factorisation, computed independently.
#pragma once
#include "sys.h"

namespace verif {
    inline NetSpec net_up_to(Rng& r, size_t max_ops, size_t inflation, size_t sources = 3, size_t observables = 4) {
        while (true) { auto n = random_network(r, observables, sources, inflation, 3, max_ops); size_t f = 1, perms = 1; for (size_t i = 2; i <= n.inflation; ++i) f *= i; for (size_t i = 0; i < n.sources.size(); ++i) perms *= f; if (perms <= 1500) return n; }
    }
    /** Groups of letters connected through shared sources (own union-find over (source, copy) and private sources). */
    inline std::vector<Word> groups(const InflationScen& s, const Word& w) {
        std::vector<int> comp(w.size()); for (size_t i = 0; i < w.size(); ++i) comp[i] = static_cast<int>(i);
        auto linked = [&](long a, long b) {
            const int oa = s.obs[a], ob = s.obs[b];
            if (s.obs_sources[oa].empty() || s.obs_sources[ob].empty()) return oa == ob;
            for (size_t i = 0; i < s.obs_sources[oa].size(); ++i) for (size_t j = 0; j < s.obs_sources[ob].size(); ++j)
                if (s.obs_sources[oa][i] == s.obs_sources[ob][j] && s.copy[a][i] == s.copy[b][j]) return true;
            return false;
        };
        for (bool more = true; more;) { more = false; for (size_t i = 0; i < w.size(); ++i) for (size_t j = 0; j < w.size(); ++j) if (comp[i] > comp[j] && linked(w[i], w[j])) { comp[i] = comp[j]; more = true; } }
        std::map<int, Word> by; for (size_t i = 0; i < w.size(); ++i) by[comp[i]].push_back(w[i]);
        std::vector<Word> out; for (auto& [k, v] : by) out.push_back(v);
        std::sort(out.begin(), out.end()); return out;
    }
}
