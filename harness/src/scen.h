// Scenario generators and independent reference models of each scenario's operator algebra.
#pragma once
#include "verif.h"
#include "dictionary/dictionary.h"
#include "dictionary/operator_sequence.h"
#include "dictionary/operator_sequence_generator.h"
#include "scenarios/context.h"
#include "scenarios/inflation/inflation_context.h"
#include "scenarios/locality/locality_context.h"
#include "scenarios/pauli/pauli_context.h"

namespace verif {
    using Word = std::vector<long>;       // raw operator string
    using Moment::OperatorSequence;
    using Moment::SequenceSignType;
    using Moment::sequence_storage_t;
    using Moment::oper_name_t;

    inline sequence_storage_t to_storage(const Word& w) {
        sequence_storage_t s;
        for (auto x : w) s.push_back(static_cast<oper_name_t>(x));
        return s;
    }
    inline Word to_word(const Moment::HashedSequence& s) { Word w; for (auto x : s) w.push_back(x); return w; }
    inline Word to_word(const sequence_storage_t& s) { Word w; for (auto x : s) w.push_back(x); return w; }
    inline std::string wstr(const Word& w) { return "[" + join(w) + "]"; }
    inline Word random_word(Rng& r, size_t nops, size_t maxlen) {
        Word w; const size_t len = nops ? r.below(maxlen + 1) : 0;
        for (size_t i = 0; i < len; ++i) w.push_back(static_cast<long>(r.below(nops)));
        return w;
    }
    inline SequenceSignType sign_of(int k) { return static_cast<SequenceSignType>(((k % 4) + 4) % 4); }
    inline std::complex<double> ipow(int k) {
        static const std::complex<double> t[4] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}};
        return t[((k % 4) + 4) % 4];
    }
    inline int sign_int(SequenceSignType s) {
        switch (s) { case SequenceSignType::Positive: return 0; case SequenceSignType::Imaginary: return 1;
                     case SequenceSignType::Negative: return 2; default: return 3; }
    }
    /** Reference shortlex index (as 128-bit, so overflow is visible). */
    inline unsigned __int128 ref_hash(const Word& w, size_t radix) {
        unsigned __int128 v = 0;
        for (auto x : w) v = v * radix + static_cast<unsigned __int128>(x + 1);
        return v + 1;
    }

    /** Normal form in a reference model: zero flag, phase i^k, canonical letters. */
    struct Norm {
        bool zero = false; int phase = 0; Word letters;
        bool operator==(const Norm& o) const { return zero == o.zero && (zero || (phase == o.phase && letters == o.letters)); }
        bool operator<(const Norm& o) const { return std::tie(zero, phase, letters) < std::tie(o.zero, o.phase, o.letters); }
        std::string text() const { return zero ? "0" : ("i^" + std::to_string(phase) + wstr(letters)); }
    };
    inline Norm norm_of(const OperatorSequence& s) {
        if (s.zero()) return {true, 0, {}};
        return {false, sign_int(s.get_sign()), to_word(s)};
    }

    /** A scenario together with its reference algebra. */
    struct Scen {
        std::string desc;
        std::unique_ptr<Moment::Context> owned;
        Moment::Context* ctx = nullptr;
        virtual ~Scen() = default;
        size_t ops() const { return ctx->size(); }
        virtual Norm normal(const Word& w, int phase = 0) const = 0;
        /** letters of the adjoint string */
        virtual Norm adjoint(const Word& w, int phase = 0) const {
            Word r(w.rbegin(), w.rend());
            return normal(r, (4 - phase) & 3);
        }
        OperatorSequence make(const Word& w, int phase = 0) const { return OperatorSequence{to_storage(w), *ctx, sign_of(phase)}; }
    };

    struct GenericScen : Scen {
        explicit GenericScen(size_t n) {
            owned = std::make_unique<Moment::Context>(n); ctx = owned.get();
            desc = "generic(" + std::to_string(n) + ")";
        }
        Norm normal(const Word& w, int phase) const override { return {false, phase & 3, w}; }
    };

    struct LocalityScen : Scen {
        std::vector<std::vector<size_t>> outcomes; // per party, per measurement
        std::vector<int> party, mmt, outcome;      // per operator
        Moment::Locality::LocalityContext* lctx = nullptr;
        static std::vector<Moment::Locality::Party> parties_of(const std::vector<std::vector<size_t>>& spec) {
            std::vector<Moment::Locality::Party> parties;
            long pid = 0; char m0 = 'a';
            for (auto& p : spec) {
                std::vector<Moment::Locality::Measurement> ms; int k = 0;
                for (auto o : p) ms.emplace_back(std::string(1, static_cast<char>(m0 + (k++ % 26))), static_cast<oper_name_t>(o));
                parties.emplace_back(static_cast<Moment::party_name_t>(pid), std::string(1, static_cast<char>('A' + pid)), std::move(ms));
                ++pid;
            }
            return parties;
        }
        void index_ops() {
            for (size_t p = 0; p < outcomes.size(); ++p)
                for (size_t m = 0; m < outcomes[p].size(); ++m)
                    for (size_t o = 0; o + 1 < outcomes[p][m]; ++o) { party.push_back(p); mmt.push_back(m); outcome.push_back(o); }
            desc = "locality(";
            for (auto& p : outcomes) desc += "{" + join(p) + "}";
            desc += ")";
        }
        explicit LocalityScen(std::vector<std::vector<size_t>> spec, bool make_ctx = true) : outcomes{std::move(spec)} {
            index_ops();
            if (make_ctx) {
                owned = std::make_unique<Moment::Locality::LocalityContext>(parties_of(outcomes));
                ctx = owned.get(); lctx = static_cast<Moment::Locality::LocalityContext*>(ctx);
            }
        }
        static std::vector<std::vector<size_t>> random_spec(Rng& r, size_t max_parties = 3, size_t max_mmts = 3, size_t max_out = 4, size_t max_ops = 12, size_t min_out = 2) {
            while (true) {
                std::vector<std::vector<size_t>> s(1 + r.below(max_parties)); size_t ops = 0;
                for (auto& p : s) { p.resize(1 + r.below(max_mmts)); for (auto& o : p) { o = min_out + r.below(max_out - min_out + 1); ops += o - 1; } }
                if (ops >= 1 && ops <= max_ops) return s;
            }
        }
        Norm normal(const Word& w, int phase) const override {
            std::map<int, Word> stacks;
            for (auto x : w) {
                auto& st = stacks[party[x]];
                if (!st.empty()) {
                    if (st.back() == x) continue;
                    if (mmt[st.back()] == mmt[x]) return {true, 0, {}};
                }
                st.push_back(x);
            }
            Norm n{false, phase & 3, {}};
            for (auto& [p, st] : stacks) n.letters.insert(n.letters.end(), st.begin(), st.end());
            return n;
        }
    };

    struct NetSpec { std::vector<size_t> outcomes; std::vector<std::set<oper_name_t>> sources; size_t inflation;
        std::string text() const {
            std::string s = "network(outcomes " + join(outcomes) + "; sources ";
            for (auto& x : sources) s += "{" + join(x) + "}";
            return s + "; inflation " + std::to_string(inflation) + ")";
        }
    };
    inline NetSpec random_network(Rng& r, size_t max_obs = 3, size_t max_src = 3, size_t max_inf = 3, size_t max_out = 3, size_t max_ops = 40, bool nonproj = true) {
        while (true) {
            NetSpec n;
            const size_t nobs = 1 + r.below(max_obs), nsrc = r.below(max_src + 1);
            for (size_t i = 0; i < nobs; ++i) n.outcomes.push_back((nonproj && r.chance(1, 4)) ? 0 : 2 + r.below(max_out - 1));
            for (size_t s = 0; s < nsrc; ++s) {
                std::set<oper_name_t> obs;
                for (size_t i = 0; i < nobs; ++i) if (r.coin()) obs.insert(static_cast<oper_name_t>(i));
                if (obs.empty()) obs.insert(static_cast<oper_name_t>(r.below(nobs)));
                n.sources.push_back(obs);
            }
            n.inflation = 1 + r.below(max_inf);
            size_t ops = 0;
            for (size_t i = 0; i < nobs; ++i) {
                size_t k = 0; for (auto& s : n.sources) k += s.count(static_cast<oper_name_t>(i));
                size_t copies = 1; for (size_t j = 0; j < k; ++j) copies *= n.inflation;
                ops += copies * (n.outcomes[i] ? n.outcomes[i] - 1 : 1);
            }
            if (ops <= max_ops) return n;
        }
    }
    struct InflationScen : Scen {
        NetSpec net;
        // per operator: observable, source copies (source id -> copy), outcome
        std::vector<int> obs, outcome;
        std::vector<std::vector<int>> copy;        // indices parallel to obs_sources[obs]
        std::vector<std::vector<int>> obs_sources;
        std::map<std::tuple<int, std::vector<int>, int>, long> lookup;
        Moment::Inflation::InflationContext* ictx = nullptr;
        static Moment::Inflation::CausalNetwork network(const NetSpec& n) {
            auto src = n.sources;
            return Moment::Inflation::CausalNetwork{n.outcomes, std::move(src)};
        }
        void index_ops() {
            desc = net.text();
            for (size_t i = 0; i < net.outcomes.size(); ++i) {
                std::vector<int> srcs;
                for (size_t s = 0; s < net.sources.size(); ++s) if (net.sources[s].count(static_cast<oper_name_t>(i))) srcs.push_back(static_cast<int>(s));
                obs_sources.push_back(srcs);
                size_t copies = 1; for (size_t j = 0; j < srcs.size(); ++j) copies *= net.inflation;
                const size_t nops = net.outcomes[i] ? net.outcomes[i] - 1 : 1;
                for (size_t v = 0; v < copies; ++v) {
                    std::vector<int> c; size_t q = v;
                    for (size_t j = 0; j < srcs.size(); ++j) { c.push_back(static_cast<int>(q % net.inflation)); q /= net.inflation; }
                    for (size_t o = 0; o < nops; ++o) {
                        lookup[{static_cast<int>(i), c, static_cast<int>(o)}] = static_cast<long>(obs.size());
                        obs.push_back(static_cast<int>(i)); outcome.push_back(static_cast<int>(o)); copy.push_back(c);
                    }
                }
            }
        }
        explicit InflationScen(NetSpec n, bool make_ctx = true) : net{std::move(n)} {
            index_ops();
            if (make_ctx) {
                owned = std::make_unique<Moment::Inflation::InflationContext>(network(net), net.inflation);
                ctx = owned.get(); ictx = static_cast<Moment::Inflation::InflationContext*>(ctx);
            }
        }
        Norm normal(const Word& w, int phase) const override {
            Word s = w; std::sort(s.begin(), s.end());
            Norm n{false, phase & 3, {}};
            std::map<std::pair<int, std::vector<int>>, int> seen;
            for (auto x : s) {
                if (net.outcomes[obs[x]] == 0) { n.letters.push_back(x); continue; }
                auto key = std::make_pair(obs[x], copy[x]);
                auto it = seen.find(key);
                if (it == seen.end()) { seen[key] = outcome[x]; n.letters.push_back(x); }
                else if (it->second != outcome[x]) return {true, 0, {}};
            }
            return n;
        }
    };

    /** Pauli strings as i^k X^x Z^z. */
    struct PauliRef {
        int k = 0; std::vector<bool> x, z;
        explicit PauliRef(size_t n) : x(n), z(n) { }
        void mul_op(long op) { // right-multiply by single-site operator
            const size_t q = static_cast<size_t>(op / 3);
            const int p = static_cast<int>(op % 3);
            // X: (1,0,0); Y = i X Z: (1,1,1); Z: (0,1,0)
            const bool ox = p != 2, oz = p != 0;
            if (z[q] && ox) k += 2;
            if (p == 1) k += 1;
            x[q] = x[q] != ox; z[q] = z[q] != oz; k &= 3;
        }
        Norm norm() const {
            Norm n; int kk = k;
            for (size_t q = 0; q < x.size(); ++q) {
                if (x[q] && z[q]) { n.letters.push_back(static_cast<long>(3 * q + 1)); kk += 3; }
                else if (x[q]) n.letters.push_back(static_cast<long>(3 * q));
                else if (z[q]) n.letters.push_back(static_cast<long>(3 * q + 2));
            }
            n.phase = kk & 3; return n;
        }
    };
    struct PauliScen : Scen {
        size_t qubits;
        Moment::Pauli::PauliContext* pctx = nullptr;
        explicit PauliScen(size_t n) : qubits{n} {
            owned = std::make_unique<Moment::Pauli::PauliContext>(n); ctx = owned.get();
            pctx = static_cast<Moment::Pauli::PauliContext*>(ctx);
            desc = "pauli(" + std::to_string(n) + ")";
        }
        explicit PauliScen(std::unique_ptr<Moment::Pauli::PauliContext> pc) : qubits{pc->qubit_size} {
            pctx = pc.get(); owned = std::move(pc); ctx = owned.get();
            desc = "pauli(" + std::to_string(qubits) + ";" + std::to_string(pctx->col_height) + "x" + std::to_string(pctx->row_width) + ")";
        }
        Norm normal(const Word& w, int phase) const override {
            PauliRef r(qubits); r.k = phase & 3;
            for (auto o : w) r.mul_op(o);
            return r.norm();
        }
    };
    inline std::unique_ptr<Scen> random_scen(Rng& r, bool with_generic = true) {
        switch (r.below(with_generic ? 4 : 3)) {
            case 0: return std::make_unique<LocalityScen>(LocalityScen::random_spec(r, 4, 3, 4, 14, r.chance(1, 4) ? 1 : 2));
            case 1: return std::make_unique<InflationScen>(random_network(r));
            case 2: return std::make_unique<PauliScen>(1 + r.below(r.coin() ? 4 : 30));
            default: return std::make_unique<GenericScen>(1 + r.below(9));
        }
    }
}
