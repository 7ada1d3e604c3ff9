// Symmetries of scenarios and their action on words, computed independently.
#pragma once
#include "verif.h"
#include "sys.h"
#include "scenarios/derived/derived_matrix_system.h"
#include "scenarios/derived/derived_errors.h"
#include "scenarios/derived/lu_map_core_processor.h"
#include "scenarios/derived/symbol_table_map.h"
#include "scenarios/symmetrized/group.h"
#include "scenarios/symmetrized/representation.h"
#include "scenarios/symmetrized/symmetrized_matrix_system.h"
#include <thread>
#include <Eigen/Dense>
#include <Eigen/Sparse>

using namespace verif;
using namespace Moment::Symmetrized;
using Moment::Derived::LUMapCoreProcessor;
using Moment::LocalizingMatrixIndex;
using Moment::PolynomialLocalizingMatrixIndex;

namespace {
    using Dense = Eigen::MatrixXd;
    using WPoly = std::map<Word, cd>; // combination of words

    void add(WPoly& p, const Word& w, cd f) { auto& x = p[w]; x += f; }
    void prune(WPoly& p) { for (auto it = p.begin(); it != p.end();) if (std::abs(it->second) < 1e-9) it = p.erase(it); else ++it; }
    WPoly mul(const Sys& s, const WPoly& a, const WPoly& b) {
        WPoly out;
        for (auto& [u, x] : a) for (auto& [v, y] : b) {
            Word w = u; w.insert(w.end(), v.begin(), v.end());
            auto n = s.scen->normal(w, 0);
            if (!n.zero) add(out, n.letters, x * y * ipow(n.phase));
        }
        prune(out); return out;
    }
    bool same(const WPoly& a, const WPoly& b, double tol = 1e-7) {
        for (auto& [w, x] : a) { auto it = b.find(w); if (std::abs(x - (it == b.end() ? cd{} : it->second)) > tol) return false; }
        for (auto& [w, x] : b) if (!a.count(w) && std::abs(x) > tol) return false;
        return true;
    }
    std::string text(const WPoly& p) { std::stringstream ss; for (auto& [w, x] : p) ss << x << "[" << wstr(w) << "] "; return ss.str(); }
    std::string text(const Dense& m) { std::stringstream ss; for (int i = 0; i < m.rows(); ++i) { ss << "["; for (int j = 0; j < m.cols(); ++j) ss << (j ? " " : "") << m(i, j); ss << "]"; } return ss.str(); }

    /** All products of the generators, by breadth first search; empty if more than cap. */
    std::vector<Dense> closure(const std::vector<Dense>& gens, size_t cap) {
        const auto d = gens.front().rows();
        auto key = [](const Dense& m) { std::vector<long> k; for (int i = 0; i < m.size(); ++i) k.push_back(std::lround(m.data()[i] * 1e6)); return k; };
        std::vector<Dense> out{Dense::Identity(d, d)}; std::set<std::vector<long>> seen{key(out[0])};
        for (size_t i = 0; i < out.size(); ++i) for (auto& g : gens) {
            Dense m = out[i] * g;
            if (seen.insert(key(m)).second) { out.push_back(m); if (out.size() > cap) return {}; }
        }
        return out;
    }
    repmat_t sparse(const Dense& m) { return m.sparseView(); }

    struct Sym { std::unique_ptr<Sys> sys; std::vector<Dense> gens; bool alias = false; std::string desc; };

    /** Algebra whose rules are kept by the actions generated below. */
    std::unique_ptr<AlgScen> alg(size_t raw, AlgScen::Mode mode, const std::function<void(const Moment::Algebraic::AlgebraicPrecontext&, std::vector<Moment::Algebraic::OperatorRule>&)>& fill, bool com, const std::string& text) {
        using namespace Moment::Algebraic;
        auto s = std::make_unique<AlgScen>(); s->mode = mode; s->raw = raw;
        AlgebraicPrecontext apc(static_cast<oper_name_t>(raw), mode);
        std::vector<OperatorRule> rules; fill(apc, rules);
        auto ctx = std::make_unique<AlgebraicContext>(apc, com, false, rules);
        s->desc = "algebraic(" + std::to_string(apc.num_operators) + " " + text + ")";
        ctx->attempt_completion(50);
        if (!ctx->is_complete()) return nullptr;
        s->ctx = ctx.get(); s->owned = std::move(ctx);
        return s;
    }
    Dense id(size_t n) { return Dense::Identity(static_cast<long>(n), static_cast<long>(n)); }
    std::vector<size_t> random_perm(Rng& r, size_t n) { std::vector<size_t> p(n); for (size_t i = 0; i < n; ++i) p[i] = i; r.shuffle(p); return p; }
    Dense signed_perm(Rng& r, size_t n, bool signs) {
        Dense m = Dense::Zero(n + 1, n + 1); m(0, 0) = 1; auto p = random_perm(r, n);
        for (size_t i = 0; i < n; ++i) m(p[i] + 1, i + 1) = signs && r.chance(1, 3) ? -1 : 1;
        return m;
    }
    Dense rotation(Rng& r, size_t n) {
        Dense m = id(n + 1); if (n < 2) { m(1, 1) = -1; return m; }
        auto p = random_perm(r, n); const double th = 2 * M_PI / static_cast<double>(3 + r.below(6));
        const auto a = p[0] + 1, b = p[1] + 1;
        m(a, a) = std::cos(th); m(b, a) = std::sin(th); m(a, b) = -std::sin(th); m(b, b) = std::cos(th);
        return m;
    }
    /** Locality: relabel parties, measurements and outcomes. */
    Dense relabelling(Rng& r, const LocalityScen& s) {
        const size_t n = s.ops();
        const auto& spec = s.outcomes;
        std::vector<size_t> party(spec.size()); for (size_t i = 0; i < party.size(); ++i) party[i] = i;
        if (r.coin()) for (int t = 0; t < 4; ++t) { auto p = random_perm(r, spec.size()); bool ok = true; for (size_t i = 0; i < p.size(); ++i) { auto a = spec[i], b = spec[p[i]]; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); ok &= a == b; } if (ok) { party = p; break; } }
        std::map<std::tuple<int, int, int>, size_t> op; for (size_t o = 0; o < n; ++o) op[{s.party[o], s.mmt[o], s.outcome[o]}] = o;
        Dense m = Dense::Zero(n + 1, n + 1); m(0, 0) = 1;
        for (size_t p = 0; p < spec.size(); ++p) {
            std::vector<size_t> mm;
            while (true) { mm = random_perm(r, spec[p].size()); bool ok = true; for (size_t k = 0; k < mm.size(); ++k) ok &= spec[party[p]][mm[k]] == spec[p][k]; if (ok) break; }
            if (party[p] == p && r.coin()) for (size_t k = 0; k < mm.size(); ++k) mm[k] = k;
            for (size_t k = 0; k < spec[p].size(); ++k) {
                auto out = random_perm(r, spec[p][k]); if (r.coin()) std::sort(out.begin(), out.end());
                for (size_t o = 0; o + 1 < spec[p][k]; ++o) {
                    const size_t col = op.at({p, k, o}) + 1; const auto P = static_cast<int>(party[p]), M = static_cast<int>(mm[k]);
                    if (out[o] + 1 < spec[p][k]) m(op.at({P, M, out[o]}) + 1, col) = 1;
                    else { m(0, col) = 1; for (size_t x = 0; x + 1 < spec[p][k]; ++x) m(op.at({P, M, x}) + 1, col) = -1; }
                }
            }
        }
        return m;
    }
    /** Pauli: permute qubits, and per qubit a proper signed permutation of X, Y, Z. */
    Dense clifford(Rng& r, size_t q) {
        Dense m = Dense::Zero(3 * q + 1, 3 * q + 1); m(0, 0) = 1; auto p = r.coin() ? random_perm(r, q) : random_perm(r, 1);
        if (p.size() != q) { p.resize(q); for (size_t i = 0; i < q; ++i) p[i] = i; }
        for (size_t i = 0; i < q; ++i) {
            auto x = r.coin() ? random_perm(r, 3) : std::vector<size_t>{0, 1, 2};
            int inv = 0; for (int a = 0; a < 3; ++a) for (int b = a + 1; b < 3; ++b) inv ^= x[a] > x[b];
            int s0 = r.coin() ? 1 : -1, s1 = r.coin() ? 1 : -1, s2 = s0 * s1 * (inv ? -1 : 1);
            const int s[3] = {s0, s1, s2};
            for (size_t a = 0; a < 3; ++a) m(3 * p[i] + x[a] + 1, 3 * i + a + 1) = s[a];
        }
        return m;
    }
    /** Inflation: relabel outcomes of an observable in all its copies. */
    Dense outcome_relabelling(Rng& r, const InflationScen& s) {
        const size_t n = s.ops(); Dense m = Dense::Zero(n + 1, n + 1); m(0, 0) = 1;
        std::map<int, std::vector<size_t>> perm;
        for (size_t o = 0; o < s.net.outcomes.size(); ++o) if (s.net.outcomes[o] > 0) perm[static_cast<int>(o)] = random_perm(r, s.net.outcomes[o]);
        for (size_t x = 0; x < n; ++x) {
            auto it = perm.find(s.obs[x]);
            if (it == perm.end()) { m(x + 1, x + 1) = 1; continue; }
            const auto to = it->second[s.outcome[x]], nout = it->second.size();
            if (to + 1 < nout) m(s.lookup.at({s.obs[x], s.copy[x], static_cast<int>(to)}) + 1, x + 1) = 1;
            else { m(0, x + 1) = 1; for (size_t k = 0; k + 1 < nout; ++k) m(s.lookup.at({s.obs[x], s.copy[x], static_cast<int>(k)}) + 1, x + 1) = -1; }
        }
        return m;
    }

    Sym random_sym(Rng& r, int family = -1) {
        using namespace Moment::Algebraic;
        Sym o; const size_t ngen = 1 + r.below(3);
        if (family < 0) family = static_cast<int>(r.below(8));
        auto generators = [&](const std::function<Dense()>& f) { for (size_t i = 0; i < ngen; ++i) o.gens.push_back(f()); };
        switch (family) {
            case 0: { // free operators
                const size_t n = 1 + r.below(3); o.sys = Sys::of(Sys::Generic, std::make_unique<GenericScen>(n), r);
                const int style = static_cast<int>(r.below(3));
                if (style == 0) generators([&] { return signed_perm(r, n, true); });
                else if (style == 1) generators([&] { return r.coin() ? rotation(r, n) : signed_perm(r, n, false); });
                else generators([&] { Dense m = signed_perm(r, n, false); for (size_t c = 1; c <= n; ++c) if (r.coin()) { for (size_t i = 1; i <= n; ++i) m(i, c) *= -1; m(0, c) = 1; } return m; });
                break;
            }
            case 1: case 2: {
                auto s = std::make_unique<LocalityScen>(LocalityScen::random_spec(r, 2, 3, 3, 5)); auto* ls = s.get();
                o.sys = Sys::of(Sys::Locality, std::move(s), r);
                generators([&] { return relabelling(r, *ls); });
                break;
            }
            case 3: { // anticommuting operators
                const size_t n = 2 + r.below(2); const bool unit = r.coin();
                auto s = alg(n, AlgScen::Mode::SelfAdjoint, [&](auto& apc, auto& rules) {
                    for (long i = 0; i < static_cast<long>(n); ++i) for (long j = 0; j < i; ++j)
                        rules.emplace_back(Moment::HashedSequence{to_storage(Word{i, j}), apc.hasher}, Moment::HashedSequence{to_storage(Word{j, i}), apc.hasher, sign_of(2)});
                    if (unit) for (long i = 0; i < static_cast<long>(n); ++i) rules.emplace_back(Moment::HashedSequence{to_storage(Word{i, i}), apc.hasher}, Moment::HashedSequence{to_storage(Word{}), apc.hasher});
                }, false, unit ? "anticommuting, square 1" : "anticommuting");
                if (!s) throw std::logic_error{"anticommuting rules incomplete"};
                o.sys = Sys::of(Sys::Algebraic, std::move(s), r);
                const bool rot = unit && r.coin();
                generators([&] { return rot && r.coin() ? rotation(r, n) : signed_perm(r, n, true); });
                break;
            }
            case 4: { // commuting operators or projectors
                const size_t n = 1 + r.below(3); const bool proj = r.coin(), com = !proj || r.coin();
                auto s = alg(n, AlgScen::Mode::SelfAdjoint, [&](auto& apc, auto& rules) {
                    if (proj) for (long i = 0; i < static_cast<long>(n); ++i) rules.emplace_back(Moment::HashedSequence{to_storage(Word{i, i}), apc.hasher}, Moment::HashedSequence{to_storage(Word{i}), apc.hasher});
                }, com, std::string(proj ? "projectors" : "free") + (com ? " commuting" : ""));
                if (!s) throw std::logic_error{"rules incomplete"};
                o.sys = Sys::of(Sys::Algebraic, std::move(s), r);
                generators([&] {
                    Dense m = signed_perm(r, n, !proj);
                    if (proj) for (size_t c = 1; c <= n; ++c) if (r.chance(1, 3)) { for (size_t i = 1; i <= n; ++i) m(i, c) *= -1; m(0, c) = 1; }
                    return m;
                });
                break;
            }
            case 5: { // operators with adjoints
                const size_t raw = 1 + r.below(2); const auto mode = r.coin() ? AlgScen::Mode::Bunched : AlgScen::Mode::Interleaved;
                auto s = alg(raw, mode, [](auto&, auto&) {}, false, "with adjoints"); auto* as = s.get();
                o.sys = Sys::of(Sys::Algebraic, std::move(s), r);
                generators([&] {
                    const size_t n = 2 * raw; Dense m = Dense::Zero(n + 1, n + 1); m(0, 0) = 1; auto p = random_perm(r, raw);
                    auto name = [&](size_t k, bool adj) { long o2 = mode == AlgScen::Mode::Interleaved ? static_cast<long>(2 * k) : static_cast<long>(k); return static_cast<size_t>(adj ? as->conj_op(o2) : o2); };
                    for (size_t k = 0; k < raw; ++k) { const bool flip = r.chance(1, 3); const double sg = r.chance(1, 3) ? -1 : 1; for (bool a : {false, true}) m(name(p[k], a != flip) + 1, name(k, a) + 1) = sg; }
                    return m;
                });
                break;
            }
            case 6: {
                const bool sym = r.chance(1, 4);
                if (sym) { o.sys = Sys::of(Sys::Pauli, std::make_unique<PauliScen>(random_pauli_context(r, 3)), r); o.alias = o.sys->symmetric; }
                else o.sys = Sys::of(Sys::Pauli, std::make_unique<PauliScen>(1 + r.below(3)), r);
                const size_t q = o.sys->pscen().qubits;
                if (o.alias) { // the same Clifford everywhere commutes with translations
                    generators([&] { Dense one = clifford(r, 1), m = Dense::Zero(3 * q + 1, 3 * q + 1); m(0, 0) = 1; for (size_t i = 0; i < q; ++i) m.block(3 * i + 1, 3 * i + 1, 3, 3) = one.block(1, 1, 3, 3); return m; });
                } else generators([&] { return clifford(r, q); });
                break;
            }
            default: {
                auto s = std::make_unique<InflationScen>(random_network(r, 2, 2, 2, 3, 6)); auto* is = s.get();
                o.sys = Sys::of(Sys::Inflation, std::move(s), r); o.alias = true;
                generators([&] { return outcome_relabelling(r, *is); });
            }
        }
        o.desc = o.sys->desc();
        for (auto& g : o.gens) o.desc += " " + text(g);
        return o;
    }

    struct Action { // reference action of every group element on words
        const Sys& s; std::vector<Dense> elems; std::vector<std::vector<WPoly>> image; std::map<Word, WPoly> avg_cache;
        Action(const Sys& s, std::vector<Dense> e) : s{s}, elems{std::move(e)} {
            auto letters = s.level_words(1);
            for (auto& m : elems) {
                std::vector<WPoly> im;
                for (int j = 0; j < m.cols(); ++j) { WPoly p; for (int i = 0; i < m.rows(); ++i) if (m(i, j) != 0.0) add(p, letters[i], m(i, j)); prune(p); im.push_back(p); }
                image.push_back(im);
            }
            for (size_t i = 1; i < letters.size(); ++i) index[letters[i].at(0)] = i;
        }
        std::map<long, size_t> index;
        WPoly act(size_t g, const Word& w) const { WPoly p{{Word{}, 1.0}}; for (auto o : w) p = mul(s, p, image[g][index.at(o)]); return p; }
        const WPoly& average(const Word& w) {
            auto it = avg_cache.find(w); if (it != avg_cache.end()) return it->second;
            WPoly a; for (size_t g = 0; g < elems.size(); ++g) for (auto& [v, f] : act(g, w)) add(a, v, f / static_cast<double>(elems.size()));
            prune(a); return avg_cache.emplace(w, a).first->second;
        }
        cd value(const WPoly& p) const { cd v; for (auto& [w, f] : p) v += f * s.value(w); return v; }
        cd average_value(const Word& w) { return value(average(w)); }
        cd average_value(const Monomial& m) { if (!m.id) return 0.0; auto& sy = s.symbols()[m.id]; auto n = norm_of(sy.sequence()); cd v = average_value(n.letters) * ipow(n.phase); return m.factor * (m.conjugated ? std::conj(v) : v); }
        cd average_value(const Polynomial& p) { cd v; for (auto& m : p) v += average_value(m); return v; }
    };

    size_t rank_of(std::vector<WPoly> rows) {
        std::map<Word, long> idx; for (auto& p : rows) for (auto& [w, f] : p) idx.emplace(w, static_cast<long>(idx.size()));
        if (idx.empty()) return 0;
        Dense m = Dense::Zero(rows.size(), idx.size());
        for (size_t i = 0; i < rows.size(); ++i) for (auto& [w, f] : rows[i]) m(i, idx[w]) = f.real();
        Eigen::FullPivLU<Dense> lu(m); lu.setThreshold(1e-7); return static_cast<size_t>(lu.rank());
    }
    template<class F> bool raises(F&& f) { return verif::throws(f); }

    bool same(const Dense& a, const Dense& b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a - b).cwiseAbs().maxCoeff() < 1e-7; }
    std::vector<repmat_t> sparse_all(const std::vector<Dense>& g) { std::vector<repmat_t> o; for (auto& m : g) o.push_back(sparse(m)); return o; }
    size_t max_len(const Sys& s, double cap, size_t top) { size_t l = 1; while (l < top && static_cast<double>(s.ms->Context().operator_sequence_generator(l + 1).size()) <= cap) ++l; return l; }
}
