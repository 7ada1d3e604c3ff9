// C04: dictionaries list every canonical word of a level exactly once.
#include "scen.h"
#include "scenarios/algebraic/algebraic_context.h"
#include "scenarios/algebraic/operator_rulebook.h"
#include "scenarios/pauli/pauli_dictionary.h"
#include "scenarios/pauli/pauli_osg.h"
#include "scenarios/pauli/indices/nearest_neighbour_index.h"
#include "scenarios/pauli/symmetry/lattice_duplicator.h"
using namespace verif;
using namespace Moment;

namespace {
    /** Normal forms of all words with at most `level` letters. */
    std::vector<std::set<Word>> reference_words(const Scen& s, size_t level) {
        std::vector<std::set<Word>> out{{Word{}}};
        for (size_t l = 1; l <= level; ++l) {
            std::set<Word> next = out.back();
            for (auto& w : out.back()) for (size_t o = 0; o < s.ops(); ++o) {
                Word v = w; v.push_back(static_cast<long>(o));
                auto n = s.normal(v, 0); if (!n.zero) next.insert(n.letters);
            }
            out.push_back(std::move(next));
        }
        return out;
    }
    std::vector<Word> words_of(const OperatorSequenceGenerator& osg) { std::vector<Word> v; for (auto& s : osg) v.push_back(to_word(s)); return v; }
    void check_list(Ctx& c, const Context& ctx, const std::vector<Word>& got, const OperatorSequenceGenerator& osg, const std::set<Word>& want) {
        CHECK(!got.empty() && got[0].empty(), "identity-first", c.crumb);
        std::set<Word> uniq(got.begin(), got.end());
        CHECK(uniq.size() == got.size(), "duplicate", c.crumb << ": " << got.size() << " words, " << uniq.size() << " distinct" << [&] { std::set<Word> s; for (auto& w : got) if (!s.insert(w).second) return ", e.g. " + wstr(w); return std::string(); }());
        for (auto& w : want) if (!uniq.count(w)) { CHECK(false, "missing", c.crumb << " missing " << wstr(w)); break; }
        for (auto& w : uniq) if (!want.count(w)) { CHECK(false, "extra", c.crumb << " extra " << wstr(w)); break; }
        std::set<uint64_t> hashes;
        for (auto& s : osg) {
            CHECK(s.get_sign() == SequenceSignType::Positive && !s.zero(), "signed-word", c.crumb << " " << wstr(to_word(s)));
            CHECK(s.hash() == static_cast<uint64_t>(ref_hash(to_word(s), ctx.size())), "word-hash", c.crumb << " " << wstr(to_word(s)));
            CHECK(s.is_same_context(ctx), "word-context", c.crumb);
            hashes.insert(s.hash());
        }
        CHECK(hashes.size() == osg.size(), "duplicate-hash", c.crumb);
        c.count("words", osg.size());
    }
    /** Ask for levels in a random order and more than once; check lists, adjoints, growth. */
    void full_dictionary(Ctx& c, Rng& r, const Scen& s, size_t max_level) {
        auto ref = reference_words(s, max_level);
        std::vector<size_t> order; for (size_t l = 0; l <= max_level; ++l) { order.push_back(l); if (r.coin()) order.push_back(l); }
        r.shuffle(order);
        std::map<size_t, const OperatorSequenceGenerator*> seen;
        for (auto l : order) {
            c.note(s.desc + " level " + std::to_string(l));
            const auto& osg = s.ctx->operator_sequence_generator(l, false);
            const auto& conj = s.ctx->operator_sequence_generator(l, true);
            auto [it, fresh] = seen.emplace(l, &osg);
            CHECK(it->second == &osg, "same-level-twice", c.crumb);
            CHECK(s.ctx->dictionary().WordCount(l) == osg.size(), "word-count", c.crumb);
            if (!fresh) continue;
            auto got = words_of(osg);
            check_list(c, *s.ctx, got, osg, ref[l]);
            // adjoint list
            CHECK(conj.size() == osg.size(), "conj-size", c.crumb);
            for (size_t i = 0; i < std::min(conj.size(), osg.size()); ++i) {
                auto want = s.adjoint(got[i], 0);
                CHECK(norm_of(conj[i]) == want, "conj-word", c.crumb << " " << wstr(got[i]) << " adjoint " << norm_of(conj[i]).text());
                CHECK(conj[i].hash() == static_cast<uint64_t>(ref_hash(want.letters, s.ops())), "conj-hash", c.crumb << " " << wstr(got[i]));
            }
        }
        // Growth: lower level is a prefix of a higher one.
        for (size_t l = 0; l < max_level; ++l) {
            c.note(s.desc + " growth " + std::to_string(l));
            auto lo = words_of(*seen[l]), hi = words_of(*seen[l + 1]);
            CHECK(lo.size() <= hi.size() && std::equal(lo.begin(), lo.end(), hi.begin()), "prefix", c.crumb);
        }
        c.nontrivial(s.desc + " level " + std::to_string(max_level));
    }
    size_t level_for(const Scen& s, Rng& r, double cap) {
        size_t l = 0; double n = 1, b = std::max<double>(1, s.ops());
        const size_t top = r.below(6);
        while (l < top && n * b <= cap) { n *= b; ++l; }
        return l;
    }
    using namespace Moment::Pauli;
    using Sites = std::set<size_t>;
    void add_paulis(std::set<Word>& out, const Sites& sites) {
        std::vector<size_t> v(sites.begin(), sites.end()); size_t total = 1; for (size_t i = 0; i < v.size(); ++i) total *= 3;
        for (size_t k = 0; k < total; ++k) { Word w; size_t q = k; for (auto s : v) { w.push_back(static_cast<long>(3 * s + q % 3)); q /= 3; } out.insert(w); }
    }
    std::set<Word> chain_reference(size_t n, size_t level, size_t dist, bool wrap) {
        std::set<Sites> supports{{}};
        for (size_t q = 0; q < n; ++q) if (level) supports.insert({q});
        // grow a chain from every start: next qubit at most `dist` further, never past a full turn
        std::function<void(size_t, size_t, Sites)> grow = [&](size_t start, size_t cum, Sites s) {
            supports.insert(s);
            if (s.size() >= level) return;
            for (size_t d = 1; d <= dist; ++d) {
                if (cum + d >= n) break;
                if (!wrap && start + cum + d >= n) break;
                Sites t = s; t.insert((start + cum + d) % n); grow(start, cum + d, t);
            }
        };
        if (level) for (size_t q = 0; q < n; ++q) grow(q, 0, {q});
        std::set<Word> out; for (auto& s : supports) add_paulis(out, s);
        return out;
    }
    std::set<Word> lattice_reference(size_t h, size_t w, size_t level, bool wrap) {
        std::set<Sites> supports{{}};
        const size_t n = h * w; // site = col * h + row
        auto at = [&](size_t r, size_t cc) { return (cc % w) * h + (r % h); };
        auto place = [&](std::vector<std::pair<size_t, size_t>> shape, size_t sh, size_t sw) {
            if (sh > h || sw > w) return;
            for (size_t r = 0; r < h; ++r) for (size_t cc = 0; cc < w; ++cc) {
                if (!wrap && (r + sh > h || cc + sw > w)) continue;
                Sites s; for (auto [a, b] : shape) s.insert(at(r + a, cc + b));
                if (s.size() == shape.size()) supports.insert(s);
            }
        };
        if (level >= 1) for (size_t i = 0; i < n; ++i) supports.insert({i});
        if (level >= 2) { place({{0, 0}, {1, 0}}, 2, 1); place({{0, 0}, {0, 1}}, 1, 2); }
        if (level >= 3) {
            place({{0, 0}, {1, 0}, {2, 0}}, 3, 1); place({{0, 0}, {0, 1}, {0, 2}}, 1, 3);
            for (int skip = 0; skip < 4; ++skip) {
                std::vector<std::pair<size_t, size_t>> l; for (int k = 0; k < 4; ++k) if (k != skip) l.emplace_back(k & 1, k >> 1);
                place(l, 2, 2);
            }
        }
        if (level >= 4) place({{0, 0}, {1, 0}, {0, 1}, {1, 1}}, 2, 2);
        std::set<Word> out; for (auto& s : supports) add_paulis(out, s);
        return out;
    }
}

SECTION(locality) { c.for_cases(c.n(400, 6000), [&](Rng& r, uint64_t) { LocalityScen s(LocalityScen::random_spec(r, 4, 3, 4, 12, r.chance(1, 4) ? 1 : 2)); full_dictionary(c, r, s, level_for(s, r, 6000)); }); }
SECTION(inflation) { c.for_cases(c.n(400, 6000), [&](Rng& r, uint64_t) { InflationScen s(random_network(r, 3, 3, 3, 3, 24)); full_dictionary(c, r, s, level_for(s, r, 6000)); }); }
SECTION(pauli) { c.for_cases(c.n(200, 4000), [&](Rng& r, uint64_t) { PauliScen s(1 + r.below(r.coin() ? 4 : 12)); full_dictionary(c, r, s, level_for(s, r, 20000)); }); }
SECTION(pauli_symmetric) {
    // Translation symmetry concerns moments, not the operators listed.
    c.for_cases(c.n(100, 1500), [&](Rng& r, uint64_t) {
        const auto wrap = r.coin() ? WrapType::Wrap : WrapType::None;
        std::unique_ptr<PauliContext> ctx;
        if (r.coin()) ctx = std::make_unique<PauliContext>(1 + r.below(10), wrap, SymmetryType::Translational);
        else ctx = std::make_unique<PauliContext>(1 + r.below(4), 1 + r.below(4), wrap, SymmetryType::Translational);
        PauliScen s(std::move(ctx)); full_dictionary(c, r, s, level_for(s, r, 20000));
    });
}
SECTION(generic) { c.for_cases(c.n(100, 1000), [&](Rng& r, uint64_t) { GenericScen s(1 + r.below(6)); full_dictionary(c, r, s, level_for(s, r, 6000)); }); }
SECTION(algebraic) {
    using namespace Moment::Algebraic;
    c.for_cases(c.n(400, 6000), [&](Rng& r, uint64_t) {
        using Mode = AlgebraicPrecontext::ConjugateMode;
        const Mode mode = r.coin() ? Mode::SelfAdjoint : r.coin() ? Mode::Bunched : Mode::Interleaved;
        AlgebraicPrecontext apc(static_cast<oper_name_t>(1 + r.below(3)), mode);
        const size_t n = apc.num_operators;
        std::vector<OperatorRule> rules; std::string text;
        for (size_t k = r.below(4); k > 0; --k) {
            Word l; for (size_t i = 1 + r.below(3); i > 0; --i) l.push_back(r.below(n));
            Word q; for (size_t i = r.below(l.size()); i > 0; --i) q.push_back(r.below(n));
            const bool zero = r.chance(1, 4);
            text += wstr(l) + "->" + (zero ? "0 " : wstr(q) + " ");
            rules.emplace_back(HashedSequence{to_storage(l), apc.hasher}, zero ? HashedSequence{true} : HashedSequence{to_storage(q), apc.hasher});
        }
        const bool com = r.chance(1, 4), nor = r.chance(1, 4);
        AlgebraicContext ctx(apc, com, nor, rules);
        const std::string base = "algebraic(" + std::to_string(n) + (com ? " commutative " : " ") + (nor ? "normal " : "") + text + ")";
        c.note(base);
        ctx.attempt_completion(25);
        if (!ctx.is_complete()) { c.count("incomplete"); return; }
        for (auto& [h, rule] : ctx.rulebook().rules()) if (rule.LHS().empty()) { c.count("collapsed"); return; }
        // words without any left-hand side inside
        auto reducible = [&](const Word& w) { for (auto& [h, rule] : ctx.rulebook().rules()) { auto l = to_word(rule.LHS()); if (std::search(w.begin(), w.end(), l.begin(), l.end()) != w.end()) return true; } return false; };
        const size_t level = 1 + r.below(n <= 2 ? 5 : 3);
        std::vector<std::set<Word>> ref{{Word{}}};
        for (size_t l = 1; l <= level; ++l) { auto s = ref.back(); for (auto& w : ref.back()) if (w.size() == l - 1) for (size_t o = 0; o < n; ++o) { auto v = w; v.push_back(o); if (!reducible(v)) s.insert(v); } ref.push_back(s); }
        std::vector<size_t> order; for (size_t l = 0; l <= level; ++l) order.push_back(l);
        r.shuffle(order);
        for (auto l : order) {
            c.note(base + " level " + std::to_string(l));
            const auto& osg = ctx.operator_sequence_generator(l); const auto& conj = ctx.operator_sequence_generator(l, true);
            check_list(c, ctx, words_of(osg), osg, ref[l]);
            CHECK(conj.size() == osg.size(), "conj-size", c.crumb);
            for (size_t i = 0; i < osg.size(); ++i) {
                Word adj; for (size_t k = osg[i].size(); k > 0; --k) { long o = osg[i][k - 1]; adj.push_back(mode == Mode::SelfAdjoint ? o : mode == Mode::Interleaved ? (o ^ 1) : (o + (long)n / 2) % (long)n); }
                OperatorSequence want{to_storage(adj), ctx};
                CHECK(conj[i] == want, "conj-word", c.crumb << " " << wstr(to_word(osg[i])));
            }
        }
        c.nontrivial(base);
    });
}
SECTION(chain_neighbours) {
    c.for_cases(c.n(500, 6000), [&](Rng& r, uint64_t) {
        const bool wrap = r.coin(), sym = r.coin(); const size_t n = 1 + r.below(r.coin() ? 5 : 8);
        const auto W = wrap ? WrapType::Wrap : WrapType::None; const auto S = sym ? SymmetryType::Translational : SymmetryType::None;
        PauliContext ctx(n, W, S);
        const size_t reps = 1 + r.below(3); std::map<std::pair<size_t, size_t>, const OperatorSequenceGenerator*> seen;
        for (size_t i = 0; i < reps; ++i) {
            const size_t level = r.below(6), nn = r.below(4);
            c.note("pauli chain " + std::to_string(n) + (wrap ? " wrapped" : "") + (sym ? " symmetric" : "") + " level " + std::to_string(level) + " neighbours " + std::to_string(nn));
            const auto& osg = ctx.operator_sequence_generator(NearestNeighbourIndex{level, nn});
            auto [it, fresh] = seen.emplace(std::make_pair(level, nn), &osg);
            CHECK(it->second == &osg, "same-level-twice", c.crumb);
            auto ref = nn == 0 ? chain_reference(n, level, n, wrap) : chain_reference(n, level, nn, wrap);
            check_list(c, ctx, words_of(osg), osg, ref);
            CHECK(ctx.pauli_dictionary().WordCount(NearestNeighbourIndex{level, nn}) == osg.size(), "word-count", c.crumb);
            c.nontrivial(c.crumb);
        }
    });
}
SECTION(lattice_neighbours) {
    c.for_cases(c.n(400, 4000), [&](Rng& r, uint64_t) {
        const bool wrap = r.coin(), sym = r.coin(); const size_t h = 1 + r.below(5), w = 1 + r.below(5);
        const auto W = wrap ? WrapType::Wrap : WrapType::None; const auto S = sym ? SymmetryType::Translational : SymmetryType::None;
        PauliContext ctx(h, w, W, S);
        const size_t level = r.below(5);
        c.note("pauli lattice " + std::to_string(h) + "x" + std::to_string(w) + (wrap ? " wrapped" : "") + (sym ? " symmetric" : "") + " level " + std::to_string(level));
        std::string why;
        const OperatorSequenceGenerator* osg = nullptr;
        if (throws([&] { osg = &ctx.operator_sequence_generator(NearestNeighbourIndex{level, 1}); }, &why)) {
            // wrapped glass lattices need the site hasher that only symmetric contexts have: reported as unsupported
            CHECK(wrap && !sym && level >= 3, "unexpected-failure", c.crumb << ": " << why);
            c.count("unsupported"); return;
        }
        check_list(c, ctx, words_of(*osg), *osg, lattice_reference(h, w, std::min(level, h * w), wrap));
        c.nontrivial(c.crumb);
    });
}
SECTION(lattice_fill) {
    // Translated copies of a site pattern: every allowed translate of every Pauli string on it, once.
    c.for_cases(c.n(400, 5000), [&](Rng& r, uint64_t) {
        const bool lattice = r.coin(), wrap = r.coin();
        const size_t h = lattice ? 1 + r.below(5) : 1, w = lattice ? 1 + r.below(5) : 1 + r.below(r.coin() ? 8 : 40), n = h * w;
        auto ctx = lattice ? std::make_unique<PauliContext>(h, w, wrap ? WrapType::Wrap : WrapType::None, SymmetryType::Translational)
                           : std::make_unique<PauliContext>(n, wrap ? WrapType::Wrap : WrapType::None, SymmetryType::Translational);
        if (!wrap && !lattice) return; // wrapless_symmetrical_fill is documented for lattices
        Sites sites; const size_t k = 1 + r.below(4);
        for (size_t i = 0; i < k; ++i) sites.insert(r.below(n));
        size_t minr = h, minc = w, maxr = 0, maxc = 0;
        for (auto s : sites) { minr = std::min(minr, s % h); maxr = std::max(maxr, s % h); minc = std::min(minc, s / h); maxc = std::max(maxc, s / h); }
        if (!wrap) { Sites t; for (auto s : sites) t.insert(s - minr - minc * h); sites = t; maxr -= minr; maxc -= minc; }
        std::vector<size_t> v(sites.begin(), sites.end());
        c.note(std::string(lattice ? "lattice " : "chain ") + std::to_string(h) + "x" + std::to_string(w) + (wrap ? " wrapped" : "") + " sites " + join(v));
        std::vector<OperatorSequence> out; LatticeDuplicator ld{*ctx, out};
        auto [first, last] = ld.symmetrical_fill(v, true);
        CHECK(first == 0 && last == out.size(), "fill-range", c.crumb);
        std::set<Word> want;
        for (size_t dr = 0; dr < h; ++dr) for (size_t dc = 0; dc < w; ++dc) {
            if (!wrap && (maxr + dr >= h || maxc + dc >= w)) continue;
            Sites t; for (auto s : sites) t.insert(((s / h + dc) % w) * h + (s % h + dr) % h);
            add_paulis(want, t);
        }
        std::set<Word> got; for (auto& s : out) got.insert(to_word(s));
        CHECK(got == want, "fill-set", c.crumb << ": " << got.size() << " distinct of " << out.size() << ", want " << want.size());
        CHECK(got.size() == out.size(), "fill-duplicates", c.crumb << ": " << out.size() << " words, " << got.size() << " distinct");
        for (auto& s : out) CHECK(s.hash() == static_cast<uint64_t>(ref_hash(to_word(s), ctx->size())) && s.get_sign() == SequenceSignType::Positive, "fill-hash", c.crumb);
        c.nontrivial(c.crumb);
    });
}
