// C22: containers behave as the sequence / set / map they model under any history; enumerators produce exactly the enumerated family, in order.
#include "scen.h"
#include "numeric.h"
#include <thread>
#include <atomic>
#include <chrono>
#include <deque>
#include <numeric>
#include "shortlex_hasher.h"
#include "dictionary/multi_operator_iterator.h"
#include "multithreading/queue.h"
#include "tensor/auto_storage_tensor.h"
#include "tensor/index_flattener.h"
#include "tensor/multi_dimensional_index_iterator.h"
#include "tensor/multi_dimensional_offset_index_iterator.h"
#include "tensor/square_matrix.h"
#include "utilities/combinations.h"
#include "utilities/dynamic_bitset.h"
#include "utilities/first_intersection_index.h"
#include "utilities/index_tree.h"
#include "utilities/ipow.h"
#include "utilities/kronecker_power.h"
#include "utilities/linear_map_merge.h"
#include "utilities/multi_partition.h"
#include "utilities/ordered_permutation.h"
#include "utilities/persistent_storage.h"
#include "utilities/recursive_index.h"
#include "utilities/set_to_vector.h"
#include "utilities/shift_sorter.h"
#include "utilities/small_vector.h"
#include "utilities/substring_hasher.h"
#include "utilities/triangular_index_iterator.h"
#include "utilities/variable_chunk_range.h"
using namespace verif;
using namespace Moment;

namespace {
    template<class E, class F> bool throws_as(F&& f) { try { f(); } catch (const E&) { return true; } return false; }
    template<class It> std::string show(const It& v) { std::string s = "["; for (auto x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }

    // ---------------------------------------------------------------- small vectors
    template<class T, size_t N> struct SV {
        using V = SmallVector<T, N>;
        struct Slot { std::unique_ptr<V> v; std::vector<T> m; bool live = true; };
        static void same(Ctx& c, const V& v, const std::vector<T>& m, const std::string& what) {
            CHECK(v.size() == m.size(), "sv-size", what << ": size " << v.size() << " against " << m.size());
            CHECK(v.empty() == m.empty(), "sv-empty", what);
            CHECK(v.capacity() >= v.size(), "sv-capacity", what << ": capacity " << v.capacity() << " below size " << v.size());
            CHECK(std::vector<T>(v.begin(), v.end()) == m, "sv-content", what << ": " << show(v) << " against " << show(m));
            bool at = true; for (size_t i = 0; i < m.size(); ++i) at = at && v[i] == m[i] && v.get()[i] == m[i];
            CHECK(at, "sv-index", what);
            std::vector<T> back; for (auto it = v.rbegin(); !(it == v.rend()); ++it) { back.push_back(*it); if (back.size() > m.size() + 2) break; }
            std::reverse(back.begin(), back.end());
            CHECK(back == m, "sv-reverse", what << ": backwards " << show(back));
            std::span<const T> sp = v; CHECK(std::vector<T>(sp.begin(), sp.end()) == m, "sv-span", what);
            if (!m.empty()) CHECK(v.front() == m.front() && v.back() == m.back(), "sv-ends", what);
        }
        static void run(Ctx& c, Rng& r) {
            std::vector<Slot> s(3); std::string hist;
            for (auto& x : s) x.v = std::make_unique<V>();
            const size_t steps = 4 + r.below(c.n(30, 60));
            auto val = [&] { return static_cast<T>(r.below(50)); };
            auto some = [&] { std::vector<T> v; const size_t n = r.chance(1, 6) ? r.below(5 * N + 3) : r.below(2 * N + 2); for (size_t i = 0; i < n; ++i) v.push_back(val()); return v; };
            for (size_t k = 0; k < steps; ++k) {
                const size_t a = r.below(3), b = (a + 1 + r.below(2)) % 3; auto& x = s[a]; auto& y = s[b];
                const int op = static_cast<int>(r.below(17));
                c.note(hist);
                switch (op) {
                    case 0: case 1: { auto v = val(); x.v->push_back(v); x.m.push_back(v); hist += "p"; break; }
                    case 2: { auto v = val(); x.v->emplace_back(v); x.m.push_back(v); hist += "e"; break; }
                    case 3: if (!x.m.empty()) { x.v->pop_back(); x.m.pop_back(); hist += "o"; } break;
                    case 4: if (r.chance(1, 3)) { x.v->clear(); x.m.clear(); hist += "c"; } break;
                    case 5: case 6: { auto in = some(); const size_t at = r.below(x.m.size() + 1); x.v->insert(x.v->begin() + at, in.begin(), in.end()); x.m.insert(x.m.begin() + static_cast<long>(at), in.begin(), in.end()); hist += "i" + std::to_string(at) + ":" + std::to_string(in.size()) + " "; break; }
                    case 7: { const size_t p = r.below(x.m.size() + 1), q = p + r.below(x.m.size() + 1 - p); auto it = x.v->erase(x.v->begin() + p, x.v->begin() + q); x.m.erase(x.m.begin() + static_cast<long>(p), x.m.begin() + static_cast<long>(q)); CHECK(it == x.v->begin() + p, "sv-erase-return", hist); hist += "x" + std::to_string(p) + "-" + std::to_string(q) + " "; break; }
                    case 8: { const size_t n = r.below(4 * N + 2); x.v->reserve(n); CHECK(x.v->capacity() >= n, "sv-reserve", hist); hist += "r" + std::to_string(n) + " "; break; }
                    case 9: *x.v = *y.v; x.m = y.m; hist += "="; break;
                    case 10: *x.v = std::move(*y.v); x.m = y.m; y.v = std::make_unique<V>(); y.m.clear(); hist += "M"; break;
                    case 11: x.v->swap(*y.v); x.m.swap(y.m); hist += "s"; break;
                    case 12: { auto t = std::make_unique<V>(*y.v); x.v = std::move(t); x.m = y.m; hist += "C"; break; }
                    case 13: { auto t = std::make_unique<V>(std::move(*y.v)); x.v = std::move(t); x.m = y.m;
                        // A moved-from vector can be assigned to and cleared.
                        if (r.coin()) { y.v->clear(); y.m.clear(); } else { V fresh{val(), val()}; y.m.assign(fresh.begin(), fresh.end()); *y.v = fresh; }
                        hist += "N"; break; }
                    case 14: { const size_t n = r.below(3 * N); auto v = val(); x.v = std::make_unique<V>(n, v); x.m.assign(n, v); hist += "n" + std::to_string(n) + " "; break; }
                    case 15: { auto in = some(); x.v = std::make_unique<V>(in.begin(), in.end()); x.m = in; hist += "I" + std::to_string(in.size()) + " "; break; }
                    default: if (!x.m.empty()) { const size_t i = r.below(x.m.size()); auto v = val(); (*x.v)[i] = v; x.m[i] = v; x.v->back() = v; x.m.back() = v; hist += "w"; } break;
                }
                for (size_t i = 0; i < 3; ++i) same(c, *s[i].v, s[i].m, hist);
                for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) { CHECK((*s[i].v == *s[j].v) == (s[i].m == s[j].m), "sv-equality", hist); CHECK((*s[i].v != *s[j].v) == (s[i].m != s[j].m), "sv-equality", hist); }
            }
            V lit1{val()}; CHECK(lit1.size() == 1, "sv-initializer", "one");
            V lit{T(1), T(2), T(3), T(4), T(5), T(6), T(7), T(8), T(9), T(10)}; std::vector<T> want{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}; same(c, lit, want, "initializer list");
            c.nontrivial(std::to_string(N) + "/" + std::to_string(sizeof(T)) + " " + hist);
        }
    };

    // ---------------------------------------------------------------- bit sets
    template<class P, class I, class S> struct BS {
        using B = DynamicBitset<P, I, S>;
        static void same(Ctx& c, const B& b, const std::vector<bool>& m, const std::string& what) {
            const size_t n = m.size();
            CHECK(static_cast<size_t>(b.bit_size) == n, "bs-size", what);
            std::vector<size_t> want; for (size_t i = 0; i < n; ++i) if (m[i]) want.push_back(i);
            bool ok = true; for (size_t i = 0; i < n; ++i) ok = ok && b.test(static_cast<I>(i)) == m[i] && b[static_cast<I>(i)] == m[i];
            CHECK(ok, "bs-test", what);
            CHECK(static_cast<size_t>(b.count()) == want.size(), "bs-count", what << ": count " << static_cast<size_t>(b.count()) << " against " << want.size());
            CHECK(b.empty() == want.empty(), "bs-empty", what);
            CHECK(static_cast<size_t>(b.first_index()) == (want.empty() ? n : want[0]), "bs-first", what << ": first " << static_cast<size_t>(b.first_index()));
            std::vector<size_t> got; for (auto i : b) { got.push_back(static_cast<size_t>(i)); if (got.size() > n) break; }
            CHECK(got == want, "bs-iteration", what << ": iterates " << show(got) << " against " << show(want));
            auto st = b.template to_set<size_t>(); CHECK(std::vector<size_t>(st.begin(), st.end()) == want, "bs-to-set", what);
        }
        static void run(Ctx& c, Rng& r) {
            const size_t W = std::numeric_limits<P>::digits;
            size_t n; switch (r.below(5)) { case 0: n = r.below(4); break; case 1: n = W * r.below(4) + r.below(3); break; case 2: n = W * (1 + r.below(4)) - 1; break; default: n = r.below(5 * W); }
            if (sizeof(I) == 1 && n > 120) n = 120;
            const bool init = r.coin(); const bool dflt = r.coin();
            std::string what = "bits " + std::to_string(n) + " page " + std::to_string(W) + " ";
            c.note(what);
            B a = dflt ? B(static_cast<I>(n)) : B(static_cast<I>(n), init), b(static_cast<I>(n));
            std::vector<bool> ma(n, !dflt && init), mb(n, false);
            what += dflt ? "default " : init ? "full " : "blank "; same(c, a, ma, what);
            for (size_t k = 0; k < 20; ++k) {
                const int op = static_cast<int>(r.below(14)); c.note(what);
                switch (op) {
                    case 0: case 1: case 2: for (size_t q = 0; q < 1 + n / 6 && n; ++q) { const size_t i = r.below(n); a.set(static_cast<I>(i)); ma[i] = true; } what += "set "; break;
                    case 3: for (size_t q = 0; q < 1 + n / 4 && n; ++q) { const size_t i = r.below(n); a.unset(static_cast<I>(i)); ma[i] = false; } what += "unset "; break;
                    case 4: if (n) { const size_t i = r.below(n); const bool v = r.coin(); a[static_cast<I>(i)] = v; ma[i] = v; } what += "proxy "; break;
                    case 5: if (r.chance(1, 4)) { a.clear(); ma.assign(n, false); what += "clear "; } break;
                    case 6: a &= b; for (size_t i = 0; i < n; ++i) ma[i] = ma[i] && mb[i]; what += "&= "; break;
                    case 7: a |= b; for (size_t i = 0; i < n; ++i) ma[i] = ma[i] || mb[i]; what += "|= "; break;
                    case 8: a.invert_in_place(); ma.flip(); what += "~= "; break;
                    case 9: { B t = ~a; auto mt = ma; mt.flip(); same(c, t, mt, what + "~"); break; }
                    case 10: { B t = a & b, u = a | b; auto mt = ma; auto mu = ma; for (size_t i = 0; i < n; ++i) { mt[i] = ma[i] && mb[i]; mu[i] = ma[i] || mb[i]; } same(c, t, mt, what + "&"); same(c, u, mu, what + "|"); break; }
                    case 11: a.swap(b); std::swap(ma, mb); what += "swap "; break;
                    case 12: if (n) { for (int q = 0; q < 6; ++q) { const size_t f = r.below(n); const size_t len = r.chance(1, 4) ? n - f : r.below(n - f + 1); what += "sub" + std::to_string(f) + "+" + std::to_string(len) + " "; c.note(what);
                        B t = a.subset(static_cast<I>(f), static_cast<I>(len)); same(c, t, std::vector<bool>(ma.begin() + static_cast<long>(f), ma.begin() + static_cast<long>(f + len)), what); } } break;
                    default: if (n) { for (int q = 0; q < 6; ++q) { const size_t f = r.below(n); const size_t len = r.below(std::min(n - f, W) + 1); P want = 0; for (size_t i = 0; i < len; ++i) if (ma[f + i]) want |= static_cast<P>(static_cast<P>(1) << i);
                        const P got = a.small_subset(static_cast<I>(f), static_cast<I>(len)); CHECK(got == want, "bs-small-subset", what << "small " << f << "+" << len << ": " << static_cast<uint64_t>(got) << " against " << static_cast<uint64_t>(want)); } } break;
                }
                same(c, a, ma, what); same(c, b, mb, what);
                CHECK((a == b) == (ma == mb), "bs-equality", what); CHECK((a != b) == (ma != mb), "bs-equality", what);
                B copy{a}; same(c, copy, ma, what + "copy"); B moved{std::move(copy)}; same(c, moved, ma, what + "move");
            }
            c.nontrivial(what);
        }
    };
    template<class I> std::vector<std::vector<I>> grid(size_t len, I lo, I hi) { std::vector<std::vector<I>> o{{}}; for (size_t k = 0; k < len; ++k) { std::vector<std::vector<I>> n; for (auto& w : o) for (I v = lo; v < hi; ++v) { n.push_back(w); n.back().push_back(v); } o.swap(n); } return o; }
}

SECTION(small_vector) {
    c.for_cases(c.n(1500, 20000), [&](Rng& r, uint64_t i) {
        switch (i % 5) { case 0: SV<uint64_t, 1>::run(c, r); break; case 1: SV<int, 4>::run(c, r); break; case 2: SV<uint8_t, 3>::run(c, r); break; case 3: SV<size_t, 8>::run(c, r); break; default: SV<int64_t, 2>::run(c, r); }
    });
}
SECTION(bitset) {
    c.for_cases(c.n(1200, 20000), [&](Rng& r, uint64_t i) {
        switch (i % 5) { case 0: BS<uint64_t, size_t, std::vector<uint64_t>>::run(c, r); break; case 1: BS<uint64_t, symbol_name_t, std::vector<uint64_t>>::run(c, r); break; case 2: BS<uint64_t, size_t, SmallVector<uint64_t, 1>>::run(c, r); break; case 3: BS<uint32_t, int, std::vector<uint32_t>>::run(c, r); break; default: BS<uint64_t, uint64_t, std::vector<uint64_t>>::run(c, r); }
    });
}
SECTION(index_tree) {
    c.for_cases(c.n(700, 10000), [&](Rng& r, uint64_t) {
        using T = IndexTree<symbol_name_t, ptrdiff_t>; using Key = std::vector<symbol_name_t>;
        std::vector<T> t; t.emplace_back(); t.emplace_back(); std::vector<std::map<Key, ptrdiff_t>> m(2); std::vector<std::set<Key>> nodes(2); nodes[0].insert(Key{}); nodes[1].insert(Key{});
        const int base = 1 + static_cast<int>(r.below(5)); const size_t deep = 1 + r.below(5);
        auto key = [&] { Key k; for (size_t n = r.below(deep + 1); n > 0; --n) k.push_back(static_cast<symbol_name_t>(r.below(base) * (r.chance(1, 5) ? 100 : 1))); return k; };
        auto grow = [&](size_t w, const Key& k) { for (size_t l = 0; l <= k.size(); ++l) nodes[w].insert(Key(k.begin(), k.begin() + static_cast<long>(l))); };
        std::string hist; ptrdiff_t v = 0;
        for (size_t step = 0; step < 25; ++step) {
            const size_t w = r.below(2); Key k = key(); c.note(hist + show(k));
            switch (r.below(6)) {
                case 0: case 1: t[w].add(k, ++v); m[w][k] = v; grow(w, k); hist += "a" + show(k); break;
                case 2: case 3: { auto [got, isnew] = t[w].add_if_new(k, ++v); const bool want = !m[w].count(k); if (want) m[w][k] = v; grow(w, k); CHECK(isnew == want && got == m[w][k], "tree-add-if-new", hist << " add_if_new " << show(k) << " = " << got << "," << isnew); hist += "n" + show(k); break; }
                case 4: { T* p = k.empty() ? &t[w] : t[w].add_node(k[0]); (void) p; grow(w, k.empty() ? k : Key{k[0]}); hist += "N"; break; }
                default: if (r.chance(1, 3)) { t[w].merge_in(std::move(t[1 - w])); for (auto& [kk, vv] : m[1 - w]) m[w][kk] = vv; nodes[w].insert(nodes[1 - w].begin(), nodes[1 - w].end()); m[1 - w].clear(); nodes[1 - w].clear(); nodes[1 - w].insert(Key{}); t[1 - w].~T(); new (&t[1 - w]) T{}; hist += "M"; }
            }
            for (size_t q = 0; q < 2; ++q) {
                const auto& cref = t[q];
                for (int z = 0; z < 5; ++z) {
                    Key f = key(); auto got = cref.find(f); auto it = m[q].find(f);
                    CHECK(got.has_value() == (it != m[q].end()) && (!got || *got == it->second), "tree-find", hist << " find " << show(f));
                    const auto* node = cref.find_node(f); CHECK((node != nullptr) == (nodes[q].count(f) > 0), "tree-find-node", hist << " find_node " << show(f));
                    auto [hint, rest] = cref.find_node_or_return_hint(f); size_t l = f.size(); while (!nodes[q].count(Key(f.begin(), f.begin() + static_cast<long>(l)))) --l;
                    CHECK(rest.size() == f.size() - l && hint == cref.find_node(std::span<const symbol_name_t>(f.data(), l)), "tree-hint", hist << " hint " << show(f) << " leaves " << rest.size());
                }
                std::vector<Key> seen; std::vector<std::optional<ptrdiff_t>> vals; std::set<size_t> depth_bad;
                for (auto it = cref.begin(); it != cref.end(); ++it) { seen.push_back(it.lookup_index()); vals.push_back(it->value()); if (it.current_depth() != seen.back().size()) depth_bad.insert(seen.size()); if (seen.size() > nodes[q].size() + 2) break; }
                CHECK(seen == std::vector<Key>(nodes[q].begin(), nodes[q].end()), "tree-iteration", hist << ": " << seen.size() << " nodes against " << nodes[q].size());
                CHECK(depth_bad.empty(), "tree-depth", hist);
                bool ok = seen.size() == vals.size(); for (size_t z = 0; ok && z < seen.size(); ++z) { auto it = m[q].find(seen[z]); ok = vals[z].has_value() == (it != m[q].end()) && (!vals[z] || *vals[z] == it->second); }
                CHECK(ok, "tree-values", hist);
                CHECK(cref.leaf() == (nodes[q].size() == 1), "tree-leaf", hist);
            }
        }
        c.nontrivial(hist);
    });
}
SECTION(mt_storage) {
    struct Obj { uint64_t tag; explicit Obj(uint64_t t) : tag{t} {} };
    c.for_cases(c.n(60, 600), [&](Rng& r, uint64_t) {
        const uint32_t sig = make_signature({'a', 'b', static_cast<char>(r.below(128)), static_cast<char>(128 + r.below(127))});
        PersistentStorage<Obj> st{sig}; const size_t T = 1 + r.below(8), per = 5 + r.below(60);
        std::mutex mx; std::map<uint64_t, uint64_t> all; std::vector<std::string> bad; std::atomic<bool> go{false};
        auto complain = [&](std::string s) { std::lock_guard l{mx}; bad.push_back(std::move(s)); };
        std::vector<std::thread> th; std::vector<std::map<uint64_t, uint64_t>> live(T);
        for (size_t t = 0; t < T; ++t) th.emplace_back([&, t, s = r.next()] {
            Rng q{s}; while (!go) std::this_thread::yield();
            std::vector<std::pair<uint64_t, std::shared_ptr<Obj>>> held;
            for (size_t k = 0; k < per; ++k) {
                const uint64_t tag = t * 100000 + k;
                const uint64_t key = q.coin() ? st.store(std::make_unique<Obj>(tag)) : st.store(std::make_shared<Obj>(tag));
                { std::lock_guard l{mx}; if (!all.emplace(key, tag).second) bad.push_back("key handed out twice"); }
                live[t][key] = tag;
                if (!st.check_signature(key)) complain("own key has foreign signature");
                if (q.chance(1, 3) && !live[t].empty()) { auto it = live[t].begin(); std::advance(it, static_cast<long>(q.below(live[t].size()))); held.emplace_back(it->second, st.get(it->first)); st.release(it->first);
                    try { (void) st.get(it->first); complain("released object still found"); } catch (const Moment::errors::not_found_error&) {}
                    try { st.release(it->first); complain("object released twice"); } catch (const Moment::errors::not_found_error&) {}
                    live[t].erase(it); }
                for (auto& [kk, vv] : live[t]) { auto p = st.get(kk); if (!p || p->tag != vv) complain("wrong object for key"); }
                uint32_t prev = 0xFFFFFFFF; size_t steps = 0; for (auto f = st.first(); f.second; f = st.next(f.first)) { if (prev != 0xFFFFFFFF && f.first <= prev) complain("iteration not increasing"); prev = f.first; if (++steps > T * per) { complain("endless iteration"); break; } }
            }
            for (auto& [tag, p] : held) if (p->tag != tag) complain("released object changed while held");
        });
        go = true; for (auto& t : th) t.join();
        std::map<uint64_t, uint64_t> want; for (auto& l : live) want.insert(l.begin(), l.end());
        CHECK(bad.empty(), "storage-concurrent", bad[0] << " (" << T << " threads)");
        CHECK(st.size() == want.size() && st.empty() == want.empty(), "storage-size", st.size() << " against " << want.size());
        std::vector<uint64_t> seen; for (auto f = st.first(); f.second; f = st.next(f.first)) { seen.push_back(st.sign_index(f.first)); auto it = want.find(seen.back()); CHECK(it != want.end() && it->second == f.second->tag, "storage-iterate", "object not stored"); }
        CHECK(seen.size() == want.size(), "storage-iterate", seen.size() << " of " << want.size());
        CHECK(all.size() == T * per, "storage-unique", "keys not unique");
        for (auto& [k, v] : want) { CHECK(throws_as<Moment::errors::bad_signature_error>([&] { (void) st.get(k ^ (uint64_t{1} << (32 + r.below(32)))); }), "storage-signature", "foreign key accepted"); break; }
        st.clear(); CHECK(st.empty() && !st.first().second, "storage-clear", "not empty");
        PersistentStorageMonoid<Obj> mono{sig}; CHECK(mono.empty() && !mono.get(), "monoid", "not empty at first"); std::atomic<size_t> rank{0}; std::set<Obj*> ptrs; std::vector<std::thread> u;
        for (size_t t = 0; t < T; ++t) u.emplace_back([&, t] { auto p = mono.create_if_empty<Obj>(static_cast<uint64_t>(t)); std::lock_guard l{mx}; ptrs.insert(p.get()); });
        for (auto& t : u) t.join();
        CHECK(ptrs.size() == 1 && mono.get().get() == *ptrs.begin(), "monoid", "created " << ptrs.size() << " objects");
        mono.reset(); CHECK(mono.empty(), "monoid", "reset"); auto sh = std::make_shared<Obj>(5); mono.set(sh); CHECK(mono.get() == sh, "monoid", "set");
        c.count("objects", T * per); c.nontrivial(std::to_string(T) + "x" + std::to_string(per));
    });
}
SECTION(mt_queue) {
    // Several producers and consumers: each item delivered exactly once, items of one producer in order to any one consumer.
    c.for_cases(c.n(60, 500), [&](Rng& r, uint64_t) {
        Multithreading::Queue<uint64_t> q; const size_t P = 1 + r.below(4), C = 1 + r.below(4), per = 50 + r.below(400); const bool poll = r.chance(1, 3); const int delay = static_cast<int>(r.below(3));
        std::atomic<size_t> taken{0}; std::vector<std::vector<uint64_t>> got(C); std::vector<std::thread> th;
        for (size_t p = 0; p < P; ++p) th.emplace_back([&, p] { for (size_t k = 0; k < per; ++k) { if (k & 1) q.push_back(p << 32 | k); else q.emplace_back(p << 32 | k); if (delay == 1 && k % 16 == 0) std::this_thread::yield(); if (delay == 2 && k % 64 == 0) std::this_thread::sleep_for(std::chrono::microseconds(50)); } });
        for (size_t k = 0; k < C; ++k) th.emplace_back([&, k] { while (true) { auto n = poll ? q.try_pop_front() : q.wait_pop_front(); if (!n) { if (q.aborting()) return; std::this_thread::yield(); continue; } got[k].push_back(**n); ++taken; } });
        const auto t0 = std::chrono::steady_clock::now(); while (taken < P * per && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(20)) std::this_thread::yield();
        const bool complete = taken == P * per; q.abort(); for (auto& t : th) t.join();
        CHECK(complete, "queue-lost", taken << " of " << P * per << " items delivered");
        std::set<uint64_t> all; size_t n = 0; bool fifo = true;
        for (auto& g : got) { std::map<uint64_t, uint64_t> last; for (auto x : g) { all.insert(x); ++n; auto it = last.find(x >> 32); if (it != last.end() && it->second >= x) fifo = false; last[x >> 32] = x; } }
        CHECK(n == all.size(), "queue-duplicate", "an item was delivered twice"); CHECK(fifo, "queue-order", "items of a producer out of order");
        CHECK(!q.try_pop_front() && !q.wait_pop_front() && q.aborting(), "queue-abort", "aborted queue gives items");
        c.count("items", n); std::string order; for (auto& g : got) { uint64_t prev = ~0ull; size_t sw = 0; order += std::to_string(g.size()); for (auto x : g) if (prev != x >> 32) { order += static_cast<char>('a' + static_cast<char>(x >> 32)); prev = x >> 32; if (++sw > 40) break; } } c.nontrivial(order);
    });
}
SECTION(mt_queue_handoff) {
    // Ping-pong: every item must wake the waiting consumer, however the two threads interleave.
    c.for_cases(c.n(4, 20), [&](Rng& r, uint64_t) {
        Multithreading::Queue<uint64_t> q; std::atomic<uint64_t> ack{0}; const uint64_t rounds = c.n(60000, 400000); std::atomic<uint64_t> spin_c{0};
        std::thread consumer([&] { while (auto n = q.wait_pop_front()) { ack.store(**n); for (volatile uint64_t z = 0; z < spin_c; z = z + 1) {} } });
        bool lost = false; uint64_t k = 1;
        for (; k <= rounds && !lost; ++k) {
            for (volatile uint64_t z = r.below(200); z > 0; z = z - 1) {} spin_c = r.below(200);
            q.push_back(k); auto t0 = std::chrono::steady_clock::now();
            while (ack.load() != k) { if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(4)) { lost = true; break; } }
        }
        q.abort(); // notified again: a consumer that missed its item ends here
        consumer.join();
        CHECK(!lost, "queue-lost-wakeup", "item " << k - 1 << " was queued but the waiting consumer did not wake");
        c.count("handoffs", k - 1); c.nontrivial(std::to_string(k) + std::to_string(r.next()));
    });
    // abort() wakes every waiting consumer.
    c.for_cases(c.n(400, 4000), [&](Rng& r, uint64_t) {
        Multithreading::Queue<uint64_t> q; std::atomic<size_t> out{0}; const size_t C = 1 + r.below(4); std::vector<std::thread> th;
        for (size_t k = 0; k < C; ++k) th.emplace_back([&] { while (q.wait_pop_front()) {} ++out; });
        for (volatile uint64_t z = r.below(20000); z > 0; z = z - 1) {}
        q.abort(); auto t0 = std::chrono::steady_clock::now(); bool stuck = false;
        while (out < C) { if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(4)) { stuck = true; break; } std::this_thread::yield(); }
        if (stuck) { CHECK(false, "queue-abort-lost", "a waiting consumer does not notice abort()"); while (out < C) { q.abort(); std::this_thread::yield(); } }
        for (auto& t : th) t.join(); c.count("aborts");
    });
}
SECTION(queue_destruction) {
    c.for_cases(3, [&](Rng& r, uint64_t i) {
        const size_t n = i == 0 ? r.below(100) : i == 1 ? 200000 : 2000000; c.note("queue with " + std::to_string(n) + " waiting items");
        { Multithreading::Queue<uint64_t> q; for (size_t k = 0; k < n; ++k) q.push_back(k); if (n > 5) { auto a = q.try_pop_front(); CHECK(a && **a == 0, "queue-order", "first item"); } }
        CHECK(true, "queue-destroy", ""); c.nontrivial(std::to_string(n));
    });
}
SECTION(combinations) {
    c.for_cases(c.n(300, 1500), [&](Rng& r, uint64_t) {
        const size_t N = r.below(9), K = r.below(N + 1); const std::string what = "N=" + std::to_string(N) + " K=" + std::to_string(K); c.note(what);
        std::vector<std::vector<size_t>> sub; for (auto& w : grid<size_t>(std::min<size_t>(K, 5), 0, N)) { (void) w; break; }
        for (size_t b = 0; b < (size_t{1} << N); ++b) if (static_cast<size_t>(std::popcount(b)) == K) { std::vector<size_t> s; for (size_t i = 0; i < N; ++i) if (b >> i & 1) s.push_back(i); sub.push_back(s); } // colexicographic
        { CombinationIndexIterator it{N, K}, end{N, K, true}; std::vector<std::vector<size_t>> got; CHECK(it.combination_count() == sub.size(), "comb-count", what);
          bool eq = true; while (it != end) { got.push_back(*it); eq = eq && it->size() == K; CombinationIndexIterator cp = it; CHECK(cp == it, "comb-equal", what); auto old = it++; CHECK(old == cp && !(old == it), "comb-postfix", what); if (got.size() > sub.size()) break; }
          CHECK(eq && it.done() == (got.size() <= sub.size()), "comb-done", what); CHECK(got == sub, "comb-order", what << ": " << got.size() << " subsets, expected " << sub.size()); }
        { size_t n = 0; for (PartitionIterator it{N, K}; !it.done(); ++it, ++n) { if (n >= sub.size()) { ++n; break; } std::vector<size_t> comp; std::vector<bool> bits(N, false); for (auto x : sub[n]) bits[x] = true; for (size_t i = 0; i < N; ++i) if (!bits[i]) comp.push_back(i);
            CHECK(it.primary() == sub[n] && it.complement() == comp && it.bits() == bits, "partition", what << " #" << n << ": " << show(it.primary()) << show(it.complement()));
            auto [p, q] = *it; CHECK(p == sub[n] && q == comp, "partition", what); for (size_t i = 0; i < K; ++i) CHECK(it.primary(i) == sub[n][i], "partition", what); for (size_t i = 0; i < N - K; ++i) CHECK(it.complement(i) == comp[i], "partition", what); for (size_t i = 0; i < N; ++i) CHECK(it.bits(i) == bits[i], "partition", what); }
          CHECK(n == sub.size(), "partition-count", what << ": " << n << " partitions, expected " << sub.size()); }
        { const size_t M = std::max<size_t>(N, 1), L = std::min<size_t>(K, M); std::vector<std::vector<size_t>> rep; if (L <= 5) { for (auto& w : grid<size_t>(L, 0, M)) if (std::is_sorted(w.begin(), w.end())) rep.push_back(w);
            CommutingIndexIterator it{M, L}; std::vector<std::vector<size_t>> got; while (!it.done() && got.size() <= rep.size()) { got.push_back(*it); ++it; } CHECK(got == rep, "comb-repeat", what << ": " << got.size() << " against " << rep.size()); } }
        { const size_t M = 1 + r.below(4), L = r.below(6); std::vector<std::vector<size_t>> rep; for (auto& w : grid<size_t>(L, 0, M)) if (std::is_sorted(w.begin(), w.end())) rep.push_back(w);
            OrderedPermutationIterator<size_t> it{M, L}, end{M, L, true}; std::vector<std::vector<size_t>> got; while (it != end && got.size() <= rep.size()) { got.push_back(*it); for (size_t z = 0; z < L; ++z) CHECK(it[z] == got.back()[z], "ordered-index", what); auto cp = it++; CHECK(*cp == got.back(), "ordered-postfix", what); } CHECK(got == rep, "ordered", "M=" << M << " L=" << L << ": " << got.size() << " against " << rep.size());
            OrderedPermutationIterator<size_t, SmallVector<size_t, 4>> is{M, L}; size_t n = 0; while (!is.done() && n < rep.size()) { CHECK(std::equal((*is).begin(), (*is).end(), rep[n].begin(), rep[n].end(), [](size_t a, size_t b) { return a == b; }), "ordered", what); ++is; ++n; } CHECK(is.done() && n == rep.size(), "ordered", what); }
        // Binomials that fit are exact.
        { const uint64_t n = r.below(62), k = r.below(n + 1); unsigned __int128 v = 1; for (uint64_t i = 1; i <= k; ++i) v = v * (n - k + i) / i; CHECK(combinations<uint64_t>(n, k) == static_cast<uint64_t>(v), "binomial", "C(" << n << "," << k << ") = " << combinations<uint64_t>(n, k) << ", expected " << static_cast<uint64_t>(v)); CHECK(combinations<int64_t>(static_cast<int64_t>(n), static_cast<int64_t>(k)) == static_cast<int64_t>(v), "binomial", "signed C(" << n << "," << k << ")"); }
        c.nontrivial(what);
    });
}
SECTION(indices) {
    c.for_cases(c.n(800, 8000), [&](Rng& r, uint64_t) {
        const size_t D = r.below(5); std::vector<size_t> dims; for (size_t i = 0; i < D; ++i) dims.push_back(r.chance(1, 15) ? 0 : 1 + r.below(4)); const std::string what = show(dims); c.note(what);
        size_t total = D ? 1 : 0; for (auto d : dims) total *= d;
        auto walk = [&](auto tag, bool last_fast) {
            using It = decltype(tag); std::vector<std::vector<size_t>> want; if (total) for (size_t k = 0; k < total; ++k) { std::vector<size_t> w(D); size_t q = k; if (last_fast) for (size_t i = D; i-- > 0;) { w[i] = q % dims[i]; q /= dims[i]; } else for (size_t i = 0; i < D; ++i) { w[i] = q % dims[i]; q /= dims[i]; } want.push_back(w); }
            It it{dims}; It end{dims, true}; size_t n = 0; for (; it != end && n < total + 1; ++n) { CHECK(static_cast<bool>(it) && !(!it), "mdi-bool", what); if (n < want.size()) { CHECK(*it == want[n], "mdi-order", what << " #" << n << ": " << show(*it)); CHECK(it.global() == n, "mdi-global", what << " #" << n << ": global " << it.global()); for (size_t i = 0; i < D; ++i) CHECK(it[i] == want[n][i], "mdi-index", what); } auto old = it++; CHECK(old.global() == n && !(old == it), "mdi-postfix", what); }
            CHECK(n == total, "mdi-count", what << ": " << n << " indices, expected " << total); CHECK(!it && it == end, "mdi-end", what); if (D) CHECK(it.global() == total && end.global() == total, "mdi-end-global", what << ": end global " << it.global() << "/" << end.global());
            CHECK(it.limits() == dims, "mdi-limits", what);
        };
        walk(MultiDimensionalIndexIterator<false>{std::vector<size_t>{}}, true); walk(MultiDimensionalIndexIterator<true>{std::vector<size_t>{}}, false);
        { size_t n = 0; for (auto& x : MultiDimensionalIndexRange<true>{dims}) { (void) x; ++n; } CHECK(n == total, "mdi-range", what); }
        // Offset blocks.
        std::vector<size_t> lo, hi; size_t block = D ? 1 : 0; for (size_t i = 0; i < D; ++i) { lo.push_back(r.below(4)); hi.push_back(lo[i] + (r.chance(1, 12) ? 0 : 1 + r.below(3))); block *= hi[i] - lo[i]; }
        auto walk2 = [&](auto tag, bool last_fast) {
            using It = decltype(tag); It it{lo, hi}, end; size_t n = 0; for (; it && n <= block; ++it, ++n) { std::vector<size_t> w(D); size_t q = n; if (last_fast) for (size_t i = D; i-- > 0;) { w[i] = lo[i] + q % (hi[i] - lo[i]); q /= hi[i] - lo[i]; } else for (size_t i = 0; i < D; ++i) { w[i] = lo[i] + q % (hi[i] - lo[i]); q /= hi[i] - lo[i]; }
                CHECK(*it == w && it.global() == n, "offset-order", show(lo) << show(hi) << " #" << n << ": " << show(*it)); CHECK(it != end, "offset-end", what); for (size_t i = 0; i < D; ++i) CHECK(it[i] == w[i], "offset-index", what); auto cp = it; CHECK(cp == it, "offset-equal", what); }
            CHECK(n == block, "offset-count", show(lo) << show(hi) << ": " << n << " of " << block); CHECK(it == end, "offset-end", what); CHECK(it.lower_limits() == lo && it.upper_limits() == hi, "offset-limits", what);
        };
        walk2(MultiDimensionalOffsetIndexIterator<false>{}, true); walk2(MultiDimensionalOffsetIndexIterator<true>{}, false);
        // Triangular sequences.
        { const size_t M = r.below(6), L = r.below(5); std::vector<std::vector<size_t>> strict, weak; if (L && M) for (auto& w : grid<size_t>(L, 0, M)) { if (std::is_sorted(w.begin(), w.end())) { weak.push_back(w); if (std::adjacent_find(w.begin(), w.end()) == w.end()) strict.push_back(w); } }
          auto tri = [&](auto it, auto end, const std::vector<std::vector<size_t>>& want, const char* nm) { size_t n = 0; for (; it != end && n <= want.size(); ++n) { if (n < want.size()) { CHECK(std::equal((*it).begin(), (*it).end(), want[n].begin(), want[n].end()), "triangular", nm << " M=" << M << " L=" << L << " #" << n); CHECK(it.global() == n, "triangular-global", nm); for (size_t i = 0; i < L; ++i) CHECK(static_cast<size_t>(it[i]) == want[n][i], "triangular-index", nm); } auto old = it++; CHECK(!(old == it), "triangular-postfix", nm); } CHECK(n == want.size() && !it, "triangular-count", nm << " M=" << M << " L=" << L << ": " << n << " of " << want.size()); };
          tri(DuplicateTriangularIndexIterator<size_t>{M, L}, DuplicateTriangularIndexIterator<size_t>{M, L, true}, weak, "with repeats"); tri(UniqueTriangularIndexIterator<size_t>{M, L}, UniqueTriangularIndexIterator<size_t>{M, L, true}, strict, "strict");
          tri(UniqueTriangularIndexIterator<size_t, SmallVector<size_t, 4>>{M, L}, UniqueTriangularIndexIterator<size_t, SmallVector<size_t, 4>>{M, L, true}, strict, "strict small"); }
        // Multipartitions.
        { const size_t P = 1 + r.below(6); const int S = static_cast<int>(r.below(7)); std::vector<std::vector<int>> want; if (P <= 5 || S <= 4) { for (auto& w : grid<int>(P, 0, S + 1)) if (std::accumulate(w.begin(), w.end(), 0) == S) want.push_back(w);
            auto mp = [&](auto it, const char* nm) { size_t n = 0; for (; it && n <= want.size(); ++it, ++n) if (n < want.size()) { CHECK(std::equal((*it).begin(), (*it).end(), want[n].begin(), want[n].end()), "multipartition", nm << " S=" << S << " P=" << P << " #" << n << ": " << show(*it)); for (size_t i = 0; i < P; ++i) CHECK(it[i] == want[n][i], "multipartition-index", nm); auto cp = it; CHECK(cp == it && !(cp != it), "multipartition-equal", nm); ++cp; CHECK(cp != it, "multipartition-equal", nm); } CHECK(n == want.size(), "multipartition-count", nm << " S=" << S << " P=" << P << ": " << n << " of " << want.size()); };
            mp(MultipartitionIterator<int, false>{S, P}, "forward"); std::reverse(want.begin(), want.end()); mp(MultipartitionIterator<int, true>{S, P}, "reversed"); } }
        c.nontrivial(what + show(lo) + show(hi));
    });
}
namespace {
    struct TestTensor : AutoStorageTensor<int, 30> {
        mutable size_t made = 0;
        TestTensor(std::vector<size_t> d, TensorStorageType t) : AutoStorageTensor<int, 30>(std::move(d), t) { if (StorageType == TensorStorageType::Explicit) for (size_t i = 0; i < ElementCount; ++i) data.push_back(value(offset_to_index(i))); }
        static int value(AutoStorageIndexView ix) { int v = 7; for (auto x : ix) v = v * 11 + static_cast<int>(x); return v; }
        int make_element_no_checks(AutoStorageIndexView ix) const override { ++made; return value(ix); }
        int unchecked(AutoStorageIndexView ix) const { return static_cast<const int&>(elem_no_checks(ix)); }
        int unchecked(size_t o) const { return static_cast<const int&>(elem_no_checks(o)); }
    };
    template<bool major> void plain_tensor(Ctx& c, Rng& r, const std::vector<size_t>& dims, const std::vector<std::vector<size_t>>& ix, size_t total) {
        Tensor<size_t, std::vector<size_t>, std::span<const size_t>, major> t{dims}; const std::string what = show(dims) + (major ? " last" : " first");
        CHECK(t.ElementCount == total && t.DimensionCount == dims.size(), "tensor-count", what);
        for (size_t k = 0; k < total; ++k) { const auto& w = ix[k]; CHECK(t.index_to_offset(w) == k && t.index_to_offset_no_checks(w) == k, "tensor-offset", what << ": " << show(w) << " -> " << t.index_to_offset(w) << ", expected " << k); CHECK(t.offset_to_index(k) == w && t.offset_to_index_no_checks(k) == w, "tensor-index", what << ": " << k << " -> " << show(t.offset_to_index(k))); }
        auto bad = [&](std::vector<size_t> w) { return throws_as<Moment::errors::bad_tensor_index>([&] { t.validate_index(w); }) && throws_as<Moment::errors::bad_tensor_index>([&] { (void) t.index_to_offset(w); }); };
        CHECK(throws_as<Moment::errors::bad_tensor_index>([&] { (void) t.offset_to_index(total); }), "tensor-range", what);
        if (!dims.empty()) { auto w = std::vector<size_t>(dims.size(), 0); const size_t d = r.below(dims.size()); w[d] = dims[d] + r.below(2); CHECK(bad(w), "tensor-range", what << " accepts " << show(w)); w.push_back(0); CHECK(bad(w), "tensor-range", what); w.resize(dims.size() - 1); CHECK(bad(w), "tensor-range", what); }
    }
}
SECTION(tensors) {
    c.for_cases(c.n(700, 8000), [&](Rng& r, uint64_t) {
        const size_t D = 1 + r.below(4); std::vector<size_t> dims; size_t total = 1; for (size_t i = 0; i < D; ++i) { dims.push_back(r.chance(1, 25) ? 0 : 1 + r.below(4)); total *= dims.back(); }
        const std::string what = show(dims); c.note(what);
        std::vector<std::vector<size_t>> low, high; for (size_t k = 0; k < total; ++k) { std::vector<size_t> w(D), h(D); size_t q = k; for (size_t i = 0; i < D; ++i) { w[i] = q % dims[i]; q /= dims[i]; } q = k; for (size_t i = D; i-- > 0;) { h[i] = q % dims[i]; q /= dims[i]; } low.push_back(w); high.push_back(h); }
        plain_tensor<true>(c, r, dims, low, total); plain_tensor<false>(c, r, dims, high, total);
        if (total) for (int mode = 0; mode < 3; ++mode) {
            const TensorStorageType st = mode == 0 ? TensorStorageType::Explicit : mode == 1 ? TensorStorageType::Virtual : TensorStorageType::Automatic; TestTensor t{dims, st};
            CHECK((t.StorageType == TensorStorageType::Explicit) == (mode == 0 || (mode == 2 && total <= 30)), "auto-storage", what << " mode " << mode);
            size_t n = 0; for (auto it = t.begin(); it != t.end() && n <= total; ++it, ++n) { CHECK(static_cast<bool>(it) && !(!it), "auto-bool", what); CHECK(n < total && *it == TestTensor::value(low[n]) && *it.operator->() == *it && it.index() == low[n] && it.offset() == n, "auto-iterate", what << " mode " << mode << " #" << n); }
            CHECK(n == total, "auto-count", what << " mode " << mode << ": " << n << " of " << total); auto e = t.end(); CHECK(!e && !static_cast<bool>(e), "auto-end", what);
            for (size_t k = 0; k < total; ++k) { const int v = TestTensor::value(low[k]); CHECK(static_cast<const int&>(t(low[k])) == v && static_cast<const int&>(t.at(k)) == v && t.unchecked(low[k]) == v && t.unchecked(k) == v, "auto-access", what << " mode " << mode << " offset " << k); }
            CHECK(throws_as<Moment::errors::bad_tensor_index>([&] { (void) t.at(total); }), "auto-range", what);
            if (t.StorageType == TensorStorageType::Explicit) CHECK(t.Data().size() == total, "auto-data", what); else CHECK(throws_as<Moment::errors::bad_tensor>([&] { (void) t.Data(); }), "auto-data", what);
            for (int q = 0; q < 3; ++q) {
                std::vector<size_t> lo(D), hi(D); size_t block = 1; for (size_t i = 0; i < D; ++i) { lo[i] = r.below(dims[i]); hi[i] = lo[i] + r.below(dims[i] - lo[i] + 1); block *= hi[i] - lo[i]; }
                const std::string w2 = what + " splice " + show(lo) + show(hi); c.note(w2);
                auto sp = r.coin() ? t.Splice(std::vector<size_t>(lo), std::vector<size_t>(hi)) : t.Splice(std::span<const size_t>(lo), std::span<const size_t>(hi));
                CHECK(sp.size() == block, "splice-size", w2 << ": " << sp.size() << " of " << block); auto sd = sp.Dimensions(); bool dok = sd.size() == D; for (size_t i = 0; dok && i < D; ++i) dok = sd[i] == hi[i] - lo[i]; CHECK(dok, "splice-dims", w2); const AutoStorageTensor<int, 30>& tref = t; CHECK(&sp.Tensor() == &tref, "splice-tensor", w2);
                size_t m = 0; for (auto it = sp.begin(); it != sp.end() && m <= block; ++it, ++m) { std::vector<size_t> w(D); size_t z = m; for (size_t i = 0; i < D; ++i) { w[i] = lo[i] + z % (hi[i] - lo[i]); z /= hi[i] - lo[i]; } auto ix = it.index(); CHECK(std::vector<size_t>(ix.begin(), ix.end()) == w && *it == TestTensor::value(w) && *it.operator->() == TestTensor::value(w) && it.block_offset() == m && it.offset() == t.index_to_offset(w), "splice-iterate", w2 << " #" << m); }
                CHECK(m == block, "splice-count", w2 << ": " << m << " of " << block);
                auto bad = hi; const size_t d = r.below(D); bad[d] = dims[d] + 1; CHECK(throws_as<Moment::errors::bad_tensor_index>([&] { (void) t.Splice(std::span<const size_t>(lo), std::span<const size_t>(bad)); }), "splice-range", w2); if (lo[d] > 0) { bad = hi; bad[d] = lo[d] - 1; CHECK(throws_as<Moment::errors::bad_tensor_index>([&] { (void) t.Splice(std::span<const size_t>(lo), std::span<const size_t>(bad)); }), "splice-range", w2); }
            }
        }
        // Flattener: offsets of a product of index lists.
        if (total) { std::vector<std::vector<size_t>> lists(D); size_t n = 1; for (size_t i = 0; i < D; ++i) { for (size_t k = r.chance(1, 10) ? 0 : 1 + r.below(3); k > 0; --k) lists[i].push_back(r.below(dims[i])); n *= lists[i].size(); }
            IndexFlattener f{dims, lists}; CHECK(f.size() == n && f.empty() == (n == 0), "flatten-size", what); size_t k = 0;
            for (auto it = f.begin(); it != f.end() && k <= n; ++it, ++k) { std::vector<size_t> w(D); size_t z = k; for (size_t i = 0; i < D; ++i) { w[i] = lists[i][z % lists[i].size()]; z /= lists[i].size(); } size_t off = 0, s = 1; for (size_t i = 0; i < D; ++i) { off += w[i] * s; s *= dims[i]; } CHECK(it.index() == w && *it == off, "flatten", what << " #" << k); }
            CHECK(k == n, "flatten-count", what << ": " << k << " of " << n); }
        // Square matrices.
        { const size_t n = r.below(7); std::vector<int> data; for (size_t i = 0; i < n * n; ++i) data.push_back(static_cast<int>(r.below(1000))); auto at = [&](size_t i, size_t j) { return data[i + j * n]; };
          SquareMatrix<int> first{n, std::vector<int>(data)}; SquareMatrix<int> m{std::move(first)}; const SquareMatrix<int>& cm = m; const std::string w3 = "square " + std::to_string(n); c.note(w3);
          CHECK(m.dimension == n && m.ElementCount == n * n && std::vector<int>(cm.begin(), cm.end()) == data, "square", w3);
          bool ok = true; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { std::array<size_t, 2> ix{i, j}; ok = ok && cm(i, j) == at(i, j) && cm(ix) == at(i, j) && cm[i + j * n] == at(i, j) && m.Transpose(ix) == at(j, i); } CHECK(ok, "square-access", w3);
          std::vector<int> tr, want; for (auto it = m.Transpose.begin(); it != m.Transpose.end() && tr.size() <= n * n; ++it) tr.push_back(*it); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) want.push_back(data[j * n + i]); CHECK(tr == want, "square-transpose", w3);
          auto tri = [&](auto view, auto keep, const char* nm) { std::vector<std::array<size_t, 2>> g, w; std::vector<int> gv, wv; std::vector<size_t> off; bool diag = true; for (auto it = view.begin(); it != view.end() && g.size() <= n * n; ++it) { g.push_back({it.Row(), it.Col()}); gv.push_back(*it); off.push_back(it.Offset()); diag = diag && (it.diagonal() == (it.Row() == it.Col())); }
              for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) if (keep(i, j)) { w.push_back({i, j}); wv.push_back(at(i, j)); } bool o = off.size() == w.size(); for (size_t k = 0; o && k < w.size(); ++k) o = off[k] == w[k][0] + w[k][1] * n;
              CHECK(g == w && gv == wv && o && diag, "square-triangle", w3 << " " << nm << ": " << g.size() << " of " << w.size()); };
          tri(cm.UpperTriangle(), [](size_t i, size_t j) { return i <= j; }, "upper"); tri(cm.ExclusiveUpperTriangle(), [](size_t i, size_t j) { return i < j; }, "strict upper"); tri(cm.LowerTriangle(), [](size_t i, size_t j) { return i >= j; }, "lower"); tri(cm.ExclusiveLowerTriangle(), [](size_t i, size_t j) { return i > j; }, "strict lower");
          tri(m.UpperTriangle(), [](size_t i, size_t j) { return i <= j; }, "upper rw"); tri(m.LowerTriangle(), [](size_t i, size_t j) { return i >= j; }, "lower rw"); tri(m.ExclusiveUpperTriangle(), [](size_t i, size_t j) { return i < j; }, "strict upper rw"); tri(m.ExclusiveLowerTriangle(), [](size_t i, size_t j) { return i > j; }, "strict lower rw");
          const size_t pad = r.below(4); auto p = m.pad(pad, -1); bool pok = p.dimension == n + pad; for (size_t i = 0; pok && i < n + pad; ++i) for (size_t j = 0; j < n + pad; ++j) pok = pok && p(i, j) == (i < n && j < n ? at(i, j) : -1); CHECK(pok, "square-pad", w3 << " pad " << pad); }
        c.nontrivial(what);
    });
}
SECTION(sequences) {
    c.for_cases(c.n(800, 10000), [&](Rng& r, uint64_t) {
        // Substrings of a word and their hashes.
        { const size_t radix = 1 + r.below(9), len = r.below(8); sequence_storage_t w; for (size_t i = 0; i < len; ++i) w.push_back(static_cast<oper_name_t>(r.below(radix))); ShortlexHasher h{radix}; const std::string what = "radix " + std::to_string(radix) + " " + show(w); c.note(what);
          Algebraic::SubstringHashRange range{w, static_cast<size_t>(h.radix)}; std::vector<std::pair<size_t, size_t>> want; for (size_t e = len; e > 0; --e) for (size_t s = e; s-- > 0;) want.emplace_back(s, e); size_t n = 0;
          for (auto it = range.begin(); it != range.end() && n <= want.size(); ++it, ++n) if (n < want.size()) { auto [s, e] = want[n]; sequence_storage_t sub(w.begin() + s, w.begin() + e); CHECK(it.index() == s, "substring-index", what << " #" << n); CHECK(*it == h.hash(sub), "substring-hash", what << " [" << s << "," << e << "): " << *it << " against " << h.hash(sub)); }
          CHECK(n == want.size(), "substring-count", what << ": " << n << " of " << want.size()); c.nontrivial(what); }
        // Words of operators.
        { const size_t ops = r.below(4), len = r.below(4); Context ctx{ops}; std::vector<sequence_storage_t> want; if (len && ops) for (auto& w : grid<oper_name_t>(len, 0, static_cast<oper_name_t>(ops))) want.emplace_back(w.begin(), w.end()); MultiOperatorRange range{ctx, len}; size_t n = 0;
          for (auto it = range.begin(); it != range.end() && n <= want.size(); ++it, ++n) if (n < want.size()) { CHECK(it.raw() == want[n], "multi-operator", ops << "^" << len << " #" << n); auto s = *it; CHECK(to_word(s) == Word(want[n].begin(), want[n].end()), "multi-operator-word", ops << "^" << len << " #" << n); }
          CHECK(n == want.size(), "multi-operator-count", ops << "^" << len << ": " << n << " of " << want.size());
          if (ops) { const auto off = static_cast<oper_name_t>(r.below(ops)); const auto num = static_cast<oper_name_t>(1 + r.below(ops - static_cast<size_t>(off))); std::vector<sequence_storage_t> w2; if (len) for (auto& w : grid<oper_name_t>(len, off, static_cast<oper_name_t>(off + num))) w2.emplace_back(w.begin(), w.end()); size_t k = 0; auto end = MultiOperatorIterator::end_of(ctx, len, num, off); for (MultiOperatorIterator it{ctx, len, num, off}; it != end && k <= w2.size(); ++it, ++k) if (k < w2.size()) CHECK(it.raw() == w2[k], "multi-operator-part", ops << "^" << len << " from " << off << " #" << k); CHECK(k == w2.size(), "multi-operator-part", ops << "^" << len << " from " << off << " number " << num << ": " << k << " of " << w2.size()); } }
        // Least rotation.
        { const size_t n = r.below(9); std::vector<size_t> v; for (size_t i = 0; i < n; ++i) v.push_back(r.below(3)); auto rot = [&](size_t k) { auto w = v; std::rotate(w.begin(), w.begin() + static_cast<long>(k), w.end()); return w; }; ShiftSorter<size_t> ss; const size_t k = ss(std::span<const size_t>(v)); bool best = n == 0 ? k == 0 : k < n; for (size_t q = 0; best && q < n; ++q) best = !(rot(q) < rot(k)) && (q >= k || rot(q) != rot(k)); CHECK(best, "shift-sorter", show(v) << " -> " << k);
          typename ShiftSorter<size_t>::ComparePermutationFunctor less{std::span<const size_t>(v)}; bool lt = less.size() == n; for (size_t a = 0; lt && a < n; ++a) for (size_t b = 0; b < n; ++b) lt = lt && less(a, b) == (rot(a) < rot(b)); CHECK(lt, "shift-compare", show(v)); }
        // Kronecker powers.
        { const int rows = static_cast<int>(1 + r.below(3)), cols = static_cast<int>(1 + r.below(3)), p = static_cast<int>(r.below(rows * cols > 4 ? 4 : 6)); Eigen::MatrixXd b(rows, cols); for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) b(i, j) = r.chance(1, 3) ? 0 : static_cast<double>(r.range(-3, 3)); Eigen::MatrixXd want = Eigen::MatrixXd::Identity(1, 1); for (int k = 0; k < p; ++k) { Eigen::MatrixXd nx(want.rows() * rows, want.cols() * cols); for (int i = 0; i < want.rows(); ++i) for (int j = 0; j < want.cols(); ++j) nx.block(i * rows, j * cols, rows, cols) = want(i, j) * b; want = nx; }
          Eigen::MatrixXd got = kronecker_power(b.sparseView(), p); CHECK(got.rows() == want.rows() && got.cols() == want.cols() && (got - want).cwiseAbs().maxCoeff() == 0, "kronecker", rows << "x" << cols << " power " << p); }
        // Chunks, merges, intersections, powers.
        { std::vector<int> d(r.below(12)); std::iota(d.begin(), d.end(), 0); std::vector<size_t> ix; for (size_t k = r.below(5); k > 0; --k) ix.push_back(r.below(d.size() + 1)); std::sort(ix.begin(), ix.end()); VariableChunkRange<int> vr{d, ix}; size_t n = 0; for (auto it = vr.begin(); it != vr.end() && n <= ix.size(); ++it, ++n) { auto s = *it; const size_t e = n + 1 < ix.size() ? ix[n + 1] : d.size(); CHECK(s.size() == e - ix[n] && it.chunk_size() == e - ix[n] && std::equal(s.begin(), s.end(), d.begin() + static_cast<long>(ix[n])), "chunks", show(ix) << " of " << d.size() << " #" << n); } CHECK(n == ix.size(), "chunks", "count"); }
        { std::map<size_t, int> a, b; for (size_t k = r.below(7); k > 0; --k) a[r.below(10)] = static_cast<int>(k); for (size_t k = r.below(7); k > 0; --k) b[r.below(10)] = static_cast<int>(100 + k); auto want = a; want.insert(b.begin(), b.end()); linear_map_merge(a, std::move(b)); CHECK(a == want, "map-merge", "merge of maps"); }
        { std::vector<int> a, b; for (size_t k = r.below(6); k > 0; --k) a.push_back(static_cast<int>(r.below(12))); for (size_t k = r.below(6); k > 0; --k) b.push_back(static_cast<int>(r.below(12))); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); std::optional<size_t> want; for (size_t k = 0; k < b.size() && !want; ++k) if (std::binary_search(a.begin(), a.end(), b[k])) want = k; auto got = first_intersection_index(a.begin(), a.end(), b.begin(), b.end()); CHECK(got == want, "intersection", show(a) << show(b)); std::set<int> st(a.begin(), a.end()); auto sv = set_to_vector(st); CHECK(std::equal(sv.begin(), sv.end(), st.begin(), st.end()), "set-to-vector", show(a)); }
        { const int64_t b = r.range(-6, 6), e = r.range(0, 20); int64_t w = 1; for (int64_t k = 0; k < e; ++k) w *= b; CHECK(ipow(b, e) == w, "ipow", b << "^" << e << " = " << ipow(b, e)); const uint64_t ub = r.below(9), ue = r.below(20); uint64_t uw = 1; for (uint64_t k = 0; k < ue; ++k) uw *= ub; CHECK(ipow(ub, ue) == uw, "ipow", ub << "^" << ue); }
    });
}
namespace {
    struct Chunky : MonotonicChunkRecursiveStorage<std::string, Chunky> {
        Chunky(std::span<const size_t> s, size_t d, std::string z, ptrdiff_t o = 0) : MonotonicChunkRecursiveStorage(s, d, z, o) {}
        Chunky(std::string z, ptrdiff_t o = 0) : MonotonicChunkRecursiveStorage(z, o) {}
    };
    struct Visit { std::map<std::vector<size_t>, std::string> seen; size_t n = 0; template<class T> void operator()(const T& v, const std::vector<size_t>& ix) { if constexpr (std::is_same_v<T, std::string>) seen[ix] = v; else seen[ix] = std::to_string(v.first) + "," + std::to_string(v.second); ++n; } };
}
SECTION(recursive_index) {
    c.for_cases(c.n(300, 3000), [&](Rng& r, uint64_t) {
        { // fixed width: every index string up to the depth has its own cell
            const size_t w = 1 + r.below(4), d = r.below(4); const RecursiveDoubleIndex* cp; RecursiveDoubleIndex t{w, d}; cp = &t; std::map<std::vector<size_t>, std::pair<ptrdiff_t, ptrdiff_t>> m; for (size_t l = 0; l <= d; ++l) for (auto& ix : grid<size_t>(l, 0, w)) m[ix] = {-1, 0};
            const std::string what = "width " + std::to_string(w) + " depth " + std::to_string(d); c.note(what);
            for (int k = 0; k < 12; ++k) { auto it = m.begin(); std::advance(it, static_cast<long>(r.below(m.size()))); std::pair<ptrdiff_t, ptrdiff_t> v{static_cast<ptrdiff_t>(r.below(100)), k}; t.set(it->first, v); it->second = v; }
            bool ok = true; for (auto& [ix, v] : m) { const auto& got = cp->access(ix); ok = ok && got == v && cp->subtree(ix).access() == v; } CHECK(ok, "recursive-access", what);
            // References into the store stay valid and show later changes.
            { auto it = m.begin(); std::advance(it, static_cast<long>(r.below(m.size()))); const auto& ref = cp->access(it->first); t.set(it->first, {-7, -8}); it->second = {-7, -8}; CHECK(ref == it->second, "recursive-reference", what << ": reference does not follow its cell"); }
            Visit v; t.visit(v); bool same = v.n == m.size(); for (auto& [ix, x] : m) same = same && v.seen[ix] == std::to_string(x.first) + "," + std::to_string(x.second); CHECK(same, "recursive-visit", what << ": " << v.n << " of " << m.size()); Visit v2; cp->visit(v2); CHECK(v2.seen == v.seen, "recursive-visit", what << " const");
            c.nontrivial(what);
        }
        { // chunks: index strings with at most one entry per chunk, chunks increasing
            std::vector<size_t> ch; for (size_t k = 1 + r.below(4); k > 0; --k) ch.push_back(1 + r.below(3)); const size_t d = r.below(5); Chunky t{ch, d, "z"}; const Chunky* cp = &t; std::map<std::vector<size_t>, std::string> m;
            std::vector<size_t> owner; for (size_t k = 0; k < ch.size(); ++k) owner.insert(owner.end(), ch[k], k); for (size_t l = 0; l <= std::min(d, ch.size()); ++l) for (auto& ix : grid<size_t>(l, 0, owner.size())) { bool ok = true; for (size_t k = 1; k < ix.size(); ++k) ok = ok && owner[ix[k]] > owner[ix[k - 1]]; if (ok) m[ix] = "z"; }
            const std::string what = "chunks " + show(ch) + " depth " + std::to_string(d); c.note(what);
            for (int k = 0; k < 12; ++k) { auto it = m.begin(); std::advance(it, static_cast<long>(r.below(m.size()))); std::string v = "value number " + std::to_string(r.below(1000)) + " kept in a cell"; t.set(it->first, v); it->second = v; }
            bool ok = true; for (auto& [ix, v] : m) { const auto& got = cp->access(ix); ok = ok && got == v; } CHECK(ok, "recursive-access", what);
            Visit v; t.visit(v); CHECK(v.n == m.size() && v.seen == m, "recursive-visit", what << ": " << v.n << " of " << m.size()); c.nontrivial(what);
        }
    });
}
