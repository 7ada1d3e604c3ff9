// C09: canonical Pauli moments identify exactly the translated strings; averaging over the lattice.
#include "sys.h"
#include "scenarios/pauli/symmetry/lattice_duplicator.h"
#include "scenarios/pauli/symmetry/moment_simplifier.h"
#include "scenarios/pauli/symmetry/moment_simplifier_wrapping.h"
#include "scenarios/pauli/symmetry/site_hasher.h"
using namespace verif;
using namespace Moment;
using namespace Moment::Pauli;
namespace {
    struct Lat {
        bool wrap; long h, w; bool chain; std::unique_ptr<PauliContext> ctx; std::string desc;
        Lat(size_t hh, size_t ww, bool wr, bool ch) : wrap{wr}, h(hh), w(ww), chain{ch} {
            const auto W = wr ? WrapType::Wrap : WrapType::None;
            if (ch) ctx = std::make_unique<PauliContext>(hh * ww, W, SymmetryType::Translational); else ctx = std::make_unique<PauliContext>(hh, ww, W, SymmetryType::Translational);
            if (ch) { h = static_cast<long>(hh * ww); w = 1; }
            desc = (ch ? "chain " + std::to_string(h) : "lattice " + std::to_string(h) + "x" + std::to_string(w)) + (wr ? " wrap" : "");
        }
        long q() const { return h * w; }
        /** Translate; false if it leaves the lattice. dr, dc may be negative. */
        bool shift(const Word& x, long dr, long dc, Word& out) const {
            out.clear();
            for (auto o : x) {
                long s = o / 3, r = s % h + dr, k = s / h + dc;
                if (wrap) { r = ((r % h) + h) % h; k = ((k % w) + w) % w; } else if (r < 0 || k < 0 || r >= h || k >= w) return false;
                out.push_back(3 * (k * h + r) + o % 3);
            }
            std::sort(out.begin(), out.end()); return true;
        }
        std::set<Word> orbit(const Word& x) const {
            std::set<Word> s; Word y;
            if (wrap) { for (long r = 0; r < h; ++r) for (long k = 0; k < w; ++k) if (shift(x, r, k, y)) s.insert(y); }
            else for (long r = 1 - h; r < h; ++r) for (long k = 1 - w; k < w; ++k) if (shift(x, r, k, y)) s.insert(y);
            return s;
        }
        OperatorSequence make(const Word& x, int phase) const { return OperatorSequence{to_storage(x), *ctx, sign_of(phase)}; }
    };
    std::unique_ptr<Lat> random_lat(Rng& r, size_t maxq) {
        const bool wrap = r.chance(2, 3);
        while (true) {
            size_t cap = r.chance(1, 3) ? std::min<size_t>(maxq, 9) : r.coin() ? std::min<size_t>(maxq, 70) : maxq;
            if (r.chance(1, 3)) {
                size_t n = 1 + r.below(cap); if (r.chance(1, 4)) n = std::vector<size_t>{31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 160, 192, 224, 255, 256}[r.below(17)];
                if (n <= maxq) return std::make_unique<Lat>(n, 1, wrap, true);
                continue;
            }
            size_t h = 1 + r.below(r.chance(1, 6) ? cap : std::min<size_t>(cap, 40)), w = 1 + r.below(std::max<size_t>(1, cap / h));
            if (r.chance(1, 5)) std::swap(h, w);
            if (r.chance(1, 8)) { h = std::vector<size_t>{4, 8, 16, 32}[r.below(4)]; }
            if (h * w <= maxq) return std::make_unique<Lat>(h, w, wrap, false);
        }
    }
    Word random_word(Rng& r, const Lat& l, size_t maxlen) {
        std::map<long, long> m; const long style = static_cast<long>(r.below(4));
        for (size_t k = r.below(maxlen + 1); k > 0; --k) {
            long site = static_cast<long>(r.below(l.q()));
            if (style == 1) site = static_cast<long>(r.below(std::min<long>(l.h, 3)) + l.h * r.below(std::min<long>(l.w, 3))); // near corner
            if (style == 2) site = l.q() - 1 - static_cast<long>(r.below(std::min<long>(l.q(), 5)));
            m[site] = static_cast<long>(style == 3 ? 0 : r.below(3));
        }
        Word w; for (auto& [s, p] : m) w.push_back(3 * s + p);
        if (style == 0 && r.chance(1, 6)) { w.clear(); const long step = 1 + static_cast<long>(r.below(4)); for (long s = 0; s < l.q() && w.size() < 40; s += step) w.push_back(3 * s + 1); } // periodic
        return w;
    }
    /** Judge canonical form of one word, and of its translates. */
    Norm canonical(Ctx& c, const Lat& l, const Word& x, int phase) {
        auto seq = l.make(x, phase);
        auto got = l.ctx->simplify_as_moment(seq); auto n = norm_of(got);
        CHECK(n.phase == phase && !n.zero, "sign-kept", l.desc << " i^" << phase << wstr(x) << " -> " << n.text());
        CHECK(got.hash() == l.make(n.letters, n.phase).hash(), "hash", l.desc << " " << n.text());
        CHECK(norm_of(l.ctx->simplify_as_moment(got)) == n, "idempotent", l.desc << " " << wstr(x) << " -> " << n.text() << " -> " << norm_of(l.ctx->simplify_as_moment(got)).text());
        CHECK(!l.ctx->can_be_simplified_as_moment(got), "canonical-not-canonical", l.desc << " " << n.text());
        CHECK(l.ctx->can_be_simplified_as_moment(seq) == (n.letters != x), "can-be-simplified", l.desc << " " << wstr(x) << " -> " << n.text());
        return n;
    }
    void one(Ctx& c, Rng& r, const Lat& l, const Word& x) {
        const int ph = static_cast<int>(r.below(4));
        auto orb = l.orbit(x); auto n = canonical(c, l, x, ph);
        CHECK(orb.count(n.letters), "not-a-translate", l.desc << " " << wstr(x) << " -> " << n.text());
        std::vector<Word> o(orb.begin(), orb.end());
        for (size_t k = 0; k < std::min<size_t>(o.size(), 6); ++k) {
            const Word& y = o.size() <= 6 ? o[k] : o[r.below(o.size())];
            auto m = canonical(c, l, y, ph);
            CHECK(m == n, "translates-differ", l.desc << " " << wstr(x) << " -> " << n.text() << " but " << wstr(y) << " -> " << m.text());
            c.count("translates-compared");
        }
        c.nontrivial(l.desc + wstr(x));
    }
    void offsets(Ctx& c, Rng& r, const Lat& l, const Word& x) {
        const auto& ms = l.ctx->moment_simplifier(); const int ph = static_cast<int>(r.below(4));
        auto seq = l.make(x, ph); const long span = 2 * l.q() + 3; Word y;
        for (int k = 0; k < 4; ++k) {
            long off = static_cast<long>(r.below(2 * span + 1)) - span; if (r.coin()) off %= l.q() + 1;
            Word z; bool ok = true; // along the chain of all qubits
            for (auto o : x) { long s = o / 3 + off; if (l.wrap) s = ((s % l.q()) + l.q()) % l.q(); else if (s < 0 || s >= l.q()) ok = false; z.push_back(3 * s + o % 3); }
            std::sort(z.begin(), z.end());
            if (ok) { c.note(l.desc + " chain_offset " + wstr(x) + " by " + std::to_string(off)); auto g = norm_of(ms.chain_offset(seq, off));
                CHECK(g.letters == z && g.phase == ph, "chain-offset", c.crumb << ": " << g.text() << " want " << wstr(z)); c.count("offsets"); }
            if (l.chain) continue;
            long dr = static_cast<long>(r.below(4 * l.h + 3)) - 2 * l.h - 1, dc = static_cast<long>(r.below(4 * l.w + 3)) - 2 * l.w - 1;
            if (r.chance(1, 3)) dr = 0; if (r.chance(1, 3)) dc = 0;
            if (!l.wrap) { dr %= l.h; dc %= l.w; }
            if (l.shift(x, dr, dc, y)) { c.note(l.desc + " lattice_offset " + wstr(x) + " by " + std::to_string(dr) + "," + std::to_string(dc)); auto g = norm_of(ms.lattice_offset(seq, dr, dc));
                CHECK(g.letters == y && g.phase == ph, "lattice-offset", c.crumb << ": " << g.text() << " want " << wstr(y)); c.count("offsets"); }
        }
        c.nontrivial(l.desc + wstr(x));
    }
    template<size_t N> bool hasher(Ctx& c, Rng& r, const Lat& l) {
        auto* ms = dynamic_cast<const MomentSimplifierWrapping<N>*>(&l.ctx->moment_simplifier());
        if (!ms) return false;
        const auto& sh = ms->site_hasher; Word x = random_word(r, l, 12), y = random_word(r, l, 12), z;
        auto hash = [&](const Word& a) { std::vector<oper_name_t> v(a.begin(), a.end()); return sh.hash(v); };
        auto un = [&](const auto& h) { auto s = sh.unhash(h); Word a; for (auto o : s) a.push_back(o); return a; };
        auto hx = hash(x), hy = hash(y);
        CHECK(un(hx) == x, "unhash", l.desc << " " << wstr(x) << " got " << wstr(un(hx)));
        CHECK((hx == hy) == (x == y), "hash-distinct", l.desc << " " << wstr(x) << " " << wstr(y));
        CHECK((sh.less(hx, hy) + sh.less(hy, hx) + (hx == hy)) == 1, "less-total", l.desc << " " << wstr(x) << " " << wstr(y));
        const size_t off = r.below(l.q() + 1);
        Word cy; for (auto o : x) cy.push_back(3 * ((o / 3 + static_cast<long>(off)) % l.q()) + o % 3); std::sort(cy.begin(), cy.end());
        CHECK(un(sh.cyclic_shift(hx, off)) == cy, "cyclic-shift", l.desc << " " << wstr(x) << " by " << off << " got " << wstr(un(sh.cyclic_shift(hx, off))));
        const size_t dr = r.below(l.h + 2), dc = r.below(l.w + 2);
        if (l.w > 1) { // single columns are shifted as chains
            l.shift(x, static_cast<long>(dr), 0, z); CHECK(un(sh.row_cyclic_shift(hx, dr)) == z, "row-shift", l.desc << " " << wstr(x) << " by " << dr << " got " << wstr(un(sh.row_cyclic_shift(hx, dr))) << " want " << wstr(z));
            l.shift(x, static_cast<long>(dr), static_cast<long>(dc), z); CHECK(un(sh.lattice_shift(hx, dr, dc)) == z, "lattice-shift", l.desc << " " << wstr(x) << " by " << dr << "," << dc << " got " << wstr(un(sh.lattice_shift(hx, dr, dc))));
            for (long k = 0; k < l.w && l.h <= 32; ++k) { uint64_t want = 0; for (auto o : x) if (o / 3 / l.h == k) want |= uint64_t(o % 3 + 1) << (2 * (o / 3 % l.h)); CHECK(sh.extract_column(hx, k) == want, "column", l.desc << " " << wstr(x) << " column " << k); }
        }
        size_t first = l.q(); for (long k = 1; k < l.q(); ++k) { Word a; for (auto o : x) a.push_back(3 * ((o / 3 + k) % l.q()) + o % 3); std::sort(a.begin(), a.end()); if (a == x) { first = k; break; } }
        CHECK(sh.first_chain_alias(hx) == first, "first-alias", l.desc << " " << wstr(x) << ": " << sh.first_chain_alias(hx) << " want " << first);
        c.count("slides-" + std::to_string(N)); c.nontrivial(l.desc + wstr(x)); return true;
    }
    void average(Ctx& c, Rng& r, const Lat& l) {
        RawPolynomial p; std::vector<std::pair<Word, cd>> t; const bool origin = r.coin();
        for (size_t k = 1 + r.below(3); k > 0; --k) {
            Word w = random_word(r, l, 1 + r.below(4)); if (origin || l.wrap) { auto o = l.orbit(w); w = *o.begin(); if (!l.wrap) w = norm_of(l.ctx->simplify_as_moment(l.make(w, 0))).letters; }
            const int ph = static_cast<int>(r.below(4)); cd f{std::round(r.sym() * 4) + 0.5, r.coin() ? 0 : std::round(r.sym() * 2)};
            p.emplace_back(l.make(w, ph), f); t.emplace_back(w, f * ipow(ph));
        }
        c.note(l.desc + " average " + p.to_string(*l.ctx));
        auto got = LatticeDuplicator::symmetrical_copy(*l.ctx, p);
        std::map<Word, cd> g, want; for (auto& m : got) { auto n = norm_of(m.sequence); if (!n.zero) g[n.letters] += m.weight * ipow(n.phase); }
        long mr = 0, mc = 0; for (auto& [w, f] : t) for (auto o : w) { mr = std::max(mr, o / 3 % l.h); mc = std::max(mc, o / 3 / l.h); }
        const long nr = l.wrap ? l.h : l.h - mr, nc = l.wrap ? l.w : l.w - mc; Word y;
        bool scalar = true; for (auto& [w, f] : t) if (!w.empty()) scalar = false;
        if (scalar) for (auto& [w, f] : t) want[w] += f;
        else for (auto& [w, f] : t) for (long a = 0; a < nr; ++a) for (long b = 0; b < nc; ++b) { l.shift(w, a, b, y); want[y] += f / static_cast<double>(nr * nc); }
        bool ok = true; for (auto& [w, f] : want) { auto it = g.find(w); if (!close(f, it == g.end() ? cd{} : it->second)) ok = false; } for (auto& [w, f] : g) { auto it = want.find(w); if (!close(f, it == want.end() ? cd{} : it->second)) ok = false; }
        CHECK(ok, "average", c.crumb << " got " << got.to_string(*l.ctx));
        c.count("average-terms", want.size()); c.nontrivial(c.crumb);
    }
    /** Symbols: two strings share a symbol exactly when translated. */
    void symbols(Ctx& c, Rng& r, Lat& l) {
        std::vector<Word> ws; std::vector<std::set<Word>> orbs;
        for (int k = 0; k < 8; ++k) { Word w = random_word(r, l, 4); auto o = l.orbit(w); ws.push_back(w); orbs.push_back(o); auto it = o.begin(); std::advance(it, static_cast<long>(r.below(o.size()))); ws.push_back(*it); orbs.push_back(o); }
        auto* raw = l.ctx.release(); PauliMatrixSystem pms{std::unique_ptr<PauliContext>(raw)};
        std::vector<Monomial> ms; auto lock = pms.get_write_lock();
        for (auto& w : ws) { RawPolynomial p; p.emplace_back(OperatorSequence{to_storage(w), *raw}, 2.0); auto q = pms.polynomial_factory().register_and_construct(pms.Symbols(), p); CHECK(q.size() == 1, "one-symbol", l.desc << " " << wstr(w)); if (q.size() != 1) return; ms.push_back(*q.begin()); }
        for (size_t i = 0; i < ws.size(); ++i) for (size_t j = 0; j < i; ++j) {
            const bool same = orbs[i].count(ws[j]) > 0;
            CHECK((ms[i].id == ms[j].id) == same, "symbol-per-orbit", l.desc << " " << wstr(ws[i]) << " symbol " << ms[i].id << " and " << wstr(ws[j]) << " symbol " << ms[j].id);
        }
        for (auto& m : ms) CHECK(close(m.factor, 2.0), "weight", l.desc);
        c.count("symbol-pairs", ws.size() * (ws.size() - 1) / 2); c.nontrivial(l.desc + wstr(ws[0]) + wstr(ws[2]));
    }
}
namespace {
    /** Patterns of sites copied over the lattice. */
    void fill(Ctx& c, Rng& r, const Lat& l) {
        const size_t most = l.q() > 200 ? 2 : l.q() > 40 ? 3 : 4;
        std::set<long> sites; const long per_r = static_cast<long>(r.below(l.h)), per_c = static_cast<long>(r.below(l.w));
        const size_t style = r.below(4); long row = style == 3 ? 0 : static_cast<long>(r.below(l.h)), col = style == 3 ? 0 : static_cast<long>(r.below(l.w));
        for (size_t k = 1 + r.below(most); k > 0; --k) { sites.insert(col * l.h + row);
            if (style == 0) { row = (row + per_r) % l.h; col = (col + per_c) % l.w; if (k == 1 && sites.size() < 5 && !sites.count(col * l.h + row)) ++k; } // (a pattern closed under some shift, if that is short)
            else if (style == 1) { row = static_cast<long>(r.below(l.h)); col = static_cast<long>(r.below(l.w)); }
            else { row = static_cast<long>(r.below(std::min<long>(l.h, 3))); col = static_cast<long>(r.below(std::min<long>(l.w, 3))); } }
        std::vector<size_t> pattern(sites.begin(), sites.end());
        auto filled = [&](const std::set<long>& at) { std::vector<Word> o{{}}; for (long s : at) { std::vector<Word> n; for (auto& w : o) for (long p = 0; p < 3; ++p) { n.push_back(w); n.back().push_back(3 * s + p); } o = n; } return o; };
        auto moved = [&](const std::set<long>& at, long dr, long dc, bool wrap, std::set<long>& out) { out.clear(); for (long s : at) { long a = s % l.h + dr, b = s / l.h + dc; if (wrap) { a = (a % l.h + l.h) % l.h; b = (b % l.w + l.w) % l.w; } else if (a < 0 || a >= l.h || b < 0 || b >= l.w) return false; out.insert(b * l.h + a); } return true; };
        std::string what = l.desc + " pattern"; for (auto s : pattern) what += " " + std::to_string(s);
        std::vector<OperatorSequence> out; if (r.coin()) out.push_back(OperatorSequence::Identity(*l.ctx));
        LatticeDuplicator dup{*l.ctx, out};
        auto judge = [&](const char* kind, std::pair<size_t, size_t> range, const std::multiset<Word>& want) {
            if (!CHECK(range.second == out.size() && range.first <= range.second && range.second - range.first == want.size(), std::string(kind) + "-count", what << ": " << range.second - range.first << " words, expected " << want.size())) return;
            std::multiset<Word> got; for (size_t i = range.first; i < range.second; ++i) { auto n = norm_of(out[i]); got.insert(n.letters); CHECK(n.phase == 0 && !n.zero && out[i].hash() == l.make(n.letters, 0).hash(), std::string(kind) + "-word", what << ": " << n.text()); }
            std::string odd; for (auto& w : got) if (got.count(w) != want.count(w)) { odd = wstr(w) + " listed " + std::to_string(got.count(w)) + " times, expected " + std::to_string(want.count(w)); break; }
            CHECK(got == want, kind, what << ": " << odd);
            c.count(std::string(kind) + "-words", want.size());
        };
        c.note(what);
        { auto ws = filled(sites); judge("permutations", dup.permutation_fill(pattern), {ws.begin(), ws.end()}); }
        std::set<long> base, at; long mr = l.h, mc = l.w; for (long s : sites) { mr = std::min(mr, s % l.h); mc = std::min(mc, s / l.h); } moved(sites, -mr, -mc, false, base);
        std::vector<size_t> corner(base.begin(), base.end());
        { std::multiset<Word> want; for (long a = 0; a < l.h; ++a) for (long b = 0; b < l.w; ++b) if (moved(base, a, b, false, at)) for (auto& w : filled(at)) want.insert(w); judge("unwrapped", dup.wrapless_symmetrical_fill(corner), want); if (!l.wrap) judge("filled", dup.symmetrical_fill(corner, r.coin()), want); }
        if (l.wrap) {
            std::set<std::set<long>> places; std::multiset<Word> all, once;
            for (long a = 0; a < l.h; ++a) for (long b = 0; b < l.w; ++b) { moved(sites, a, b, true, at); const bool fresh = places.insert(at).second; for (auto& w : filled(at)) { all.insert(w); if (fresh) once.insert(w); } }
            judge("all-offsets", dup.symmetrical_fill(pattern, false), all);
            judge("unique-offsets", dup.symmetrical_fill(pattern, true), once);
            if (all.size() != once.size()) c.count("patterns-repeating");
        }
        c.nontrivial(what);
    }
}
SECTION(small_exhaustive) { // every pair of strings of small lattices
    std::vector<Lat> ls; const long maxq = c.thorough ? 6 : 5;
    for (bool wrap : {false, true}) { for (long n = 1; n <= maxq; ++n) ls.emplace_back(n, 1, wrap, true); for (long h = 1; h <= maxq; ++h) for (long w = 1; h * w <= maxq; ++w) ls.emplace_back(h, w, wrap, false); }
    c.for_cases(ls.size(), [&](Rng&, uint64_t i) {
        auto& l = ls[i]; std::map<Word, Word> canon; // canonical -> least of orbit
        uint64_t total = 1; for (long k = 0; k < l.q(); ++k) total *= 4;
        for (uint64_t code = 0; code < total; ++code) {
            Word w; uint64_t x = code; for (long s = 0; s < l.q(); ++s, x /= 4) if (x % 4) w.push_back(3 * s + static_cast<long>(x % 4) - 1);
            auto n = canonical(c, l, w, static_cast<int>(code & 3)); auto least = *l.orbit(w).begin();
            auto [it, fresh] = canon.emplace(n.letters, least);
            CHECK(it->second == least, "different-orbits-same-canonical", l.desc << " " << wstr(w) << " and " << wstr(it->second) << " -> " << n.text());
            c.count("strings");
        }
        std::set<Word> orbs; for (auto& [a, b] : canon) orbs.insert(b);
        CHECK(orbs.size() == canon.size(), "one-canonical-per-orbit", l.desc << ": " << canon.size() << " canonical strings, " << orbs.size() << " orbits");
        c.nontrivial(l.desc);
    });
}
SECTION(canonical) { c.for_cases(c.n(2500, 60000), [&](Rng& r, uint64_t) { auto l = random_lat(r, 256); for (int k = 0; k < 4; ++k) one(c, r, *l, random_word(r, *l, 7)); }); }
SECTION(canonical_tall) { c.for_cases(c.n(2000, 20000), [&](Rng& r, uint64_t) { // columns that straddle storage boundaries
    const size_t h = 2 + r.below(125), w = 2 + r.below(256 / h - 1); Lat l(h, w, true, false); for (int k = 0; k < 4; ++k) one(c, r, l, random_word(r, l, 7)); }); }
SECTION(canonical_big) { c.for_cases(c.n(600, 6000), [&](Rng& r, uint64_t) { // beyond the limit of wrapping
    const size_t h = 1 + r.below(40), w = 1 + r.below(40); Lat l(h, w, false, r.chance(1, 4)); one(c, r, l, random_word(r, l, 5)); }); }
SECTION(offsets) { c.for_cases(c.n(8000, 200000), [&](Rng& r, uint64_t) { auto l = random_lat(r, 256); offsets(c, r, *l, random_word(r, *l, 6)); }); }
SECTION(hasher) { c.for_cases(c.n(10000, 200000), [&](Rng& r, uint64_t) { auto l = random_lat(r, 256); c.note(l->desc);
    hasher<1>(c, r, *l) || hasher<2>(c, r, *l) || hasher<3>(c, r, *l) || hasher<4>(c, r, *l) || hasher<5>(c, r, *l) || hasher<6>(c, r, *l) || hasher<7>(c, r, *l) || hasher<8>(c, r, *l); }); }
SECTION(average) { c.for_cases(c.n(5000, 100000), [&](Rng& r, uint64_t) { auto l = random_lat(r, r.coin() ? 12 : 100); average(c, r, *l); }); }
SECTION(fill_small) { c.for_cases(c.n(1200, 40000), [&](Rng& r, uint64_t) { const size_t h = 1 + r.below(6), w = 1 + r.below(6); Lat l(h * (w == 1 ? 1 + r.below(3) : 1), w, r.chance(3, 4), w == 1 && r.coin()); fill(c, r, l); }); }
SECTION(fill_large) { c.for_cases(c.n(250, 4000), [&](Rng& r, uint64_t) { auto l = random_lat(r, 256); fill(c, r, *l); }); }
SECTION(symbols) { c.for_cases(c.n(1500, 30000), [&](Rng& r, uint64_t) { auto l = random_lat(r, 100); c.note(l->desc); symbols(c, r, *l); }); }
