// C01: words have one canonical form, one hash, and a consistent order.
#include "scen.h"
using namespace verif;
using namespace Moment;

namespace {
    /** The recorded state of a sequence must be self-consistent: hash is the shortlex index of its own letters. */
    void audit(Ctx& c, const Scen& s, const OperatorSequence& q, const Norm& expect, const char* route) {
        const auto got = norm_of(q);
        CHECK(got == expect, "wrong-word", s.desc << " via " << route << " at " << c.crumb << ": got " << got.text() << " want " << expect.text());
        const uint64_t want = expect.zero ? 0 : static_cast<uint64_t>(ref_hash(expect.letters, s.ops()));
        CHECK(q.hash() == want, "wrong-hash", s.desc << " via " << route << " at " << c.crumb << ": hash " << q.hash() << " want " << want);
        CHECK(q.zero() == expect.zero && (!expect.zero || (q.empty() && q.get_sign() == SequenceSignType::Positive)), "zero-state",
              s.desc << " via " << route << ": zero flag/sign");
        CHECK(q.is_same_context(*s.ctx), "lost-context", route);
        CHECK(static_cast<uint64_t>(s.ctx->hash(q)) == want, "context-hash", s.desc << " via " << route);
    }
    size_t max_len(const Scen& s) {
        // hash must be representable without wrap-around
        if (s.ops() <= 1) return 40;
        size_t len = 0; long double v = 1;
        while (len < 40 && v * s.ops() + s.ops() + 1 < 1.6e19L) { v = v * s.ops() + s.ops(); ++len; }
        return len;
    }
}

SECTION(routes) {
    c.for_cases(c.n(700, 12000), [&](Rng& r, uint64_t) {
        auto sp = random_scen(r); const Scen& s = *sp;
        if (s.ops() == 0) { return; }
        for (int rep = 0; rep < 6; ++rep) {
            const size_t ml = max_len(s);
            const auto w = random_word(r, s.ops(), r.chance(1, 3) ? ml : std::min<size_t>(ml, 8));
            const int ph = static_cast<int>(r.below(4));
            c.note(s.desc + " word " + wstr(w) + " phase " + std::to_string(ph));
            const auto want = s.normal(w, ph);
            // Plain construction
            OperatorSequence a{to_storage(w), *s.ctx, sign_of(ph)};
            audit(c, s, a, want, "construct");
            // Copies, moves, assignments over other words (short over long and long over short)
            OperatorSequence b{a}; audit(c, s, b, want, "copy"); audit(c, s, a, want, "copied-from");
            OperatorSequence d{to_storage(random_word(r, s.ops(), ml)), *s.ctx};
            d = a; audit(c, s, d, want, "copy-assign");
            OperatorSequence e{std::move(b)}; audit(c, s, e, want, "move");
            OperatorSequence f{to_storage(random_word(r, s.ops(), ml)), *s.ctx};
            f = std::move(e); audit(c, s, f, want, "move-assign");
            f = *&f; audit(c, s, f, want, "self-assign");
            e = f; audit(c, s, e, want, "assign over moved-from");
            std::vector<OperatorSequence> vec(1, f);
            for (int g = 0; g < 3; ++g) vec.push_back(a);
            audit(c, s, vec[0], want, "vector regrow"); audit(c, s, vec[3], want, "vector regrow");
            std::swap(vec[0], d); audit(c, s, d, want, "swap");
            // Rebuild from parts: products in both associations, append, in-place product
            if (!w.empty()) {
                const size_t cut = r.below(w.size() + 1);
                const size_t cut2 = cut + r.below(w.size() - cut + 1);
                auto x = s.make(Word(w.begin(), w.begin() + cut), ph), y = s.make(Word(w.begin() + cut, w.begin() + cut2)),
                     z = s.make(Word(w.begin() + cut2, w.end()));
                audit(c, s, (x * y) * z, want, "product-left");
                audit(c, s, x * (y * z), want, "product-right");
                auto m = x; m *= y; m *= z; audit(c, s, m, want, "in-place product");
                if (!x.zero()) {
                    auto ap = x; Word tail(w.begin() + cut, w.end()); std::vector<oper_name_t> t; for (auto o : tail) t.push_back(static_cast<oper_name_t>(o));
                    ap.append(t.begin(), t.end());
                    audit(c, s, ap, want, "append");
                }
            }
            // Presorted and raw construction from canonical letters
            if (!want.zero) {
                audit(c, s, OperatorSequence{OperatorSequence::ConstructPresortedFlag{}, to_storage(want.letters), *s.ctx, sign_of(want.phase)}, want, "presorted");
                audit(c, s, OperatorSequence{OperatorSequence::ConstructRawFlag{}, to_storage(want.letters),
                      static_cast<uint64_t>(ref_hash(want.letters, s.ops())), *s.ctx, sign_of(want.phase)}, want, "raw");
                auto rh = a; rh.rehash(s.ctx->the_hasher()); audit(c, s, rh, want, "rehash");
                if (want.phase == 0) {
                    auto canon = s.ctx->get_if_canonical(to_storage(want.letters));
                    if (CHECK(canon.has_value(), "canonical-refused", s.desc << wstr(want.letters))) audit(c, s, *canon, want, "get_if_canonical");
                }
            }
            {   // non-canonical strings are refused, canonical ones echoed
                auto plain = s.normal(w, 0);
                auto canon = s.ctx->get_if_canonical(to_storage(w));
                const bool is_canon = !plain.zero && plain.letters == w;
                CHECK(canon.has_value() == is_canon, "get_if_canonical", s.desc << wstr(w) << " got " << canon.has_value());
            }
            // Adjoint
            audit(c, s, a.conjugate(), s.adjoint(w, ph), "adjoint");
            audit(c, s, a.conjugate().conjugate(), want, "double adjoint");
            // Signs
            auto neg = want; if (!neg.zero) neg.phase = (neg.phase + 2) & 3;
            audit(c, s, -a, neg, "negate copy"); { auto t = a; audit(c, s, -std::move(t), neg, "negate move"); }
            // Identity and zero
            audit(c, s, a * s.ctx->identity(), want, "times identity"); audit(c, s, s.ctx->identity() * a, want, "identity times");
            for (int k = 0; k < 4; ++k) {
                auto signed_want = want; if (!want.zero) signed_want.phase = (want.phase + k) & 3;
                audit(c, s, OperatorSequence::Identity(*s.ctx, sign_of(k)) * a, signed_want, "signed identity");
                audit(c, s, a * s.ctx->identity(sign_of(k)), signed_want, "times signed identity");
            }
            const Norm zero{true, 0, {}};
            audit(c, s, a * s.ctx->zero(), zero, "times zero"); audit(c, s, s.ctx->zero() * a, zero, "zero times");
            audit(c, s, s.ctx->zero().conjugate(), zero, "zero adjoint");
            audit(c, s, OperatorSequence::Zero(*s.ctx) * OperatorSequence::Identity(*s.ctx, sign_of(1)), zero, "zero times i");
            audit(c, s, OperatorSequence::Identity(*s.ctx, sign_of(1)) * OperatorSequence::Zero(*s.ctx), zero, "i times zero");
            if (!want.zero) { auto sz = a; sz.set_to_zero(); audit(c, s, sz, zero, "set_to_zero"); }
            // Hermiticity of a word
            {
                const auto adj = s.adjoint(w, ph);
                const auto ht = a.hermitian_type();
                HermitianType want_ht = want.zero ? HermitianType::Zero : (want == adj) ? HermitianType::Hermitian
                    : (want.letters == adj.letters && ((want.phase ^ adj.phase) == 2)) ? HermitianType::AntiHermitian : HermitianType::NotHermitian;
                if (!want.zero && want.letters != adj.letters) want_ht = HermitianType::NotHermitian;
                // For complex phases of a self-adjoint word, +i: adjoint is -i: anti-Hermitian.
                CHECK(ht == want_ht, "hermitian-type", s.desc << " " << want.text() << " type " << static_cast<int>(ht) << " want " << static_cast<int>(want_ht));
            }
            c.nontrivial(s.desc + wstr(w) + std::to_string(ph));
            if (w.size() > 16) c.count("words beyond inline storage");
            if (want.zero) c.count("zero words");
        }
    });
}

SECTION(order_and_equality) {
    c.for_cases(c.n(400, 6000), [&](Rng& r, uint64_t) {
        auto sp = random_scen(r); const Scen& s = *sp; if (!s.ops()) return;
        const size_t ml = max_len(s);
        std::vector<OperatorSequence> seqs; std::vector<Norm> norms;
        for (int i = 0; i < 14; ++i) {
            Word w = random_word(r, s.ops(), r.coin() ? 3 : ml);
            if (i && r.chance(1, 3)) { w = norms[r.below(norms.size())].letters; }
            if (!w.empty() && r.chance(1, 4)) w[r.below(w.size())] = static_cast<long>(r.below(s.ops()));
            const int ph = r.coin() ? 0 : static_cast<int>(r.below(4));
            seqs.push_back(s.make(w, ph)); norms.push_back(s.normal(w, ph));
        }
        seqs.push_back(s.ctx->zero()); norms.push_back({true, 0, {}});
        seqs.push_back(s.ctx->identity()); norms.push_back({false, 0, {}});
        c.note(s.desc);
        for (size_t i = 0; i < seqs.size(); ++i) for (size_t j = 0; j < seqs.size(); ++j) {
            const auto& A = norms[i]; const auto& B = norms[j];
            CHECK((seqs[i] == seqs[j]) == (A == B), "equality", s.desc << ": " << A.text() << " vs " << B.text());
            CHECK((seqs[i] != seqs[j]) == !(A == B), "inequality", s.desc << ": " << A.text() << " vs " << B.text());
            const bool sameword = A.zero == B.zero && A.letters == B.letters;
            CHECK((seqs[i].hash() == seqs[j].hash()) == sameword, "hash-collision", s.desc << ": " << A.text() << " vs " << B.text());
            bool less;
            if (A.zero || B.zero) less = A.zero && !B.zero;
            else less = A.letters.size() != B.letters.size() ? A.letters.size() < B.letters.size() : A.letters < B.letters;
            CHECK((seqs[i] < seqs[j]) == less, "order", s.desc << ": " << A.text() << " < " << B.text());
            const int csn = HashedSequence::compare_same_negation(seqs[i], seqs[j]);
            int want = 0;
            if (sameword && ((A.phase ^ B.phase) & 1) == 0) want = (A.phase == B.phase) ? 1 : -1;
            CHECK(csn == want, "compare-negation", A.text() << " vs " << B.text() << " gives " << csn);
        }
        c.nontrivial(s.desc + norms[0].text() + norms[1].text() + norms[2].text());
    });
}

SECTION(hasher_exhaustive) {
    // Every word up to some length over every small alphabet: hash is exactly its index in shortlex order.
    const size_t limit = c.n(40000, 600000);
    for (size_t radix = 1; radix <= 12; ++radix) c.run_case(radix, [&](Rng&, uint64_t) {
        ShortlexHasher h{radix}; uint64_t expect = 1; Word w;
        c.note("radix " + std::to_string(radix));
        while (expect < std::min<size_t>(limit, radix == 1 ? 60 : limit)) {
            auto st = to_storage(w);
            const std::vector<oper_name_t> v(st.begin(), st.end());
            CHECK(h.hash(std::span<const oper_name_t>(v)) == expect && h(std::span<const oper_name_t>(v)) == expect, "shortlex-index", "radix " << radix << " " << wstr(w));
            if (w.size() == 1) CHECK(h.hash(static_cast<oper_name_t>(w[0])) == expect, "shortlex-single", radix << " " << wstr(w));
            ++expect;
            // next word in shortlex order
            int i = static_cast<int>(w.size()) - 1;
            while (i >= 0 && w[i] == static_cast<long>(radix) - 1) { w[i] = 0; --i; }
            if (i >= 0) ++w[i]; else w.insert(w.begin(), 0);
        }
        c.nontrivial("radix " + std::to_string(radix));
    });
    // The longest word said to be hashable really is: no wrap-around, hence no collision with a shorter word.
    for (size_t radix = 2; radix <= 700; ++radix) {
        ShortlexHasher h{radix}; const size_t L = h.longest_hashable_string();
        Word w(L, static_cast<long>(radix - 1));
        const auto exact = ref_hash(w, radix);
        CHECK(exact <= static_cast<unsigned __int128>(UINT64_MAX), "longest-hashable-wraps", "radix " << radix << " length " << L);
        Word w2(L + 2, static_cast<long>(radix - 1));
        CHECK(ref_hash(w2, radix) > static_cast<unsigned __int128>(UINT64_MAX), "longest-hashable-too-short", "radix " << radix << " length " << L);
    }
}

SECTION(matching) {
    // Substring search primitives used by rewriting, against naive string matching.
    c.for_cases(c.n(3000, 60000), [&](Rng& r, uint64_t) {
        const size_t n = 1 + r.below(3); GenericScen s(n);
        auto w1 = random_word(r, n, 7), w2 = random_word(r, n, r.coin() ? 20 : 8);
        c.note(wstr(w1) + " in " + wstr(w2));
        auto a = s.make(w1), b = s.make(w2);
        for (size_t off = 0; off <= w2.size(); ++off) {
            const bool want = off + w1.size() <= w2.size() && std::equal(w1.begin(), w1.end(), w2.begin() + off);
            CHECK(a.matches(b.begin() + off, b.end()) == want, "matches", wstr(w1) << " in " << wstr(w2) << " at " << off);
        }
        auto it = a.matches_anywhere(b.begin(), b.end());
        auto wit = std::search(w2.begin(), w2.end(), w1.begin(), w1.end());
        if (!w1.empty())
            CHECK((it - b.begin()) == (wit - w2.begin()), "matches-anywhere", wstr(w1) << " in " << wstr(w2));
        long best = 0;
        for (size_t k = std::min(w1.size(), w2.size()); k > 0 && !best; --k)
            if (std::equal(w1.end() - k, w1.end(), w2.begin())) best = static_cast<long>(k);
        CHECK(a.suffix_prefix_overlap(b) == best, "overlap", wstr(w1) << " | " << wstr(w2));
        c.nontrivial(wstr(w1) + wstr(w2));
    });
}

SECTION(signs) {
    c.run_case(0, [&](Rng&, uint64_t) {
        for (int a = 0; a < 4; ++a) {
            const auto A = sign_of(a); const auto va = verif::ipow(a);
            CHECK(to_scalar(A) == va, "sign-scalar", a);
            CHECK(to_scalar(negate(A)) == -va, "sign-negate", a);
            CHECK(to_scalar(Moment::conjugate(A)) == std::conj(va), "sign-conj", a);
            CHECK(is_imaginary(A) == (va.imag() != 0), "sign-imag", a);
            CHECK(is_negative(A) == (va.real() + va.imag() < 0), "sign-neg", a);
            for (int b = 0; b < 4; ++b) {
                const auto B = sign_of(b); const auto vb = verif::ipow(b);
                CHECK(to_scalar(A * B) == va * vb, "sign-product", a << b);
                CHECK(to_scalar(difference(A, B)) * va == vb, "sign-difference", a << b);
                CHECK(are_negatives(A, B) == (va == -vb), "sign-opposite", a << b);
                c.nontrivial("signs " + std::to_string(a) + std::to_string(b));
            }
        }
    });
}
