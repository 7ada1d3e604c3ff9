// C23: text output names the object it prints, and only that object.
#include "symm.h"
#include "symb.h"
#include "scenarios/algebraic/name_table.h"
#include "scenarios/algebraic/operator_rule.h"
#include "scenarios/algebraic/operator_rulebook.h"
#include "scenarios/algebraic/ostream_rule_logger.h"
#include "scenarios/contextual_os.h"
#include "scenarios/contextual_os_helper.h"
#include "scenarios/locality/locality_operator_formatter.h"
#include "utilities/alphabetic_namer.h"
#include "utilities/format_factor.h"
#include "utilities/utf_conversion.h"
#include <iomanip>
using namespace verif;
using Moment::ContextualOS;
using Moment::StringFormatContext;
using DisplayAs = StringFormatContext::DisplayAs;
using Join = StringFormatContext::PrefactorJoin;

namespace {
    // ---- reference: names ----------------------------------------------------------------------------------------
    std::string ref_alpha(unsigned __int128 id, bool upper) { // bijective base 26
        std::string s; ++id;
        while (id > 0) { --id; s.insert(s.begin(), static_cast<char>((upper ? 'A' : 'a') + static_cast<int>(id % 26))); id /= 26; }
        return s;
    }
    std::string sign_text(int k) { static const char* t[4] = {"", "i", "-", "-i"}; return t[k & 3]; }
    std::string sign_scalar(int k) { static const char* t[4] = {"1", "i", "-1", "-i"}; return t[k & 3]; }

    enum class LO { Default, Natural, Traditional };
    /** Names of the letters of a scenario, and how words are put together. */
    struct Namer {
        std::vector<std::string> letters; std::string sep = ";"; bool pauli = false;
        std::string body(const Word& w, bool braces) const {
            std::string s; for (size_t i = 0; i < w.size(); ++i) s += (i ? sep : "") + letters.at(static_cast<size_t>(w[i]));
            return braces ? "<" + s + ">" : s;
        }
        std::string word(const Norm& n, bool braces) const {
            if (n.zero) return "0";
            if (n.letters.empty() && !pauli) return sign_scalar(n.phase);
            if (n.letters.empty()) return sign_text(n.phase) + (braces ? "<I>" : "I");
            return sign_text(n.phase) + body(n.letters, braces);
        }
    };
    std::string locality_letter(const LocalityScen& s, size_t op, LO lo) {
        const std::string p(1, static_cast<char>('A' + s.party[op])), m(1, static_cast<char>('a' + s.mmt[op]));
        if (lo == LO::Traditional) return p + std::to_string(s.outcome[op]) + "|" + std::to_string(s.mmt[op]);
        return p + "." + m + std::to_string(s.outcome[op]);
    }
    std::string copies_text(const InflationScen& s, size_t op) {
        const bool many = std::any_of(s.net.outcomes.begin(), s.net.outcomes.end(), [](size_t o) { return o > 2; });
        if (s.net.inflation <= 1) return "";
        std::string t; bool first = true;
        if (s.copy[op].empty()) t = "0"; // private source, not inflated
        for (auto k : s.copy[op]) { if (!first && s.net.inflation > 9) t += ","; first = false; t += std::to_string(k); }
        return many ? "[" + t + "]" : t;
    }
    Namer namer_of(const Scen& s, LO lo = LO::Default) {
        Namer n;
        for (size_t i = 0; i < s.ops(); ++i) {
            if (auto* l = dynamic_cast<const LocalityScen*>(&s)) n.letters.push_back(locality_letter(*l, i, lo));
            else if (auto* f = dynamic_cast<const InflationScen*>(&s)) {
                const auto o = static_cast<size_t>(f->obs[i]);
                n.letters.push_back(ref_alpha(o, true) + (f->net.outcomes[o] > 2 ? std::to_string(f->outcome[i]) : "") + copies_text(*f, i));
            }
            else if (dynamic_cast<const PauliScen*>(&s)) { n.letters.push_back(std::string(1, "XYZ"[i % 3]) + std::to_string(i / 3 + 1)); n.sep = ""; n.pauli = true; }
            else if (auto* a = dynamic_cast<const AlgScen*>(&s)) {
                const bool sa = a->mode == AlgScen::Mode::SelfAdjoint, in = a->mode == AlgScen::Mode::Interleaved;
                const size_t raw = sa ? i : in ? i / 2 : i % a->raw;
                const bool star = !sa && (in ? i % 2 : i >= a->raw);
                n.letters.push_back("X" + std::to_string(raw + 1) + (star ? "*" : ""));
            }
            else n.letters.push_back("X" + std::to_string(i + 1));
        }
        return n;
    }
    std::unique_ptr<Scen> any_scen(Rng& r) {
        if (r.chance(1, 4)) { for (int k = 0; k < 20; ++k) if (auto a = AlgScen::random(r, 3, true)) return a; }
        return random_scen(r);
    }

    // ---- reference: reading expressions ----------------------------------------------------------------------------
    /** expr := term { " + " term | " - " term };  term := { sign | number | 'i' | ' ' | '*' | '(' expr ')' } [ word | '#' id ['*'] ] */
    struct Reader {
        std::map<std::string, cd> words; // unsigned word -> value
        const std::vector<cd>* v = nullptr; bool braces = true; bool ok = true; std::string why;
        cd fail(const std::string& w) { if (ok) { ok = false; why = w; } return 0; }
        bool at(const std::string& s, size_t p, const char* x) const { return s.compare(p, std::strlen(x), x) == 0; }
        cd term(const std::string& s, size_t& p) {
            cd f = 1; bool any = false;
            while (p < s.size()) {
                if (at(s, p, " + ") || at(s, p, " - ") || s[p] == ')') break;
                const char ch = s[p];
                if (ch == ' ') { ++p; continue; }
                if (ch == '*' && any) { ++p; continue; }
                if (ch == '-') { f = -f; ++p; continue; }
                if (ch == 'i') { f *= cd{0, 1}; any = true; ++p; continue; }
                if (std::isdigit(static_cast<unsigned char>(ch)) || ch == '.') { size_t used = 0; f *= std::stod(s.substr(p), &used); p += used; any = true; continue; }
                if (ch == '(') { ++p; f *= expr(s, p); if (p >= s.size() || s[p] != ')') return fail("unbalanced brackets"); ++p; any = true; continue; }
                if (ch == '#') {
                    size_t used = 0; const long id = std::stol(s.substr(p + 1), &used); p += 1 + used;
                    bool conj = p < s.size() && s[p] == '*'; if (conj) ++p;
                    if (id < 0 || !v || static_cast<size_t>(id) >= v->size()) return fail("symbol out of range");
                    f *= conj ? std::conj((*v)[id]) : (*v)[id]; any = true; break;
                }
                size_t e = p;
                if (ch == '<') { e = s.find('>', p); if (e == std::string::npos) return fail("unclosed word"); ++e; }
                else while (e < s.size() && !at(s, e, " + ") && !at(s, e, " - ") && s[e] != ')') ++e;
                auto it = words.find(s.substr(p, e - p));
                if (it == words.end()) return fail("unknown word '" + s.substr(p, e - p) + "'");
                f *= it->second; any = true; p = e; break;
            }
            if (!any) return fail("empty term");
            return f;
        }
        cd expr(const std::string& s, size_t& p) {
            double sg = 1; cd sum = 0;
            if (at(s, p, " + ")) p += 3; else if (at(s, p, " - ")) { sg = -1; p += 3; }
            while (true) {
                sum += sg * term(s, p);
                if (!ok || p >= s.size() || s[p] == ')') return sum;
                if (at(s, p, " + ")) { sg = 1; p += 3; } else if (at(s, p, " - ")) { sg = -1; p += 3; } else return fail("junk after a term");
            }
        }
        cd read(const std::string& s) {
            ok = true; why.clear(); size_t p = 0;
            try { auto x = expr(s, p); if (ok && p != s.size()) return fail("junk at the end"); return x; } catch (std::exception& e) { return fail(e.what()); }
        }
    };
    std::string unsigned_text(std::string s) { while (!s.empty() && (s[0] == '-' || s[0] == 'i')) s.erase(0, 1); return s; }

    cd any_factor(Rng& r) {
        switch (r.below(8)) {
            case 0: return ipow(static_cast<int>(r.below(4)));
            case 1: return r.sym() * std::pow(10.0, static_cast<double>(r.range(-6, 9)));
            case 2: return {0, r.sym() * 3};
            case 3: return {static_cast<double>(r.range(-3, 3)), static_cast<double>(r.range(-3, 3))};
            case 4: return {r.coin() ? 1.0 : -1.0, r.sym()};
            case 5: return {r.sym(), r.coin() ? 1.0 : -1.0};
            case 6: return (r.coin() ? 1.0 : -1.0) * (1.0 + r.sym() * 1e-3);
            default: return {r.sym() * 2, r.sym() * 2};
        }
    }
    bool agree(cd a, cd b, double tol) { return std::abs(a - b) <= tol * std::max({1.0, std::abs(a), std::abs(b)}); }

    std::string utf8_of(uint32_t cp) {
        std::string s; auto put = [&](uint32_t b) { s.push_back(static_cast<char>(b)); };
        if (cp < 0x80) put(cp);
        else if (cp < 0x800) { put(0xc0 | (cp >> 6)); put(0x80 | (cp & 63)); }
        else if (cp < 0x10000) { put(0xe0 | (cp >> 12)); put(0x80 | ((cp >> 6) & 63)); put(0x80 | (cp & 63)); }
        else { put(0xf0 | (cp >> 18)); put(0x80 | ((cp >> 12) & 63)); put(0x80 | ((cp >> 6) & 63)); put(0x80 | (cp & 63)); }
        return s;
    }
    std::u16string utf16_of(uint32_t cp) {
        if (cp < 0x10000) return {static_cast<char16_t>(cp)};
        cp -= 0x10000; return {static_cast<char16_t>(0xd800 + (cp >> 10)), static_cast<char16_t>(0xdc00 + (cp & 0x3ff))};
    }
}

SECTION(alphabetic) {
    auto one = [&](size_t id) {
        for (bool up : {false, true}) {
            auto got = Moment::AlphabeticNamer{up}(id);
            if (!CHECK(got == ref_alpha(id, up), "alphabetic-name", "index " << id << " is '" << got << "', not '" << ref_alpha(id, up) << "'")) return;
            CHECK(Moment::AlphabeticNamer::index_to_name(id, up) == got, "alphabetic-name-static", "index " << id);
        }
        c.count("names");
    };
    for (size_t id = 0; id < 40000; ++id) one(id);
    size_t pow = 1, off = 0;
    for (int len = 1; len <= 9; ++len) { // every boundary between lengths
        pow *= 26; off += pow;
        for (long d = -60; d <= 60; ++d) if (static_cast<long>(off) + d >= 0) one(off + static_cast<size_t>(d));
        c.nontrivial("length " + std::to_string(len));
    }
    c.for_cases(c.n(20000, 400000), [&](Rng& r, uint64_t) { one(r.below(size_t{1} << (4 + r.below(44)))); });
}

SECTION(utf) {
    using To8 = Moment::UTF16toUTF8Convertor; using To16 = Moment::UTF8toUTF16Convertor;
    To8 to8; To16 to16;
    for (uint32_t cp = 0; cp < 0x110000; ++cp) { // every code point
        if (cp >= 0xd800 && cp < 0xe000) continue;
        auto u8 = utf8_of(cp); auto u16 = utf16_of(cp);
        if (!CHECK(to8.convert(u16) == u8, "utf8", "code point " << std::hex << cp)) break;
        if (!CHECK(to16.convert(u8) == u16, "utf16", "code point " << std::hex << cp)) break;
        c.count("code_points");
    }
    c.for_cases(c.n(4000, 200000), [&](Rng& r, uint64_t) {
        std::string u8; std::u16string u16; std::string how; const int style = static_cast<int>(r.below(4));
        for (size_t n = r.below(12); n > 0; --n) {
            uint32_t cp; do { cp = static_cast<uint32_t>(r.below(style == 0 ? 0x80 : style == 1 ? 0x800 : style == 2 ? 0x10000 : 0x110000)); if (r.chance(1, 6)) { static const uint32_t edge[] = {0, 0x7e, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff}; cp = edge[r.below(13)]; } } while (cp >= 0xd800 && cp < 0xe000);
            u8 += utf8_of(cp); u16 += utf16_of(cp); std::stringstream ss; ss << std::hex << cp << " "; how += ss.str();
        }
        CHECK(to8.convert(u16) == u8, "utf8-string", "code points " << how);
        CHECK(to16.convert(u8) == u16, "utf16-string", "code points " << how);
        c.count("strings"); if (u16.size() > 1) c.nontrivial(std::to_string(u16.size()) + "/" + std::to_string(u8.size()));
        // malformed input: nothing but memory safety is promised
        std::string bad; for (size_t n = r.below(9); n > 0; --n) bad.push_back(static_cast<char>(r.chance(1, 3) ? 0xc0 + r.below(64) : r.below(256)));
        std::u16string bad16; for (size_t n = r.below(6); n > 0; --n) bad16.push_back(static_cast<char16_t>(r.chance(1, 2) ? 0xd800 + r.below(0x800) : r.below(0x10000)));
        c.count("malformed", to16.convert(bad).size() > 0); c.count("malformed", to8.convert(bad16).size() > 0);
    });
}

SECTION(factors) {
    Reader rd;
    c.for_cases(c.n(40000, 1000000), [&](Rng& r, uint64_t) {
        const cd f = any_factor(r); const bool scalar = r.coin(), plus = r.coin(), fine = r.coin();
        if (std::abs(f) < 1e-9 || (std::abs(f.real()) < 1e-10 && f.real() != 0) || (std::abs(f.imag()) < 1e-10 && f.imag() != 0)) return;
        std::stringstream ss; if (fine) ss << std::setprecision(17);
        const bool space = Moment::format_factor(ss, f, scalar, plus);
        const std::string text = ss.str();
        const bool is_unit = std::abs(f.imag()) < 1e-14 && std::abs(std::abs(f.real()) - 1) < 1e-14;
        if (is_unit && !scalar) {
            CHECK(!space, "unit-factor-space", f << " asks for a space");
            CHECK(text == (f.real() > 0 ? (plus ? " + " : "") : (plus ? " - " : "-")), "unit-factor", f << " is printed as '" << text << "'");
        } else {
            CHECK(space, "factor-space", f << " asks for no space");
            const cd got = rd.read(text);
            CHECK(rd.ok && agree(got, f, fine ? 1e-13 : 1e-5), "factor-value", f << " is printed as '" << text << "' " << rd.why);
        }
        if (plus) CHECK(text.starts_with(" + ") || text.starts_with(" - "), "factor-plus", f << " is printed as '" << text << "'");
        else CHECK(!text.empty() ? text[0] != ' ' : is_unit, "factor-plus", f << " is printed as '" << text << "'");
        c.count("factors"); if (text.size() < 4) c.nontrivial(text);
    });
}

SECTION(words) {
    using namespace Moment::Locality;
    c.for_cases(c.n(900, 12000), [&](Rng& r, uint64_t) {
        auto s = any_scen(r); const auto& ctx = *s->ctx; c.note(s->desc);
        const LO lo = dynamic_cast<LocalityScen*>(s.get()) ? static_cast<LO>(r.below(3)) : LO::Default;
        NaturalLOFormatter nat; TraditionalLOFormatter trad;
        const auto names = namer_of(*s, lo); const bool braces = r.coin();
        auto print = [&](auto&& f) { std::stringstream ss; ContextualOS os{ss, ctx}; os.format_info.show_braces = braces; if (lo == LO::Natural) os.format_info.locality_formatter = &nat; if (lo == LO::Traditional) os.format_info.locality_formatter = &trad; f(os); return ss.str(); };
        std::map<std::string, Norm> seen;
        auto judge = [&](const OperatorSequence& q, const std::string& how) {
            const Norm n = norm_of(q);
            const auto t = print([&](ContextualOS& os) { ctx.format_sequence(os, q); });
            CHECK(t == names.word(n, braces), "word-text", s->desc << ": " << how << " is printed '" << t << "', not '" << names.word(n, braces) << "'");
            CHECK(t == print([&](ContextualOS& os) { os << q; }), "word-stream", s->desc << ": " << how);
            auto [it, fresh] = seen.emplace(t, n);
            CHECK(fresh || (it->second.zero && n.zero) || (it->second.letters == n.letters && it->second.phase == n.phase), "word-ambiguous", s->desc << ": '" << t << "' stands for two words");
            if (lo == LO::Default) {
                std::stringstream ss; ss << q;
                const auto plain = names.word(n, false);
                CHECK(ss.str() == plain && q.formatted_string() == plain && ctx.format_sequence(q) == plain, "word-plain", s->desc << ": " << how << " is printed '" << ss.str() << "' / '" << q.formatted_string() << "' / '" << ctx.format_sequence(q) << "', not '" << plain << "'");
            }
            c.count("words"); if (!n.zero && n.phase) c.count("signed_words");
            if (n.letters.size() > 1) c.nontrivial(t);
        };
        for (int k = 0; k < 4; ++k) judge(OperatorSequence::Identity(ctx, sign_of(k)), "identity " + std::to_string(k));
        judge(OperatorSequence::Zero(ctx), "zero");
        for (size_t i = 0; i < s->ops(); ++i) judge(s->make({static_cast<long>(i)}), "letter " + std::to_string(i));
        for (int k = 0; k < 40; ++k) {
            const Word w = random_word(r, s->ops(), 5); const int ph = static_cast<int>(r.below(4));
            judge(s->make(w, ph), wstr(w) + " i^" + std::to_string(ph));
            judge(s->make(w, ph).conjugate(), wstr(w) + "* i^-" + std::to_string(ph));
            // raw words: printed without normalisation
            if (!w.empty()) {
                const bool own = dynamic_cast<AlgScen*>(s.get()) || names.pauli;
                std::string want; for (size_t i = 0; i < w.size(); ++i) want += (i ? names.sep : "") + (own ? names.letters[w[i]] : "X" + std::to_string(w[i] + 1));
                const auto got = print([&](ContextualOS& os) { ctx.format_raw_sequence(os, to_storage(w)); });
                CHECK(got == (braces ? "<" + want + ">" : want), "raw-word-text", s->desc << ": raw " << wstr(w) << " is printed '" << got << "'");
            }
        }
        // combinations of words
        std::vector<std::pair<OperatorSequence, cd>> terms; Moment::RawPolynomial raw;
        Reader rd; cd want = 0;
        for (size_t k = r.below(5); k > 0; --k) {
            auto q = s->make(random_word(r, s->ops(), 3), static_cast<int>(r.below(4))); const cd f = Tab::coef(r, all_coefs[r.below(5)]); if (q.zero()) continue;
            raw.emplace_back(q, f);
            const auto n = norm_of(q); const auto key = n.letters.empty() ? "<I>" : names.body(n.letters, true);
            if (!n.letters.empty() || names.pauli) rd.words.emplace(key, n.letters.empty() ? cd{1, 0} : cd{r.sym(), r.sym()});
            want += f * ipow(n.phase) * (n.letters.empty() ? cd{1, 0} : rd.words.at(key));
        }
        if (lo == LO::Default) {
            const auto t = raw.to_string(ctx); const cd got = rd.read(t);
            CHECK(rd.ok && agree(got, want, 1e-4), "raw-polynomial-text", s->desc << ": '" << t << "' reads as " << got << ", not " << want << " " << rd.why);
            c.count("raw_polynomials");
        }
    });
}

SECTION(parties) {
    using namespace Moment::Locality;
    c.for_cases(c.n(500, 5000), [&](Rng& r, uint64_t) {
        // names the library chooses, and own names
        const bool made = r.coin(); const size_t np = 1 + r.below(made ? 30 : 3);
        std::vector<size_t> mmts, outs; std::vector<std::vector<std::pair<std::string, size_t>>> spec; std::vector<std::string> pnames;
        std::vector<Party> list;
        for (size_t p = 0; p < np; ++p) {
            mmts.push_back(r.chance(1, 8) ? 26 + r.below(4) : np > 5 ? r.below(2) : 1 + r.below(3)); spec.emplace_back(); pnames.push_back(made ? ref_alpha(p, true) : std::string(1, "PQR"[p]) + (r.coin() ? "arty" : ""));
            std::vector<Measurement> ml;
            for (size_t m = 0; m < mmts.back(); ++m) { outs.push_back(1 + r.below(r.chance(1, 10) ? 14 : 3)); spec.back().emplace_back(made ? ref_alpha(m, false) : std::string("mt") + static_cast<char>('a' + static_cast<int>(m) / 26) + static_cast<char>('a' + static_cast<int>(m) % 26) + "_", outs.back()); ml.emplace_back(spec.back().back().first, static_cast<oper_name_t>(outs.back())); }
            if (!made) list.emplace_back(static_cast<Moment::party_name_t>(p), pnames.back(), std::move(ml));
        }
        LocalityContext ctx{made ? Party::MakeList(mmts, outs) : std::move(list)};
        NaturalLOFormatter nat_; TraditionalLOFormatter trad_; const LocalityOperatorFormatter &nat = nat_, &trad = trad_;
        std::set<std::string> all_nat, all_trad; size_t op = 0;
        if (!CHECK(ctx.Parties.size() == np, "party-count", np)) return;
        for (size_t p = 0; p < np; ++p) {
            const auto& party = ctx.Parties[p];
            CHECK(party.name == pnames[p] && static_cast<size_t>(party.id()) == p, "party-name", "party " << p << " is '" << party.name << "', not '" << pnames[p] << "'");
            std::stringstream ps; ps << party; std::string want = pnames[p] + ": ";
            if (spec[p].empty()) want += " [empty]";
            for (size_t m = 0; m < spec[p].size(); ++m) {
                auto& [mn, no] = spec[p][m]; const auto& mmt = party.Measurements[m];
                CHECK(mmt.name == mn, "measurement-name", "measurement " << m << " of " << pnames[p] << " is '" << mmt.name << "'");
                want += std::string(m ? ", " : "") + "{"; 
                for (size_t o = 0; o < no; ++o) {
                    const std::string om = mn + std::to_string(o), full = pnames[p] + "." + om, tr = pnames[p] + std::to_string(o) + "|" + std::to_string(m);
                    want += (o ? ", " : "") + (o + 1 == no ? "(" + om + ")" : om);
                    CHECK(nat.format(party, mmt, static_cast<oper_name_t>(o)) == full && nat.format(mmt, static_cast<oper_name_t>(o)) == om, "natural-name", full << " is '" << nat.format(party, mmt, static_cast<oper_name_t>(o)) << "' / '" << nat.format(mmt, static_cast<oper_name_t>(o)) << "'");
                    CHECK(trad.format(party, mmt, static_cast<oper_name_t>(o)) == tr, "traditional-name", tr << " is '" << trad.format(party, mmt, static_cast<oper_name_t>(o)) << "'");
                    CHECK(trad.format(mmt, static_cast<oper_name_t>(o)) == std::to_string(o) + "|" + std::to_string(m), "traditional-name-partyless", "outcome " << o << " of measurement " << m << " is '" << trad.format(mmt, static_cast<oper_name_t>(o)) << "'");
                    CHECK(all_nat.insert(full).second && all_trad.insert(tr).second, "name-ambiguous", full << " / " << tr);
                    if (o + 1 < no) {
                        CHECK(party.format_operator(nat, static_cast<oper_name_t>(op)) == full && party.format_operator(trad, static_cast<oper_name_t>(op)) == tr, "operator-name", "operator " << op << " is '" << party.format_operator(nat, static_cast<oper_name_t>(op)) << "', not '" << full << "'");
                        ++op; c.count("operators");
                    }
                    // joint outcomes
                    const size_t p2 = r.below(np);
                    std::vector<PMOIndex> idx; PMOIndex a; a.party = static_cast<Moment::party_name_t>(p); a.mmt = static_cast<Moment::mmt_name_t>(m); a.global_mmt = mmt.Index().global_mmt; a.outcome = static_cast<oper_name_t>(o); idx.push_back(a);
                    std::string jt = full, jr = tr;
                    if (p2 != p && !spec[p2].empty()) {
                        PMOIndex b; const size_t m2 = r.below(spec[p2].size()), o2 = r.below(spec[p2][m2].second); b.party = static_cast<Moment::party_name_t>(p2); b.mmt = static_cast<Moment::mmt_name_t>(m2); b.global_mmt = ctx.Parties[p2].Measurements[m2].Index().global_mmt; b.outcome = static_cast<oper_name_t>(o2); idx.push_back(b);
                        jt += ";" + pnames[p2] + "." + spec[p2][m2].first + std::to_string(o2); jr += ";" + pnames[p2] + std::to_string(o2) + "|" + std::to_string(m2);
                    }
                    CHECK(ctx.format_sequence(nat, idx) == jt && ctx.format_sequence(trad, idx) == jr, "joint-outcome-name", jt << " is '" << ctx.format_sequence(nat, idx) << "'");
                }
                want += "}";
            }
            CHECK(ps.str() == want, "party-text", "'" << ps.str() << "' is not '" << want << "'");
            c.nontrivial(ps.str());
        }
        CHECK(ctx.format_sequence(nat, std::span<const PMOIndex>{}) == "1" && ctx.format_sequence(nat, std::span<const PMOIndex>{}, true) == "0", "joint-outcome-none", "");
        CHECK(op == ctx.size(), "operator-count", op << " named, " << ctx.size() << " exist");
    });
}

SECTION(inflation_names) {
    using namespace Moment::Inflation;
    c.for_cases(c.n(500, 5000), [&](Rng& r, uint64_t) {
        auto net = r.chance(1, 6) ? NetSpec{{2, r.below(2) ? 3ul : 0ul}, {{0, 1}}, 10 + r.below(3)} : random_network(r);
        if (r.chance(1, 8)) { net = NetSpec{std::vector<size_t>(26 + r.below(4), 2), {}, 1 + r.below(2)}; net.sources.push_back({0, static_cast<oper_name_t>(net.outcomes.size() - 1)}); }
        InflationScen s{net}; const auto& ctx = *s.ictx; c.note(s.desc);
        // network
        std::stringstream ss; ss << InflationScen::network(net); std::stringstream want;
        const size_t no = net.outcomes.size(); auto sources = net.sources; auto uses = s.obs_sources;
        for (size_t i = 0; i < no; ++i) if (uses[i].empty()) { uses[i].push_back(static_cast<int>(sources.size())); sources.push_back({static_cast<oper_name_t>(i)}); } // private source
        const size_t ns = sources.size();
        want << "Causal network with " << no << (no != 1 ? " observables" : " observable") << " and " << ns << (ns != 1 ? " sources" : " source") << ".\n";
        for (size_t i = 0; i < no; ++i) { want << "Observable " << ref_alpha(i, true) << " [" << net.outcomes[i] << "]"; for (size_t k = 0; k < uses[i].size(); ++k) want << (k ? ", " : " <- ") << uses[i][k]; want << "\n"; }
        for (size_t k = 0; k < ns; ++k) { want << "Source " << k; bool f = true; for (auto o : sources[k]) { want << (f ? " -> " : ", ") << ref_alpha(o, true); f = false; } want << "\n"; }
        CHECK(ctx.to_string().find(want.str()) != std::string::npos, "context-text", s.desc << ": '" << ctx.to_string() << "'");
        CHECK(ss.str() == want.str(), "network-text", s.desc << ": '" << ss.str() << "' is not '" << want.str() << "'");
        // outcomes
        std::map<std::string, std::string> seen;
        for (size_t op = 0; op < s.ops(); ++op) {
            size_t v = 0, mul = 1; for (auto k : s.copy[op]) { v += mul * static_cast<size_t>(k); mul *= net.inflation; }
            const auto o = static_cast<size_t>(s.obs[op]);
            const size_t outcomes = net.outcomes[o] ? net.outcomes[o] : 1;
            for (size_t k = 0; k < outcomes; ++k) {
                std::vector<OVOIndex> idx{OVOIndex{static_cast<oper_name_t>(o), static_cast<oper_name_t>(v), static_cast<oper_name_t>(k)}};
                const std::string name = ref_alpha(o, true) + copies_text(s, op) + "." + std::to_string(k), got = ctx.format_sequence(idx);
                CHECK(got == name, "outcome-name", s.desc << ": '" << got << "' is not '" << name << "'");
                std::stringstream o1; o1 << idx[0]; CHECK(o1.str() == ref_alpha(o, true) + std::to_string(v) + "." + std::to_string(k), "outcome-index-name", o1.str());
                const std::string key = std::to_string(o) + "/" + std::to_string(v) + "/" + std::to_string(k);
                auto [it, fresh] = seen.emplace(got, key); CHECK(fresh || it->second == key, "outcome-name-ambiguous", s.desc << ": '" << got << "'");
                idx.push_back(idx[0]); CHECK(ctx.format_sequence(idx) == name + ";" + name, "joint-outcome-name", s.desc << ": '" << ctx.format_sequence(idx) << "'");
                c.count("outcomes");
            }
        }
        CHECK(ctx.format_sequence(std::vector<OVOIndex>{}) == "1", "joint-outcome-none", "");
        if (net.inflation > 1) c.nontrivial(s.desc);
    });
}

SECTION(name_tables) {
    using namespace Moment::Algebraic; using Mode = AlgebraicPrecontext::ConjugateMode;
    c.for_cases(c.n(1500, 40000), [&](Rng& r, uint64_t) {
        const Mode mode = std::array{Mode::SelfAdjoint, Mode::Bunched, Mode::Interleaved}[r.below(3)];
        const size_t raw = 1 + r.below(r.chance(1, 10) ? 30 : 5);
        std::set<std::string> set; std::vector<std::string> names;
        const bool single = raw < 20 && r.chance(1, 3);
        while (names.size() < raw) {
            std::string n(1, static_cast<char>((r.coin() ? 'A' : 'a') + static_cast<int>(r.below(26))));
            if (!single) for (size_t k = r.below(4); k > 0; --k) n.push_back("abAZ019_.|"[r.below(10)]);
            if (set.insert(n).second) names.push_back(n);
        }
        const bool dflt = r.chance(1, 5); if (dflt) for (size_t i = 0; i < raw; ++i) names[i] = "X" + std::to_string(i + 1);
        AlgebraicPrecontext apc{static_cast<oper_name_t>(raw), mode};
        auto in = names; auto table = dflt ? NameTable{apc} : NameTable{apc, std::move(in)};
        const size_t ops = apc.num_operators; std::set<std::string> distinct;
        for (size_t i = 0; i < ops; ++i) {
            const size_t base = mode == Mode::SelfAdjoint ? i : mode == Mode::Interleaved ? i / 2 : i % raw;
            const bool star = mode == Mode::Interleaved ? i % 2 : i >= raw;
            const std::string want = names[base] + (star ? "*" : "");
            CHECK(table[i] == want, "operator-name", "operator " << i << " is '" << table[i] << "', not '" << want << "'");
            CHECK(table.find(want) == static_cast<oper_name_t>(i), "operator-of-name", "'" << want << "' is operator " << table.find(want) << ", not " << i);
            if (mode == Mode::SelfAdjoint) CHECK(table.find(want + "*") == static_cast<oper_name_t>(i), "operator-of-conjugate-name", want);
            CHECK(distinct.insert(table[i]).second, "operator-name-twice", table[i]);
            std::stringstream ss; table.format_stream(ss, static_cast<oper_name_t>(i)); CHECK(ss.str() == want, "operator-name-stream", ss.str());
            c.count("names");
        }
        CHECK(table.all_single() == std::all_of(names.begin(), names.end(), [](auto& n) { return n.size() == 1; }), "all-single", names[0] << " of " << raw);
        for (long bad : {-1L, static_cast<long>(ops), static_cast<long>(ops) + 7}) { std::stringstream ss; table.format_stream(ss, static_cast<oper_name_t>(bad)); CHECK(!ss.str().empty() && !distinct.count(ss.str()), "unknown-operator-name", bad << " is '" << ss.str() << "'"); }
        // refused
        auto refused = [&](const std::string& n) { return verif::throws([&] { (void)table.find(n); }); };
        CHECK(refused("") && refused("no such name") && refused(names[0] + "**"), "unknown-name-found", names[0] << " of " << raw);
        auto bad = names; std::string why;
        switch (r.below(6)) {
            case 0: bad.push_back("Q0"); why = "too many"; break;
            case 1: bad.pop_back(); why = "too few"; break;
            case 2: if (raw < 2) return; bad[1 + r.below(raw - 1)] = bad[0]; why = "twice"; break;
            case 3: bad[r.below(raw)] = ""; why = "empty"; break;
            case 4: bad[r.below(raw)] = std::string(1, "0_*-. 9|"[r.below(8)]) + "a"; why = "first letter"; break;
            default: bad[r.below(raw)] += std::string(1, "* -+;<>#,"[r.below(9)]); why = "character"; break;
        }
        CHECK(verif::throws([&] { NameTable t{apc, std::move(bad)}; }), "bad-names-accepted", why);
        c.count("refused"); c.nontrivial(std::to_string(static_cast<int>(mode)) + "/" + std::to_string(raw) + "/" + why);
    });
}

SECTION(named_algebra) {
    using namespace Moment::Algebraic; using Mode = AlgebraicPrecontext::ConjugateMode;
    // words in named operators: one letter names are joined, others separated; rules are printed with both sides
    c.for_cases(c.n(1200, 12000), [&](Rng& r, uint64_t) {
        const Mode mode = std::array{Mode::SelfAdjoint, Mode::Bunched, Mode::Interleaved}[r.below(3)];
        const size_t raw = 1 + r.below(3); const bool single = r.coin();
        std::vector<std::string> names; for (size_t i = 0; i < raw; ++i) names.push_back(std::string(1, static_cast<char>('P' + static_cast<int>(i))) + (single ? "" : r.coin() ? "a" : "_1"));
        AlgebraicPrecontext apc{static_cast<oper_name_t>(raw), mode};
        std::vector<OperatorRule> rules; std::string want_rule, want_named, how;
        std::vector<std::string> letters; for (size_t i = 0; i < static_cast<size_t>(apc.num_operators); ++i) { const size_t b = mode == Mode::SelfAdjoint ? i : mode == Mode::Interleaved ? i / 2 : i % raw; letters.push_back(names[b] + ((mode == Mode::Interleaved ? i % 2 : i >= raw) ? "*" : "")); }
        Word l, q; for (size_t k = 1 + r.below(3); k > 0; --k) l.push_back(static_cast<long>(r.below(apc.num_operators)));
        for (size_t k = r.below(l.size()); k > 0; --k) q.push_back(static_cast<long>(r.below(apc.num_operators)));
        const int ph = static_cast<int>(r.below(4)); const bool zero = r.chance(1, 4);
        rules.emplace_back(Moment::HashedSequence{to_storage(l), apc.hasher}, zero ? Moment::HashedSequence{true} : Moment::HashedSequence{to_storage(q), apc.hasher, sign_of(ph)});
        auto ids = [](const Word& w) { std::string s; for (auto x : w) s += "X" + std::to_string(x); return s; };
        auto nms = [&](const Word& w) { std::string s; for (auto x : w) s += letters[static_cast<size_t>(x)]; return s; };
        want_rule = ids(l) + " -> " + (zero ? "0" : sign_text(ph) + (q.empty() ? "I" : ids(q)));
        want_named = nms(l) + " -> " + (zero ? "0" : sign_text(ph) + (q.empty() ? "I" : nms(q)));
        std::stringstream ss; ss << rules[0];
        CHECK(ss.str() == want_rule, "rule-text", "'" << ss.str() << "' is not '" << want_rule << "'");
        auto table = std::make_unique<NameTable>(apc, std::move(names));
        { std::stringstream lg; OStreamRuleLogger log{lg, table.get()}; log.rule_introduced(rules[0]); log.rule_removed(rules[0]); const auto t = lg.str(); CHECK(t.find(want_named) != std::string::npos && t.find(want_named) != t.rfind(want_named), "rule-log-text", "'" << t << "' does not give '" << want_named << "'"); }
        auto ctx = std::make_unique<AlgebraicContext>(apc, std::move(table), false, false, rules);
        { std::stringstream rb; rb << ctx->rulebook(); size_t lines = 0; for (auto& [h, rule] : ctx->rulebook().rules()) { std::stringstream one; one << rule << "\n"; lines += rb.str().find(one.str()) != std::string::npos; } CHECK(lines == ctx->rulebook().rules().size(), "rulebook-rules-missing", rb.str()); }
        for (int k = 0; k < 20; ++k) {
            const Word w = random_word(r, ctx->size(), 4); const int p = static_cast<int>(r.below(4));
            OperatorSequence seq{to_storage(w), *ctx, sign_of(p)}; const Norm n = norm_of(seq);
            std::string t; for (size_t i = 0; i < n.letters.size(); ++i) t += (i && !single ? ";" : "") + letters[static_cast<size_t>(n.letters[i])];
            t = n.zero ? "0" : n.letters.empty() ? sign_scalar(n.phase) : sign_text(n.phase) + t;
            CHECK(seq.formatted_string() == t, "named-word-text", "'" << seq.formatted_string() << "' is not '" << t << "' for " << want_named);
            c.count("words"); if (n.letters.size() > 1) c.nontrivial(t);
        }
    });
}

SECTION(expressions) {
    c.for_cases(c.n(2500, 25000), [&](Rng& r, uint64_t) {
        auto t = Tab::random(r, 10); c.note(t->desc);
        auto v = t->values(r);
        const auto& ctx = t->ms->Context();
        const bool braces = r.coin(), fine = r.coin(); const double tol = fine ? 1e-11 : 2e-4;
        Reader rd; rd.v = &v; rd.braces = braces;
        bool clash = false;
        for (size_t i = 2; i < t->size(); ++i) {
            const auto& s = t->sym()[i]; if (!s.has_sequence()) continue;
            auto reg = [&](const OperatorSequence& q, cd val) {
                std::stringstream ss; ContextualOS os{ss, ctx}; os.format_info.show_braces = braces; ctx.format_sequence(os, q);
                auto [it, fresh] = rd.words.emplace(unsigned_text(ss.str()), val / ipow(sign_int(q.get_sign())));
                if (!fresh && std::abs(it->second - val / ipow(sign_int(q.get_sign()))) > 1e-9) clash = true;
            };
            reg(s.sequence(), v[i]); reg(s.sequence_conj(), std::conj(v[i]));
        }
        CHECK(!clash, "word-ambiguous", t->desc << ": two symbols print as the same word");
        for (int k = 0; k < 25; ++k) {
            const auto p = t->poly(r, 5, all_coefs[r.below(5)]); const cd want = Tab::eval(p, v);
            double mag = 1; for (auto& m : p) mag += std::abs(Tab::eval(m, v));
            for (int mode = 0; mode < 4; ++mode) {
                std::stringstream ss; if (fine) ss << std::setprecision(17);
                std::string how;
                if (mode == 0) { // symbol numbers, no context
                    if (r.coin()) ss << std::showpos;
                    ss << std::showbase; const auto fl = ss.flags(); ss << p; how = "without context";
                    CHECK(ss.flags() == fl, "stream-flags", "printing a polynomial changes the stream's flags");
                } else {
                    ContextualOS os{ss, ctx, t->sym()};
                    os.format_info.show_braces = braces; os.format_info.hash_before_symbol_id = true;
                    os.format_info.prefactor_join = std::array{Join::Space, Join::Asterix, Join::Nothing}[r.below(3)];
                    os.format_info.display_symbolic_as = mode == 1 ? DisplayAs::SymbolIds : DisplayAs::Operators;
                    how = mode == 1 ? "by number" : "by word";
                    if (mode == 3) { os.format_info.first_in_polynomial = r.coin(); if (p.empty()) continue; const auto m = p[r.below(p.size())]; os << m; const cd w = Tab::eval(m, v), got = rd.read(ss.str()); CHECK(rd.ok && agree(got, w, tol * mag), "monomial-text", t->desc << ": " << Tab::text(m) << " is printed '" << ss.str() << "', read as " << got << ", not " << w << " " << rd.why); continue; }
                    os << p;
                }
                const cd got = rd.read(ss.str());
                CHECK(rd.ok && agree(got, want, tol * mag), "polynomial-text", t->desc << ": " << Tab::text(p) << " " << how << " is printed '" << ss.str() << "', read as " << got << ", not " << want << " " << rd.why);
                c.count("polynomials"); if (p.size() > 1) c.nontrivial(ss.str());
            }
            // helper functions
            StringFormatContext sfc{ctx, t->sym()}; sfc.format_info.show_braces = braces; sfc.format_info.hash_before_symbol_id = true;
            const auto helper = p.as_string(sfc); const cd got = rd.read(helper);
            CHECK(rd.ok && agree(got, want, 2e-4 * mag), "polynomial-as-string", t->desc << ": " << Tab::text(p) << " is '" << helper << "' " << rd.why);
            if (!p.empty()) { const auto m = p[0]; const cd g = rd.read(m.as_string(sfc)); CHECK(rd.ok && agree(g, Tab::eval(m, v), 2e-4 * mag), "monomial-as-string", t->desc << ": " << Tab::text(m) << " is '" << m.as_string(sfc) << "'"); }
        }
        // symbols
        for (size_t i = 2; i < t->size(); ++i) {
            const auto& s = t->sym()[i]; std::stringstream a, b, f, g;
            a << s; { ContextualOS os{b, ctx, t->sym()}; os << s; }
            { ContextualOS os{f, ctx, t->sym()}; os.format_info.hash_before_symbol_id = true; os.format_info.show_braces = braces; os << s.ForwardDisplayElement(); }
            { ContextualOS os{g, ctx, t->sym()}; os.format_info.hash_before_symbol_id = true; os.format_info.show_braces = braces; os << s.ConjugateDisplayElement(); }
            const auto head = "#" + std::to_string(i) + ":\t";
            const auto key = s.basis_key();
            for (auto* x : {&a, &b}) {
                const auto txt = x->str();
                CHECK(txt.starts_with(head), "symbol-text", txt);
                const bool re = key.first >= 0, im = key.second >= 0;
                CHECK((txt.find("Re#=" + std::to_string(key.first)) != std::string::npos) == re && (txt.find("Im#=" + std::to_string(key.second)) != std::string::npos) == im, "symbol-basis-text", txt);
                CHECK((txt.find("Hermitian") != std::string::npos) == s.is_hermitian(), "symbol-hermitian-text", txt);
            }
            auto x = rd.read(f.str()); CHECK(rd.ok && agree(x, v[i], 1e-9), "symbol-word-text", t->desc << ": symbol " << i << " is '" << f.str() << "' " << rd.why);
            x = rd.read(g.str()); CHECK(rd.ok && agree(x, std::conj(v[i]), 1e-9), "symbol-conjugate-text", t->desc << ": conjugate of symbol " << i << " is '" << g.str() << "' " << rd.why);
            c.count("symbols");
        }
        std::stringstream st; st << t->sym(); size_t found = 0; for (size_t i = 0; i < t->size(); ++i) found += st.str().find("#" + std::to_string(i) + ":") != std::string::npos;
        CHECK(found == t->size(), "symbol-table-text", found << " of " << t->size() << " symbols are listed");
    });
}

SECTION(monomial_reading) {
    using Moment::Monomial;
    c.for_cases(c.n(20000, 400000), [&](Rng& r, uint64_t) {
        const auto id = static_cast<Moment::symbol_name_t>(r.chance(1, 10) ? r.below(2147483647) : r.below(40)); const bool conj = r.coin(), neg = r.coin();
        const double f = r.coin() ? static_cast<double>(r.range(-20, 20)) / 4 : r.sym() * std::pow(10, static_cast<double>(r.range(-9, 9)));
        std::stringstream ss; ss << std::setprecision(17);
        Monomial want{id, 1.0, conj}; std::string text;
        switch (r.below(4)) {
            case 0: text = (neg ? "-" : "") + std::to_string(id) + (conj ? "*" : ""); want.factor = neg ? -1 : 1; if (id == 0 && neg) return; break;
            case 1: text = "#" + std::to_string(id) + (conj ? "*" : ""); break;
            case 2: ss << f << "#" << id << (conj ? "*" : ""); text = ss.str(); want.factor = f; break;
            default: ss << std::fixed << std::setprecision(6) << f; text = ss.str(); want = Monomial{1, std::stod(text), false}; break;
        }
        if (text.size() > Monomial::max_strlen) { CHECK(verif::throws([&] { Monomial m{text}; }), "long-monomial-read", text); return; }
        Monomial got{text};
        CHECK(got.id == want.id && got.factor == want.factor && got.conjugated == want.conjugated, "monomial-read", "'" << text << "' is read as " << Tab::text(got));
        c.count("read"); 
        // own output of plain symbols is read back
        std::stringstream out; Monomial plain{static_cast<Moment::symbol_name_t>(2 + r.below(50)), r.coin() ? 1.0 : -1.0, r.coin()}; out << plain;
        CHECK(Monomial{out.str()} == plain, "monomial-round-trip", "'" << out.str() << "'");
        // damaged text must be refused or mean what it says, without undefined behaviour
        std::string bad = text; for (size_t k = 1 + r.below(3); k > 0; --k) { const size_t at = r.below(bad.size() + 1); if (r.coin() && at < bad.size()) bad[at] = "0129.#*-+ex \x7f"[r.below(13)]; else bad.insert(bad.begin() + static_cast<long>(at), "0129.#*-+ex \x7f"[r.below(13)]); }
        try { Monomial m{bad}; c.count("damaged_read"); CHECK(m.id >= 0, "negative-symbol-read", "'" << bad << "' is read as " << Tab::text(m)); } catch (const Monomial::SymbolParseException&) { c.count("damaged_refused"); }
        if (text.size() < 6) c.nontrivial(text);
    });
    for (const char* bad : {"", "a", "#", "*", "-", "1.0#", "x#1", "1#x", "1#-3", "1#2#3", "--3", "3**", "99999999999", "-99999999999", "1e999#2", "1e999.", "3 x", "0x", ".", "1.5x", "nan.", "#*"})
        CHECK(verif::throws([&] { Monomial m{std::string(bad)}; }), "bad-monomial-read", "'" << bad << "'");
    try { Monomial m{std::string("-2147483648")}; CHECK(m.id >= 0, "negative-symbol-read", "-2147483648"); } catch (const Monomial::SymbolParseException&) { }
    CHECK(verif::throws([&] { Monomial m{std::string(100000, '1')}; }), "long-monomial-read", "");
}

SECTION(matrices) {
    c.for_cases(c.n(500, 5000), [&](Rng& r, uint64_t) {
        auto s = random_sys(r, -1, 6); auto& ms = s->sys(); c.note(s->desc());
        const auto names = namer_of(*s->scen); const auto& ctx = ms.Context();
        std::map<std::string, std::ptrdiff_t> seen;
        auto judge = [&](std::ptrdiff_t idx, const std::string& want) {
            const auto& m = ms[idx]; const auto d = m.Description();
            auto unquoted = [](std::string x) { std::erase(x, '"'); return x; };
            if (!want.empty()) CHECK(unquoted(d) == unquoted(want), "matrix-description", s->desc() << ": '" << d << "' is not '" << want << "'");
            auto [it, fresh] = seen.emplace(d, idx); CHECK(fresh || it->second == idx, "matrix-description-ambiguous", s->desc() << ": matrices " << idx << " and " << it->second << " are both '" << d << "'");
            std::stringstream ss; ss << m; std::stringstream w;
            w << m.Dimension() << "x" << m.Dimension() << " " << (m.HasComplexBasis() ? (m.Hermitian() ? "Hermitian matrix" : "Complex matrix") : (m.Hermitian() ? "Symmetric matrix" : "Real matrix"));
            CHECK(ss.str().starts_with(w.str()), "matrix-text", "'" << ss.str() << "' does not start '" << w.str() << "'");
            c.count("matrices"); c.nontrivial(d);
        };
        const size_t cap = s->level_cap(10, 2);
        for (size_t l = 0; l <= cap; ++l) { auto [i, m] = ms.MomentMatrix.create(l); judge(i, "Moment Matrix, Level " + std::to_string(l)); }
        for (int k = 0; k < 4; ++k) {
            auto w = s->random_nonzero(r, 3); auto q = s->make(w); const size_t l = r.below(std::min<size_t>(cap, 1) + 1);
            auto [i, m] = ms.LocalizingMatrix.create(LocalizingMatrixIndex{l, q});
            judge(i, "Localizing Matrix, Level " + std::to_string(l) + ", Word \"" + names.word(norm_of(q), false) + "\"");
            std::stringstream a; a << LocalizingMatrixIndex{l, q}; CHECK(a.str() == "Localizing matrix, Level " + std::to_string(l) + ", Word \"" + names.word(norm_of(q), false) + "\"", "index-text", a.str());
        }
        (void)ctx;
    });
}

SECTION(derived) {
    // a symbol of a symmetrised system is printed as the combination of original moments it stands for
    c.for_cases(c.n(400, 3000), [&](Rng& r, uint64_t) {
        auto sy = random_sym(r); auto& ms = sy.sys->sys(); c.note(sy.desc);
        if (closure(sy.gens, 24).empty()) return;
        const size_t len = 1 + r.below(sy.sys->level_words(2).size() > 40 ? 1 : 2);
        sy.sys->ms->generate_dictionary(len);
        std::shared_ptr<MatrixSystem> shared(sy.sys->ms.get(), [](MatrixSystem*) {});
        auto sms = std::make_unique<SymmetrizedMatrixSystem>(std::move(shared), std::make_unique<Group>(ms.Context(), std::make_unique<Representation>(1, Group::dimino_generation(sparse_all(sy.gens)))), len, std::make_unique<LUMapCoreProcessor>());
        const auto& base = std::as_const(ms).Symbols(); const auto& table = std::as_const(*sms).Symbols();
        std::vector<cd> v; for (size_t i = 0; i < base.size(); ++i) { if (i < 2) { v.emplace_back(i); continue; } auto k = base[i].basis_key(); v.emplace_back(k.first >= 0 ? r.sym() : 0.0, k.second >= 0 ? r.sym() : 0.0); }
        Reader rd; rd.v = &v;
        for (size_t i = 2; i < base.size(); ++i) { if (!base[i].has_sequence()) return; std::stringstream ss; auto reg = [&](const OperatorSequence& q, cd x) { std::stringstream s2; ContextualOS os{s2, ms.Context()}; os.format_info.show_braces = true; ms.Context().format_sequence(os, q); rd.words.emplace(unsigned_text(s2.str()), x / ipow(sign_int(q.get_sign()))); }; reg(base[i].sequence(), v[i]); reg(base[i].sequence_conj(), std::conj(v[i])); }
        std::vector<cd> dv(table.size()); dv[0] = 0; if (dv.size() > 1) dv[1] = 1;
        for (size_t i = 2; i < table.size(); ++i) { if (static_cast<long>(i) >= static_cast<long>(sms->map().inv_size())) return; dv[i] = Tab::eval(sms->map().inverse(static_cast<Moment::symbol_name_t>(i)), v); }
        for (int k = 0; k < 20; ++k) {
            if (table.size() < 3) return;
            Polynomial::storage_t st; for (size_t n = 1 + r.below(3); n > 0; --n) st.emplace_back(static_cast<Moment::symbol_name_t>(1 + r.below(table.size() - 1)), Tab::coef(r, all_coefs[r.below(5)]), false);
            auto p = sms->polynomial_factory()(std::move(st)); const cd want = Tab::eval(p, dv);
            std::stringstream ss; ss << std::setprecision(17); ContextualOS os{ss, sms->Context(), table}; os.format_info.hash_before_symbol_id = true; os << p;
            const cd got = rd.read(ss.str()); double mag = 1; for (auto& m : p) mag += std::abs(m.factor) * (1 + std::abs(dv[m.id]));
            CHECK(rd.ok && agree(got, want, 1e-3 * mag), "derived-text", sy.desc << ": " << Tab::text(p) << " is printed '" << ss.str() << "', read as " << got << ", not " << want << " " << rd.why);
            c.count("polynomials"); if (p.size() > 1) c.nontrivial(ss.str());
        }
    });
}
