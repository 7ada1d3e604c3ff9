// Common harness: seeded cases, monitors' verdicts, crumbs for crashes, evidence counters.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace verif {
    /** splitmix64 based generator: independent of the standard library's distributions. */
    class Rng {
        uint64_t s;
    public:
        explicit Rng(uint64_t seed) : s{seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL} { next(); next(); }
        uint64_t next() {
            uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
            return z ^ (z >> 31);
        }
        uint64_t below(uint64_t n) { return n ? next() % n : 0; }
        int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo + 1))); }
        bool chance(int num, int den) { return static_cast<int>(below(den)) < num; }
        bool coin() { return (next() >> 17) & 1; }
        double unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
        double sym() { return 2.0 * unit() - 1.0; }
        double gauss() {
            double u = unit(), v = unit();
            if (u < 1e-300) u = 1e-300;
            return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * v);
        }
        template<class T> T& pick(std::vector<T>& v) { return v[below(v.size())]; }
        template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
        template<class T> void shuffle(std::vector<T>& v) {
            for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
        }
    };

    struct Violation { std::string key, msg, crumb; uint64_t case_index; };

    class Ctx {
    public:
        std::string section;
        uint64_t seed = 1;
        bool thorough = false;
        int64_t only_case = -1;
        uint64_t scale = 1;
        uint64_t current_case = 0;
        uint64_t evaluations = 0;          // oracle comparisons made
        uint64_t cases = 0;
        std::unordered_set<uint64_t> distinct; // hashes of distinct nontrivial cases
        std::map<std::string, uint64_t> counters;
        std::vector<std::string> samples;
        std::vector<Violation> violations;
        std::map<std::string, uint64_t> per_key;
        std::string crumb;
        char* crumb_page = nullptr;
        std::mutex mtx;

        void note(const std::string& s);   // what is being done now: survives a crash
        /** Count cases: quick or thorough. */
        uint64_t n(uint64_t quick, uint64_t deep) const { return thorough ? deep : quick; }

        /** Record one nontrivial, distinct (by key) case. */
        void nontrivial(const std::string& key) {
            std::lock_guard l{mtx};
            const auto h = std::hash<std::string>{}(section + "|" + key);
            const bool isnew = distinct.insert(h).second;
            if (isnew && samples.size() < 4) samples.emplace_back(section + ": " + key.substr(0, 300));
        }
        void count(const std::string& what, uint64_t by = 1) { std::lock_guard l{mtx}; counters[what] += by; }

        void violation(const std::string& key, const std::string& msg) {
            std::lock_guard l{mtx};
            if (per_key[key]++ < 3 && violations.size() < 60) {
                violations.push_back({key, msg.substr(0, 3000), crumb.substr(0, 2000), current_case});
            }
        }
        /** One oracle evaluation. */
        template<class F>
        bool check(bool ok, const char* key, F&& msg) {
            { std::lock_guard l{mtx}; ++evaluations; }
            if (!ok) {
                if constexpr (std::is_invocable_v<F>) violation(key, msg());
                else violation(key, std::string(msg));
            }
            return ok;
        }
        /** Run `count` cases, each with its own generator: any case can be replayed on its own. */
        template<class F>
        void for_cases(uint64_t count, F&& f) {
            for (uint64_t i = 0; i < count; ++i) {
                if (only_case >= 0 && static_cast<uint64_t>(only_case) != i) continue;
                run_case(i, f);
            }
        }
        template<class F>
        void run_case(uint64_t i, F&& f) {
            current_case = i;
            ++cases;
            Rng rng(std::hash<std::string>{}(section) ^ (seed * 1000003ULL + i * 7919ULL + 17ULL));
            note("case " + std::to_string(i));
            try { f(rng, i); }
            catch (const std::exception& e) { violation("unexpected-exception", std::string("exception: ") + e.what() + " during: " + crumb); }
            catch (const char* e) { violation("unexpected-exception", std::string("exception: ") + e + " during: " + crumb); }
            catch (...) { violation("unexpected-exception", "unknown exception during: " + crumb); }
        }
    };

    using SectionFn = void (*)(Ctx&);
    struct Reg {
        Reg(const char* name, SectionFn fn);
        static std::vector<std::pair<std::string, SectionFn>>& all();
    };

    template<class C> std::string join(const C& c, const char* sep = ",") {
        std::stringstream ss; bool first = true;
        for (const auto& x : c) { if (!first) ss << sep; first = false; ss << +x; }
        return ss.str();
    }
    inline bool close(double a, double b, double tol = 1e-8) { return std::abs(a - b) <= tol * std::max({1.0, std::abs(a), std::abs(b)}); }
    inline bool close(std::complex<double> a, std::complex<double> b, double tol = 1e-8) {
        return std::abs(a - b) <= tol * std::max({1.0, std::abs(a), std::abs(b)});
    }
    template<class A> std::string str(const A& a) { std::stringstream ss; ss << a; return ss.str(); }

    /** True if f throws any std::exception (or the shim's const char*). */
    template<class F> bool throws(F&& f, std::string* what = nullptr) {
        try { f(); } catch (const std::exception& e) { if (what) *what = e.what(); return true; }
        catch (const char* e) { if (what) *what = e; return true; }
        return false;
    }
}
#define SECTION(name) static void sec_##name(verif::Ctx& c); \
    static verif::Reg reg_##name{#name, sec_##name}; \
    static void sec_##name([[maybe_unused]] verif::Ctx& c)
namespace verif { inline const char* key_text(const char* k) { return k; } inline const char* key_text(const std::string& k) { return k.c_str(); } }
#define CHECK(cond, key, msgexpr) c.check((cond), verif::key_text(key), [&]() -> std::string { std::stringstream ss_; ss_ << msgexpr; return ss_.str(); })
