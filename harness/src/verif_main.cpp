#include "verif.h"
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

namespace verif {
    std::vector<std::pair<std::string, SectionFn>>& Reg::all() {
        static std::vector<std::pair<std::string, SectionFn>> v; return v;
    }
    Reg::Reg(const char* name, SectionFn fn) { all().emplace_back(name, fn); }
    static constexpr size_t crumb_size = 4096;
    void Ctx::note(const std::string& s) {
        crumb = s;
        if (crumb_page) {
            const size_t len = std::min(s.size(), crumb_size - 64);
            int off = snprintf(crumb_page, 40, "#%llu ", (unsigned long long) current_case);
            memcpy(crumb_page + off, s.data(), len);
            crumb_page[off + len] = 0;
        }
    }
}
static std::string esc(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}
int main(int argc, char** argv) {
    std::string section, out; verif::Ctx c; bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--list") list = true;
        else if (a == "--section") section = val();
        else if (a == "--seed") c.seed = std::stoull(val());
        else if (a == "--thorough") c.thorough = true;
        else if (a == "--case") c.only_case = std::stoll(val());
        else if (a == "--out") out = val();
    }
    if (list) { for (auto& p : verif::Reg::all()) std::cout << p.first << "\n"; return 0; }
    if (!out.empty()) {
        int fd = open((out + ".crumb").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, 4096) == 0) {
            void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) c.crumb_page = static_cast<char*>(p);
        }
    }
    bool found = false;
    for (auto& p : verif::Reg::all()) {
        if (p.first != section) continue;
        found = true;
        c.section = section;
        try { p.second(c); }
        catch (const std::exception& e) { c.violation("unexpected-exception", std::string(e.what()) + " during " + c.crumb); }
        catch (const char* e) { c.violation("unexpected-exception", std::string(e) + " during " + c.crumb); }
    }
    if (!found) { std::cerr << "no such section\n"; return 3; }
    std::stringstream js;
    js << "{\"section\":" << esc(section) << ",\"cases\":" << c.cases << ",\"evaluations\":" << c.evaluations
       << ",\"distinct\":" << c.distinct.size() << ",\"counters\":{";
    bool f = true;
    for (auto& [k, v] : c.counters) { js << (f ? "" : ",") << esc(k) << ":" << v; f = false; }
    js << "},\"samples\":[";
    f = true;
    for (auto& s : c.samples) { js << (f ? "" : ",") << esc(s); f = false; }
    js << "],\"violations\":[";
    f = true;
    for (auto& v : c.violations) {
        js << (f ? "" : ",") << "{\"key\":" << esc(v.key) << ",\"msg\":" << esc(v.msg) << ",\"crumb\":" << esc(v.crumb)
           << ",\"case\":" << v.case_index << ",\"times\":" << c.per_key[v.key] << "}"; f = false;
    }
    js << "]}\n";
    if (out.empty()) std::cout << js.str(); else { std::ofstream o(out); o << js.str(); }
    std::cout.flush();
    return 0;
}
