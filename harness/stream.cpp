// Shared stream iterators and memory files.
//  {"k":"ops","w":..,"in":[[ints]..],"ops":[..]}      schedule on iterators
//     -> {"e":"","r":[{"s":[..],"eq":[..],"odd":n}..],"leak":n}
//  {"k":"lex","w":..,"calls":[..],"flags":n,"in":[[ints]..],"bs":n,"inc":n}   lexing through a stream
//     -> {"e":"","r":[[event..]..]}  (as lex.cpp)
//  {"k":"file","w":..,"dir":path,"files":[[bytes]..],"ops":[..]}   memory files
//     -> {"e":"","r":[..]}
#include <sstream>
#include <lexertl/stream_shared_iterator.hpp>
#include "common.hpp"
#include <lexertl/memory_file.hpp>
#include <dirent.h>
#include <cstdlib>
#include <new>

static long g_live = 0;
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++g_live; return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) { --g_live; std::free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }

static volatile long g_case = -1;
static void on_alarm(int) {
    char b[64]; int n = std::snprintf(b, 64, "\nHANG %ld\n", g_case);
    if (write(1, b, static_cast<std::size_t>(n))) {}
    _exit(3);
}
template<class Ch> unsigned long uval(Ch c) { return sizeof(Ch) == 1 ? static_cast<unsigned char>(c) : static_cast<unsigned long>(c); }

// hands out its text a few characters at a time
template<class Ch> struct Dribble : std::basic_streambuf<Ch> {
    std::basic_string<Ch> s; std::size_t at = 0, n; Ch part[4];
    Dribble(const std::basic_string<Ch>& x, std::size_t k) : s(x), n(k) {}
    typename std::char_traits<Ch>::int_type underflow() override {
        std::size_t k = std::min(n, s.size() - at);
        if (!k) return std::char_traits<Ch>::eof();
        for (std::size_t i = 0; i < k; ++i) part[i] = s[at + i];
        at += k;
        this->setg(part, part, part + k);
        return std::char_traits<Ch>::to_int_type(part[0]);
    }
};
template<class Ch> struct Src {
    std::unique_ptr<std::basic_streambuf<Ch>> b;
    std::basic_istream<Ch> is;
    Src(const std::basic_string<Ch>& s, std::size_t chunk) : b(chunk ? static_cast<std::basic_streambuf<Ch>*>(new Dribble<Ch>(s, chunk)) : new std::basic_stringbuf<Ch>(s)), is(b.get()) {}
};

template<class Ch> std::string ops(const J& c) {
    using It = lexertl::basic_stream_shared_iterator<Ch>;
    std::vector<std::basic_string<Ch>> txt;
    for (auto& in : c["in"].a) txt.push_back(conv<Ch>(in));
    std::string out;
    const long before = g_live;
    {
        std::vector<std::unique_ptr<Src<Ch>>> srcs;
        std::unique_ptr<It> sl[5];
        bool master[5] = {};
        for (auto& s : sl) s.reset(new It);
        for (auto& o : c["ops"].a) {
            const std::string op = o[0].ascii();
            const std::size_t a = static_cast<std::size_t>(o[1].i), d = o.a.size() > 2 ? static_cast<std::size_t>(o[2].i) : 0;
            if (op == "new") {
                srcs.emplace_back(new Src<Ch>(txt[d - 1], static_cast<std::size_t>(c.num("chunk", 0))));
                sl[a].reset(); sl[a].reset(new It(srcs.back()->is, static_cast<std::size_t>(o[3].i), static_cast<std::size_t>(o[4].i)));
                master[a] = true;
            }
            else if (op == "null") { sl[a].reset(); sl[a].reset(new It); master[a] = false; }
            else if (op == "self") { It& x = *sl[a]; *sl[a] = x; }
            else if (op == "copy") { std::unique_ptr<It> n(new It(*sl[a])); sl[d] = std::move(n); master[d] = false; }
            else if (op == "assign") { It& r = (*sl[d] = *sl[a]); if (&r != sl[d].get()) throw std::runtime_error("= does not return itself"); master[d] = false; }
            else if (op == "swap") std::swap(*sl[a], *sl[d]);
            else if (op == "read") { (void)**sl[a]; master[a] = false; }
            else if (op == "inc") { It& r = ++*sl[a]; if (&r != sl[a].get()) throw std::runtime_error("++ does not return itself"); master[a] = false; }
            else if (op == "post") { It n((*sl[a])++); sl[d].reset(); sl[d].reset(new It(n)); master[a] = master[d] = false; }
            else throw std::runtime_error("harness: operation " + op);
            std::string x, q;
            int odd = 0;
            for (int k = 1; k <= 4; ++k) {
                x += k > 1 ? "," : "";
                if (master[k]) x += "[2]";
                else if (*sl[k] == It()) x += "[0]";
                else x += "[1," + std::to_string(uval(**sl[k])) + "]";
            }
            for (int i = 1; i <= 4; ++i) for (int j = i + 1; j <= 4; ++j) {
                const bool e = *sl[i] == *sl[j];
                if (e != (*sl[j] == *sl[i]) || e == (*sl[i] != *sl[j])) ++odd;
                if (e) q += (q.empty() ? "[" : ",[") + std::to_string(i) + "," + std::to_string(j) + "]";
            }
            out += (out.empty() ? "" : ",") + std::string("{\"s\":[") + x + "],\"eq\":[" + q + "],\"odd\":" + std::to_string(odd) + "}";
        }
        // every iterator given up, in an order of its own; then count
        for (auto& j : c["end"].a) sl[j.i].reset();
        for (auto& s : sl) s.reset();
    }
    const long leak = g_live - before - (out.capacity() > 15 ? 1 : 0);
    return "{\"e\":\"\",\"r\":[" + out + "],\"leak\":" + std::to_string(leak) + "}";
}

// as run_lookup() in common.hpp; positions are found by walking from the last one
template<class Res, class It, class SM> std::string events(const SM& sm, It b, It e, bool rec, std::size_t cap) {
    std::string out;
    Res r(b, e);
    b = It();
    It at = r.first;
    long long pos = 0;
    for (std::size_t k = 0;; ++k) {
        if (k > cap) { out += (out.empty() ? "" : ",") + std::string("[-2,0,0,0,0,0,[]]"); break; }
        try { lexertl::lookup(sm, r); }
        catch (const lexertl::runtime_error&) { out += (out.empty() ? "" : ",") + std::string("[-1,0,0,0,0,0,[]]"); break; }
        std::string st = "[]";
        if constexpr (std::is_base_of_v<lexertl::recursive_match_results<It, typename SM::id_type>, Res>) st = stack_str(r.stack);
        while (at != r.first) { ++at; ++pos; }
        const long long f = pos;
        while (at != r.second) { ++at; ++pos; }
        out += (out.empty() ? "[" : ",[") + std::to_string(nid(r.id)) + "," + std::to_string(nid(r.user_id)) + "," + std::to_string(f) + "," +
            std::to_string(pos) + "," + std::to_string(nid(r.state)) + "," + (r.bol ? "1" : "0") + "," + st + "]";
        if (r.first == r.eoi) break;
        if (r.second == r.first) { out += ",[-3,0,0,0,0,0,[]]"; break; }
    }
    (void)rec;
    return "[" + out + "]";
}

template<class RC, class Ch> std::string lex(const J& c) {
    using Id = uint16_t;
    using Rules = lexertl::basic_rules<RC, Ch, Id>;
    using SM = lexertl::basic_state_machine<Ch, Id>;
    using It = lexertl::basic_stream_shared_iterator<Ch>;
    std::string out;
    SM sm;
    try {
        Rules r(static_cast<std::size_t>(c["flags"].i));
        program(r, c["calls"]);
        lexertl::basic_generator<Rules, SM>::build(r, sm);
    } catch (const lexertl::runtime_error& ex) { return "{\"e\":" + jstr(ex.what()) + ",\"r\":[]}"; }
    const bool rec = (sm.data()._features & *lexertl::feature_bit::recursive) != 0;
    for (auto& in : c["in"].a) {
        const auto s = conv<Ch>(in);
        Src<Ch> src(s, static_cast<std::size_t>(c.num("chunk", 0)));
        std::string ev;
        It b(src.is, static_cast<std::size_t>(c["bs"].i), static_cast<std::size_t>(c["inc"].i)), e;
        if (rec) ev = events<lexertl::recursive_match_results<It, Id>>(sm, b, e, true, s.size() + 2);
        else ev = events<lexertl::match_results<It, Id>>(sm, b, e, false, s.size() + 2);
        out += (out.empty() ? "" : ",") + ev;
    }
    return "{\"e\":\"\",\"r\":[" + out + "]}";
}

static long fds() {
    long n = 0;
    if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); }
    return n;
}
static long maps(const std::string& dir) {
    long n = 0;
    if (std::FILE* f = std::fopen("/proc/self/maps", "r")) {
        std::string l;
        while (next_line(f, l)) if (l.find(dir) != std::string::npos) {
            unsigned long a = 0, b = 0;
            std::sscanf(l.c_str(), "%lx-%lx", &a, &b);
            n += static_cast<long>((b - a + 4095) / 4096);
        }
        std::fclose(f);
    }
    return n;
}

template<class Ch> std::string file(const J& c) {
    using MF = lexertl::basic_memory_file<Ch>;
    const std::string dir = c["dir"].ascii();
    auto name = [&](long long k) { return dir + "/f" + std::to_string(k); };
    for (std::size_t k = 0; k < c["files"].size(); ++k) {
        std::FILE* f = std::fopen(name(static_cast<long long>(k + 1)).c_str(), "w");
        for (auto& b : c["files"][k].a)
            if (b.t == J::Arr) { for (long long i = 0; i < b[1].i; ++i) std::fputc(static_cast<int>(b[0].i), f); }
            else std::fputc(static_cast<int>(b.i), f);
        std::fclose(f);
    }
    std::string out;
    // with "low" the descriptors from 0 on are free, so that files get them
    int saved = -1;
    if (c.num("low", 0)) { saved = dup(0); ::close(0); }
    {
        const long base = fds();
        std::unique_ptr<MF> sl[3];
        for (auto& o : c["ops"].a) {
            const std::string op = o[0].ascii();
            const std::size_t a = static_cast<std::size_t>(o[1].i);
            const std::string nm = o.a.size() < 3 ? "" : o[2].i == 0 ? dir + "/missing" : o[2].i == -1 ? dir : name(o[2].i);
            if (op == "new") { sl[a].reset(); sl[a].reset(new MF); }
            else if (op == "newopen") { sl[a].reset(); sl[a].reset(new MF(nm.c_str())); }
            else if (op == "open") { if (!sl[a]) sl[a].reset(new MF); sl[a]->open(nm.c_str()); }
            else if (op == "close") { if (sl[a]) sl[a]->close(); }
            else if (op == "del") sl[a].reset();
            std::string x;
            for (std::size_t k = 1; k <= 2; ++k) {
                std::string bytes;
                unsigned long long sum = 0;
                const MF* m = sl[k].get();
                const std::size_t n = m ? m->size() : 0;
                if (m && m->data()) {
                    for (std::size_t i = 0; i < n; ++i) {
                        sum = (sum * 31 + uval(m->data()[i]) % 65536) % 1000003;
                        if (i < 12) bytes += (i ? "," : "") + std::to_string(uval(m->data()[i]) % 65536);
                    }
                }
                x += std::string(k > 1 ? ",[" : "[") + (m && m->data() ? "1" : "0") + "," + std::to_string(n) + ",[" + bytes + "]," + std::to_string(sum) + "]";
            }
            out += (out.empty() ? "" : ",") + std::string("{\"s\":[") + x + "],\"pages\":" + std::to_string(maps(dir)) + ",\"fds\":" + std::to_string(fds() - base) + "}";
        }
    }
    if (saved != -1) { dup2(saved, 0); ::close(saved); }
    for (std::size_t k = 0; k < c["files"].size(); ++k) ::unlink(name(static_cast<long long>(k + 1)).c_str());
    return "{\"e\":\"\",\"r\":[" + out + "]}";
}

int main(int argc, char** argv) {
    std::FILE* f = argc > 1 ? std::fopen(argv[1], "r") : stdin;
    long skip = argc > 2 ? std::atol(argv[2]) : 0;
    std::string l;
    std::signal(SIGALRM, on_alarm);
    long n = 0;
    while (next_line(f, l)) {
        if (n++ < skip) continue;
        g_case = n;
        alarm(20);
        J c = JP(l).parse();
        std::string o;
        const std::string w = c["w"].ascii(), k = c["k"].ascii();
        try {
            if (k == "ops") o = w == "n" ? ops<char>(c) : w == "w" ? ops<wchar_t>(c) : ops<char32_t>(c);
            else if (k == "lex") o = w == "n" ? lex<char, char>(c) : lex<wchar_t, wchar_t>(c);
            else o = w == "n" ? file<char>(c) : w == "w" ? file<wchar_t>(c) : file<char16_t>(c);
        } catch (const std::exception& ex) { o = std::string("{\"e\":") + jstr(std::string("UNEXPECTED ") + ex.what()) + ",\"r\":[]}"; }
        std::puts(o.c_str());
        std::fflush(stdout);
        alarm(0);
    }
    return 0;
}
