// Replays schedules of operations on iterators and results objects.
//  {"w":..,"lx":[{"calls":[..]},..],"flags":n,"in":[[ints]..],"ops":[[name,slot,..]..],"it":"p"|"s","rec":0|1}
// Output: {"e":"","r":[{"s":[shown x4],"eq":[[a,b]..]} per operation]}
#include "common.hpp"
#include <optional>

static volatile long g_case = -1;
static void on_alarm(int) {
    char b[64]; int n = std::snprintf(b, 64, "\nHANG %ld\n", g_case);
    if (write(1, b, static_cast<std::size_t>(n))) {}
    _exit(3);
}

template<class Ch> unsigned long uval(Ch c) { return sizeof(Ch) == 1 ? static_cast<unsigned char>(c) : static_cast<unsigned long>(c); }
template<class S> std::string ints(const S& s) {
    std::string r;
    for (auto c : s) { if (!r.empty()) r += ','; r += std::to_string(uval(c)); }
    return "[" + r + "]";
}

template<class RC, class Ch, class Id, class DI, bool Rec> std::string run(const J& c) {
    using Rules = lexertl::basic_rules<RC, Ch, Id>;
    using SM = lexertl::basic_state_machine<Ch, Id>;
    using Gen = lexertl::basic_generator<Rules, SM>;
    using Res = std::conditional_t<Rec, lexertl::recursive_match_results<DI, Id>, lexertl::match_results<DI, Id>>;
    using It = lexertl::iterator<DI, SM, Res>;
    std::vector<std::unique_ptr<SM>> sms;
    try {
        for (auto& l : c["lx"].a) {
            std::unique_ptr<Rules> r(new Rules(static_cast<std::size_t>(c["flags"].i)));
            program(*r, l["calls"]);
            sms.emplace_back(new SM);
            Gen::build(*r, *sms.back());
        }
    } catch (const lexertl::runtime_error& ex) { return "{\"e\":" + jstr(ex.what()) + ",\"r\":[]}"; }
    std::vector<std::basic_string<Ch>> strs;
    std::vector<std::unique_ptr<Text<Ch>>> txts;
    for (auto& in : c["in"].a) strs.push_back(conv<Ch>(in));
    for (auto& s : strs) txts.emplace_back(new Text<Ch>(s));
    auto B = [&](std::size_t w) { if constexpr (std::is_pointer_v<DI>) return txts[w]->b(); else return strs[w].cbegin(); };
    auto E = [&](std::size_t w) { if constexpr (std::is_pointer_v<DI>) return txts[w]->e(); else return strs[w].cend(); };
    struct Slot { std::unique_ptr<It> it; std::unique_ptr<Res> rs; const SM* m = nullptr; };
    Slot sl[5];
    auto null = [&](Slot& s) { s.rs.reset(); s.it.reset(new It); s.m = nullptr; };
    for (auto& s : sl) null(s);
    auto is_end = [&](const Slot& s) { return s.it && *s.it == It(); };
    auto shown = [&](const Slot& s) {
        if (is_end(s)) return std::string("[0]");
        const Res& r = s.it ? **s.it : *s.rs;
        std::size_t w = 0;
        while (w < strs.size() && !(r.eoi == E(w))) ++w;
        if (w == strs.size()) return std::string("[\"no text\"]");
        std::size_t m = 0;
        if (s.it) { while (m < sms.size() && sms[m].get() != &s.it->sm()) ++m; ++m; }
        std::string st = "[]";
        if constexpr (Rec) st = stack_str(r.stack);
        const auto tok = r.str();
        bool agree = r.length() == tok.size();
        std::basic_string<Ch> mid;
        if (tok.size()) agree = agree && r.view() == tok;
        if (tok.size() >= 2) { mid = r.substr(1, 1); agree = agree && r.subview(1, 1) == mid; }
        if (s.it) agree = agree && (*s.it)->id == r.id && &**s.it == (*s.it).operator->();
        return "[" + std::to_string(s.it ? 1 : 2) + "," + std::to_string(m) + "," + std::to_string(w + 1) + "," + std::to_string(nid(r.id)) + "," +
            std::to_string(nid(r.user_id)) + "," + std::to_string(r.first - B(w)) + "," + std::to_string(r.second - B(w)) + "," + std::to_string(nid(r.state)) + "," +
            st + "," + ints(tok) + "," + ints(mid) + (agree ? "" : ",\"accessors differ\"") + "]";
    };
    auto assign = [&](Slot& d, const Slot& s) {
        if (d.it && s.it) *d.it = *s.it;
        else if (d.rs && s.rs) *d.rs = *s.rs;
        else { d.it.reset(s.it ? new It(*s.it) : nullptr); d.rs.reset(s.rs ? new Res(*s.rs) : nullptr); }
        d.m = s.m;
    };
    std::string out;
    for (auto& o : c["ops"].a) {
        const std::string op = o[0].ascii();
        Slot& a = sl[o[1].i];
        auto bol_at = [&](std::size_t w, std::size_t p) { return p == 0 || strs[w][p - 1] == '\n'; };
        try {
            if (op == "make" || op == "res") {
                const SM& m = *sms[static_cast<std::size_t>(o[2].i - 1)];
                const std::size_t w = static_cast<std::size_t>(o[3].i - 1), p = static_cast<std::size_t>(o[4].i);
                const Id st = static_cast<Id>(o[5].i);
                null(a);
                if (op == "make") { 
                    if (st == 0 && bol_at(w, p)) a.it.reset(new It(B(w) + static_cast<long>(p), E(w), m));
                    else if (st == 0) a.it.reset(new It(B(w) + static_cast<long>(p), E(w), m, false));
                    else a.it.reset(new It(B(w) + static_cast<long>(p), E(w), m, bol_at(w, p), st));
                } else { a.it.reset(); a.m = &m; a.rs.reset(new Res(B(w) + static_cast<long>(p), E(w), bol_at(w, p), st)); }
            }
            else if (op == "null") null(a);
            else if (op == "copy" || op == "assign" || op == "swap") {
                Slot& d = sl[o[2].i];
                if (&d == &a) {}
                else if (op == "copy") { Slot t; t.it.reset(a.it ? new It(*a.it) : nullptr); t.rs.reset(a.rs ? new Res(*a.rs) : nullptr); t.m = a.m; d = std::move(t); }
                else if (op == "assign") assign(d, a);
                else if (a.it && d.it) { std::swap(*a.it, *d.it); std::swap(a.m, d.m); }
                else if (a.rs && d.rs) { std::swap(*a.rs, *d.rs); std::swap(a.m, d.m); }
                else std::swap(a, d);
            }
            else if (op == "self") { if (a.it) { It& x = *a.it; *a.it = x; } else { Res& x = *a.rs; *a.rs = x; } }
            else if (op == "inc") {
                if (a.rs) lexertl::lookup(*a.m, *a.rs);
                else if (!is_end(a)) { It& r = ++*a.it; if (&r != a.it.get()) throw std::runtime_error("++ does not return itself"); }
            }
            else if (op == "post") { Slot& d = sl[o[2].i]; if (a.it && !is_end(a) && &d != &a) { It t = (*a.it)++; d.rs.reset(); d.it.reset(new It(t)); d.m = nullptr; } }
            else if (op == "reset") { if (a.rs) { const std::size_t w = static_cast<std::size_t>(o[2].i - 1); a.rs->reset(B(w), E(w)); } }
            else if (op == "clear") { if (a.rs) a.rs->clear(); }
            else throw std::runtime_error("harness: operation " + op);
        } catch (const lexertl::runtime_error&) { null(a); }
        std::string x, q;
        for (int k = 1; k <= 4; ++k) x += (k > 1 ? "," : "") + shown(sl[k]);
        for (int i = 1; i <= 4; ++i) for (int j = i + 1; j <= 4; ++j) {
            if (!sl[i].it || !sl[j].it) continue;
            const bool e = *sl[i].it == *sl[j].it;
            const bool f = *sl[j].it == *sl[i].it;
            const bool g = !(*sl[i].it != *sl[j].it);
            if (e != f || e != g) q += (q.empty() ? "" : ",") + std::string("[-1,-1]");
            else if (e) q += (q.empty() ? "[" : ",[") + std::to_string(i) + "," + std::to_string(j) + "]";
        }
        out += (out.empty() ? "" : ",") + std::string("{\"s\":[") + x + "],\"eq\":[" + q + "]}";
    }
    return "{\"e\":\"\",\"r\":[" + out + "]}";
}

int main(int argc, char** argv) {
    std::FILE* f = argc > 1 ? std::fopen(argv[1], "r") : stdin;
    long skip = argc > 2 ? std::atol(argv[2]) : 0;
    std::string l;
    std::signal(SIGALRM, on_alarm);
    long n = 0;
    while (next_line(f, l)) {
        if (n++ < skip) continue;
        g_case = n;
        alarm(20);
        J c = JP(l).parse();
        std::string o;
        const std::string w = c["w"].ascii() + c["it"].ascii() + (c["rec"].i ? "r" : "");
        try {
            if (w == "np") o = run<char, char, uint16_t, const char*, false>(c);
            else if (w == "npr") o = run<char, char, uint16_t, const char*, true>(c);
            else if (w == "nsr") o = run<char, char, uint16_t, std::string::const_iterator, true>(c);
            else if (w == "ns") o = run<char, char, uint16_t, std::string::const_iterator, false>(c);
            else if (w == "wpr") o = run<wchar_t, wchar_t, uint16_t, const wchar_t*, true>(c);
            else if (w == "usr") o = run<char32_t, char32_t, uint16_t, std::u32string::const_iterator, true>(c);
            else throw std::runtime_error("harness: kind " + w);
        } catch (const std::exception& ex) { o = std::string("{\"e\":") + jstr(std::string("UNEXPECTED ") + ex.what()) + ",\"r\":[]}"; }
        std::puts(o.c_str());
        std::fflush(stdout);
        alarm(0);
    }
    return 0;
}
