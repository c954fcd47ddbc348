// Results objects made for sets of features (template argument `flags`).
//  {"w":"n"|"l"|"u","calls":[...],"flags":n,"in":[[ints],...],"pick":n}
// w: n char over pointers, l char over list iterators, u char32_t over pointers.
// Output: {"e":"","f":features of the machine,"r":[ per text [{"f":flags,"r":[reports]},...] ]}
#include "common.hpp"
#include <list>

static volatile long g_case = -1;
static void on_alarm(int) {
    char b[64]; int n = std::snprintf(b, 64, "\nHANG %ld\n", g_case);
    if (write(1, b, static_cast<std::size_t>(n))) {}
    _exit(3);
}

template<class It, class SM> using Fn = std::string (*)(const SM&, It, It, std::size_t);
constexpr std::size_t REC = 32, ADV = 64;

template<std::size_t F, class It, class SM> std::string run(const SM& sm, It b, It e, std::size_t cap) {
    using Id = typename SM::id_type;
    using Res = std::conditional_t<(F & REC) != 0, lexertl::recursive_match_results<It, Id, F>, lexertl::match_results<It, Id, F>>;
    Res r(b, e);
    std::string out;
    for (std::size_t k = 0;; ++k) {
        if (k > cap) { out += (out.empty() ? "" : ",") + std::string("[-2,0,0,0,0,0,[]]"); break; }
        try { lexertl::lookup(sm, r); }
        catch (const lexertl::runtime_error&) { out += (out.empty() ? "" : ",") + std::string("[-1,0,0,0,0,0,[]]"); break; }
        std::string st = "[]";
        if constexpr ((F & REC) != 0) st = stack_str(r.stack);
        out += (out.empty() ? "[" : ",[") + std::to_string(nid(r.id)) + "," + std::to_string(nid(r.user_id)) + "," +
            std::to_string(std::distance(b, r.first)) + "," + std::to_string(std::distance(b, r.second)) + "," +
            std::to_string(nid(r.state)) + "," + ((F & 1) ? (r.bol ? "1" : "0") : "-1") + "," + st + "]";
        if (r.first == r.eoi) break;
        if (r.second == r.first) {
            if ((F & ADV) || r.id != Res::npos()) { out += ",[-3,0,0,0,0,0,[]]"; break; }
            ++r.second;     // the caller steps over the character
        }
    }
    return "[" + out + "]";
}

template<class It, class SM, std::size_t... F> Fn<It, SM> pick(std::size_t f, std::index_sequence<F...>) {
    static const Fn<It, SM> tab[] = { &run<F, It, SM>... };
    return tab[f];
}

template<class Ch, class Cont> std::string go(const J& c) {
    using Rules = lexertl::basic_rules<Ch, Ch>;
    using SM = lexertl::basic_state_machine<Ch>;
    using Gen = lexertl::basic_generator<Rules, SM>;
    using It = std::conditional_t<std::is_same_v<Cont, void>, const Ch*, typename std::list<Ch>::const_iterator>;
    SM sm;
    try {
        std::unique_ptr<Rules> r(c.has("flags") ? new Rules(static_cast<std::size_t>(c["flags"].i)) : new Rules());
        program(*r, c["calls"]);
        Gen::build(*r, sm);
    } catch (const lexertl::runtime_error& ex) { return "{\"e\":" + jstr(ex.what()) + ",\"f\":0,\"r\":[]}"; }
    const std::size_t feat = sm.data()._features;
    std::string out;
    std::size_t turn = static_cast<std::size_t>(c.num("pick", 0));
    for (auto& in : c["in"].a) {
        const auto s = conv<Ch>(in);
        Text<Ch> t(s);
        std::list<Ch> l(s.begin(), s.end());
        std::string rs;
        for (std::size_t f = 0; f < 128; ++f) {
            if ((feat & f) != feat) continue;
            // all supersets for the first text, some for the others
            if (&in != &c["in"].a[0] && f != feat && f != (feat | ADV) && (f * 7 + turn++) % 5) continue;
            const auto fn = pick<It, SM>(f, std::make_index_sequence<128>());
            std::string ev;
            if constexpr (std::is_same_v<Cont, void>) ev = fn(sm, t.b(), t.e(), s.size() + 2);
            else ev = fn(sm, l.cbegin(), l.cend(), s.size() + 2);
            rs += (rs.empty() ? "{\"f\":" : ",{\"f\":") + std::to_string(f) + ",\"r\":" + ev + "}";
        }
        out += (out.empty() ? "[" : ",[") + rs + "]";
    }
    return "{\"e\":\"\",\"f\":" + std::to_string(feat) + ",\"r\":[" + out + "]}";
}

int main(int argc, char** argv) {
    std::FILE* f = argc > 1 ? std::fopen(argv[1], "r") : stdin;
    long skip = argc > 2 ? std::atol(argv[2]) : 0;
    std::string l;
    std::signal(SIGALRM, on_alarm);
    long n = 0;
    while (next_line(f, l)) {
        if (n++ < skip) continue;
        g_case = n;
        alarm(20);
        J c = JP(l).parse();
        std::string o;
        const std::string w = c["w"].ascii();
        try {
            if (w == "n") o = go<char, void>(c);
#ifndef ONE
            else if (w == "l") o = go<char, int>(c);
            else if (w == "u") o = go<char32_t, void>(c);
#endif
            else o = "{\"e\":\"harness: width\",\"r\":[]}";
        } catch (const std::exception& ex) { o = std::string("{\"e\":") + jstr(std::string("UNEXPECTED ") + ex.what()) + ",\"f\":0,\"r\":[]}"; }
        std::puts(o.c_str());
        std::fflush(stdout);
        alarm(0);
    }
    return 0;
}
