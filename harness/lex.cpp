// Replays cases (one JSON object per line) through the real library.
//  {"w":"n"|"w"|"u"|"h"|"8","calls":[...],"min":0|1,"flags":n,"in":[[ints],...],"api":"lookup"|"iter"}
// Output per line: {"e":"" | message, "r":[ [event,...], ... ]}
#include "common.hpp"

static volatile long g_case = -1;
static void on_alarm(int) {
    char b[64]; int n = std::snprintf(b, 64, "\nHANG %ld\n", g_case);
    if (write(1, b, static_cast<std::size_t>(n))) {}
    _exit(3);
}

template<class RC, class Ch, class Id> std::string run(const J& c) {
    using Rules = lexertl::basic_rules<RC, Ch, Id>;
    using SM = lexertl::basic_state_machine<Ch, Id>;
    using Gen = lexertl::basic_generator<Rules, SM>;
    std::string out;
    SM sm;
    try {
        std::unique_ptr<Rules> r(c.has("flags") ? new Rules(static_cast<std::size_t>(c["flags"].i)) : new Rules());
        program(*r, c["calls"]);
        Gen::build(*r, sm);
        if (c.num("min", 0)) sm.minimise();
    } catch (const lexertl::runtime_error& ex) { return "{\"e\":" + jstr(ex.what()) + ",\"r\":[]}"; }
    const bool rec = (sm.data()._features & *lexertl::feature_bit::recursive) != 0;
    for (auto& in : c["in"].a) {
        const auto s = conv<Ch>(in);
        Text<Ch> t(s);
        std::string ev;
        if (rec) ev = run_lookup<lexertl::recursive_match_results<const Ch*, Id>>(sm, t.b(), t.e(), true, s.size() + 2);
        else ev = run_lookup<lexertl::match_results<const Ch*, Id>>(sm, t.b(), t.e(), false, s.size() + 2);
        out += (out.empty() ? "" : ",") + ev;
    }
    return "{\"e\":\"\",\"r\":[" + out + "]}";
}

int main(int argc, char** argv) {
    std::FILE* f = argc > 1 ? std::fopen(argv[1], "r") : stdin;
    long skip = argc > 2 ? std::atol(argv[2]) : 0;
    std::string l;
    std::signal(SIGALRM, on_alarm);
    long n = 0;
    while (next_line(f, l)) {
        if (n++ < skip) continue;
        g_case = n;
        alarm(20);
        J c = JP(l).parse();
        std::string o;
        const std::string w = c.has("w") ? c["w"].ascii() : "n";
        try {
            if (w == "n") o = run<char, char, uint16_t>(c);
#ifdef WIDE
            else if (w == "w") o = run<wchar_t, wchar_t, uint16_t>(c);
            else if (w == "u") o = run<char32_t, char32_t, uint16_t>(c);
            else if (w == "h") o = run<char16_t, char16_t, uint16_t>(c);
            else if (w == "nu") o = run<char, char32_t, uint32_t>(c);
#endif
            else if (w == "n8") o = run<char, char, uint8_t>(c);
            else if (w == "n32") o = run<char, char, uint32_t>(c);
            else o = "{\"e\":\"harness: width\",\"r\":[]}";
        } catch (const std::exception& ex) { o = std::string("{\"e\":") + jstr(std::string("UNEXPECTED ") + ex.what()) + ",\"r\":[]}"; }
        std::puts(o.c_str());
        std::fflush(stdout);
        alarm(0);
    }
    return 0;
}
