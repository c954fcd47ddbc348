// Offers regular expressions (and macros) as plain text to the library.
//  {"w":"n"|"u","f":flags,"mac":[[name,text],...],"t":text,"in":[texts]}
// Output: {"e":refused,"msg":why,"me":[refused per macro],"b":1 not built,"r":[first match length]}
#include "common.hpp"

static volatile long g_case = -1;
static void on_alarm(int) {
    char b[64]; int n = std::snprintf(b, 64, "\nHANG %ld\n", g_case);
    if (write(1, b, static_cast<std::size_t>(n))) {}
    _exit(3);
}

template<class Ch> std::string run(const J& c) {
    using Rules = lexertl::basic_rules<Ch, Ch, uint16_t>;
    using SM = lexertl::basic_state_machine<Ch, uint16_t>;
    using Gen = lexertl::basic_generator<Rules, SM>;
    Rules r(static_cast<std::size_t>(c["f"].i));
    std::string me, rs, msg;
    int e = 0, b = 0;
    for (auto& m : c["mac"].a) {
        int bad = 0;
        try { r.insert_macro(conv<Ch>(m[0]).c_str(), conv<Ch>(m[1])); }
        catch (const lexertl::runtime_error& ex) { bad = 1; msg += ex.what(); }
        me += (me.empty() ? "" : ",") + std::to_string(bad);
    }
    try { r.push(conv<Ch>(c["t"]), 1); }
    catch (const lexertl::runtime_error& ex) { e = 1; msg += ex.what(); }
    if (!e) {
        SM sm;
        try { Gen::build(r, sm); }
        catch (const lexertl::runtime_error& ex) { b = 1; msg += ex.what(); }
        if (!b) for (auto& in : c["in"].a) {
            Text<Ch> t(conv<Ch>(in));
            lexertl::match_results<const Ch*, uint16_t> m(t.b(), t.e());
            lexertl::lookup(sm, m);
            rs += (rs.empty() ? "" : ",") + std::to_string(m.id == 1 ? m.second - t.b() : 0);
        }
    }
    return "{\"e\":" + std::to_string(e) + ",\"msg\":" + jstr(msg) + ",\"me\":[" + me + "],\"b\":" + std::to_string(b) + ",\"r\":[" + rs + "]}";
}

int main(int argc, char** argv) {
    std::FILE* f = argc > 1 ? std::fopen(argv[1], "r") : stdin;
    long skip = argc > 2 ? std::atol(argv[2]) : 0;
    std::string l;
    std::signal(SIGALRM, on_alarm);
    long n = 0;
    while (next_line(f, l)) {
        if (n++ < skip) continue;
        g_case = n;
        alarm(20);
        J c = JP(l).parse();
        std::string o;
        try { o = c["w"].ascii() == "n" ? run<char>(c) : run<char32_t>(c); }
        catch (const std::exception& ex) { o = std::string("{\"e\":\"UNEXPECTED\",\"msg\":") + jstr(ex.what()) + "}"; }
        std::puts(o.c_str());
        std::fflush(stdout);
        alarm(0);
    }
    return 0;
}
