// Rules objects under locales whose letters are given as tables.
// LOCALES: [{"al":[..256],"up":[..],"lo":[..],"tu":[..],"tl":[..]}, ..] (locale 0 is "C")
//  {"g":n,"calls":[["imbue",l]|["flags",f]|["macro",m,t]|["push",t,id]|["clear"],..]}
// Output: {"e":"","r":[[outcome, locale after],..],"obs":[id after character 0..255]}
#include "common.hpp"
#include <locale>

struct Masks {
    std::ctype_base::mask m[256];
    explicit Masks(const J& t) {
        using B = std::ctype_base;
        const B::mask* cl = std::ctype<char>::classic_table();
        for (int i = 0; i < 256; ++i) {
            m[i] = static_cast<B::mask>(cl[i] & ~(B::alpha | B::upper | B::lower));
            if (t["al"][i].i) m[i] = static_cast<B::mask>(m[i] | B::alpha);
            if (t["up"][i].i) m[i] = static_cast<B::mask>(m[i] | B::upper);
            if (t["lo"][i].i) m[i] = static_cast<B::mask>(m[i] | B::lower);
        }
    }
};
struct Table : private Masks, std::ctype<char> {
    std::vector<char> tu, tl;
    explicit Table(const J& t) : Masks(t), std::ctype<char>(m), tu(256), tl(256) {
        for (int i = 0; i < 256; ++i) { tu[i] = static_cast<char>(t["tu"][i].i); tl[i] = static_cast<char>(t["tl"][i].i); }
    }
    char do_toupper(char c) const override { return tu[static_cast<unsigned char>(c)]; }
    char do_tolower(char c) const override { return tl[static_cast<unsigned char>(c)]; }
    const char* do_toupper(char* b, const char* e) const override { for (; b != e; ++b) *b = do_toupper(*b); return e; }
    const char* do_tolower(char* b, const char* e) const override { for (; b != e; ++b) *b = do_tolower(*b); return e; }
};

static volatile long g_case = -1;
static void on_alarm(int) {
    char b[64]; int n = std::snprintf(b, 64, "\nHANG %ld\n", g_case);
    if (write(1, b, static_cast<std::size_t>(n))) {}
    _exit(3);
}

int main(int argc, char** argv) {
    std::vector<std::locale> locs{std::locale::classic()};
    {
        std::FILE* f = std::fopen(std::getenv("LOCALES"), "r");
        std::string l;
        next_line(f, l);
        J t = JP(l).parse();
        for (auto& x : t.a) locs.emplace_back(std::locale::classic(), new Table(x));
        std::fclose(f);
    }
    auto which = [&](const std::locale& l) { for (std::size_t k = 0; k < locs.size(); ++k) if (locs[k] == l) return static_cast<long>(k); return -1L; };
    std::FILE* f = argc > 1 ? std::fopen(argv[1], "r") : stdin;
    long skip = argc > 2 ? std::atol(argv[2]) : 0;
    std::string l;
    std::signal(SIGALRM, on_alarm);
    long n = 0;
    while (next_line(f, l)) {
        if (n++ < skip) continue;
        g_case = n;
        alarm(20);
        J c = JP(l).parse();
        std::string r, o;
        try {
            std::locale::global(locs[static_cast<std::size_t>(c["g"].i)]);
            lexertl::rules rules;
            for (auto& k : c["calls"].a) {
                const std::string op = k[0].ascii();
                long res = 1;
                if (op == "imbue") res = which(rules.imbue(locs[static_cast<std::size_t>(k[1].i)]));
                else {
                    try { call(rules, k); }
                    catch (const lexertl::runtime_error&) { res = 0; }
                }
                r += (r.empty() ? "[" : ",[") + std::to_string(res) + "," + std::to_string(which(rules.locale())) + "]";
            }
            lexertl::state_machine sm;
            bool built = false;
            if (!rules.ids()[0].empty()) {
                lexertl::generator::build(rules, sm); built = true;
            }
            for (int x = 0; x < 256; ++x) {
                const char t = static_cast<char>(x);
                lexertl::cmatch m(&t, &t + 1);
                if (built) lexertl::lookup(sm, m);
                o += (o.empty() ? "" : ",") + std::to_string(!built || m.id == m.npos() ? 0 : m.id);
            }
            o = "{\"e\":\"\",\"r\":[" + r + "],\"obs\":[" + o + "]}";
        } catch (const std::exception& ex) { o = std::string("{\"e\":\"UNEXPECTED ") + ex.what() + "\",\"r\":[],\"obs\":[]}"; }
        std::locale::global(std::locale::classic());
        std::puts(o.c_str());
        std::fflush(stdout);
        alarm(0);
    }
    return 0;
}
