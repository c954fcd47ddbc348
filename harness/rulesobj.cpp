// Histories of calls on a rules object.
//  {"w":"n"|"n8"|"u","f":flags or -1,"calls":[[op,args...]...]}
// ops of common.hpp, and ["build",[texts]]
// Output: {"s0":snapshot,"r":[{"e":0|1,"m":message,"s":snapshot,("same","eq","r")}...]}
#include "common.hpp"

static volatile long g_case = -1;
static void on_alarm(int) {
    char b[64]; int n = std::snprintf(b, 64, "\nHANG %ld\n", g_case);
    if (write(1, b, static_cast<std::size_t>(n))) {}
    _exit(3);
}
template<class S> std::string codes(const S& s) {
    std::string r;
    for (auto c : s) r += (r.empty() ? "" : ",") + std::to_string(static_cast<unsigned long>(static_cast<std::make_unsigned_t<std::conditional_t<sizeof(c) == 4, int, decltype(c)>>>(c)));
    return "[" + r + "]";
}
template<class F> std::string list(std::size_t n, F f) {
    std::string r;
    for (std::size_t i = 0; i < n; ++i) r += (i ? "," : "") + f(i);
    return "[" + r + "]";
}

template<class Rules> std::string snapshot(const Rules& r) {
    using Id = typename Rules::id_type;
    using Str = typename Rules::string;
    const std::size_t n = r.statemap().size();
    bool ok = true;
    std::string names = list(n, [&](std::size_t i) {
        auto p = r.state(static_cast<Id>(i));
        if (!p) { ok = false; return std::string("[]"); }
        if (r.state(p) != i) ok = false;
        auto it = r.statemap().find(p);
        if (it == r.statemap().end() || it->second != i) ok = false;
        return codes(Str(p));
    });
    if (r.state(static_cast<Id>(n)) && n != 256) ok = false;
    const typename Rules::rules_char_type none[] = {'n', 'o', ' ', 's', 0};
    if (r.state(none) != Rules::npos()) ok = false;
    // all the per-state vectors go together
    for (std::size_t s : {r.regexes().size(), r.regex_strings().size(), r.features().size(), r.ids().size(), r.user_ids().size(),
                          r.next_dfas().size(), r.pushes().size(), r.pops().size()}) if (s != n) ok = false;
    std::string rows = list(ok ? n : 0, [&](std::size_t i) {
        const std::size_t m = r.regexes()[i].size();
        for (std::size_t s : {r.regex_strings()[i].size(), r.ids()[i].size(), r.user_ids()[i].size(), r.next_dfas()[i].size(),
                              r.pushes()[i].size(), r.pops()[i].size()}) if (s != m) ok = false;
        return list(ok ? m : 0, [&](std::size_t j) {
            return "[" + codes(r.regex_strings()[i][j]) + "," + std::to_string(nid(r.ids()[i][j])) + "," + std::to_string(nid(r.user_ids()[i][j])) + "," +
                std::to_string(nid(r.next_dfas()[i][j])) + "," + std::to_string(nid(r.pushes()[i][j])) + "," + (r.pops()[i][j] ? "1" : "0") + "]";
        });
    });
    std::string macs;
    for (auto& m : r.macros()) macs += (macs.empty() ? "" : ",") + codes(m.first);
    std::string feats = list(ok ? n : 0, [&](std::size_t i) { return std::to_string(r.features()[i]); });
    return "{\"f\":" + std::to_string(r.flags()) + ",\"names\":" + names + ",\"map\":" + (ok ? "1" : "0") + ",\"mac\":[" + macs + "],\"rules\":" + rows +
        ",\"feat\":" + feats + ",\"empty\":" + (r.empty() ? "1" : "0") + "}";
}

template<class SM> bool equal(const SM& a, const SM& b) {
    auto& x = a.data(); auto& y = b.data();
    return x._eoi == y._eoi && x._lookup == y._lookup && x._dfa_alphabet == y._dfa_alphabet && x._features == y._features && x._dfa == y._dfa;
}

template<class Ch, class Id> std::string run(const J& c) {
    using Rules = lexertl::basic_rules<Ch, Ch, Id>;
    using SM = lexertl::basic_state_machine<Ch, Id>;
    using Gen = lexertl::basic_generator<Rules, SM>;
    auto make = [&] { return c["f"].i == -1 ? std::make_unique<Rules>() : std::make_unique<Rules>(static_cast<std::size_t>(c["f"].i)); };
    auto r = make();
    SM sm;                       // the target of every build
    std::vector<const J*> eff;   // calls in effect
    bool cleared = false;
    std::string out = "{\"s0\":" + snapshot(*r) + ",\"r\":[";
    bool first = true;
    for (auto& k : c["calls"].a) {
        const std::string op = k[0].ascii();
        std::string msg, more;
        int e = 0;
        if (op == "build") {
            SM before = sm, again;
            bool e2 = false, e3 = false;
            try { Gen::build(*r, sm); } catch (const lexertl::runtime_error& ex) { e = 1; msg = ex.what(); }
            try { Gen::build(*r, again); } catch (const lexertl::runtime_error&) { e2 = true; }
            const bool same = e ? e2 && equal(sm, before) : !e2 && equal(sm, again);
            std::unique_ptr<Rules> fresh = cleared ? std::make_unique<Rules>() : make();
            SM third;
            try { for (auto x : eff) call(*fresh, *x); Gen::build(*fresh, third); } catch (const lexertl::runtime_error&) { e3 = true; }
            const bool eq = e ? e3 : !e3 && equal(sm, third);
            std::string rs;
            if (!e && !(r->flags() & *lexertl::regex_flags::match_zero_len)) {
                const bool rec = (sm.data()._features & *lexertl::feature_bit::recursive) != 0;
                for (auto& in : k[1].a) {
                    Text<Ch> t(conv<Ch>(in));
                    rs += (rs.empty() ? "" : ",") + (rec ? run_lookup<lexertl::recursive_match_results<const Ch*, Id>>(sm, t.b(), t.e(), true, t.n + 2)
                        : run_lookup<lexertl::match_results<const Ch*, Id>>(sm, t.b(), t.e(), false, t.n + 2));
                }
            }
            more = std::string(",\"same\":") + (same ? "1" : "0") + ",\"eq\":" + (eq ? "1" : "0") + ",\"r\":[" + rs + "]";
        } else {
            try {
                call(*r, k);
                if (op == "clear") { eff.clear(); cleared = true; } else eff.push_back(&k);
            } catch (const lexertl::runtime_error& ex) { e = 1; msg = ex.what(); }
        }
        out += std::string(first ? "" : ",") + "{\"e\":" + std::to_string(e) + ",\"m\":" + jstr(msg) + ",\"s\":" + snapshot(*r) + more + "}";
        first = false;
    }
    return out + "],\"e\":\"\"}";
}

int main(int argc, char** argv) {
    std::FILE* f = argc > 1 ? std::fopen(argv[1], "r") : stdin;
    long skip = argc > 2 ? std::atol(argv[2]) : 0;
    std::string l;
    std::signal(SIGALRM, on_alarm);
    long n = 0;
    while (next_line(f, l)) {
        if (n++ < skip) continue;
        g_case = n;
        alarm(30);
        J c = JP(l).parse();
        std::string o;
        const std::string w = c["w"].ascii();
        try { o = w == "n" ? run<char, uint16_t>(c) : w == "n8" ? run<char, uint8_t>(c) : run<char32_t, uint16_t>(c); }
        catch (const std::exception& ex) { o = std::string("{\"e\":") + jstr(std::string("UNEXPECTED ") + ex.what()) + ",\"r\":[]}"; }
        std::puts(o.c_str());
        std::fflush(stdout);
        alarm(0);
    }
    return 0;
}
