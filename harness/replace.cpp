// Replays replace() in every overload.
//  {"w":..,"calls":[..],"flags":n,"in":[[ints]..],
//   "f":[{"k":"str","s":[ints]},{"k":"map","m":[[id,[ints]]..]},{"k":"fun","m":[[id,k]..]}]}
// Output: {"e":"","r":[ per text [ per kind [ [name,[ints],position] .. ] ] ]}; kinds 4..6 take NUL terminated text.
#include "common.hpp"
#include <lexertl/replace.hpp>
#include <list>
#include <deque>

static volatile long g_case = -1;
static void on_alarm(int) {
    char b[64]; int n = std::snprintf(b, 64, "\nHANG %ld\n", g_case);
    if (write(1, b, static_cast<std::size_t>(n))) {}
    _exit(3);
}

template<class Ch> unsigned long uval(Ch c) { return static_cast<unsigned long>(static_cast<std::make_unsigned_t<Ch>>(c)); }
template<> unsigned long uval<char32_t>(char32_t c) { return c; }
template<> unsigned long uval<char16_t>(char16_t c) { return c; }

template<class Ch, class It> std::basic_string<Ch> fn(int k, It b, It e) {
    std::string s;
    const auto n = std::distance(b, e);
    if (k == 1) s = "#" + std::to_string(n);
    else if (k == 2) s = "<" + std::to_string(n ? uval(*b) : 0) + ">";
    else if (k == 3) s = "fn";
    return std::basic_string<Ch>(s.begin(), s.end());
}
// the forms of replacement function the overloads take
template<class Ch, int K> std::basic_string<Ch> f_it(typename std::basic_string<Ch>::const_iterator& b, typename std::basic_string<Ch>::const_iterator& e) { return fn<Ch>(K, b, e); }
template<class Ch, int K> std::basic_string<Ch> f_ps(const Ch* b, const Ch* e) { return fn<Ch>(K, b, e); }
template<class Ch, class It, int K> const Ch* f_z(It b, It e) {
    static std::basic_string<Ch> keep;
    keep = fn<Ch>(K, b, e);
    return keep.c_str();
}
template<class F> F pick(int k, F a, F b, F c, F d) { return k == 0 ? a : k == 1 ? b : k == 2 ? c : d; }
#define PICK(T, k, NAME, ...) pick<T>(k, NAME<__VA_ARGS__, 0>, NAME<__VA_ARGS__, 1>, NAME<__VA_ARGS__, 2>, NAME<__VA_ARGS__, 3>)

template<class S> std::string ints(const S& s) {
    std::string r;
    for (auto c : s) { if (!r.empty()) r += ','; r += std::to_string(uval(c)); }
    return "[" + r + "]";
}

template<class Ch, class Id> struct Out {
    std::string s;
    void add(const char* name, const std::basic_string<Ch>& o, long long pos) {
        s += (s.empty() ? "[\"" : ",[\"") + std::string(name) + "\"," + ints(o) + "," + std::to_string(pos) + "]";
    }
    void add(const char* name, const std::basic_string<Ch>& o) { add(name, o, static_cast<long long>(o.size())); }
    // one stream overload through several kinds of output position
    template<class It, class SM, class F> void stream(const char* name, It b, It e, const SM& sm, const F& f) {
        std::basic_string<Ch> x;
        lexertl::replace(std::back_inserter(x), b, e, sm, f);
        add((std::string(name) + ",back_inserter").c_str(), x);
        std::unique_ptr<Ch[]> p(new Ch[x.size() ? x.size() : 1]);
        for (std::size_t i = 0; i < x.size(); ++i) p[i] = Ch('?');
        Ch* q = lexertl::replace(p.get(), b, e, sm, f);
        add((std::string(name) + ",pointer").c_str(), std::basic_string<Ch>(p.get(), x.size()), q - p.get());
        std::list<Ch> l(x.size(), Ch('?'));
        auto li = lexertl::replace(l.begin(), b, e, sm, f);
        add((std::string(name) + ",list").c_str(), std::basic_string<Ch>(l.begin(), l.end()), std::distance(l.begin(), li));
    }
};

template<class RC, class Ch, class Id> std::string run(const J& c) {
    using Rules = lexertl::basic_rules<RC, Ch, Id>;
    using SM = lexertl::basic_state_machine<Ch, Id>;
    using Gen = lexertl::basic_generator<Rules, SM>;
    using Str = std::basic_string<Ch>;
    using SI = typename Str::const_iterator;
    SM sm;
    try {
        std::unique_ptr<Rules> r(c.has("flags") ? new Rules(static_cast<std::size_t>(c["flags"].i)) : new Rules());
        program(*r, c["calls"]);
        Gen::build(*r, sm);
        if (c.num("min", 0)) sm.minimise();
    } catch (const lexertl::runtime_error& ex) { return "{\"e\":" + jstr(ex.what()) + ",\"r\":[]}"; }
    auto id_of = [](const J& j) { return j.i == 65535 ? static_cast<Id>(~0) : static_cast<Id>(j.i); };
    const Str fmt = conv<Ch>(c["f"][0]["s"]);
    std::map<Id, Str> ms; std::map<Id, const Ch*> mz;
    for (auto& j : c["f"][1]["m"].a) ms[id_of(j[0])] = conv<Ch>(j[1]);
    for (auto& j : ms) mz[j.first] = j.second.c_str();
    using Fit = Str(*)(SI&, SI&);
    using Fps = Str(*)(const Ch*, const Ch*);
    using Fz = const Ch*(*)(const Ch*, const Ch*);
    using Fzs = const Ch*(*)(SI, SI);
    std::map<Id, Fit> mit; std::map<Id, Fps> mps; std::map<Id, Fz> mfz; std::map<Id, Fzs> mfs;
    for (auto& j : c["f"][2]["m"].a) {
        const int k = static_cast<int>(j[1].i);
        const Id id = id_of(j[0]);
        mit[id] = PICK(Fit, k, f_it, Ch);
        mps[id] = PICK(Fps, k, f_ps, Ch);
        mfz[id] = pick<Fz>(k, f_z<Ch, const Ch*, 0>, f_z<Ch, const Ch*, 1>, f_z<Ch, const Ch*, 2>, f_z<Ch, const Ch*, 3>);
        mfs[id] = pick<Fzs>(k, f_z<Ch, SI, 0>, f_z<Ch, SI, 1>, f_z<Ch, SI, 2>, f_z<Ch, SI, 3>);
    }
    std::string all;
    for (auto& in : c["in"].a) {
        const Str s = conv<Ch>(in);
        const Ch* z = s.c_str();
        Text<Ch> t(s);
        std::list<Ch> ls(s.begin(), s.end());
        std::string kinds[6];
        {
            Out<Ch, Id> o;
            o.stream("pointers,string", t.b(), t.e(), sm, fmt);
            o.stream("iterators,string", s.begin(), s.end(), sm, fmt);
            o.stream("list,string", ls.begin(), ls.end(), sm, fmt);
            o.stream("pointers,chars", t.b(), t.e(), sm, fmt.c_str());
            o.add("string,string", lexertl::replace(s, sm, fmt));
            o.add("string,chars", lexertl::replace(s, sm, fmt.c_str()));
            kinds[0] = o.s;
        }
        {
            Out<Ch, Id> o;
            o.stream("pointers,map of strings", t.b(), t.e(), sm, ms);
            o.stream("iterators,map of strings", s.begin(), s.end(), sm, ms);
            o.stream("pointers,map of chars", t.b(), t.e(), sm, mz);
            o.add("string,map of strings", lexertl::replace(s, sm, ms));
            o.add("string,map of chars", lexertl::replace(s, sm, mz));
            kinds[1] = o.s;
        }
        {
            Out<Ch, Id> o;
            o.stream("iterators,map of string functions", s.begin(), s.end(), sm, mit);
            o.stream("pointers,map of char functions", t.b(), t.e(), sm, mfz);
            o.stream("iterators,map of char functions", s.begin(), s.end(), sm, mfs);
            o.add("string,map of string functions", lexertl::replace(s, sm, mit));
            o.add("string,map of char functions", lexertl::replace(s, sm, mfz));
            kinds[2] = o.s;
        }
        {
            Out<Ch, Id> o;
            o.add("chars,string", lexertl::replace(z, sm, fmt));
            o.add("chars,chars", lexertl::replace(z, sm, fmt.c_str()));
            kinds[3] = o.s;
        }
        {
            Out<Ch, Id> o;
            o.add("chars,map of strings", lexertl::replace(z, sm, ms));
            o.add("chars,map of chars", lexertl::replace(z, sm, mz));
            kinds[4] = o.s;
        }
        {
            Out<Ch, Id> o;
            o.add("chars,map of string functions", lexertl::replace(z, sm, mps));
            o.add("chars,map of char functions", lexertl::replace(z, sm, mfz));
            kinds[5] = o.s;
        }
        std::string x;
        for (auto& k : kinds) x += (x.empty() ? "[" : ",[") + k + "]";
        all += (all.empty() ? "[" : ",[") + x + "]";
    }
    return "{\"e\":\"\",\"r\":[" + all + "]}";
}

int main(int argc, char** argv) {
    std::FILE* f = argc > 1 ? std::fopen(argv[1], "r") : stdin;
    long skip = argc > 2 ? std::atol(argv[2]) : 0;
    std::string l;
    std::signal(SIGALRM, on_alarm);
    long n = 0;
    while (next_line(f, l)) {
        if (n++ < skip) continue;
        g_case = n;
        alarm(20);
        J c = JP(l).parse();
        std::string o;
        const std::string w = c.has("w") ? c["w"].ascii() : "n";
        try {
            if (w == "n") o = run<char, char, uint16_t>(c);
            else if (w == "n8") o = run<char, char, uint8_t>(c);
            else o = run<wchar_t, wchar_t, uint32_t>(c);
        } catch (const std::exception& ex) { o = std::string("{\"e\":") + jstr(std::string("UNEXPECTED ") + ex.what()) + ",\"r\":[]}"; }
        std::puts(o.c_str());
        std::fflush(stdout);
        alarm(0);
    }
    return 0;
}
