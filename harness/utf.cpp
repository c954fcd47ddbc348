// UTF iterators.
//  {"k":"ops","kind":..,"src":[ints],"ops":[..]}  -> {"e":"","r":[{"s":[..],"eq":[..],"gt":[..]}..]}
//  {"k":"all","s8":[..],"s16":[..],"t":[..]}     -> {"e":"","o8":..,"o16":..,"d8":..,"d16":..,"x8":..,"x16":..}
//  {"k":"dec","w":8|16,"form":n,"src":[..]}      -> {"e":"","r":[cp..,-1 on error]}
//  {"k":"lex","form":..,"calls":..,"flags":n,"src":[[units]..]}  -> {"e":"","r":[[event..]..]}
#include "common.hpp"
#include <lexertl/utf_iterators.hpp>
#include <list>
#include <vector>

static volatile long g_case = -1;
static void on_alarm(int) {
    char b[64]; int n = std::snprintf(b, 64, "\nHANG %ld\n", g_case);
    if (write(1, b, static_cast<std::size_t>(n))) {}
    _exit(3);
}

template<class T> std::string val(T v) {
    if constexpr (std::is_same_v<T, uint32_t>) return "[" + std::to_string(v >> 16) + "," + std::to_string(v & 65535) + "]";
    else if constexpr (sizeof(T) == 1) return std::to_string(static_cast<unsigned char>(v));
    else return std::to_string(static_cast<unsigned long>(v));
}
template<class It, class = void> struct has_get : std::false_type {};
template<class It> struct has_get<It, std::void_t<decltype(std::declval<It>().get())>> : std::true_type {};
template<class It, class = void> struct has_step : std::false_type {};
template<class It> struct has_step<It, std::void_t<decltype(std::declval<It>() - std::size_t(1))>> : std::true_type {};

template<class It, class B, class MB, class ME> std::string ops(const J& c, B base, MB begin, ME end, bool offsets) {
    std::unique_ptr<It> sl[5];
    std::string out;
    const It fin = end();
    for (auto& o : c["ops"].a) {
        const std::string op = o[0].ascii();
        const std::size_t a = static_cast<std::size_t>(o[1].i), d = o.a.size() > 2 ? static_cast<std::size_t>(o[2].i) : 0;
        if (op == "new") sl[a].reset(new It(begin()));
        else if (op == "end") sl[a].reset(new It(end()));
        else if (op == "null") sl[a].reset();
        else if (op == "self") { if (sl[a]) { It& x = *sl[a]; *sl[a] = x; } }
        else if (op == "copy") { std::unique_ptr<It> n(new It(*sl[a])); sl[d] = std::move(n); }
        else if (op == "assign") { if (!sl[d]) sl[d].reset(new It); It& r = (*sl[d] = *sl[a]); if (&r != sl[d].get()) throw std::runtime_error("= does not return itself"); }
        else if (op == "inc") { It& r = ++*sl[a]; if (&r != sl[a].get()) throw std::runtime_error("++ does not return itself"); }
        else if (op == "post") { It n((*sl[a])++); sl[d].reset(new It(n)); }
        else if constexpr (has_step<It>::value) {
            if (op == "plus") { It n(*sl[a] + static_cast<std::size_t>(o[3].i)); sl[d].reset(new It(n)); }
            else if (op == "minus") { It n(*sl[a] - static_cast<std::size_t>(o[3].i)); sl[d].reset(new It(n)); }
            else throw std::runtime_error("harness: operation " + op);
        }
        else throw std::runtime_error("harness: operation " + op);
        std::string x, q, g;
        for (int k = 1; k <= 4; ++k) {
            x += k > 1 ? "," : "";
            if (!sl[k]) { x += "[0]"; continue; }
            x += *sl[k] == fin ? "[2" : "[1," + val(static_cast<typename It::value_type>(**sl[k]));
            if constexpr (has_get<It>::value) if (offsets) x += "," + std::to_string(std::distance(base, sl[k]->get()));
            x += "]";
        }
        for (int i = 1; i <= 4; ++i) for (int j = 1; j <= 4; ++j) if (sl[i] && sl[j]) {
            const bool e = *sl[i] == *sl[j];
            if (e == (*sl[i] != *sl[j])) throw std::runtime_error("== and != agree");
            q += (q.empty() ? "[" : ",[") + std::to_string(i) + "," + std::to_string(j) + "," + (e ? "1]" : "0]");
            if constexpr (has_get<It>::value && std::is_pointer_v<B>)
                if (offsets && *sl[i] > *sl[j]) g += (g.empty() ? "[" : ",[") + std::to_string(i) + "," + std::to_string(j) + "]";
        }
        out += (out.empty() ? "" : ",") + std::string("{\"s\":[") + x + "],\"eq\":[" + q + "],\"gt\":[" + g + "]}";
    }
    return "{\"e\":\"\",\"r\":[" + out + "]}";
}
template<class U> std::vector<U> units(const J& a) {
    std::vector<U> v;
    for (auto& x : a.a) v.push_back(static_cast<U>(x.i));
    v.shrink_to_fit();
    return v;
}
template<class U> struct Block {      // exactly sized
    std::unique_ptr<U[]> p; std::size_t n;
    explicit Block(const J& a) : p(new U[a.size() ? a.size() : 1]), n(a.size()) { for (std::size_t i = 0; i < n; ++i) p[i] = static_cast<U>(a[i].i); }
    const U* b() const { return p.get(); }
    const U* e() const { return p.get() + n; }
};

template<class U, class It> std::string simple(const J& c) {
    Block<U> s(c["src"]);
    return ops<It>(c, s.b(), [&] { return It(s.b(), s.e()); }, [&] { return It(s.e(), s.e()); }, true);
}
template<class U, class In, class It> std::string nested(const J& c) {
    Block<U> s(c["src"]);
    return ops<It>(c, s.b(), [&] { return It(In(s.b(), s.e()), In(s.e(), s.e())); }, [&] { return It(In(s.e(), s.e()), In(s.e(), s.e())); }, false);
}
template<class U> std::string flip(const J& c) {
    using It = lexertl::basic_flip_iterator<const U*>;
    Block<U> s(c["src"]);
    return ops<It>(c, s.b(), [&] { return It(s.b()); }, [&] { return It(s.e()); }, false);
}
using namespace lexertl;
static std::string schedule(const J& c) {
    const std::string k = c["kind"].ascii();
    if (k == "in8") return simple<char, cutf8_in_utf32_out_iterator>(c);
    if (k == "in8l") {
        using L = std::list<char>;
        using It = basic_utf8_in_iterator<L::const_iterator, wchar_t>;
        L s;
        for (auto& x : c["src"].a) s.push_back(static_cast<char>(x.i));
        return ops<It>(c, s.cbegin(), [&] { return It(s.cbegin(), s.cend()); }, [&] { return It(s.cend(), s.cend()); }, false);
    }
    if (k == "in16") return simple<char16_t, cutf16_in_utf32_out_iterator>(c);
    if (k == "in16w") return simple<wchar_t, cwchar_t_in_utf32_out_iterator>(c);
    if (k == "out8") return simple<char32_t, basic_utf8_out_iterator<const char32_t*>>(c);
    if (k == "out8in16") return nested<char16_t, cutf16_in_utf32_out_iterator, cutf16_in_utf8_out_iterator>(c);
    if (k == "out8inw") return nested<wchar_t, cwchar_t_in_utf32_out_iterator, cwchar_t_in_utf8_out_iterator>(c);
    if (k == "out16") return simple<char32_t, basic_utf16_out_iterator<const char32_t*, char16_t>>(c);
    if (k == "out16in8") return nested<char, cutf8_in_utf32_out_iterator, cutf8_in_utf16_out_iterator>(c);
    if (k == "outwin8") return nested<char, cutf8_in_utf32_out_iterator, cutf8_in_wchar_t_out_iterator>(c);
    if (k == "flip2") return flip<char16_t>(c);
    if (k == "flip4") return flip<uint32_t>(c);
    throw std::runtime_error("harness: kind " + k);
}

template<class It> std::string walk(It b, It e) {
    std::string r;
    while (b != e) { r += (r.empty() ? "" : ",") + val(static_cast<typename It::value_type>(*b)); ++b; }
    return "[" + r + "]";
}
static std::string all(const J& c) {
    Block<char32_t> t(c["t"]); Block<char> s8(c["s8"]); Block<char16_t> s16(c["s16"]);
    using O8 = basic_utf8_out_iterator<const char32_t*>;
    using O16 = basic_utf16_out_iterator<const char32_t*, char16_t>;
    using I8 = cutf8_in_utf32_out_iterator; using I16 = cutf16_in_utf32_out_iterator;
    using X16 = cutf8_in_utf16_out_iterator; using X8 = cutf16_in_utf8_out_iterator;
    return "{\"e\":\"\",\"o8\":" + walk(O8(t.b(), t.e()), O8(t.e(), t.e())) + ",\"o16\":" + walk(O16(t.b(), t.e()), O16(t.e(), t.e())) +
        ",\"d8\":" + walk(I8(s8.b(), s8.e()), I8(s8.e(), s8.e())) + ",\"d16\":" + walk(I16(s16.b(), s16.e()), I16(s16.e(), s16.e())) +
        ",\"x16\":" + walk(X16(I8(s8.b(), s8.e()), I8(s8.e(), s8.e())), X16(I8(s8.e(), s8.e()), I8(s8.e(), s8.e()))) +
        ",\"x8\":" + walk(X8(I16(s16.b(), s16.e()), I16(s16.e(), s16.e())), X8(I16(s16.e(), s16.e()), I16(s16.e(), s16.e()))) + "}";
}

template<class It, class B> std::string decode(B b, B e, bool post) {
    std::string r;
    try {
        It i(b, e);
        const It fin(e, e);
        for (std::size_t n = 0; i != fin; ++n) {
            if (n > 100000) return "[-9]";
            r += (r.empty() ? "" : ",") + std::to_string(static_cast<unsigned long>(*i) & 0xffffff);
            if (post) i++; else ++i;
        }
    } catch (const std::range_error&) { r += (r.empty() ? "" : ",") + std::string("-1"); }
    return "[" + r + "]";
}
static std::string dec(const J& c) {
    std::string r;
    const long long f = c["form"].i;
    if (c["w"].i == 8) {
        Block<char> s(c["src"]);
        if (f == 0) r = decode<cutf8_in_utf32_out_iterator>(s.b(), s.e(), false);
        else if (f == 1) r = decode<cutf8_in_utf32_out_iterator>(s.b(), s.e(), true);
        else if (f == 2) { std::list<char> l(s.b(), s.e()); r = decode<basic_utf8_in_iterator<std::list<char>::const_iterator, wchar_t>>(l.cbegin(), l.cend(), false); }
        else { Block<unsigned char> u(c["src"]); r = decode<basic_utf8_in_iterator<const unsigned char*, uint32_t>>(u.b(), u.e(), false); }
    } else {
        if (f % 2 == 0) { Block<char16_t> s(c["src"]); r = decode<cutf16_in_utf32_out_iterator>(s.b(), s.e(), f > 1); }
        else { Block<wchar_t> s(c["src"]); r = decode<cwchar_t_in_utf32_out_iterator>(s.b(), s.e(), f > 1); }
    }
    return "{\"e\":\"\",\"r\":" + r + "}";
}

template<class Res, class It, class SM> std::string events(const SM& sm, It b, It e, std::size_t cap) {
    std::string out;
    Res r(b, e);
    It at = r.first;
    long long pos = 0;
    for (std::size_t k = 0;; ++k) {
        if (k > cap) { out += (out.empty() ? "" : ",") + std::string("[-2,0,0,0,0,0,[]]"); break; }
        try { lexertl::lookup(sm, r); }
        catch (const lexertl::runtime_error&) { out += (out.empty() ? "" : ",") + std::string("[-1,0,0,0,0,0,[]]"); break; }
        std::string st = "[]";
        if constexpr (std::is_base_of_v<lexertl::recursive_match_results<It, typename SM::id_type>, Res>) st = stack_str(r.stack);
        while (at != r.first) { ++at; ++pos; }
        const long long f = pos;
        while (at != r.second) { ++at; ++pos; }
        out += (out.empty() ? "[" : ",[") + std::to_string(nid(r.id)) + "," + std::to_string(nid(r.user_id)) + "," + std::to_string(f) + "," +
            std::to_string(pos) + "," + std::to_string(nid(r.state)) + "," + (r.bol ? "1" : "0") + "," + st + "]";
        if (r.first == r.eoi) break;
        if (r.second == r.first) { out += ",[-3,0,0,0,0,0,[]]"; break; }
    }
    return "[" + out + "]";
}
template<class Ch, class U, class It, class MK> std::string lexed(const J& c, MK mk) {
    using Id = uint16_t;
    using Rules = basic_rules<Ch, Ch, Id>;
    using SM = basic_state_machine<Ch, Id>;
    SM sm;
    try {
        Rules r(static_cast<std::size_t>(c["flags"].i));
        program(r, c["calls"]);
        basic_generator<Rules, SM>::build(r, sm);
    } catch (const lexertl::runtime_error& ex) { return "{\"e\":" + jstr(ex.what()) + ",\"r\":[]}"; }
    const bool rec = (sm.data()._features & *feature_bit::recursive) != 0;
    std::string out;
    for (auto& in : c["src"].a) {
        Block<U> s(in);
        It b = mk(s.b(), s.e()), e = mk(s.e(), s.e());
        out += (out.empty() ? "" : ",") + (rec ? events<recursive_match_results<It, Id>>(sm, b, e, 4 * s.n + 2) : events<match_results<It, Id>>(sm, b, e, 4 * s.n + 2));
    }
    return "{\"e\":\"\",\"r\":[" + out + "]}";
}
static std::string lex(const J& c) {
    const std::string f = c["form"].ascii();
    if (f == "in8") return lexed<wchar_t, char, basic_utf8_in_iterator<const char*, wchar_t>>(c, [](const char* b, const char* e) { return basic_utf8_in_iterator<const char*, wchar_t>(b, e); });
    if (f == "in16") return lexed<wchar_t, char16_t, basic_utf16_in_iterator<const char16_t*, wchar_t>>(c, [](const char16_t* b, const char16_t* e) { return basic_utf16_in_iterator<const char16_t*, wchar_t>(b, e); });
    if (f == "out8") return lexed<char, char32_t, basic_utf8_out_iterator<const char32_t*>>(c, [](const char32_t* b, const char32_t* e) { return basic_utf8_out_iterator<const char32_t*>(b, e); });
    return lexed<char, char16_t, cutf16_in_utf8_out_iterator>(c, [](const char16_t* b, const char16_t* e) { return cutf16_in_utf8_out_iterator(cutf16_in_utf32_out_iterator(b, e), cutf16_in_utf32_out_iterator(e, e)); });
}

int main(int argc, char** argv) {
    std::FILE* f = argc > 1 ? std::fopen(argv[1], "r") : stdin;
    long skip = argc > 2 ? std::atol(argv[2]) : 0;
    std::string l;
    std::signal(SIGALRM, on_alarm);
    long n = 0;
    while (next_line(f, l)) {
        if (n++ < skip) continue;
        g_case = n;
        alarm(20);
        J c = JP(l).parse();
        std::string o;
        const std::string k = c["k"].ascii();
        try { o = k == "ops" ? schedule(c) : k == "all" ? all(c) : k == "dec" ? dec(c) : lex(c); }
        catch (const std::exception& ex) { o = std::string("{\"e\":") + jstr(std::string("UNEXPECTED ") + ex.what()) + ",\"r\":[]}"; }
        std::puts(o.c_str());
        std::fflush(stdout);
        alarm(0);
    }
    return 0;
}
