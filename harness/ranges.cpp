// Histories of sets of characters (basic_string_token).
//  {"w":"n"|"h"|"u"|"w","max":n,"ops":[[op,slot,..],..]}
// Output: {"e":"","r":[ {"s":[[[lo,hi],..] per slot],"q":[[empty,size,any,negatable],..],"m":[[[less,equal],..],..]}, ..]}
#include "json.hpp"
#include <lexertl/string_token.hpp>
#include <csignal>
#include <unistd.h>

static volatile long g_case = -1;
static void on_alarm(int) {
    char b[64]; int n = std::snprintf(b, 64, "\nHANG %ld\n", g_case);
    if (write(1, b, static_cast<std::size_t>(n))) {}
    _exit(3);
}

template<class Ch> std::string go(const J& c) {
    using T = lexertl::basic_string_token<Ch>;
    using I = typename T::index_type;
    T v[3];
    std::string out;
    for (auto& o : c["ops"].a) {
        const std::string k = o[0].ascii();
        auto A = [&](int j) { return o[j].i; };
        T& s = v[A(1) - 1];
        auto U = [&](int j) -> T& { return v[A(j) - 1]; };
        if (k == "new") s = T();
        else if (k == "clear") s.clear();
        else if (k == "one") s = T(static_cast<Ch>(A(2)));
        else if (k == "two") s = T(static_cast<Ch>(A(2)), static_cast<Ch>(A(3)));
        else if (k == "ins") s.insert(typename T::range(static_cast<I>(A(2)), static_cast<I>(A(3))));
        else if (k == "add") s.insert(U(2));
        else if (k == "neg") s.negate();
        else if (k == "rem") s.remove(U(2));
        else if (k == "int") s.intersect(U(2), U(3));
        else if (k == "swap") s.swap(U(2));
        else if (k == "copy") s = U(2);
        else throw std::runtime_error("harness: bad op");
        std::string a, q, m;
        for (auto& t : v) {
            std::string r;
            for (auto& p : t._ranges) r += (r.empty() ? "[" : ",[") + std::to_string(static_cast<unsigned long>(p.first)) + "," + std::to_string(static_cast<unsigned long>(p.second)) + "]";
            a += (a.empty() ? "[" : ",[") + r + "]";
            q += (q.empty() ? "[" : ",[") + std::to_string(t.empty()) + "," + std::to_string(t.size()) + "," + std::to_string(t.any()) + "," + std::to_string(t.negatable()) + "]";
            std::string x;
            for (auto& u : v) x += (x.empty() ? "[" : ",[") + std::to_string(t < u) + "," + std::to_string(t == u) + "]";
            m += (m.empty() ? "[" : ",[") + x + "]";
        }
        out += (out.empty() ? "{\"s\":[" : ",{\"s\":[") + a + "],\"q\":[" + q + "],\"m\":[" + m + "]}";
    }
    return "{\"e\":\"\",\"r\":[" + out + "]}";
}

int main(int argc, char** argv) {
    std::FILE* f = argc > 1 ? std::fopen(argv[1], "r") : stdin;
    long skip = argc > 2 ? std::atol(argv[2]) : 0;
    std::string l;
    std::signal(SIGALRM, on_alarm);
    long n = 0;
    while (next_line(f, l)) {
        if (n++ < skip) continue;
        g_case = n;
        alarm(20);
        J c = JP(l).parse();
        std::string o;
        const std::string w = c["w"].ascii();
        try {
            o = w == "n" ? go<char>(c) : w == "h" ? go<char16_t>(c) : w == "w" ? go<wchar_t>(c) : go<char32_t>(c);
        } catch (const std::exception& ex) { o = std::string("{\"e\":\"UNEXPECTED ") + ex.what() + "\",\"r\":[]}"; }
        std::puts(o.c_str());
        std::fflush(stdout);
        alarm(0);
    }
    return 0;
}
