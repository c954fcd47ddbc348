// Runs generated lexers; included by the generated files.
#pragma once
#include <lexertl/match_results.hpp>
#include <cstdint>
#include <cstdio>
#include <forward_list>
#include <list>
#include <memory>
#include <string>
#include <type_traits>
#include <unistd.h>
#include <vector>

template<class Id> long long gnid(Id id) {
    if (id == static_cast<Id>(~0)) return 65535;
    if (id == static_cast<Id>(~1)) return 65534;
    return static_cast<long long>(id);
}
template<class R> std::string gstack(R& r, std::true_type) {
    std::string s; auto st = r.stack;
    for (; !st.empty(); st.pop()) s = "[" + std::to_string(gnid(st.top().first)) + "," + std::to_string(gnid(st.top().second)) + "]" + (s.empty() ? "" : "," + s);
    return "[" + s + "]";
}
template<class R> std::string gstack(R&, std::false_type) { return "[]"; }

template<class It, class Id, bool Rec, bool Bol, class F> std::string run_one(It b, It e, std::size_t cap, F f) {
    using R = std::conditional_t<Rec, lexertl::recursive_match_results<It, Id>, lexertl::match_results<It, Id>>;
    R r(b, e);
    std::string out;
    bool bol = true;
    for (std::size_t k = 0;; ++k) {
        if (k > cap) return "[" + out + ",[-2,0,0,0,0,0,[]]]";
        try { f(r); }
        catch (const lexertl::runtime_error&) { return "[" + out + (k ? "," : "") + "[-1,0,0,0,0,0,[]]]"; }
        const auto len = std::distance(r.first, r.second);
        // without start-of-line rules the generated code does not keep `bol'
        if (Bol) bol = r.bol;
        else { auto p = b; bol = r.second == b; for (; p != r.second; ++p) bol = *p == '\n'; }
        out += (k ? ",[" : "[") + std::to_string(gnid(r.id)) + "," + std::to_string(gnid(r.user_id)) + "," + std::to_string(std::distance(b, r.first)) + "," +
            std::to_string(std::distance(b, r.second)) + "," + std::to_string(gnid(r.state)) + "," + (bol ? "1" : "0") + "," + gstack(r, std::integral_constant<bool, Rec>()) + "]";
        if (r.first == r.eoi) break;
        if (len <= 0) return "[" + out + ",[-3,0,0,0,0,0,[]]]";
    }
    return "[" + out + "]";
}

template<class Ch, class Id, bool Rec, bool Bol, class T, class F0, class F1> void run_case(const T* texts, const int* lens, F0 f0, F1 f1) {
    std::string o[4];
    const T* p = texts + 1;
    for (int k = 0; lens[k] >= 0; ++k) {
        const std::size_t n = lens[k];
        std::unique_ptr<Ch[]> s(new Ch[n ? n : 1]);   // exactly sized: reads outside are seen
        for (std::size_t j = 0; j < n; ++j) s[j] = static_cast<Ch>(p[j]);
        const Ch* b = s.get();
        std::list<Ch> l(b, b + n);
        const std::string r[4] = { run_one<const Ch*, Id, Rec, Bol>(b, b + n, n + 2, f0), run_one<const Ch*, Id, Rec, Bol>(b, b + n, n + 2, f1),
            run_one<typename std::list<Ch>::const_iterator, Id, Rec, Bol>(l.cbegin(), l.cend(), n + 2, f0),
            run_one<typename std::list<Ch>::const_iterator, Id, Rec, Bol>(l.cbegin(), l.cend(), n + 2, f1) };
        for (int q = 0; q < 4; ++q) o[q] += (k ? "," : "") + r[q];
        p += n;
    }
    const char* const nm[4] = {"index", "pointers", "index/list", "pointers/list"};
    std::string out = "{\"e\":\"\",\"r\":[" + o[0] + "]";
    for (int q = 1; q < 4; ++q) if (o[q] != o[0]) out += std::string(",\"") + nm[q] + "\":[" + o[q] + "]";
    std::puts((out + "}").c_str());
}
