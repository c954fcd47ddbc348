// Shared by the harnesses: applies a "rules program" (a list of calls) to a
// rules object, and records what a lexer reports.
#pragma once
#include "json.hpp"
#include <lexertl/generator.hpp>
#include <lexertl/iterator.hpp>
#include <lexertl/lookup.hpp>
#include <lexertl/match_results.hpp>
#include <lexertl/rules.hpp>
#include <lexertl/state_machine.hpp>
#include <cstring>
#include <memory>
#include <sstream>
#include <unistd.h>
#include <csignal>
#include <algorithm>

template<class Ch> std::basic_string<Ch> conv(const std::u32string& s) {
    std::basic_string<Ch> r;
    for (char32_t c : s) r += static_cast<Ch>(c);
    return r;
}
template<class Ch> std::basic_string<Ch> conv(const J& arr) {
    if (arr.t == J::Str) return conv<Ch>(arr.s);
    std::basic_string<Ch> r;
    for (auto& c : arr.a) r += static_cast<Ch>(c.i);
    return r;
}

// One call. Returns normally or throws what the library throws.
template<class Rules> void call(Rules& r, const J& c) {
    using RC = typename Rules::rules_char_type;
    using Id = typename Rules::id_type;
    const std::string op = c[0].ascii();
    auto S = [&](int k) { return conv<RC>(c[k]); };
    // 65534 and 65535 stand for skip and npos of whatever id type is in use
    auto N = [&](int k) { return c[k].i == 65534 ? Rules::skip() : c[k].i == 65535 ? Rules::npos() : static_cast<Id>(c[k].i); };
    if (op == "state") r.push_state(S(1).c_str());
    else if (op == "macro") r.insert_macro(S(1).c_str(), S(2));
    else if (op == "macro_z") r.insert_macro(S(1).c_str(), S(2).c_str());
    else if (op == "macro_r") { auto x = S(2); r.insert_macro(S(1).c_str(), x.c_str(), x.c_str() + x.size()); }
    else if (op == "push") r.push(S(1), N(2));
    else if (op == "push_z") r.push(S(1).c_str(), N(2));
    else if (op == "push_r") { auto x = S(1); r.push(x.c_str(), x.c_str() + x.size(), N(2)); }
    else if (op == "pushu") r.push(S(1), N(2), N(3));
    else if (op == "pushu_z") r.push(S(1).c_str(), N(2), N(3));
    else if (op == "pushu_r") { auto x = S(1); r.push(x.c_str(), x.c_str() + x.size(), N(2), N(3)); }
    else if (op == "pushn") r.push(S(1).c_str(), S(2), S(3).c_str());
    else if (op == "pushn_z") r.push(S(1).c_str(), S(2).c_str(), S(3).c_str());
    else if (op == "pushn_r") { auto x = S(2); r.push(S(1).c_str(), x.c_str(), x.c_str() + x.size(), S(3).c_str()); }
    else if (op == "pushs") r.push(S(1).c_str(), S(2), N(3), S(4).c_str());
    else if (op == "pushs_z") r.push(S(1).c_str(), S(2).c_str(), N(3), S(4).c_str());
    else if (op == "pushs_r") { auto x = S(2); r.push(S(1).c_str(), x.c_str(), x.c_str() + x.size(), N(3), S(4).c_str()); }
    else if (op == "pushsu") r.push(S(1).c_str(), S(2), N(3), S(4).c_str(), N(5));
    else if (op == "pushsu_z") r.push(S(1).c_str(), S(2).c_str(), N(3), S(4).c_str(), N(5));
    else if (op == "pushsu_r") { auto x = S(2); r.push(S(1).c_str(), x.c_str(), x.c_str() + x.size(), N(3), S(4).c_str(), N(5)); }
    else if (op == "flags") r.flags(static_cast<std::size_t>(c[1].i));
    else if (op == "clear") r.clear();
    else if (op == "clear1") r.clear(N(1));
    else if (op == "reverse") r.reverse();
    else throw std::runtime_error("harness: bad call " + op);
}

template<class Rules> void program(Rules& r, const J& calls) {
    for (auto& c : calls.a) call(r, c);
}


// id_type independent rendering of the reserved ids (the specification uses
// 65535 for "no match" and 65534 for "skip").
template<class Id> long long nid(Id id) {
    if (id == static_cast<Id>(~0)) return 65535;
    if (id == static_cast<Id>(~1)) return 65534;
    return static_cast<long long>(id);
}

// Stack contents, bottom first.
template<class St> std::string stack_str(St s) {
    std::string r;
    std::vector<std::pair<long long, long long>> v;
    while (!s.empty()) { v.emplace_back(nid(s.top().first), nid(s.top().second)); s.pop(); }
    for (auto it = v.rbegin(); it != v.rend(); ++it)
        r += (r.empty() ? "[" : ",[") + std::to_string(it->first) + "," + std::to_string(it->second) + "]";
    return "[" + r + "]";
}

// Text in an exactly sized heap block, so that the address sanitizer sees any
// read past either end.
template<class Ch> struct Text {
    std::unique_ptr<Ch[]> p; std::size_t n;
    explicit Text(const std::basic_string<Ch>& s) : p(new Ch[s.size() ? s.size() : 1]), n(s.size()) {
        for (std::size_t i = 0; i < n; ++i) p[i] = s[i];
    }
    const Ch* b() const { return p.get(); }
    const Ch* e() const { return p.get() + n; }
};

// Events of one lexing run using the lookup() API:
// [id, user id, first, second, start state, bol, stack]
template<class Res, class SM, class It>
std::string run_lookup(const SM& sm, It b, It e, bool recursive, std::size_t cap) {
    Res r(b, e);
    std::string out;
    for (std::size_t k = 0;; ++k) {
        if (k > cap) { out += (out.empty() ? "" : ",") + std::string("[-2,0,0,0,0,0,[]]"); break; }
        try { lexertl::lookup(sm, r); }
        catch (const lexertl::runtime_error&) { out += (out.empty() ? "" : ",") + std::string("[-1,0,0,0,0,0,[]]"); break; }
        std::string st = "[]";
        if constexpr (std::is_base_of_v<lexertl::recursive_match_results<It, typename SM::id_type>, Res>) st = stack_str(r.stack);
        out += (out.empty() ? "[" : ",[") + std::to_string(nid(r.id)) + "," + std::to_string(nid(r.user_id)) + "," +
            std::to_string(std::distance(b, r.first)) + "," + std::to_string(std::distance(b, r.second)) + "," +
            std::to_string(nid(r.state)) + "," + (r.bol ? "1" : "0") + "," + st + "]";
        if (r.first == r.eoi) break;
        if (r.second == r.first) { out += ",[-3,0,0,0,0,0,[]]"; break; }
    }
    (void)recursive;
    return "[" + out + "]";
}
