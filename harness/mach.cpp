// Builds machines from cases and dumps them in a table-independent form:
// start states, states, and transitions on characters.
//  in : {"w":..,"calls":[..],"flags":n,"ops":["base","min",...],"in":[texts]}
//  out: {"e":"","m":{op: M,...},"t":{op: text},"r":{op:[[event..]..]},"same":{op:0|1}}
//  M = {"eoi":n,"feat":n,"size":n,"dfa":[{"bol":i,"q":[[end,id,uid,push,nx,eol,pop,[[lo,hi,to],..]],..]},..]}
// State 0 is the dead state; state 1 the start state.
#include "common.hpp"
#include <array>
#include <functional>
#include <map>
#include <lexertl/debug.hpp>
#include <lexertl/dot.hpp>
#include <lexertl/serialise.hpp>
#include <lexertl/sm_to_csm.hpp>

static volatile long g_case = -1;
static void on_alarm(int) {
    char b[64]; int n = std::snprintf(b, 64, "\nHANG %ld\n", g_case);
    if (write(1, b, static_cast<std::size_t>(n))) {}
    _exit(3);
}
static std::string N(long long v) { return std::to_string(v); }

static std::string close_trans(std::vector<std::array<long long, 3>>& tr) {
    std::sort(tr.begin(), tr.end());
    std::string o; long long lo = -1, hi = -1, to = -1;
    auto flush = [&] { if (lo >= 0) o += (o.empty() ? "[" : ",[") + N(lo) + "," + N(hi) + "," + N(to) + "]"; };
    for (auto& t : tr) {
        if (t[2] == to && t[0] == hi + 1) { hi = t[1]; continue; }
        flush(); lo = t[0]; hi = t[1]; to = t[2];
    }
    flush();
    return "[" + o + "]";
}

// table machine
template<class Ch, class Id> std::string dump_sm(const lexertl::basic_state_machine<Ch, Id>& sm, bool bytes = false) {
    using namespace lexertl;
    auto& d = sm.data();
    std::string out; std::size_t total = 0;
    for (std::size_t k = 0; k < d._dfa.size(); ++k) {
        const std::size_t A = d._dfa_alphabet[k];
        const auto& T = d._dfa[k]; const auto& L = d._lookup[k];
        if (!A) { out += std::string(k ? "," : "") + "{\"bol\":0,\"q\":[]}"; continue; }
        const std::size_t n = T.size() / A;
        std::vector<bool> start(n, true);
        if (sizeof(Ch) > 1 && !bytes) {
            // states reached between the bytes of one character are internal
            start.assign(n, false); start[0] = true; if (n > 1) start[1] = true; if (T[0]) start[T[0]] = true;
        }
        std::vector<std::string> tr(n, "[]");
        std::vector<std::size_t> todo; for (std::size_t q = 0; q < n; ++q) if (start[q]) todo.push_back(q);
        std::map<std::size_t, std::vector<std::array<long long, 3>>> memo[3];
        for (std::size_t z = 0; z < todo.size(); ++z) {
            const std::size_t q = todo[z];
            std::vector<std::array<long long, 3>> v;
            auto go = [&](std::size_t s, unsigned b) -> std::size_t { return T[s * A + L[b]]; };
            if (q == 0) continue;
            // runs of characters, byte by byte (states between bytes shared)
            using Runs = std::vector<std::array<long long, 3>>;
            auto add = [](Runs& r, long long lo, long long hi, long long to) {
                if (!r.empty() && r.back()[2] == to && r.back()[1] + 1 == lo) r.back()[1] = hi; else r.push_back({lo, hi, to}); };
            std::function<const Runs&(std::size_t, int)> runs = [&](std::size_t s, int lev) -> const Runs& {
                auto it = memo[lev].find(s); if (it != memo[lev].end()) return it->second;
                Runs r;
                for (unsigned c = 0; c < 256; ++c) {
                    const std::size_t to = go(s, c); if (!to) continue;
                    if (lev == 0) { add(r, c, c, static_cast<long long>(to)); continue; }
                    const long long base = static_cast<long long>(c) << (8 * lev);
                    for (auto& x : runs(to, lev - 1)) add(r, base + x[0], base + x[1], x[2]);
                }
                return memo[lev][s] = r;
            };
            const int lev = sizeof(Ch) == 1 || bytes ? 0 : sizeof(Ch) == 2 ? 1 : 2;
            v = runs(q, lev);
            for (auto& x : v) { const std::size_t to = static_cast<std::size_t>(x[2]); if (!start[to]) { start[to] = true; todo.push_back(to); } }
            tr[q] = close_trans(v);
            const std::size_t e = T[q * A + *state_index::eol];
            if (e && !start[e]) { start[e] = true; todo.push_back(e); }
        }
        out += std::string(k ? "," : "") + "{\"bol\":" + N(T[0]) + ",\"q\":[";
        for (std::size_t q = 0; q < n; ++q) {
            const Id* r = &T[q * A];
            out += std::string(q ? "," : "") + "[" + (q == 0 ? "0" : N((r[*state_index::end_state] & *state_bit::end_state) ? 1 : 0)) + "," + N(nid(r[*state_index::id])) + "," + N(nid(r[*state_index::user_id])) + "," +
                N(nid(r[*state_index::push_dfa])) + "," + N(nid(r[*state_index::next_dfa])) + "," + N(r[*state_index::eol]) + "," +
                N(q && (r[*state_index::end_state] & *state_bit::pop_dfa) ? 1 : 0) + "," + tr[q] + "]";
        }
        total += n;
        out += "]}";
    }
    return "{\"eoi\":" + N(nid(d._eoi)) + ",\"feat\":" + N(d._features) + ",\"size\":" + N(total) + ",\"dfa\":[" + out + "]}";
}

// character machine: shifted by one so that 0 is the dead state
template<class CSM> std::string dump_csm(const CSM& m) {
    std::string out; std::size_t total = 0, k = 0;
    for (auto& d : m._sm_vector) {
        out += std::string(k++ ? "," : "") + "{\"bol\":" + N(d._bol_index == CSM::npos() ? 0 : d._bol_index + 1) + ",\"q\":[[0,0,65535,65535,0,0,0,[]]";
        for (auto& s : d._states) {
            std::vector<std::array<long long, 3>> v;
            for (auto& t : s._transitions) for (auto& r : t.second._ranges)
                v.push_back({static_cast<long long>(r.first), static_cast<long long>(r.second), t.first + 1LL});
            using S = typename CSM::state;
            const int pp = static_cast<int>(s._push_pop_dfa);
            out += ",[" + N(s._end_state) + "," + N(nid(s._id)) + "," + N(nid(s._user_id)) + "," +
                N(s._push_pop_dfa == S::push_pop_dfa::push_dfa ? nid(s._push_dfa) : 65535) + "," + N(nid(s._next_dfa)) + "," + N(s._eol_index == CSM::npos() ? 0 : s._eol_index + 1) + "," +
                N(s._push_pop_dfa == S::push_pop_dfa::pop_dfa ? 1 : 0) + "," + close_trans(v) + "]";
            (void)pp;
            ++total;
        }
        out += "]}";
    }
    return "{\"eoi\":0,\"feat\":0,\"size\":" + N(total) + ",\"dfa\":[" + out + "]}";
}

template<class Ch> std::string text_json(const std::basic_string<Ch>& s) {
    std::string o = "\"";
    for (Ch c0 : s) {
        unsigned long c = static_cast<std::make_unsigned_t<std::conditional_t<std::is_same_v<Ch, wchar_t>, int, std::conditional_t<std::is_same_v<Ch, char32_t>, int, std::conditional_t<std::is_same_v<Ch, char16_t>, short, Ch>>>>>(c0);
        char b[40];
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 32 || c > 126) { if (c > 0xffff) { std::snprintf(b, 40, "\\u%04lx\\u%04lx", 0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff)); } else std::snprintf(b, 40, "\\u%04lx", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o + "\"";
}

template<class SM> bool same_tables(const SM& a, const SM& b) {
    auto &x = a.data(), &y = b.data();
    return x._eoi == y._eoi && x._lookup == y._lookup && x._dfa_alphabet == y._dfa_alphabet && x._features == y._features && x._dfa == y._dfa;
}

template<class Ch, class Id, class SM> std::string tokens(const SM& sm, const J& c) {
    const bool rec = (sm.data()._features & *lexertl::feature_bit::recursive) != 0;
    std::string out;
    for (auto& in : c["in"].a) {
        const auto s = conv<Ch>(in); Text<Ch> t(s);
        out += out.empty() ? "" : ",";
        if (rec) out += run_lookup<lexertl::recursive_match_results<const Ch*, Id>>(sm, t.b(), t.e(), true, s.size() + 2);
        else out += run_lookup<lexertl::match_results<const Ch*, Id>>(sm, t.b(), t.e(), false, s.size() + 2);
    }
    return "[" + out + "]";
}

template<class RC, class Ch, class Id> std::string run(const J& c) {
    using Rules = lexertl::basic_rules<RC, Ch, Id>;
    using SM = lexertl::basic_state_machine<Ch, Id>;
    using CSM = lexertl::basic_char_state_machine<Ch, Id>;
    using Gen = lexertl::basic_generator<Rules, SM>;
    using CGen = lexertl::basic_generator<Rules, CSM>;
    // serialised text of char32_t and char16_t machines goes through char streams
    using SCh = std::conditional_t<std::is_same_v<Ch, wchar_t>, wchar_t, char>;
    std::string m, t, r, same;
    SM sm; std::unique_ptr<Rules> rules;
    try {
        rules.reset(c.has("flags") ? new Rules(static_cast<std::size_t>(c["flags"].i)) : new Rules());
        program(*rules, c["calls"]);
        Gen::build(*rules, sm);
    } catch (const lexertl::runtime_error& ex) { return "{\"e\":" + jstr(ex.what()) + "}"; }
    auto put = [](std::string& to, const std::string& k, const std::string& v) { to += (to.empty() ? "\"" : ",\"") + k + "\":" + v; };
    const bool toks = c.has("in");
    auto sm_out = [&](const std::string& op, const SM& x) { put(m, op, dump_sm(x)); if (toks) put(r, op, tokens<Ch, Id>(x, c)); };
    for (auto& opj : c["ops"].a) {
        const std::string op = opj.ascii();
        if (op == "base") sm_out(op, sm);
        else if (op == "bytes") put(m, op, dump_sm(sm, true));
        else if (op == "bytesmin") { SM x = sm; x.minimise(); put(m, op, dump_sm(x, true)); }
        else if (op == "min") { SM x = sm; x.minimise(); sm_out(op, x); SM y = x; y.minimise(); put(same, "min2", same_tables(x, y) ? "1" : "0"); }
        else if (op == "minbuilt") { // rules built again, then minimised: identical to minimising a copy
            SM y; Gen::build(*rules, y); put(same, "rebuild", same_tables(sm, y) ? "1" : "0"); }
        else if (op == "save" || op == "save_used" || op == "save_min" || op == "save_twice") {
            std::basic_stringstream<SCh> ss;
            SM src = sm; if (op == "save_min") src.minimise();
            lexertl::save(src, ss);
            SM dst;
            if (op == "save_used") { // a target that already holds some other machine
                Rules o; const RC a[] = {'a', 0}, bb[] = {'(', 'b', '|', 'c', ')', '+', '$', 0}, cc[] = {'^', 'x', 0}, st[] = {'Q', 0}, ini[] = {'I','N','I','T','I','A','L',0}, pu[] = {'>','Q',0}, po[] = {'<',0};
                o.push_state(st); o.push(ini, a, 5, pu); o.push(ini, cc, 6, st); o.push(st, bb, 7, po); o.push(st, cc, o.skip(), st);
                Gen::build(o, dst);
            }
            if (op == "save_twice") { // two machines one after the other in one stream
                SM first = sm; first.minimise();
                std::basic_stringstream<SCh> s2; lexertl::save(first, s2); s2 << SCh('\n'); lexertl::save(src, s2);
                SM d1; lexertl::load(s2, d1); put(same, "save_first", same_tables(d1, first) ? "1" : "0");
                lexertl::load(s2, dst);
                put(same, "stream", s2 ? "1" : "0");
            } else { lexertl::load(ss, dst); put(same, op + "_stream", ss ? "1" : "0"); }
            put(same, op, same_tables(src, dst) ? "1" : "0");
            sm_out(op, dst);
        }
        else if (op == "swap") { SM a = sm, b; b.swap(a); put(same, "swap", same_tables(b, sm) && a.empty() && !b.empty() ? "1" : "0");
            b.clear(); put(same, "clear", b.empty() && same_tables(a, b) ? "1" : "0"); }
        else if (op == "csm") { CSM x; CGen::build(*rules, x); put(m, op, dump_csm(x)); }
        else if (op == "csmmin") { CSM x; CGen::build(*rules, x); x.minimise(); put(m, op, dump_csm(x)); }
        else if (op == "conv") { CSM x; lexertl::sm_to_csm(sm, x); put(m, op, dump_csm(x)); }
        else if (op == "convmin") { CSM x; lexertl::sm_to_csm(sm, x); x.minimise(); put(m, op, dump_csm(x)); }
        else if (op == "minconv") { SM y = sm; y.minimise(); CSM x; lexertl::sm_to_csm(y, x); put(m, op, dump_csm(x)); }
        else if (op == "dump" || op == "dumpn" || op == "dumpcsm" || op == "dumpmin") {
            if constexpr (std::is_same_v<RC, Ch> && (std::is_same_v<Ch, char> || std::is_same_v<Ch, wchar_t>)) {
                using D = lexertl::basic_debug<SM, Ch, Id>;
                std::basic_ostringstream<Ch> os;
                if (op == "dump") D::dump(sm, os);
                else if (op == "dumpn") D::dump(sm, *rules, os);
                else { CSM x; CGen::build(*rules, x); if (op == "dumpmin") x.minimise(); put(m, op + "_of", dump_csm(x)); D::dump(x, os); }
                put(t, op, text_json(os.str()));
            }
        }
        else if (op == "dot" || op == "dotcsm") {
            if constexpr (std::is_same_v<RC, Ch> && (std::is_same_v<Ch, char> || std::is_same_v<Ch, wchar_t>)) {
                using D = lexertl::basic_dot<SM, Ch, Id>;
                std::basic_ostringstream<Ch> os;
                if (op == "dot") D::dump(sm, *rules, os);
                else { CSM x; CGen::build(*rules, x); D::dump(x, *rules, os); }
                put(t, op, text_json(os.str()));
            }
        }
    }
    return "{\"e\":\"\",\"m\":{" + m + "},\"t\":{" + t + "},\"r\":{" + r + "},\"same\":{" + same + "}}";
}

int main(int argc, char** argv) {
    std::FILE* f = argc > 1 ? std::fopen(argv[1], "r") : stdin;
    long skip = argc > 2 ? std::atol(argv[2]) : 0;
    std::string l;
    std::signal(SIGALRM, on_alarm);
    long n = 0;
    while (next_line(f, l)) {
        if (n++ < skip) continue;
        g_case = n;
        alarm(40);
        J c = JP(l).parse();
        std::string o;
        const std::string w = c.has("w") ? c["w"].ascii() : "n";
        try {
            if (w == "n") o = run<char, char, uint16_t>(c);
            else if (w == "n8") o = run<char, char, uint8_t>(c);
            else if (w == "n32") o = run<char, char, uint32_t>(c);
#ifdef WIDE
            else if (w == "w") o = run<wchar_t, wchar_t, uint16_t>(c);
            else if (w == "u") o = run<char32_t, char32_t, uint16_t>(c);
            else if (w == "h") o = run<char16_t, char16_t, uint16_t>(c);
            else if (w == "nu") o = run<char, char32_t, uint32_t>(c);
#endif
            else o = "{\"e\":\"harness: width\"}";
        } catch (const std::exception& ex) { o = std::string("{\"e\":") + jstr(std::string("UNEXPECTED ") + ex.what()) + "}"; }
        std::puts(o.c_str());
        std::fflush(stdout);
        alarm(0);
    }
    return 0;
}
