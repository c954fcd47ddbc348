// Minimal JSON reader/writer used by all replay harnesses (no dependency on
// the code under test).
#pragma once
#include <cstdint>
#include <cstdio>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

struct J {
    enum T { Null, Int, Str, Arr, Obj } t = Null;
    long long i = 0;
    std::u32string s;
    std::vector<J> a;
    std::map<std::string, J> o;
    bool has(const char* k) const { return t == Obj && o.count(k); }
    const J& operator[](const char* k) const {
        auto it = o.find(k);
        if (it == o.end()) throw std::runtime_error(std::string("json: no key ") + k);
        return it->second;
    }
    const J& operator[](std::size_t k) const { return a.at(k); }
    const J& operator[](int k) const { return a.at(static_cast<std::size_t>(k)); }
    std::size_t size() const { return a.size(); }
    std::string ascii() const { return std::string(s.begin(), s.end()); }
    long long num(const char* k, long long d) const { return has(k) ? o.at(k).i : d; }
};

class JP {
    const char *p, *e;
public:
    explicit JP(const std::string& x) : p(x.data()), e(x.data() + x.size()) {}
    J parse() { ws(); J r; 
        if (p == e) throw std::runtime_error("json: eof");
        switch (*p) {
        case '{': { r.t = J::Obj; ++p; ws();
            if (*p == '}') { ++p; return r; }
            for (;;) { ws(); J k = parse(); ws(); if (*p != ':') bad(); ++p;
                r.o[k.ascii()] = parse(); ws();
                if (*p == ',') { ++p; continue; }
                if (*p == '}') { ++p; return r; }
                bad(); } }
        case '[': { r.t = J::Arr; ++p; ws();
            if (*p == ']') { ++p; return r; }
            for (;;) { r.a.push_back(parse()); ws();
                if (*p == ',') { ++p; continue; }
                if (*p == ']') { ++p; return r; }
                bad(); } }
        case '"': { r.t = J::Str; ++p;
            while (p != e && *p != '"') {
                if (*p == '\\') { ++p;
                    switch (*p) {
                    case 'n': r.s += U'\n'; break; case 't': r.s += U'\t'; break;
                    case 'r': r.s += U'\r'; break; case 'b': r.s += U'\b'; break;
                    case 'f': r.s += U'\f'; break;
                    case 'u': { char32_t c = hex(p + 1); p += 4;
                        if (c >= 0xd800 && c < 0xdc00 && p[1] == '\\' && p[2] == 'u') {
                            char32_t d = hex(p + 3); p += 6;
                            c = 0x10000 + ((c - 0xd800) << 10) + (d - 0xdc00); }
                        r.s += c; break; }
                    default: r.s += static_cast<unsigned char>(*p); }
                    ++p;
                } else { r.s += static_cast<unsigned char>(*p); ++p; } }
            ++p; return r; }
        case 't': p += 4; r.t = J::Int; r.i = 1; return r;
        case 'f': p += 5; r.t = J::Int; r.i = 0; return r;
        case 'n': p += 4; return r;
        default: { r.t = J::Int; bool neg = false; if (*p == '-') { neg = true; ++p; }
            if (*p < '0' || *p > '9') bad();
            while (p != e && *p >= '0' && *p <= '9') r.i = r.i * 10 + (*p++ - '0');
            if (neg) r.i = -r.i; return r; }
        }
    }
private:
    void ws() { while (p != e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p; }
    [[noreturn]] void bad() { throw std::runtime_error("json: syntax"); }
    static char32_t hex(const char* q) { char32_t r = 0;
        for (int k = 0; k < 4; ++k) { char c = q[k]; r = r * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); }
        return r; }
};

inline std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r + "\"";
}

inline bool next_line(std::FILE* f, std::string& l) {
    l.clear(); int c;
    while ((c = std::getc(f)) != EOF && c != '\n') l += static_cast<char>(c);
    return c != EOF || !l.empty();
}
