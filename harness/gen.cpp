// Generates C++ lexers.  gen CASES OUTPREFIX FILES: case k goes to file
// k % FILES; every case gives two functions (table styles), each run on the
// texts of the case.  A case that cannot be built gives its error text.
#include "common.hpp"
#include <lexertl/generate_cpp.hpp>
#include <fstream>

template<class Ch> const char* chname();
template<> const char* chname<char>() { return "char"; }
template<> const char* chname<wchar_t>() { return "wchar_t"; }
template<> const char* chname<char16_t>() { return "char16_t"; }
template<> const char* chname<char32_t>() { return "char32_t"; }

template<class RC, class Ch, class Id> void run(long n, const J& c, std::ostream& os, const char* idname) {
    using Rules = lexertl::basic_rules<RC, Ch, Id>;
    using SM = lexertl::basic_state_machine<Ch, Id>;
    SM sm;
    try {
        Rules r(c.has("flags") ? static_cast<std::size_t>(c["flags"].i) : 2u);
        program(r, c["calls"]);
        lexertl::basic_generator<Rules, SM>::build(r, sm);
        if (c.has("min") && c["min"].i) sm.minimise();
    } catch (const lexertl::runtime_error& ex) {
        os << "static void case" << n << "() { std::puts(" << jstr("{\"e\":" + jstr(ex.what()) + ",\"r\":[]}") << "); }\n";
        return;
    }
    for (int p = 0; p < 2; ++p) lexertl::table_based_cpp::generate("lexer" + std::to_string(n) + "_" + std::to_string(p), sm, p != 0, os);
    os << "static void case" << n << "() {\n    static const " << (sizeof(Ch) == 1 ? "unsigned char" : "unsigned int") << " texts[] = {0";
    std::string lens;
    for (auto& in : c["in"].a) {
        for (auto& x : in.a) os << ',' << x.i;
        lens += (lens.empty() ? "" : ",") + std::to_string(in.a.size());
    }
    const bool rec = (sm.data()._features & *lexertl::feature_bit::recursive) != 0;
    os << "};\n    static const int lens[] = {" << lens << ",-1};\n    run_case<" << chname<Ch>() << "," << idname << "," << (rec ? "true" : "false")
       << "," << ((sm.data()._features & *lexertl::feature_bit::bol) ? "true" : "false") << ">(texts, lens";
    for (int p = 0; p < 2; ++p) os << ", [](auto& r) { lexer" << n << "_" << p << "(r); }";
    os << ");\n}\n";
}

int main(int, char** argv) {
    std::FILE* f = std::fopen(argv[1], "r");
    const long files = std::atol(argv[3]);
    std::vector<std::ofstream> os;
    std::vector<std::string> calls(files);
    for (long k = 0; k < files; ++k) {
        os.emplace_back(std::string(argv[2]) + std::to_string(k) + ".cpp");
        os[k] << "#include \"genrun.hpp\"\n";
    }
    std::string l;
    for (long n = 0; next_line(f, l); ++n) {
        J c = JP(l).parse();
        const std::string w = c.has("w") ? c["w"].ascii() : "n";
        auto& o = os[n % files];
        if (w == "n") run<char, char, uint16_t>(n, c, o, "std::uint16_t");
        else if (w == "n8") run<char, char, uint8_t>(n, c, o, "std::uint8_t");
        else if (w == "n32") run<char, char, uint32_t>(n, c, o, "std::uint32_t");
        else if (w == "w") run<wchar_t, wchar_t, uint16_t>(n, c, o, "std::uint16_t");
        else if (w == "u") run<char32_t, char32_t, uint16_t>(n, c, o, "std::uint16_t");
        else if (w == "h") run<char16_t, char16_t, uint16_t>(n, c, o, "std::uint16_t");
        calls[n % files] += "    alarm(20); case" + std::to_string(n) + "(); std::fflush(stdout);\n";
    }
    for (long k = 0; k < files; ++k) os[k] << "int main() {\n" << calls[k] << "}\n";
    return 0;
}
