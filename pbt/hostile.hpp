// Hostile text handed to everything that reads text: either an exception or an object that can be used.
#pragma once
#include "load.hpp"
#include "CompositeATN.hpp"
#include "LookaheadDFA.hpp"
#include "DFA.hpp"

namespace hs
{
using namespace Centaurus;
struct Null : std::wstreambuf { long n = 0; int_type overflow(int_type c) override { n++; return c; } std::streamsize xsputn(const wchar_t *, std::streamsize k) override { n += k; return k; } };
inline const std::vector<std::string>& grammar_bits()
{
    static const std::vector<std::string> bits = {"(", ")", "[", "]", "{", "}", "|", "|>", "*", "+", "?", "/", "//", "/*", "*/", "'", "\"", ";", ":", "\\", "^", "-", ".", "grammar ", "include ", "include \"x\";", "include \"", "{1}", "{99999999999}",
        "\r", "\n", "\r\n", " ", "_", "a", "0", "$", "[^", "[]", "[^]", "[a-]", "[-a]", "[z-a]", "\\n", "\\x", "//\r", "''", "\"\""};
    return bits;
}
inline const std::vector<std::string>& regex_bits()
{
    static const std::vector<std::string> bits = {"(", ")", "[", "]", "{", "}", "|", "*", "+", "?", "/", "\\", "^", "-", ".", "++", "*+", "??", "()", "(|)", "[^", "[]", "[^]", "[a-]", "[-a]", "[z-a]", "\\n", "\\x", "a", "\r\n", "\r", "[\\", "[^\\n]"};
    return bits;
}
inline std::string damage(pbt::Gen& g, std::string s, const std::vector<std::string>& bits, int most)
{
    int k = g.range(1, most);
    while (k--)
    {
        size_t n = s.size();
        switch (g.weighted({4, 4, 3, 2, 2, 2}))
        {
        case 0: { size_t at = g.below((uint32_t)n + 1); s.insert(at, bits[g.below((uint32_t)bits.size())]); break; }
        case 1: if (n) { size_t at = g.below((uint32_t)n); s.erase(at, g.range(1, 3)); } break;
        case 2: if (n) s[g.below((uint32_t)n)] = (char)g.range(0, 254); break;
        case 3: if (n) { size_t at = g.below((uint32_t)n), len = g.range(1, 12); s.insert(g.below((uint32_t)n), s.substr(at, len)); } break;
        case 4: if (n) s.resize(g.below((uint32_t)n)); break;
        case 5: if (n > 1) { size_t a = g.below((uint32_t)n), b = g.below((uint32_t)n); std::swap(s[a], s[b]); } break;
        }
    }
    return s;
}
inline int depth_of(const std::string& s)
{
    int d = 0, m = 0;
    for (char c : s) { if (c == '(') m = std::max(m, ++d); else if (c == ')') d--; }
    return m;
}
// Returns what happened: 0 rejected, 1 accepted.
inline int grammar(const std::string& text, const std::string& path)
{
    gr::write_file(path, text);
    Grammar<char> G;
    try { G.parse(path); }
    catch (const std::exception&) { return 0; }
    Null sink;
    std::wostream os(&sink);
    auto names = ld::enumerate(G);
    auto use = [&]()
    {
        try { G.print_grammar(os, 3, false); } catch (const std::exception&) {}
        for (auto& n : names)
        {
            Identifier id(rx::widen(n.first));
            try { G.print_catn(os, id); } catch (const std::exception&) {}
            const auto& m = G[id];
            for (int i = 0; i < m.get_node_num(); i++)
            {
                try { G.print_nfa(os, ATNPath(id, i)); } catch (const std::exception&) {}
            }
        }
    };
    use();
    G.optimize();
    use();
    ld::dump(G);
    return 1;
}
inline int regex(const std::string& text, const std::string& subject)
{
    try
    {
        Stream st(rx::widen(text));
        NFA<char> n(st);
        bool a = n.run(subject);
        if (n.get_state_num() > 40) return 1;
        DFA<char> d(n, false), e(n, true);
        bool b = d.run(subject), c = e.run(subject);
        if (a != b || a != c) abort();
        Null sink;
        std::wostream os(&sink);
        n.print(os, L"N");
        e.print(os, L"D");
    }
    catch (const std::exception&) { return 0; }
    return 1;
}
inline int char_class(const std::string& text)
{
    try
    {
        Stream st(rx::widen(text));
        CharClass<char> c(st);
        CharClass<char> d = ~c;
        CharClass<char> e = (c | d) & c;
        for (int i = 1; i < 255; i++)
        {
            if (c.includes((char)i) == d.includes((char)i)) abort();
            if (c.includes((char)i) != e.includes((char)i)) abort();
        }
    }
    catch (const std::exception&) { return 0; }
    return 1;
}
inline int path(const std::string& text)
{
    try
    {
        ATNPath p(rx::widen(text));
        if (p.depth() && p.leaf_id().str().empty()) abort();
    }
    catch (const std::exception&) { return 0; }
    return 1;
}
}
