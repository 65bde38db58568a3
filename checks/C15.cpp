// The generated machine code for regexes, literals and whitespace matches what they mean.
#define JT_MAIN
#include "jit.hpp"
#include "regex.hpp"
#include "Stream.hpp"
#include "CodeGenEM64T.hpp"
using namespace Centaurus;

template<typename R> static const char *call(pbt::Case& c, R *r, const char *text)
{
    struct Thunk { static const void *run(R *r, const void *in) { return (*r)(in); } };
    const char *p = (const char *)jt::jt_call((const void *)&Thunk::run, r, text, nullptr);
    if (jt::jt_bad) c.fail("the generated routine does not preserve " + jt::trouble());
    return p;
}
static void check(pbt::Case& c, const char *base, const char *got, long want, const std::string& s)
{
    std::string at = got ? std::to_string(got - base) : "rejection", w = want >= 0 ? std::to_string(want) : "rejection";
    if (got ? want < 0 || got - base != want : want >= 0) c.fail("for " + pbt::quote(s) + " the code gives " + at + ", not " + w);
}
// Longer text of the language: parts under a repetition are taken many times.
static void stretch(pbt::Gen& g, const rx::P& n, std::string& out, const std::string& prefer)
{
    switch (n->kind)
    {
    case rx::Char: case rx::Class: case rx::Dot: out += (char)rx::pick_set(g, n->set, prefer); return;
    case rx::Seq: for (auto& k : n->kids) stretch(g, k, out, prefer); return;
    case rx::Alt: stretch(g, g.pick(n->kids), out, prefer); return;
    case rx::Opt: if (g.chance(60)) stretch(g, n->kids[0], out, prefer); return;
    case rx::Star: case rx::Plus:
        for (int k = g.chance(2) ? g.range(100, 700) : g.chance(60) ? g.range(12, 36) : g.range(1, 3); k > 0 && out.size() < (k > 40 ? 700 : 120); k--) stretch(g, n->kids[0], out, prefer);
        if (n->kind == rx::Plus && out.empty()) stretch(g, n->kids[0], out, prefer);
        return;
    }
}
template<typename T> static void regex(pbt::Case& c, bool loops)
{
    rx::Opts o;
    o.depth = c.g.chance(20) ? 3 : 2;
    o.max_len = 3;
    if (loops)
    {
        o.depth = 1;
        o.max_class = c.g.chance(50) ? 3 : 14;
        o.chars = c.g.chance(50) ? "abcd01" : "acegikmoqsuwy";
    }
    rx::P r = rx::generate(c.g, o);
    std::string text = rx::print(r);
    if (loops)
    {
        // A repetition marked for block matching, in the middle of things.
        rx::P body = rx::gen_unit(c.g, o, 0), star = std::make_shared<rx::Node>(), seq = std::make_shared<rx::Node>();
        star->kind = c.g.chance(70) ? rx::Star : rx::Plus;
        star->kids.push_back(body);
        star->mod = "+";
        seq->kind = rx::Seq;
        if (c.g.chance(70)) seq->kids.push_back(rx::gen_unit(c.g, o, 0));
        seq->kids.push_back(star);
        if (c.g.chance(70)) seq->kids.push_back(rx::gen_unit(c.g, o, 0));
        if (c.g.chance(30)) { r->kind = rx::Seq; seq->kids.push_back(r); }
        r = seq;
        text = rx::print(r);
    }
    c.show("pattern /" + pbt::quote(text) + "/\n");
    Stream st(rx::widen(text));
    NFA<T> nfa(st);
    bool opt = c.g.chance(70);
    DFA<T> dfa(nfa, opt);
    DFARoutineEM64T<T> routine(dfa);
    int acc = 0, rej = 0;
    int n = c.g.range(1, 6);
    size_t longest = 0;
    for (int i = 0; i < n; i++)
    {
        std::string s;
        if (loops || c.g.chance(30)) { stretch(c.g, r, s, o.chars); if (c.g.chance(50)) s = rx::mutate(c.g, s, o.chars + "xyz"); }
        else s = rx::subject(c.g, r, o.chars, true);
        if (c.g.chance(40)) s += rx::subject(c.g, r, o.chars, true);
        long want = rx::longest(r, s, 0);
        c.show("  subject " + pbt::quote(s) + " -> " + std::to_string(want) + "\n");
        jt::Buffer b(s);
        check(c, b.text, call(c, &routine, b.text), want, s);
        (want >= 0 ? acc : rej)++;
        longest = std::max(longest, (size_t)std::max(want, 0l));
    }
    if (longest > 16) c.label("match longer than a block");
    if (acc && rej) c.label("both");
    if (loops) c.label("block loop");
    c.nontrivial = acc > 0 && text.size() > 1;
}
template<typename T> static void literal(pbt::Case& c)
{
    int len = c.g.chance(3) ? c.g.range(51, 700) : c.g.chance(40) ? c.g.range(1, 9) : c.g.range(6, 50);
    std::string lit, alphabet = c.g.chance(50) ? "ab" : "abcdefgh 0<>/\"";
    for (int i = 0; i < len; i++) lit += c.g.chance(3) ? (char)c.g.range(1, 255) : alphabet[c.g.below((uint32_t)alphabet.size())];
    c.show("literal " + pbt::quote(lit) + "\n");
    std::basic_string<T> t;
    for (unsigned char ch : lit) t.push_back((T)ch);
    MatchRoutineEM64T<T> routine(t);
    bool near = false;
    for (int i = 0; i < 5; i++)
    {
        std::string s = lit;
        switch (c.g.weighted({3, 4, 3}))
        {
        case 1:
        {
            // One character is another.
            size_t p = c.g.below((uint32_t)s.size());
            s[p] = c.g.chance(50) ? alphabet[c.g.below((uint32_t)alphabet.size())] : (char)(s[p] ^ (1 << c.g.below(8)));
            if (!s[p]) s[p] = 'z';
            near = true;
            break;
        }
        case 2: s.resize(c.g.below((uint32_t)s.size() + 1)); break;
        }
        if (c.g.chance(60)) { int k = c.g.range(1, 20); for (int j = 0; j < k; j++) s += alphabet[c.g.below((uint32_t)alphabet.size())]; }
        long want = s.compare(0, lit.size(), lit) == 0 && s.size() >= lit.size() ? (long)lit.size() : -1;
        c.show("  subject " + pbt::quote(s) + "\n");
        jt::Buffer b(s);
        check(c, b.text, call(c, &routine, b.text), want, s);
    }
    c.label(len < 8 ? "short" : len <= 16 ? "one block" : "several blocks");
    c.nontrivial = near;
}
template<typename T> static void skip(pbt::Case& c)
{
    CharClass<T> ws({' ', '\t', '\r', '\n'});
    SkipRoutineEM64T<T> routine(ws);
    std::string s;
    int k = c.g.chance(30) ? 0 : c.g.chance(3) ? c.g.range(200, 9000) : c.g.range(1, 40);
    for (int i = 0; i < k; i++) s += " \t\r\n"[c.g.below(4)];
    if (c.g.chance(80))
    {
        int n = c.g.range(1, 20);
        for (int i = 0; i < n; i++) s += c.g.chance(50) ? " \t\r\nab"[c.g.below(6)] : (char)c.g.range(1, 255);
    }
    size_t want = s.find_first_not_of(" \t\r\n");
    if (want == std::string::npos) want = s.size();
    c.show(pbt::quote(s));
    jt::Buffer b(s);
    check(c, b.text, call(c, &routine, b.text), (long)want, s);
    c.nontrivial = want > 0;
}
static int reg = (
    pbt::add("regex", 200000, 2000000, [](pbt::Case& c) { if (c.g.chance(60)) regex<char>(c, false); else regex<unsigned char>(c, false); }, {false, 5, 60, false, 0, 3}),
    pbt::add("block-loop", 200000, 2000000, [](pbt::Case& c) { if (c.g.chance(60)) regex<char>(c, true); else regex<unsigned char>(c, true); }, {false, 5, 60, false, 0, 3}),
    pbt::add("literal", 60000, 1000000, [](pbt::Case& c) { if (c.g.chance(60)) literal<char>(c); else literal<unsigned char>(c); }, {true, 20}),
    pbt::add("whitespace", 30000, 300000, [](pbt::Case& c) { if (c.g.chance(60)) skip<char>(c); else skip<unsigned char>(c); }, {true, 20}), 0);
PBT_MAIN
