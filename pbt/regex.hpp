// Reference model of the regular expression dialect: AST, generator, printer, matcher, sampler.
#pragma once
#include "pbt.hpp"
#include <bitset>
#include <memory>
#include <functional>

namespace rx
{
using Set = std::bitset<256>;
enum Kind { Char, Class, Dot, Seq, Alt, Star, Plus, Opt };
struct Node
{
    Kind kind;
    Set set;                                   // Char, Class, Dot
    std::string text;                          // Char, Class, Dot: how it is written
    std::vector<std::shared_ptr<Node>> kids;
    std::string mod;                           // what follows the quantifier
};
using P = std::shared_ptr<Node>;

inline Set dot_set() { Set s; for (int i = 1; i < 255; i++) s.set(i); return s; }
inline Set complement(const Set& x) { Set s; for (int i = 1; i < 255; i++) if (!x[i]) s.set(i); return s; }

struct Opts
{
    std::string chars = "abcd01";     // the alphabet
    bool any_char = true;              // sometimes use other characters
    bool modifiers = true;             // ++ *+ +? and so on
    bool allow_empty = true;           // () groups and nullable sub-expressions
    bool nested_nullable = true;       // quantifiers over nullable operands, (a*)*
    bool dot = true;
    bool neg = true;                   // complemented classes
    bool printable = false;            // keep to ASCII (grammar files are read in the C locale)
    int depth = 4;
    int max_len = 4;                   // units in a sequence
    int max_class = 4;                 // items in a class
};

inline bool nullable(const P& n)
{
    switch (n->kind)
    {
    case Char: case Class: case Dot: return false;
    case Seq: for (auto& k : n->kids) if (!nullable(k)) return false; return true;
    case Alt: for (auto& k : n->kids) if (nullable(k)) return true; return false;
    case Star: case Opt: return true;
    case Plus: return nullable(n->kids[0]);
    }
    return false;
}

inline int gen_char(pbt::Gen& g, const Opts& o)
{
    if (!o.any_char || !g.chance(15)) return (unsigned char)o.chars[g.below((uint32_t)o.chars.size())];
    static const std::string special = "[]+*{}?\\|().-^ \t\n\r\"'_,:;=<>~@#$%&!`AZz9";
    if (g.chance(60) || o.printable) return (unsigned char)special[g.below((uint32_t)special.size())];
    return g.range(1, 254);
}
inline std::string char_text(int c)
{
    static const std::string esc = "[]+*{}?\\|().";
    std::string s;
    if (esc.find((char)c) != std::string::npos) s += '\\';
    s += (char)c;
    return s;
}
inline std::string class_char_text(int c, pbt::Gen& g)
{
    switch (c)
    {
    case '\\': return "\\\\";
    case '-': return "\\-";
    case '[': return "\\[";
    case ']': return "\\]";
    case '\t': return g.below(2) ? "\\t" : "\\T";
    case '\r': return "\\r";
    case '\n': return "\\n";
    }
    return std::string(1, (char)c);
}
inline P gen_class(pbt::Gen& g, const Opts& o)
{
    P n = std::make_shared<Node>();
    n->kind = Class;
    int items = g.range(1, o.max_class);
    bool inv = o.neg && g.chance(20);
    std::string t;
    Set s;
    for (int i = 0; i < items; i++)
    {
        int a = gen_char(g, o);
        if (a == '^' && t.empty()) a = 'a';      // a leading ^ has another meaning
        if (g.chance(50))
        {
            int b = g.chance(60) ? std::min(254, a + g.range(0, 4)) : gen_char(g, o);
            if (b < a) std::swap(a, b);
            if (a == '^' && t.empty()) a = b = 'a';
            t += class_char_text(a, g) + "-" + class_char_text(b, g);
            for (int c = a; c <= b; c++) s.set(c);
        }
        else
        {
            t += class_char_text(a, g);
            s.set(a);
        }
    }
    n->set = inv ? complement(s) : s;
    if (n->set.none())                            // everything complemented: not expressible
    {
        n->set.reset(); n->set.set('a');
        n->text = "[a]";
        return n;
    }
    n->text = std::string("[") + (inv ? "^" : "") + t + "]";
    return n;
}
inline P gen_seq(pbt::Gen& g, const Opts& o, int depth);
inline P gen_unit(pbt::Gen& g, const Opts& o, int depth)
{
    P n = std::make_shared<Node>();
    std::vector<int> w = {10, 5, o.dot ? 1 : 0, depth > 0 ? 6 : 0};
    switch (g.weighted(w))
    {
    case 0:
    {
        int c = gen_char(g, o);
        if (c == '/' || c == '\r') c = 'a';     // the delimiter; and a raw carriage return is read as a line end
        n->kind = Char;
        n->set.set(c);
        n->text = char_text(c);
        break;
    }
    case 1: n = gen_class(g, o); break;
    case 2: n->kind = Dot; n->set = dot_set(); n->text = "."; break;
    case 3: n = gen_seq(g, o, depth - 1); break;
    }
    return n;
}
inline P gen_qunit(pbt::Gen& g, const Opts& o, int depth)
{
    P u = gen_unit(g, o, depth);
    int q = g.weighted({10, 3, 3, 3});
    if (q && (o.nested_nullable || !nullable(u)))
    {
        P n = std::make_shared<Node>();
        n->kind = q == 1 ? Plus : q == 2 ? Star : Opt;
        n->kids.push_back(u);
        if (o.modifiers && g.chance(25))
        {
            static const std::vector<std::string> pm = {"+", "?", "*"}, om = {"?", "*"};
            n->mod = n->kind == Opt ? g.pick(om) : g.pick(pm);
        }
        return n;
    }
    return u;
}
inline P gen_seq(pbt::Gen& g, const Opts& o, int depth)
{
    P n = std::make_shared<Node>();
    n->kind = Seq;
    int len = g.range(o.allow_empty && g.chance(4) ? 0 : 1, std::min(o.max_len, depth >= 2 ? 4 : 3));
    for (int i = 0; i < len; i++)
    {
        P u = gen_qunit(g, o, depth);
        if (g.chance(20))
        {
            P a = std::make_shared<Node>();
            a->kind = Alt;
            a->kids.push_back(u);
            int k = g.range(1, 2);
            for (int j = 0; j < k; j++) a->kids.push_back(gen_qunit(g, o, depth));
            u = a;
        }
        n->kids.push_back(u);
    }
    return n;
}
inline P generate(pbt::Gen& g, const Opts& o) { return gen_seq(g, o, g.range(0, o.depth)); }

inline std::string print(const P& n, bool top = true)
{
    std::string s;
    switch (n->kind)
    {
    case Char: case Class: case Dot: return n->text;
    case Seq:
        for (auto& k : n->kids) s += print(k, false);
        return top ? s : "(" + s + ")";
    case Alt:
        for (size_t i = 0; i < n->kids.size(); i++) s += (i ? "|" : "") + print(n->kids[i], false);
        return s;
    case Plus: return print(n->kids[0], false) + "+" + n->mod;
    case Star: return print(n->kids[0], false) + "*" + n->mod;
    case Opt: return print(n->kids[0], false) + "?" + n->mod;
    }
    return s;
}
// A printed regex is ambiguous when a quantifier without modifier is followed by a raw + ? *; those are always escaped, so never.
inline std::wstring widen(const std::string& s) { std::wstring w; for (unsigned char c : s) w.push_back(c); return w; }

// Set of end positions reachable from a set of start positions.
using PosSet = std::vector<bool>;
inline PosSet ends(const P& n, const std::string& s, const PosSet& from)
{
    PosSet r(s.size() + 1, false);
    switch (n->kind)
    {
    case Char: case Class: case Dot:
        for (size_t i = 0; i < s.size(); i++) if (from[i] && n->set[(unsigned char)s[i]]) r[i + 1] = true;
        return r;
    case Seq:
    {
        PosSet cur = from;
        for (auto& k : n->kids) cur = ends(k, s, cur);
        return cur;
    }
    case Alt:
        for (auto& k : n->kids) { PosSet e = ends(k, s, from); for (size_t i = 0; i <= s.size(); i++) if (e[i]) r[i] = true; }
        return r;
    case Opt:
    {
        PosSet e = ends(n->kids[0], s, from);
        for (size_t i = 0; i <= s.size(); i++) r[i] = from[i] || e[i];
        return r;
    }
    case Star: case Plus:
    {
        PosSet acc = n->kind == Star ? from : ends(n->kids[0], s, from);
        while (true)
        {
            PosSet e = ends(n->kids[0], s, acc), nx = acc;
            for (size_t i = 0; i <= s.size(); i++) if (e[i]) nx[i] = true;
            if (nx == acc) return acc;
            acc = nx;
        }
    }
    }
    return r;
}
inline bool match(const P& n, const std::string& s)
{
    PosSet f(s.size() + 1, false);
    f[0] = true;
    return ends(n, s, f)[s.size()];
}
// Length of the longest match starting at pos, or -1.
inline int longest(const P& n, const std::string& s, size_t pos)
{
    std::string t = s.substr(pos);
    PosSet f(t.size() + 1, false);
    f[0] = true;
    PosSet e = ends(n, t, f);
    for (int i = (int)t.size(); i >= 0; i--) if (e[i]) return i;
    return -1;
}
inline int pick_set(pbt::Gen& g, const Set& s, const std::string& prefer)
{
    std::vector<int> a, b;
    for (unsigned char c : prefer) if (s[c]) a.push_back(c);
    for (int i = 1; i < 255; i++) if (s[i]) b.push_back(i);
    if (!a.empty() && !g.chance(20)) return g.pick(a);
    if (b.empty()) return 'a';
    // Edges of the set are the interesting members.
    if (g.chance(50))
    {
        std::vector<int> e;
        for (int c : b) if (c == 1 || c == 254 || !s[c - 1] || !s[c + 1]) e.push_back(c);
        if (!e.empty()) return g.pick(e);
    }
    return g.pick(b);
}
inline void sample(pbt::Gen& g, const P& n, std::string& out, const std::string& prefer, size_t limit = 40)
{
    switch (n->kind)
    {
    case Char: case Class: case Dot: out += (char)pick_set(g, n->set, prefer); return;
    case Seq: for (auto& k : n->kids) sample(g, k, out, prefer, limit); return;
    case Alt: sample(g, g.pick(n->kids), out, prefer, limit); return;
    case Opt: if (g.chance(50) && out.size() < limit) sample(g, n->kids[0], out, prefer, limit); return;
    case Star: case Plus:
    {
        int k = n->kind == Plus ? 1 : 0;
        while (g.chance(45)) k++;
        for (int i = 0; i < k && (out.size() < limit || (i == 0 && n->kind == Plus)); i++) sample(g, n->kids[0], out, prefer, limit);
        return;
    }
    }
}
inline void collect(const P& n, Set& all) { all |= n->set; for (auto& k : n->kids) collect(k, all); }
inline std::string mutate(pbt::Gen& g, std::string s, const std::string& chars)
{
    int k = g.range(1, 2);
    for (int i = 0; i < k; i++)
    {
        int op = g.below(3);
        size_t p = g.below((uint32_t)s.size() + 1);
        char c = chars[g.below((uint32_t)chars.size())];
        if (op == 0 && p < s.size()) s.erase(p, 1);
        else if (op == 1) s.insert(p, 1, c);
        else if (p < s.size()) s[p] = c;
    }
    return s;
}
// A string to test: a member, a near miss, or a random one; never contains NUL or 0xFF.
inline std::string subject(pbt::Gen& g, const P& n, const std::string& chars, bool any)
{
    std::string s;
    int k = g.weighted({5, 4, 2});
    if (k == 2)
    {
        int len = g.range(0, 8);
        for (int i = 0; i < len; i++) s += any && g.chance(10) ? (char)g.range(1, 254) : chars[g.below((uint32_t)chars.size())];
        return s;
    }
    sample(g, n, s, chars);
    if (k == 1)
    {
        s = mutate(g, s, chars);
        if (any && !s.empty() && g.chance(30))
        {
            // Nudge one character to a neighbour: class borders.
            size_t p = g.below((uint32_t)s.size());
            int c = (unsigned char)s[p] + (g.below(2) ? 1 : -1);
            if (c >= 1 && c <= 254) s[p] = (char)c;
        }
    }
    return s;
}
}
