// Reads drawings in the DOT language, and the labels this library gives to character classes.
#pragma once
#include "pbt.hpp"
#include "regex.hpp"

namespace dot
{
struct Bad { std::string why; };
struct Edge { std::string from, to; std::map<std::string, std::string> attr; };
struct Graph
{
    std::string name;
    std::map<std::string, std::map<std::string, std::string>> nodes;
    std::map<std::string, std::string> attr;            // of the graph itself: name = value statements
    std::vector<Edge> edges;
    std::vector<Graph> subs;
    std::set<std::string> implied;                      // nodes that only edges mention
};
struct Tok { char kind; std::string s; };               // i: identifier, s: quoted, or the character itself, > for an arrow
inline std::vector<Tok> lex(const std::string& t)
{
    std::vector<Tok> v;
    for (size_t i = 0; i < t.size(); )
    {
        unsigned char c = t[i];
        if (isspace(c)) { i++; continue; }
        if (c == '"')
        {
            std::string s;
            for (i++; ; i++)
            {
                if (i >= t.size()) throw Bad{"a quoted string does not end"};
                if (t[i] == '"') break;
                if (t[i] == '\\' && i + 1 < t.size()) { if (t[i + 1] != '"') s += '\\'; s += t[++i]; continue; }
                s += t[i];
            }
            i++;
            v.push_back({'s', s});
        }
        else if (isalpha(c) || c == '_' || c >= 128) { size_t j = i; while (j < t.size() && (isalnum((unsigned char)t[j]) || t[j] == '_' || (unsigned char)t[j] >= 128)) j++; v.push_back({'i', t.substr(i, j - i)}); i = j; }
        else if (isdigit(c) || c == '.') { size_t j = i; while (j < t.size() && (isdigit((unsigned char)t[j]) || t[j] == '.')) j++; v.push_back({'i', t.substr(i, j - i)}); i = j; }
        else if (c == '-' && i + 1 < t.size() && t[i + 1] == '>') { v.push_back({'>', ""}); i += 2; }
        else if (strchr("[]{}=;,", c)) { v.push_back({(char)c, ""}); i++; }
        else throw Bad{std::string("stray character ") + (char)c};
    }
    v.push_back({0, ""});
    return v;
}
class Reader
{
    std::vector<Tok> t;
    size_t p = 0;
    static bool keyword(std::string s) { for (auto& c : s) c = tolower(c); return s == "graph" || s == "digraph" || s == "node" || s == "edge" || s == "subgraph" || s == "strict"; }
    bool is(char k) const { return t[p].kind == k; }
    void want(char k) { if (!is(k)) throw Bad{std::string("expected ") + k + " before " + (t[p].s.empty() ? std::string(1, t[p].kind ? t[p].kind : '$') : t[p].s)}; p++; }
    std::string id()
    {
        if (!is('i') && !is('s')) throw Bad{"expected a name"};
        if (is('i') && keyword(t[p].s)) throw Bad{"the keyword " + t[p].s + " stands for a name"};
        return t[p++].s;
    }
    std::map<std::string, std::string> attrs()
    {
        std::map<std::string, std::string> m;
        while (is('['))
        {
            p++;
            while (!is(']'))
            {
                std::string k = id();
                want('=');
                m[k] = id();
                if (is(',') || is(';')) p++;
            }
            p++;
        }
        return m;
    }
    void body(Graph& g, Graph& top)
    {
        want('{');
        while (!is('}'))
        {
            if (is(';')) { p++; continue; }
            if (is('i') && t[p].s == "subgraph")
            {
                p++;
                Graph s;
                s.name = id();
                body(s, top);
                g.subs.push_back(s);
                continue;
            }
            if (is('i') && (t[p].s == "graph" || t[p].s == "node" || t[p].s == "edge")) { p++; attrs(); continue; }
            std::string a = id();
            if (is('=')) { p++; g.attr[a] = id(); continue; }
            if (is('>')) { p++; Edge e; e.from = a; e.to = id(); e.attr = attrs(); g.edges.push_back(e); continue; }
            if (g.nodes.count(a)) throw Bad{"the node " + a + " is drawn twice"};
            g.nodes[a] = attrs();
        }
        p++;
    }
public:
    Graph read(const std::string& text)
    {
        t = lex(text);
        p = 0;
        if (!is('i') || t[p].s != "digraph") throw Bad{"not a digraph"};
        p++;
        Graph g;
        g.name = id();
        body(g, g);
        want(0);
        std::map<std::string, int> seen;
        all(g, seen);
        for (auto& x : seen) if (x.second > 1) throw Bad{"the node " + x.first + " is drawn twice"};
        implied(g, seen, g.implied);
        return g;
    }
    static void all(const Graph& g, std::map<std::string, int>& seen) { for (auto& n : g.nodes) seen[n.first]++; for (auto& s : g.subs) all(s, seen); }
    static void implied(const Graph& g, const std::map<std::string, int>& seen, std::set<std::string>& out)
    {
        for (auto& e : g.edges) { if (!seen.count(e.from)) out.insert(e.from); if (!seen.count(e.to)) out.insert(e.to); }
        for (auto& s : g.subs) implied(s, seen, out);
    }
};
// The set a class label stands for: "" is epsilon (false), otherwise [items].
inline bool label(const std::string& l, rx::Set& set)
{
    set.reset();
    if (l.empty()) return false;
    if (l.size() < 3 || l[0] != '[' || l.back() != ']') throw Bad{"the label " + l + " is no character class"};
    size_t p = 1, end = l.size() - 1;
    auto unit = [&]() -> int {
        if (l[p] != '\\') return (unsigned char)l[p++];
        // What is shown for \\ is one backslash.
        if (p + 1 >= end || l[p + 1] != '\\') throw Bad{"a stray backslash in the label " + l};
        if (p + 4 < end + 0 && l[p + 2] == 'x' && isxdigit((unsigned char)l[p + 3]) && isxdigit((unsigned char)l[p + 4])) { int v = std::stoi(l.substr(p + 3, 2), nullptr, 16); p += 5; return v; }
        p += 2;
        return '\\';
    };
    while (p < end)
    {
        int a = unit(), b = a;
        if (p < end && l[p] == '-' && p + 1 < end) { p++; b = unit(); }
        if (b < a) throw Bad{"the label " + l + " has a range that runs backwards"};
        for (int c = a; c <= b; c++) { if (set[c]) throw Bad{"the label " + l + " names a character twice"}; set.set(c); }
    }
    return true;
}
// Labels cannot tell a range from three characters when one of them is '-'.
template<typename CC> bool clear(const CC& cc)
{
    for (const auto& r : cc) if ((int)r.start() == '-' || (int)r.end() - 1 == '-') return false;
    return true;
}
}
