// Drawings show the automata they are made from.
#include "atnmodel.hpp"
#include "load.hpp"
#include "dot.hpp"
#include "DFA.hpp"
#include "LookaheadDFA.hpp"
using namespace Centaurus;

static const std::vector<std::string>& odd_names() { static const std::vector<std::string> v = {"S", "Node", "node", "A1", "A", "Graph", "edge", "S1", "_", "Strict", "S0_N1", "subgraph"}; return v; }
template<typename F> static std::string drawn(F print)
{
    std::wostringstream o;
    print(o);
    return ld::narrow(o.str());
}
static dot::Graph read(pbt::Case& c, const std::string& text)
{
    try { return dot::Reader().read(text); }
    catch (const dot::Bad& b) { c.fail("the drawing cannot be read: " + b.why + "\n" + text.substr(0, 1500)); }
    return dot::Graph();
}
static std::string attr(const std::map<std::string, std::string>& m, const std::string& k) { auto i = m.find(k); return i == m.end() ? "" : i->second; }
// A drawn automaton over the nodes with the given prefix.
struct Drawn
{
    struct Tr { bool eps; rx::Set set; std::string to; bool bold; };
    std::map<std::string, std::vector<Tr>> next;
    std::set<std::string> accept;
    std::set<std::string> now;
    void close()
    {
        std::vector<std::string> w(now.begin(), now.end());
        while (!w.empty())
        {
            auto s = w.back();
            w.pop_back();
            for (auto& t : next[s]) if (t.eps && now.insert(t.to).second) w.push_back(t.to);
        }
    }
    bool run(const std::string& from, const std::string& s)
    {
        now = {from};
        close();
        for (unsigned char ch : s)
        {
            std::set<std::string> n;
            for (auto& q : now) for (auto& t : next[q]) if (!t.eps && t.set[ch]) n.insert(t.to);
            now = n;
            close();
        }
        for (auto& q : now) if (accept.count(q)) return true;
        return false;
    }
};
static void edges(pbt::Case& c, const dot::Graph& g, Drawn& d)
{
    for (auto& e : g.edges)
    {
        Drawn::Tr t;
        try { t.eps = !dot::label(attr(e.attr, "label"), t.set); } catch (const dot::Bad& b) { c.fail(b.why); }
        t.to = e.to;
        t.bold = e.attr.count("penwidth");
        d.next[e.from].push_back(t);
    }
}
static bool clear(const NFA<char>& n)
{
    for (int i = 0; i < n.get_state_num(); i++) for (const auto& t : n.get_transitions(i)) if (!dot::clear(t.label())) return false;
    return true;
}
static void subjects(pbt::Case& c, rx::P r, const std::string& chars, Drawn& d, const std::string& start)
{
    int n = c.g.range(1, 8), in = 0;
    for (int i = 0; i < n; i++)
    {
        std::string s = rx::subject(c.g, r, chars, true);
        bool want = rx::match(r, s), got = d.run(start, s);
        in += want;
        if (want != got) c.fail("the drawn automaton " + std::string(got ? "accepts " : "rejects ") + pbt::quote(s));
    }
    c.nontrivial = in > 0 && d.next.size() > 1;
}
static void automata(pbt::Case& c)
{
    rx::Opts o;
    o.depth = 2;
    rx::P r = rx::generate(c.g, o);
    std::string text = rx::print(r), name = c.g.pick(odd_names());
    int kind = c.g.range(0, 2);
    const char *what[] = {"NFA", "DFA", "minimised DFA"};
    c.show(std::string(what[kind]) + " of /" + pbt::quote(text) + "/ as " + name + "\n");
    Stream st(rx::widen(text));
    NFA<char> nfa(st);
    if (!clear(nfa)) c.discard("a class with -");
    Drawn d;
    if (kind == 0)
    {
        auto g = read(c, drawn([&](std::wostream& w) { nfa.print(w, rx::widen(name)); }));
        if (g.name != name) c.fail("the drawing is called " + g.name);
        if ((int)g.nodes.size() != nfa.get_state_num() || !g.implied.empty()) c.fail("other states are drawn than the automaton has");
        edges(c, g, d);
        for (int i = 0; i < nfa.get_state_num(); i++)
        {
            size_t k = 0;
            for (const auto& t : nfa.get_transitions(i)) if (t.is_long()) k++;
            for (auto& t : d.next["S" + std::to_string(i)]) if (t.bold) k--;
            if (k) c.fail("the transitions drawn bold are not those that match the longest run");
            if (attr(g.nodes["S" + std::to_string(i)], "label") != std::to_string(i)) c.fail("a state is not labelled with its number");
        }
        d.accept.insert("S" + std::to_string(nfa.get_state_num() - 1));
        subjects(c, r, o.chars, d, "S0");
    }
    else
    {
        DFA<char> dfa(nfa, kind == 2);
        for (int i = 0; i < dfa.get_state_num(); i++) for (const auto& t : dfa.get_transitions(i)) if (!dot::clear(t.label())) c.discard("a class with -");
        auto g = read(c, drawn([&](std::wostream& w) { dfa.print(w, rx::widen(name)); }));
        if (g.name != name) c.fail("the drawing is called " + g.name);
        if ((int)g.nodes.size() != dfa.get_state_num() + 1 || !g.implied.empty()) c.fail("other states are drawn than the automaton has");
        std::string start;
        auto es = g.edges;
        g.edges.clear();
        for (auto& e : es) if (e.from == "SS") { if (!start.empty()) c.fail("two starts are drawn"); start = e.to; } else g.edges.push_back(e);
        edges(c, g, d);
        for (auto& n : g.nodes) if (attr(n.second, "shape") == "doublecircle") d.accept.insert(n.first);
        for (auto& s : d.next)
        {
            rx::Set seen;
            for (auto& t : s.second) { if (t.eps) c.fail("a deterministic automaton is drawn with an empty transition"); if ((seen & t.set).any()) c.fail("a deterministic automaton is drawn with two ways for a character"); seen |= t.set; }
        }
        subjects(c, r, o.chars, d, start);
    }
}
static gr::Gram some(pbt::Gen& g, gr::Opts o)
{
    gr::Gram gm = gr::generate(g, o);
    if (g.chance(60))
    {
        auto n = odd_names();
        for (auto& r : gm.rules) { size_t i = g.below((uint32_t)n.size()); r.name = n[i]; n.erase(n.begin() + i); }
    }
    return gm;
}
static gr::Opts opts(pbt::Gen& g)
{
    gr::Opts o;
    o.max_rules = 4;
    o.max_depth = g.chance(40) ? 2 : 1;
    o.rxo.depth = 1;
    o.rxo.max_len = 3;
    o.ll = true;
    o.sizes = g.chance(10);
    return o;
}
// One rule's network inside a drawing: its nodes' names.
struct AtnDrawing
{
    pbt::Case& c;
    const Grammar<char>& G;
    int maxdepth;
    int clusters = 0, expanded = 0;
    std::string label(const std::map<std::string, std::string>& m) { return attr(m, "label"); }
    // Returns entry and exit.
    std::pair<std::string, std::string> rule(const dot::Graph& g, const Identifier& id, std::vector<std::wstring> above, int index)
    {
        clusters++;
        std::string name = ld::narrow(id.str()), pre = g.name.compare(0, 8, "cluster_") == 0 ? g.name.substr(8) : "";
        if (g.attr.count("label") == 0 || g.attr.at("label") != "[" + std::to_string(index) + "]" + name) c.fail("the frame of " + name + " is not labelled with the node and the rule");
        const auto& m = G[id];
        std::vector<std::pair<std::string, std::string>> ends(m.get_node_num());
        std::set<std::string> used;
        std::map<int, const dot::Graph *> subs;
        for (auto& s : g.subs)
        {
            std::string l = label(s.attr);
            size_t e = l.find(']');
            if (l.empty() || l[0] != '[' || e == std::string::npos) c.fail("a frame has no node number");
            int k = atoi(l.c_str() + 1);
            if (subs.count(k)) c.fail("two frames for one node");
            subs[k] = &s;
        }
        for (int i = 0; i < m.get_node_num(); i++)
        {
            const auto& n = m.get_node(i);
            std::string x = "[" + std::to_string(i) + "]", me;
            if (n.type() == ATNNodeType::RegularTerminal)
            {
                if (!subs.count(i)) c.fail("the regular expression of node " + std::to_string(i) + " is not drawn");
                const dot::Graph& s = *subs[i];
                subs.erase(i);
                if (label(s.attr) != x || !s.subs.empty()) c.fail("the frame of a regular expression is not labelled with its node");
                const auto& nfa = n.get_nfa();
                if ((int)s.nodes.size() != nfa.get_state_num()) c.fail("other states are drawn than the expression's automaton has");
                std::map<std::string, std::string> by;
                for (auto& q : s.nodes) by[label(q.second)] = q.first;
                Drawn d;
                edges(c, s, d);
                for (int k = 0; k < nfa.get_state_num(); k++)
                {
                    if (!by.count(std::to_string(k))) c.fail("state " + std::to_string(k) + " of an expression is not drawn");
                    auto got = d.next[by[std::to_string(k)]];
                    for (const auto& t : nfa.get_transitions(k))
                    {
                        rx::Set set;
                        for (int ch = 0; ch < 255; ch++) if (t.label().includes((char)ch)) set.set(ch);
                        bool found = false;
                        for (size_t z = 0; z < got.size() && !found; z++)
                            if (got[z].eps == t.is_epsilon() && got[z].set == set && got[z].to == by[std::to_string(t.dest())]) { found = true; got.erase(got.begin() + z); }
                        if (!found) c.fail("a transition of an expression is not drawn");
                    }
                    if (!got.empty()) c.fail("an expression is drawn with a transition it has not");
                }
                ends[i] = {by["0"], by[std::to_string(nfa.get_state_num() - 1)]};
                continue;
            }
            if (n.type() == ATNNodeType::Nonterminal && subs.count(i))
            {
                if (std::find(above.begin(), above.end(), n.get_submachine().str()) != above.end() && n.get_submachine().str() != above[0]) c.fail("a rule is drawn inside itself");
                auto up = above;
                up.push_back(n.get_submachine().str());
                if ((int)up.size() - 1 > maxdepth) c.fail("rules are drawn deeper than asked for");
                ends[i] = rule(*subs[i], n.get_submachine(), up, i);
                expanded++;
                subs.erase(i);
                continue;
            }
            // A plain node.
            for (auto& q : g.nodes) if (attr(q.second, "xlabel") == x) { if (!me.empty()) c.fail("two nodes for one"); me = q.first; }
            if (me.empty()) c.fail("node " + std::to_string(i) + " of " + name + " is not drawn");
            used.insert(me);
            std::string l = label(g.nodes.at(me)), want = n.type() == ATNNodeType::Blank ? "" : n.type() == ATNNodeType::WhiteSpace ? "[ ]" : n.type() == ATNNodeType::Nonterminal ? ld::narrow(n.get_submachine().str()) : l;
            if (l != want) c.fail("node " + std::to_string(i) + " of " + name + " is labelled " + l);
            if (n.type() == ATNNodeType::LiteralTerminal && (l.size() < 2 || l[0] != '"' || l.back() != '"')) c.fail("a literal is not drawn as one");
            if (n.type() == ATNNodeType::Nonterminal && (int)above.size() - 1 < maxdepth && std::find(above.begin(), above.end(), n.get_submachine().str()) == above.end()) c.fail("the call of " + want + " is not drawn as its network though the depth allows it");
            ends[i] = {me, me};
        }
        if (!subs.empty()) c.fail("a frame that belongs to no node");
        if (used.size() != g.nodes.size()) c.fail("nodes are drawn that the rule has not");
        std::multiset<std::pair<std::string, std::string>> want, got;
        for (int i = 0; i < m.get_node_num(); i++) for (const auto& t : m.get_node(i).get_transitions()) want.insert({ends[i].second, ends[t.dest()].first});
        for (auto& e : g.edges) got.insert({e.from, e.to});
        if (want != got)
        {
            for (auto& e : want) if (got.count(e) < want.count(e)) c.fail("the way " + e.first + " -> " + e.second + " is not drawn");
            for (auto& e : got) if (want.count(e) < got.count(e)) c.fail("the way " + e.first + " -> " + e.second + " is drawn but not there");
        }
        return {ends[0].first, ends[m.get_node_num() - 1].second};
    }
};
static void networks(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    gr::Gram gm = g.chance(8) ? gr::chain(g, g.range(5, 14)) : some(g, opts(g));
    c.show(gr::print(gm));
    Grammar<char> G;
    ld::load(G, gr::print(gm));
    if (g.chance(60)) G.optimize();
    for (auto& m : G.get_machines()) for (int i = 0; i < m.second.get_node_num(); i++) if (m.second.get_node(i).type() == ATNNodeType::RegularTerminal && !clear(m.second.get_node(i).get_nfa())) c.discard("a class with -");
    int depth = gm.rules.size() > 4 ? g.range(0, 16) : g.range(0, 4);
    c.show("depth " + std::to_string(depth) + "\n");
    auto d = read(c, drawn([&](std::wostream& w) { static_cast<IGrammar&>(G).print_grammar(w, depth); }));
    if (d.name != gm.rules[0].name) c.fail("the drawing is called " + d.name);
    if (!d.implied.empty()) c.fail("an edge leads to or from " + *d.implied.begin() + ", which is not drawn");
    if (d.subs.size() != 1 || !d.nodes.empty() || !d.edges.empty()) c.fail("the root rule is not drawn as one frame");
    AtnDrawing a{c, G, depth};
    a.rule(d.subs[0], am::ident(gm.rules[0].name), {am::ident(gm.rules[0].name).str()}, 0);
    if (a.expanded) c.label("calls drawn as networks");
    if (a.clusters > 9) c.label("ten networks or more");
    c.nontrivial = a.expanded > 0;
}
static void composites(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    gr::Gram gm = some(g, opts(g));
    c.show(gr::print(gm));
    Grammar<char> G;
    ld::load(G, gr::print(gm));
    if (g.chance(60)) G.optimize();
    Identifier id = am::ident(g.pick(gm.rules).name);
    CompositeATN<char> catn(G);
    const auto& m = catn[id];
    auto d = read(c, drawn([&](std::wostream& w) { static_cast<IGrammar&>(G).print_catn(w, id); }));
    if (d.name != ld::narrow(id.str())) c.fail("the drawing is called " + d.name);
    if ((int)d.nodes.size() != m.get_num_nodes() || !d.implied.empty()) c.fail("other nodes are drawn than the network has");
    std::map<std::string, std::vector<dot::Edge>> by;
    for (auto& e : d.edges) by[e.from].push_back(e);
    for (int i = 0; i < m.get_num_nodes(); i++)
    {
        std::string me = "N" + std::to_string(i);
        const auto& n = m[i];
        if (!d.nodes.count(me)) c.fail("node " + me + " is not drawn");
        std::string l = attr(d.nodes[me], "label"), want = n.is_terminal() ? std::to_string(i) : ld::narrow(n.get_submachine().str());
        if (l != want) c.fail("node " + me + " is labelled " + l);
        auto got = by[me];
        if (got.size() != n.get_transitions().size()) c.fail("node " + me + " is drawn with " + std::to_string(got.size()) + " ways out");
        for (const auto& t : n.get_transitions())
        {
            if (!dot::clear(t.label())) c.discard("a class with -");
            rx::Set set;
            for (int ch = 0; ch < 255; ch++) if (t.label().includes((char)ch)) set.set(ch);
            std::string pre = std::to_string(t.tag()) + ":[";
            bool found = false;
            for (size_t z = 0; z < got.size() && !found; z++)
            {
                std::string el = attr(got[z].attr, "label");
                if (el.compare(0, pre.size(), pre) || el.back() != ']' || got[z].to != "N" + std::to_string(t.dest())) continue;
                rx::Set s;
                try { dot::label(el.substr(pre.size(), el.size() - pre.size() - 1), s); } catch (const dot::Bad& b) { c.fail(b.why); }
                if (s == set) { found = true; got.erase(got.begin() + z); }
            }
            if (!found) c.fail("a way out of node " + me + " is not drawn as it is");
        }
    }
    c.nontrivial = m.get_num_nodes() > 4;
}
static void lookahead(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    gr::Opts o = opts(g);
    o.max_rules = 3;
    o.rxo.depth = 0;
    o.max_depth = 1;
    gr::Gram gm = some(g, o);
    c.show(gr::print(gm));
    Grammar<char> G;
    ld::load(G, gr::print(gm));
    if (g.chance(60)) G.optimize();
    auto ds = am::decisions_of(G, gm);
    if (ds.empty()) c.discard("no decision");
    auto at = g.pick(ds);
    Identifier id(at.first);
    c.show("decision " + ld::narrow(at.first) + "." + std::to_string(at.second) + "\n");
    am::Branches<char> ref(G);
    std::string text;
    try { text = drawn([&](std::wostream& w) { static_cast<IGrammar&>(G).print_ldfa(w, ATNPath(id, at.second)); }); }
    catch (const std::exception& e)
    {
        if (gr::acyclic(gm)) c.fail(std::string("no drawing for a grammar without recursion: ") + e.what());
        c.discard("not analysable");
    }
    if (text.find('-', text.find("label")) != std::string::npos && o.chars.find('-') != std::string::npos) c.discard("a class with -");
    auto d = read(c, text);
    if (d.name != ld::narrow(at.first)) c.fail("the drawing is called " + d.name);
    if (!d.implied.empty()) c.fail("an edge leads to or from " + *d.implied.begin() + ", which is not drawn");
    Drawn m;
    edges(c, d, m);
    for (auto& s : m.next)
    {
        rx::Set seen;
        for (auto& t : s.second) { if (t.eps || (seen & t.set).any()) c.fail("two ways for one character are drawn"); seen |= t.set; }
    }
    bool decided = false;
    int n = g.range(1, 6);
    try
    {
        for (int k = 0; k < n; k++)
        {
            std::string w = ref.walk(g, id, at.second, g.range(1, 10), o.chars + " $");
            int want = ref.decide(id, at.second, w, 0, nullptr), got = -1;
            if (want == 0) want = -1;
            std::string q = "S0";
            for (unsigned char ch : w + std::string(1, '\0'))     // the end of the input is a zero
            {
                std::string to;
                for (auto& t : m.next[q]) if (t.set[ch]) to = t.to;
                if (to.empty()) break;
                q = to;
                if (q[0] == 'A') { got = atoi(q.c_str() + 1); if (attr(d.nodes[q], "shape") != "doublecircle" || attr(d.nodes[q], "label") != std::to_string(got)) c.fail("the outcome is not drawn as one"); break; }
            }
            c.show("  lookahead " + pbt::quote(w) + "\n");
            if (got != want) c.fail("the drawn automaton answers " + std::to_string(got) + " for " + pbt::quote(w) + ", branch " + std::to_string(want) + " expected");
            decided |= got > 0;
        }
    }
    catch (const am::Overflow&) { c.discard("too deep"); }
    c.nontrivial = decided;
}
static int reg = (
    pbt::add("automata", 40000, 600000, automata, {false, 5}),
    pbt::add("networks", 20000, 400000, networks, {false, 5}),
    pbt::add("composites", 10000, 200000, composites, {false, 5}),
    pbt::add("lookahead", 3000, 60000, lookahead, {false, 2}), 0);
PBT_MAIN
