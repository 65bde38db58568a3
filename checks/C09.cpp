// Grammar verification: undefined rules and undecidable (left-recursive) decisions are refused, sound grammars accepted.
#include "hostile.hpp"
#include "atnmodel.hpp"
#include "firstcalls.hpp"
using namespace Centaurus;

static void quiet() { static hs::Null *sink = new hs::Null; std::wcerr.rdbuf(sink); }
static bool ask(pbt::Case& c, const Grammar<char>& G)
{
    std::string before = ld::dump(G);
    bool v = G.verify();
    if (G.verify() != v) c.fail("verifying twice gives two verdicts");
    if (ld::dump(G) != before) c.fail("verifying changes the grammar");
    return v;
}
static bool buildable(const Grammar<char>& G, const gr::Gram& gm)
{
    CompositeATN<char> catn(G);
    for (auto& d : am::decisions_of(G, gm))
        try { LookaheadDFA<char> l(catn, catn.convert_atn_path(ATNPath(Identifier(d.first), d.second)), true); }
        catch (const std::exception&) { return false; }
    return true;
}
static void any(pbt::Case& c)
{
    quiet();
    gr::Opts o;
    o.plain_tokens = c.g.chance(85);
    o.left_recursion = c.g.chance(60);
    o.repeat_nullable = c.g.chance(30);
    o.max_rules = 3;
    o.max_depth = 1;
    o.max_alts = 2;
    o.max_seq = 2;
    o.ll = c.g.chance(50);
    o.chars = "abc";
    gr::Gram gm = gr::generate(c.g, o);
    bool opt = c.g.chance(50);
    c.show(gr::print(gm) + (opt ? "optimised\n" : ""));
    Grammar<char> G;
    ld::load(G, gr::print(gm));
    if (opt) G.optimize();
    bool v = ask(c, G);
    bool acyclic = gr::acyclic(gm), bad = gr::FirstCalls(gm).bad();
    if (acyclic && !v) c.fail("a grammar without recursion is refused");
    if (bad && v) c.fail("a grammar with a decision that left recursion makes endless is accepted");
    if (v != buildable(G, gm)) c.fail(v ? "accepted, but a decision has no lookahead automaton" : "refused, but every decision has its lookahead automaton");
    c.label(v ? "accepted" : "refused");
    if (bad) c.label("left recursion at a decision");
    if (acyclic) c.label("no recursion");
    if (!acyclic && v) c.label("accepted with recursion");
    c.nontrivial = !am::decisions_of(G, gm).empty();
}
// Removing a called rule.
static void undefined(pbt::Case& c)
{
    quiet();
    gr::Opts o;
    o.max_rules = 5;
    o.max_depth = 2;
    o.priorities = true;
    o.repeat_nullable = true;
    o.left_recursion = c.g.chance(30);
    gr::Gram gm = gr::generate(c.g, o);
    int n = (int)gm.rules.size();
    if (n < 2) c.discard("one rule");
    int gone = c.g.below(n);
    std::function<bool(const gr::Alt&)> calls = [&](const gr::Alt& a) { for (auto& s : a.seqs) for (auto& i : s) { if (i.kind == gr::Item::NT && i.nt == gone) return true; if (i.kind == gr::Item::Group && calls(*i.group)) return true; } return false; };
    bool called = false;
    gr::Layout l;
    std::string text = "grammar G;\n";
    for (int r = 0; r < n; r++)
        if (r != gone) { called |= calls(gm.rules[r].alt); text += gr::print_rule(gm, gm.rules[r], l); }
    if (!called) c.discard("never called");
    c.show(text);
    Grammar<char> G;
    ld::load(G, text);
    if (c.g.chance(50)) G.optimize();
    if (ask(c, G)) c.fail("accepted although the called rule " + gm.rules[gone].name + " is not defined");
    c.nontrivial = n > 2;
}
// Every terminal starts with a character of its own and every call and optional part is followed by one: decidable at the first character, however recursive.
static void marked(pbt::Case& c)
{
    quiet();
    pbt::Gen& g = c.g;
    int n = g.range(1, 4);
    int next = 0;
    static const std::string letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789,.:;!?+-*/<>=()[]{}&%#@~^|$_";
    bool out = false, recursive = false;
    auto lit = [&]() { if (next >= (int)letters.size()) { out = true; return std::string("'a'"); } std::string s = "'" + std::string(1, letters[next++]) + (g.chance(20) ? "z" : "") + "'"; return s; };
    std::function<std::string(int, int)> alt = [&](int r, int depth) -> std::string {
        std::string s;
        int k = g.range(1, 3);
        for (int i = 0; i < k; i++)
        {
            if (i) s += " | ";
            s += lit();
            int m = g.range(0, 2);
            for (int j = 0; j < m; j++)
            {
                if (g.chance(40)) { int t = (int)g.below(n); recursive |= t <= r; s += " R" + std::to_string(t); if (g.chance(30)) s += g.pick(std::vector<std::string>{"?", "*"}); s += " " + lit(); }
                else if (depth && g.chance(50)) s += " ( " + alt(r, depth - 1) + " )" + g.pick(std::vector<std::string>{"?", "*", "+", ""}) + " " + lit();
                else s += " " + lit();
            }
        }
        return s;
    };
    std::string text;
    for (int r = 0; r < n; r++) text += "R" + std::to_string(r) + " : " + alt(r, 2) + " ;\n";
    if (out) c.discard("too large");
    c.show(text);
    Grammar<char> G;
    ld::load(G, "grammar G;\n" + text);
    if (g.chance(50)) G.optimize();
    if (!ask(c, G)) c.fail("refused, although every decision is settled by the next character");
    if (recursive) c.label("recursive");
    c.nontrivial = next > 5;
}
static int reg = (
    pbt::add("any", 12000, 200000, any, {false, 1, 180, false, 0, 20}),
    pbt::add("undefined", 40000, 400000, undefined, {false, 2}),
    pbt::add("marked", 20000, 300000, marked, {false, 3}), 0);
PBT_MAIN
