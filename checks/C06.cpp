// Lookahead automata decide exactly: the branch they name is the only one that can still match, as early as possible.
#include "atnmodel.hpp"
using namespace Centaurus;

static std::string tmpfile_path() { static std::string p = "g." + std::to_string(getpid()) + ".cgr"; return p; }
static bool load(Grammar<char>& G, const gr::Gram& gm)
{
    gr::write_file(tmpfile_path(), gr::print(gm));
    G.parse(tmpfile_path());
    return true;
}
// A rule of many short alternatives, some of which call a rule or start alike.
static gr::Gram broad(pbt::Gen& g, const std::string& chars)
{
    gr::Gram gm;
    gm.name = "G";
    gr::Rule r, t;
    r.name = "S";
    t.name = "T";
    auto lit = [&](int len) { gr::Item i; for (int k = 0; k < len; k++) i.lit += chars[g.below((uint32_t)chars.size())]; return i; };
    auto nt = [&](int n) { gr::Item i; i.kind = gr::Item::NT; i.nt = n; return i; };
    int n = g.chance(30) ? g.range(5, 60) : g.range(100, 280);
    std::set<std::string> seen;
    for (int k = 0; k < n; k++)
    {
        gr::Seq s = {lit(g.range(1, 4))};
        if (!seen.insert(s[0].lit).second) continue;
        if (g.chance(20)) s.push_back(nt(1));
        r.alt.seqs.push_back(s);
        r.alt.prio.push_back(false);
    }
    gr::Item end;
    end.lit = ";";
    for (auto& s : r.alt.seqs) if (!g.chance(3)) s.push_back(end);
    t.alt.seqs = {{lit(2)}, {lit(1)}};
    t.alt.prio = {false, false};
    gm.rules = {r, t};
    return gm;
}
static void exact(pbt::Case& c, bool recursion, bool optimize, bool nullable_loops, bool many = false)
{
    gr::Opts o;
    o.recursion = recursion;
    o.repeat_nullable = nullable_loops;
    o.ll = c.g.chance(60);
    o.terminator = c.g.chance(50);
    o.max_rules = 3;
    o.max_depth = c.g.chance(30) ? 2 : 1;
    o.re_share = 20;
    o.group_w = 2;
    o.rxo.depth = c.g.chance(20) ? 1 : 0;
    o.rxo.max_len = 2;
    o.rxo.max_class = 2;
    if (nullable_loops) { o.rxo.nested_nullable = true; o.rxo.allow_empty = true; }
    if (c.g.chance(20)) o.chars = "ab";
    else if (c.g.chance(50)) o.chars = "abcdefgh0123";
    if (many) o.chars = c.g.chance(50) ? "abcd" : "abcdefghijklm";
    gr::Gram gm = many ? broad(c.g, o.chars) : gr::generate(c.g, o);
    c.show(gr::print(gm));
    Grammar<char> G;
    load(G, gm);
    if (optimize) G.optimize();
    CompositeATN<char> catn(G);
    am::Branches<char> ref(G);
    auto ds = am::decisions_of(G, gm);
    if (ds.empty()) c.discard("no decision");
    auto d = many ? ds[0] : c.g.pick(ds);
    Identifier id(d.first);
    bool longer = false, decided = false;
    std::unique_ptr<LookaheadDFA<char>> raw, min;
    ATNPath at = catn.convert_atn_path(ATNPath(id, d.second));
    try
    {
        raw.reset(new LookaheadDFA<char>(catn, at, false));
        min.reset(new LookaheadDFA<char>(catn, at, true));
    }
    catch (const std::exception& e)
    {
        if (gr::acyclic(gm)) c.fail(std::string("no lookahead automaton for a grammar without recursion: ") + e.what());
        c.label("not analysable");
        return;
    }
    c.show("decision " + std::string(d.first.begin(), d.first.end()) + "." + std::to_string(d.second) + "\n");
    int n = many ? 12 : c.g.range(1, 6);
    try
    {
        for (int k = 0; k < n; k++)
        {
            std::string w = ref.walk(c.g, id, d.second, c.g.range(1, 12), o.chars + " $");
            size_t used = 0;
            int want = ref.decide(id, d.second, w, 0, &used);
            c.show("  lookahead " + pbt::quote(w) + " -> " + std::to_string(want) + "\n");
            int a = raw->run(w), b = min->run(w);
            int norm = want == 0 ? -1 : want;
            if (a != norm) c.fail("the lookahead automaton answers " + std::to_string(a) + " for " + pbt::quote(w) + ", branch " + std::to_string(want) + " expected");
            if (b != norm) c.fail("the minimised lookahead automaton answers " + std::to_string(b) + " for " + pbt::quote(w) + ", branch " + std::to_string(want) + " expected");
            // Not before the input that settles it, and no matter what follows.
            if (want > 0)
            {
                decided = true;
                if (used > 1)
                {
                    longer = true;
                    std::string less = w.substr(0, used - 1);
                    if (min->run(less) != (ref.decide(id, d.second, less) > 0 ? ref.decide(id, d.second, less) : -1) || min->run(less + '\xfe') > 0) c.fail("decides before the input settles it");
                }
                if (used > w.size()) { c.label("settled by the end of the input"); w += '\0'; }
                if (min->run(w.substr(0, used) + "zz") != want) c.fail("what follows the deciding input changes the decision");
            }
        }
    }
    catch (const am::Overflow&) { c.discard("too deep"); }
    if (longer) c.label("needs more than one character");
    if (decided) c.label("decided");
    if (!gr::acyclic(gm)) c.label("recursive");
    int branches = G[id].get_node(d.second).get_transitions().size();
    c.label(branches > 127 ? "branches 128 and more" : branches > 4 ? "branches 5 to 127" : "branches " + std::to_string(branches));
    c.nontrivial = decided;
}
// Tiny grammars of every kind, left recursion included: building an automaton ends, one way or the other.
static void ends(pbt::Case& c)
{
    gr::Opts o;
    o.plain_tokens = true;
    o.left_recursion = true;
    o.repeat_nullable = c.g.chance(50);
    o.max_rules = 3;
    o.max_depth = 1;
    o.max_alts = 2;
    o.max_seq = 2;
    o.ll = c.g.chance(50);
    o.chars = "ab";
    gr::Gram gm = gr::generate(c.g, o);
    c.show(gr::print(gm));
    Grammar<char> G;
    load(G, gm);
    if (c.g.chance(50)) G.optimize();
    CompositeATN<char> catn(G);
    am::Branches<char> ref(G);
    auto ds = am::decisions_of(G, gm);
    if (ds.empty()) c.discard("no decision");
    int built = 0, refused = 0;
    for (auto& d : ds)
    {
        Identifier id(d.first);
        try
        {
            LookaheadDFA<char> l(catn, catn.convert_atn_path(ATNPath(id, d.second)), true);
            built++;
            for (int k = 0; k < 2; k++)
                try
                {
                    std::string w = ref.walk(c.g, id, d.second, c.g.range(1, 8), o.chars + " $");
                    int want = ref.decide(id, d.second, w);
                    int got = l.run(w);
                    if (got != (want == 0 ? -1 : want)) c.fail("the lookahead automaton of " + std::string(d.first.begin(), d.first.end()) + "." + std::to_string(d.second) + " answers " + std::to_string(got) + " for " + pbt::quote(w) + ", branch " + std::to_string(want) + " expected");
                }
                catch (const am::Overflow&) {}
        }
        catch (const std::exception& e)
        {
            refused++;
            if (gr::acyclic(gm)) c.fail(std::string("no lookahead automaton for a grammar without recursion: ") + e.what());
        }
    }
    if (built) c.label("built");
    if (refused) c.label("refused");
    c.nontrivial = ds.size() > 1;
}
static int reg = (
    pbt::add("flat", 2500, 60000, [](pbt::Case& c) { exact(c, false, false, false); }, {false, 2}),
    pbt::add("flat-optimised", 2500, 60000, [](pbt::Case& c) { exact(c, false, true, false); }, {false, 2}),
    pbt::add("recursive", 4000, 60000, [](pbt::Case& c) { exact(c, true, false, false); }, {false, 2}),
    pbt::add("recursive-optimised", 4000, 60000, [](pbt::Case& c) { exact(c, true, true, false); }, {false, 2}),
    pbt::add("nullable-repeats", 2500, 40000, [](pbt::Case& c) { exact(c, true, true, true); }, {false, 2}),
    pbt::add("many-branches", 3000, 60000, [](pbt::Case& c) { exact(c, false, c.g.chance(50), false, true); }, {false, 10}),
    pbt::add("tiny", 12000, 400000, ends, {false, 1, 180, false, 0, 20}), 0);
PBT_MAIN
