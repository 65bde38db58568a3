// Prioritised alternatives: the earlier one wins whenever the next character can start both.
#include "load.hpp"
#include "atnmodel.hpp"
using namespace Centaurus;

static void priority(pbt::Case& c, bool optimize, bool many = false)
{
    pbt::Gen& g = c.g;
    gr::Opts o;
    o.chars = many ? "abcdefgh" : g.chance(50) ? "ab" : "abc";
    o.rxo.chars = o.chars;
    o.rxo.max_len = 2;
    o.rxo.max_class = 2;
    gr::Maker mk(g, o);
    gr::Gram gm;
    gm.name = "G";
    int shape = g.below(6);                 // 0 rule, 1 called rule, 2 ()*, 3 ()+, 4 ()?, 5 nested group
    // Helper rules: plain sequences and unprioritised choices.
    int helpers = g.range(0, 2), first_helper = shape == 1 ? 2 : 1;
    auto tok = [&]() { if (!many) return mk.token(-1); gr::Item i; int n = g.range(1, 3); for (int k = 0; k < n; k++) i.lit += o.chars[g.below((uint32_t)o.chars.size())]; return i; };
    auto nt = [&](int r) { gr::Item i; i.kind = gr::Item::NT; i.nt = r; return i; };
    int k = many ? g.range(20, 260) : g.range(3, 4);
    gr::Alt a;
    std::vector<int> prio;
    int cur = 0;
    bool all = shape == 2 || shape == 3 || g.chance(50);
    for (int i = 0; i < k; i++)
    {
        gr::Seq s;
        s.push_back(tok());
        // An alternative that can be empty is judged by what follows the decision.
        if (shape != 2 && shape != 3 && g.chance(many ? 0 : 20)) s.back().post = g.pick(std::vector<char>{'?', '*'});
        int more = g.range(0, many ? 1 : 2);
        for (int j = 0; j < more; j++)
        {
            gr::Item t = helpers && g.chance(40) ? nt(first_helper + g.below(helpers)) : tok();
            if (!many && t.kind != gr::Item::NT && g.chance(25)) t.post = g.pick(std::vector<char>{'?', '*', '+'});
            s.push_back(t);
        }
        bool p = i > 0 && (all || g.chance(50) || (i == k - 1 && cur == 0));
        if (p) cur++;
        prio.push_back(cur);
        a.seqs.push_back(s);
        a.prio.push_back(p);
    }
    auto lit = [&](const std::string& t) { gr::Item i; i.lit = t; return i; };
    gr::Rule root;
    root.name = "S";
    int home = 0;
    if (shape == 0) root.alt = a;
    else
    {
        gr::Seq s;
        if (g.chance(50)) s.push_back(lit(g.pick(std::vector<std::string>{"(", "a"})));
        if (shape == 1)
        {
            s.push_back(nt(1));
            if (g.chance(50)) { s.push_back(lit(",")); s.push_back(nt(1)); }
            home = 1;
        }
        else
        {
            gr::Item grp;
            grp.kind = gr::Item::Group;
            grp.group = std::make_shared<gr::Alt>(a);
            grp.post = shape == 2 ? '*' : shape == 3 ? '+' : shape == 4 ? '?' : 0;
            s.push_back(grp);
        }
        s.push_back(lit(")"));
        root.alt.seqs.push_back(s);
        root.alt.prio.push_back(false);
    }
    gm.rules.push_back(root);
    if (shape == 1) { gr::Rule r; r.name = "T"; r.alt = a; gm.rules.push_back(r); }
    for (int i = 0; i < helpers; i++)
    {
        gr::Rule r;
        r.name = "H" + std::to_string(i);
        int n = g.range(1, 2);
        for (int j = 0; j < n; j++) { gr::Seq s; s.push_back(tok()); if (g.chance(40)) s.push_back(tok()); r.alt.seqs.push_back(s); r.alt.prio.push_back(false); }
        gm.rules.push_back(r);
    }
    c.show(gr::print(gm));
    Grammar<char> G;
    ld::load(G, gr::print(gm));
    if (optimize) G.optimize();
    Identifier id(rx::widen(gm.rules[home].name));
    const auto& m = G[id];
    std::vector<int> nodes;
    for (int i = 0; i < m.get_node_num(); i++)
    {
        bool tagged = false;
        for (const auto& tr : m.get_node(i).get_transitions()) tagged |= tr.tag() > 0;
        if (tagged) nodes.push_back(i);
    }
    if (nodes.size() == 1 && (int)m.get_node(nodes[0]).get_transitions().size() > k)
    {
        // An alternative that starts with a choice of its own: its branches became branches of the decision.
        std::set<int> levels;
        prio.clear();
        for (const auto& tr : m.get_node(nodes[0]).get_transitions()) { prio.push_back(tr.tag()); levels.insert(tr.tag()); }
        if ((int)levels.size() != cur + 1) c.fail("the decision does not tell " + std::to_string(cur + 1) + " priorities");
        c.label("flattened");
    }
    else if (nodes.size() != 1 || (int)m.get_node(nodes[0]).get_transitions().size() != k)
    {
        // Fall back on the shape: the only node with k branches.
        nodes.clear();
        for (int i = 0; i < m.get_node_num(); i++) if ((int)m.get_node(i).get_transitions().size() == k) nodes.push_back(i);
        if (nodes.size() != 1) c.fail("the prioritised alternatives are not a decision of their own any more");
    }
    CompositeATN<char> catn(G);
    am::Branches<char> ref(G);
    std::unique_ptr<LookaheadDFA<char>> l;
    try { l.reset(new LookaheadDFA<char>(catn, catn.convert_atn_path(ATNPath(id, nodes[0])), g.chance(50))); }
    catch (const std::exception& e) { c.fail(std::string("no lookahead automaton: ") + e.what()); }
    int n = many ? 12 : g.range(1, 6);
    bool contested = false;
    try
    {
        for (int q = 0; q < n; q++)
        {
            std::string w = ref.walk(g, id, nodes[0], g.range(1, 6), o.chars + " ),");
            auto s = ref.begin(id, nodes[0]);
            int want = -1;
            bool first = true;
            for (size_t i = 0; i <= w.size(); i++)          // the end of the input is the last thing to look at
            {
                s = ref.step(s, i < w.size() ? (unsigned char)w[i] : 0);
                if (s.empty()) break;
                if (first)
                {
                    int best = 1000, worst = -1;
                    for (auto& x : s) { best = std::min(best, prio[x.color - 1]); worst = std::max(worst, prio[x.color - 1]); }
                    if (best != worst) contested = true;
                    for (auto it = s.begin(); it != s.end();) if (prio[it->color - 1] != best) it = s.erase(it); else ++it;
                    first = false;
                }
                auto k = am::Branches<char>::colors(s);
                if (k.size() == 1) { want = *k.begin(); break; }
            }
            int got = l->run(w);
            c.show("  lookahead " + pbt::quote(w) + " -> " + std::to_string(want) + "\n");
            if (got != want) c.fail("the decision for " + pbt::quote(w) + " is " + std::to_string(got) + ", alternative " + std::to_string(want) + " expected");
        }
    }
    catch (const am::Overflow&) { c.discard("too deep"); }
    static const char *shapes[] = {"rule", "called rule", "star", "plus", "optional", "group"};
    c.label(shapes[shape]);
    if (!all) c.label("mixed | and |>");
    if (cur > 127) c.label("128 priorities and more");
    for (auto& q : a.seqs) if (q.size() == 1 && (q[0].post == '?' || q[0].post == '*')) { c.label("nullable alternative"); break; }
    c.nontrivial = contested;
}
static int reg = (
    pbt::add("parsed", 40000, 800000, [](pbt::Case& c) { priority(c, false); }, {false, 3}),
    pbt::add("optimised", 40000, 800000, [](pbt::Case& c) { priority(c, true); }, {false, 3}),
    pbt::add("many-alternatives", 3000, 60000, [](pbt::Case& c) { priority(c, c.g.chance(50), true); }, {false, 10}), 0);
PBT_MAIN
