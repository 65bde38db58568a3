// The networks built from a grammar recognise the grammar's language, before and after optimisation, plain and composite.
#include "load.hpp"
#include "atnmodel.hpp"
using namespace Centaurus;

// All end positions of a composite network (every terminal spelt out as single-character moves).
template<typename T> class CatnRecogniser
{
    const CompositeATN<T>& C;
    std::string s;
    size_t N;
    std::map<std::pair<std::wstring, size_t>, rx::PosSet> memo;
    bool changed = false;
    rx::PosSet eval(const std::wstring& id, size_t start)
    {
        const CATNMachine<T>& m = C[Identifier(id)];
        rx::PosSet r(N + 1, false);
        std::set<std::pair<int, size_t>> seen;
        std::vector<std::pair<int, size_t>> todo = {{0, start}};
        while (!todo.empty())
        {
            auto c = todo.back();
            todo.pop_back();
            if (!seen.insert(c).second) continue;
            const CATNNode<T>& n = m[c.first];
            rx::PosSet e(N + 1, false);
            if (n.is_terminal()) e[c.second] = true;
            else
            {
                auto k = std::make_pair(n.get_submachine().str(), c.second);
                auto i = memo.find(k);
                if (i == memo.end()) { memo.emplace(k, e); changed = true; }
                else e = i->second;
            }
            for (size_t p = 0; p <= N; p++)
                if (e[p])
                {
                    if (n.is_stop_node()) r[p] = true;
                    for (const auto& tr : n.get_transitions())
                    {
                        if (tr.is_epsilon()) todo.push_back({tr.dest(), p});
                        else if (p < N && tr.label().includes((T)(unsigned char)s[p])) todo.push_back({tr.dest(), p + 1});
                    }
                }
        }
        return r;
    }
public:
    CatnRecogniser(const CompositeATN<T>& C, const std::string& s) : C(C), s(s), N(s.size()) {}
    rx::PosSet ends(const Identifier& root)
    {
        memo.emplace(std::make_pair(root.str(), (size_t)0), rx::PosSet(N + 1, false));
        do
        {
            changed = false;
            std::vector<std::pair<std::wstring, size_t>> keys;
            for (auto& p : memo) keys.push_back(p.first);
            for (auto& k : keys)
            {
                rx::PosSet e = eval(k.first, k.second);
                rx::PosSet& cur = memo[k];
                for (size_t i = 0; i <= N; i++) if (e[i] && !cur[i]) { cur[i] = true; changed = true; }
            }
        } while (changed);
        return memo[std::make_pair(root.str(), (size_t)0)];
    }
};
static std::string show(const rx::PosSet& p)
{
    std::string s = "{";
    for (size_t i = 0; i < p.size(); i++) if (p[i]) s += (s.size() > 1 ? "," : "") + std::to_string(i);
    return s + "}";
}
enum { PARSED, OPTIMISED, TWICE, COMPOSITE, COMPOSITE_OPT };
template<typename T> static void language(pbt::Case& c, int how)
{
    gr::Opts o;
    o.left_recursion = c.g.chance(20);
    o.repeat_nullable = c.g.chance(50);
    o.priorities = c.g.chance(30);
    o.rxo.nested_nullable = o.repeat_nullable;
    o.rxo.neg = o.rxo.dot = c.g.chance(30);
    if (c.g.chance(30)) o.chars = "ab";
    o.sizes = c.g.chance(10);
    gr::Gram gm = gr::generate(c.g, o);
    // Sometimes an empty literal.
    if (c.g.chance(10) && !gm.rules[0].alt.seqs[0].empty()) { gr::Item i; gm.rules[0].alt.seqs[0].insert(gm.rules[0].alt.seqs[0].begin() + c.g.below((uint32_t)gm.rules[0].alt.seqs[0].size() + 1), i); }
    std::string text = gr::print(gm);
    c.show(text);
    Grammar<T> G;
    ld::load(G, text);
    std::string before = ld::narrow(G.get_root_id().str());
    auto names = ld::enumerate(G);
    std::vector<std::multiset<std::string>> items;
    for (auto& n : names) items.push_back(ld::items_of(G[Identifier(rx::widen(n.first))]));
    if (how == OPTIMISED || how == COMPOSITE_OPT) G.optimize();
    if (how == TWICE) { G.optimize(); G.optimize(); }
    if (ld::narrow(G.get_root_id().str()) != before || ld::enumerate(G) != names) c.fail("optimising changes the rule list");
    for (auto& n : names) if (G.get_machine_id(Identifier(rx::widen(n.first))) != n.second) c.fail("optimising changes a rule number");
    for (size_t i = 0; i < names.size(); i++)
        if (ld::items_of(G[Identifier(rx::widen(names[i].first))]) != items[i]) c.fail("optimising changes the items of rule " + names[i].first + " or their callback numbers");
    std::unique_ptr<CompositeATN<T>> C;
    if (how >= COMPOSITE) C.reset(new CompositeATN<T>(G));
    int k = c.g.range(1, 5), hits = 0, miss = 0;
    for (int i = 0; i < k; i++)
    {
        int rule = c.g.chance(30) ? (int)c.g.below((uint32_t)gm.rules.size()) : 0;
        std::string s = gr::subject(c.g, gm, o.chars, 14);
        if (s.size() > 14) s.resize(14);
        c.show("  " + gm.rules[rule].name + " on " + pbt::quote(s) + "\n");
        rx::PosSet want = gr::Recogniser(gm, s).ends(rule);
        Identifier id(rx::widen(gm.rules[rule].name));
        rx::PosSet got = how >= COMPOSITE ? CatnRecogniser<T>(*C, s).ends(id) : am::NetRecogniser<T>(G, s).ends(id);
        if (got != want) c.fail("matches of " + gm.rules[rule].name + " at the start of " + pbt::quote(s) + " end at " + show(got) + ", by the grammar at " + show(want));
        bool any = false;
        for (size_t p = 1; p < want.size(); p++) any |= want[p];
        (any ? hits : miss)++;
    }
    if (hits && miss) c.label("both");
    if (gm.rules.size() > 1) c.label("several rules");
    c.nontrivial = hits > 0;
}
static int reg = (
    pbt::add("parsed", 90000, 500000, [](pbt::Case& c) { language<char>(c, PARSED); }, {false, 5}),
    pbt::add("optimised", 90000, 500000, [](pbt::Case& c) { language<char>(c, OPTIMISED); }, {false, 5}),
    pbt::add("optimised-twice", 40000, 200000, [](pbt::Case& c) { language<char>(c, TWICE); }, {false, 5}),
    pbt::add("composite", 90000, 500000, [](pbt::Case& c) { language<char>(c, COMPOSITE); }, {false, 5}),
    pbt::add("composite-optimised", 60000, 300000, [](pbt::Case& c) { language<char>(c, COMPOSITE_OPT); }, {false, 5}),
    pbt::add("wide", 15000, 100000, [](pbt::Case& c) { language<wchar_t>(c, c.g.below(5)); }, {false, 5}), 0);
PBT_MAIN
