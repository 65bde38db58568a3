// Reference interpreter of what generated parsers and chasers do: networks walked by exact decisions, tokens by longest match.
#pragma once
#include "atnmodel.hpp"
#include "jit.hpp"

namespace mi
{
using namespace Centaurus;
struct Event                                // what a chaser reports
{
    bool terminal;
    int id;
    size_t start, end;
    bool operator==(const Event& e) const { return terminal == e.terminal && id == e.id && start == e.start && end == e.end; }
};
inline std::string show(const std::vector<Event>& v)
{
    std::string s;
    for (auto& e : v) s += (s.empty() ? "" : " ") + std::string(e.terminal ? "t" : "n") + std::to_string(e.id) + "@" + std::to_string(e.start) + (e.terminal ? "-" + std::to_string(e.end) : "");
    return s;
}
inline uint64_t mark(bool start, int id, size_t pos) { return (start ? 1ull << 63 : 0) | (uint64_t)id << 48 | pos; }
inline std::string show(const std::vector<uint64_t>& v, size_t from = 0, size_t to = 60)
{
    std::string s;
    for (size_t i = from; i < v.size() && i < to; i++) s += (i > from ? " " : "") + std::string(v[i] >> 63 ? "<" : "") + std::to_string(v[i] >> 48 & 0x7fff) + (v[i] >> 63 ? "@" : ">@") + std::to_string(v[i] & 0xffffffffffffull);
    if (v.size() > to) s += " ...";
    return s;
}
struct TooLong {};
template<typename T> class Machine
{
    const Grammar<T>& G;
    const am::Branches<T> *exact;           // null: the library's own lookahead automata decide
    CompositeATN<T> catn;
    std::map<std::pair<std::wstring, int>, std::unique_ptr<LookaheadDFA<T>>> ldfas;
    int steps = 0;
    long longest(const NFA<T>& n, size_t from) const
    {
        std::set<int> cur;
        std::function<void(int)> add = [&](int q) { if (cur.insert(q).second) for (const auto& tr : n.get_transitions(q)) if (tr.is_epsilon()) add(tr.dest()); };
        add(0);
        long best = -1;
        int fin = n.get_state_num() - 1;
        for (size_t p = from;; p++)
        {
            if (cur.count(fin)) best = (long)p;
            if (p >= s.size()) break;
            std::set<int> old;
            old.swap(cur);
            for (int q : old) for (const auto& tr : n.get_transitions(q)) if (!tr.is_epsilon() && tr.label().includes((T)(unsigned char)s[p])) add(tr.dest());
            if (cur.empty()) break;
        }
        return best;
    }
public:
    std::string s;
    std::vector<uint64_t> marks;
    std::vector<Event> events;
    bool flat = false;                      // events of the rule itself only, not of the rules it calls
    int decisions = 0;
    Machine(const Grammar<T>& G, const am::Branches<T> *exact) : G(G), exact(exact), catn(G) {}
    int decide(const Identifier& id, int n, size_t p)
    {
        decisions++;
        if (exact) return exact->decide(id, n, s, p);
        auto& l = ldfas[{id.str(), n}];
        if (!l) l.reset(new LookaheadDFA<T>(catn, catn.convert_atn_path(ATNPath(id, n)), true));
        return l->run(am::conv<T>(s.substr(p)));
    }
    void reset(const std::string& text) { s = text; marks.clear(); events.clear(); steps = decisions = 0; }
    // The end of what the rule matches at p, or -1.
    long run(const Identifier& id, size_t p, int depth = 0)
    {
        if (depth > 400) throw TooLong();
        const ATNMachine<T>& m = G[id];
        int mid = m.get_unique_id();
        marks.push_back(mark(true, mid, p));
        int n = 0;
        while (true)
        {
            if (++steps > 20000) throw TooLong();
            const ATNNode<T>& node = m.get_node(n);
            size_t from = p;
            switch (node.type())
            {
            case ATNNodeType::Blank: break;
            case ATNNodeType::WhiteSpace: while (p < s.size() && am::is_ws(s[p])) p++; break;
            case ATNNodeType::LiteralTerminal:
            {
                const auto& l = node.get_literal();
                for (size_t i = 0; i < l.size(); i++, p++) if (p >= s.size() || l[i] != (T)(unsigned char)s[p]) return -1;
                break;
            }
            case ATNNodeType::RegularTerminal:
            {
                long e = longest(node.get_nfa(), p);
                if (e < 0) return -1;
                p = (size_t)e;
                break;
            }
            case ATNNodeType::Nonterminal:
            {
                events.push_back(Event{false, G[node.get_invoke()].get_unique_id(), p, 0});
                size_t k = events.size();
                long e = run(node.get_invoke(), p, depth + 1);
                if (flat) events.resize(k);
                if (e < 0) return -1;
                p = (size_t)e;
                break;
            }
            }
            if ((node.type() == ATNNodeType::LiteralTerminal || node.type() == ATNNodeType::RegularTerminal) && node.get_id() >= 0)
                events.push_back(Event{true, node.get_id(), from, p});
            const auto& trs = node.get_transitions();
            if (trs.empty()) break;
            if (trs.size() == 1) n = trs[0].dest();
            else
            {
                int d = decide(id, n, p);
                if (d <= 0) return -1;
                n = trs[d - 1].dest();
            }
        }
        marks.push_back(mark(false, mid, p));
        return (long)p;
    }
};
}
