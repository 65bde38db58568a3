// Interpreters over the automata the library exposes (its public node/transition accessors):
// a recogniser for transition networks, and an exact simulation of what each branch of a decision can still match.
#pragma once
#include "grammar.hpp"
#include "Grammar.hpp"
#include "CompositeATN.hpp"
#include "LookaheadDFA.hpp"
#include "DFA.hpp"

namespace am
{
using namespace Centaurus;
template<typename T> using Str = std::basic_string<T>;
template<typename T> Str<T> conv(const std::string& s) { Str<T> r; for (unsigned char c : s) r.push_back((T)c); return r; }
inline Identifier ident(const std::string& s) { return Identifier(rx::widen(s)); }
inline bool is_ws(unsigned char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }

// All end positions of a machine over a string, by fixpoint.
template<typename T> class NetRecogniser
{
    const Grammar<T>& G;
    std::string s;
    size_t N;
    std::map<std::pair<std::wstring, size_t>, rx::PosSet> memo;
    bool changed;
    rx::PosSet nfa_ends(const NFA<T>& n, size_t from) const
    {
        rx::PosSet r(N + 1, false);
        std::set<std::pair<int, size_t>> seen;
        std::vector<std::pair<int, size_t>> todo = {{0, from}};
        while (!todo.empty())
        {
            auto c = todo.back();
            todo.pop_back();
            if (!seen.insert(c).second) continue;
            if (c.first == n.get_state_num() - 1) r[c.second] = true;
            for (const auto& tr : n.get_transitions(c.first))
            {
                if (tr.is_epsilon()) todo.push_back({tr.dest(), c.second});
                else if (c.second < N && tr.label().includes((T)(unsigned char)s[c.second])) todo.push_back({tr.dest(), c.second + 1});
            }
        }
        return r;
    }
    rx::PosSet through(const ATNNode<T>& node, size_t p)
    {
        rx::PosSet r(N + 1, false);
        switch (node.type())
        {
        case ATNNodeType::Blank: r[p] = true; break;
        case ATNNodeType::WhiteSpace:
            r[p] = true;
            while (p < N && is_ws(s[p])) r[++p] = true;
            break;
        case ATNNodeType::LiteralTerminal:
        {
            const Str<T>& l = node.get_literal();
            if (p + l.size() > N) break;
            for (size_t i = 0; i < l.size(); i++) if (l[i] != (T)(unsigned char)s[p + i]) return r;
            r[p + l.size()] = true;
            break;
        }
        case ATNNodeType::RegularTerminal: return nfa_ends(node.get_nfa(), p);
        case ATNNodeType::Nonterminal:
        {
            auto k = std::make_pair(node.get_submachine().str(), p);
            auto i = memo.find(k);
            if (i == memo.end()) { memo.emplace(k, r); changed = true; return r; }
            return i->second;
        }
        }
        return r;
    }
    rx::PosSet eval(const std::wstring& id, size_t start)
    {
        const ATNMachine<T>& m = G[Identifier(id)];
        rx::PosSet r(N + 1, false);
        std::set<std::pair<int, size_t>> seen;
        std::vector<std::pair<int, size_t>> todo = {{0, start}};
        while (!todo.empty())
        {
            auto c = todo.back();
            todo.pop_back();
            if (!seen.insert(c).second) continue;
            const ATNNode<T>& node = m.get_node(c.first);
            rx::PosSet e = through(node, c.second);
            for (size_t p = 0; p <= N; p++)
                if (e[p])
                {
                    if (node.get_transitions().empty()) r[p] = true;
                    for (const auto& tr : node.get_transitions()) todo.push_back({tr.dest(), p});
                }
        }
        return r;
    }
public:
    NetRecogniser(const Grammar<T>& G, const std::string& s) : G(G), s(s), N(s.size()), changed(false) {}
    rx::PosSet ends(const Identifier& root)
    {
        memo.emplace(std::make_pair(root.str(), (size_t)0), rx::PosSet(N + 1, false));
        do
        {
            changed = false;
            std::vector<std::pair<std::wstring, size_t>> keys;
            for (auto& p : memo) keys.push_back(p.first);
            for (auto& k : keys)
            {
                rx::PosSet e = eval(k.first, k.second);
                rx::PosSet& cur = memo[k];
                for (size_t i = 0; i <= N; i++) if (e[i] && !cur[i]) { cur[i] = true; changed = true; }
            }
        } while (changed);
        return memo[std::make_pair(root.str(), (size_t)0)];
    }
};

struct Overflow {};

// Which branches of a decision can still match after some input, in any calling context (exact: return
// addresses are kept on an unbounded stack; below the decision's own machine the caller is unknown). What follows the
// root, if nothing calls it, is white space and the end of the input, a zero: machine -1.
template<typename T> class Branches
{
    struct M { const ATNMachine<T> *m; std::wstring id; };
    std::vector<M> ms;
    std::map<std::wstring, int> idx;
    std::vector<std::vector<std::pair<int, int>>> sites;    // call sites of each machine
    int root = -2;
public:
    struct Conf
    {
        int color, m, node, sub;
        std::vector<std::pair<int, int>> stack;
        bool operator<(const Conf& c) const { return std::tie(color, m, node, sub, stack) < std::tie(c.color, c.m, c.node, c.sub, c.stack); }
    };
    using Set = std::set<Conf>;                              // closed under everything that consumes nothing
private:
    const ATNNode<T>& node(int m, int n) const { return ms[m].m->get_node(n); }
    // Follow what comes after node (m, n) is finished.
    void after(Set& out, std::set<Conf>& fin, Conf c) const
    {
        c.sub = -1;
        if (!fin.insert(c).second) return;
        if (c.stack.size() > 24 || fin.size() > 20000) throw Overflow();
        const auto& trs = node(c.m, c.node).get_transitions();
        if (trs.empty())
        {
            if (!c.stack.empty())
            {
                Conf d = c;
                d.m = c.stack.back().first;
                d.node = c.stack.back().second;
                d.stack.pop_back();
                after(out, fin, d);
            }
            else
            {
                for (auto& p : sites[c.m]) { Conf d = c; d.m = p.first; d.node = p.second; after(out, fin, d); }
                if (c.m == root) { Conf d = c; d.m = -1; d.node = 0; d.sub = 0; out.insert(d); }
            }
            return;
        }
        for (const auto& tr : trs) { Conf d = c; d.node = tr.dest(); enter(out, fin, d); }
    }
    void enter(Set& out, std::set<Conf>& fin, Conf c) const
    {
        const ATNNode<T>& n = node(c.m, c.node);
        c.sub = 0;
        switch (n.type())
        {
        case ATNNodeType::Blank: after(out, fin, c); return;
        case ATNNodeType::Nonterminal:
        {
            auto i = idx.find(n.get_submachine().str());
            if (i == idx.end()) throw Overflow();
            Conf d = c;
            d.stack.push_back({c.m, c.node});
            if (d.stack.size() > 24) throw Overflow();
            d.m = i->second;
            d.node = 0;
            enter(out, fin, d);
            return;
        }
        default: hold(out, fin, c);
        }
    }
    // A configuration inside a terminal.
    void hold(Set& out, std::set<Conf>& fin, const Conf& c) const
    {
        if (!out.insert(c).second) return;
        if (out.size() > 20000) throw Overflow();
        if (c.m < 0) return;
        const ATNNode<T>& n = node(c.m, c.node);
        switch (n.type())
        {
        case ATNNodeType::WhiteSpace: after(out, fin, c); break;
        case ATNNodeType::LiteralTerminal: if (c.sub == (int)n.get_literal().size()) after(out, fin, c); break;
        case ATNNodeType::RegularTerminal:
            for (const auto& tr : n.get_nfa().get_transitions(c.sub)) if (tr.is_epsilon()) { Conf d = c; d.sub = tr.dest(); hold(out, fin, d); }
            if (c.sub == n.get_nfa().get_state_num() - 1) after(out, fin, c);
            break;
        default: break;
        }
    }
public:
    Branches(const Grammar<T>& G)
    {
        for (const auto& p : G.get_machines()) { idx[p.first.str()] = (int)ms.size(); ms.push_back(M{&p.second, p.first.str()}); }
        auto r = idx.find(G.get_root_id().str());
        if (r != idx.end()) root = r->second;
        sites.resize(ms.size());
        for (size_t m = 0; m < ms.size(); m++)
            for (int n = 0; n < ms[m].m->get_node_num(); n++)
                if (node((int)m, n).type() == ATNNodeType::Nonterminal)
                {
                    auto i = idx.find(node((int)m, n).get_submachine().str());
                    if (i != idx.end()) sites[i->second].push_back({(int)m, n});
                }
    }
    Set begin(const Identifier& id, int n) const
    {
        Set out;
        std::set<Conf> fin;
        int m = idx.at(id.str()), color = 1;
        for (const auto& tr : node(m, n).get_transitions())
        {
            Conf c;
            c.color = color++;
            c.m = m;
            c.node = tr.dest();
            c.sub = 0;
            enter(out, fin, c);
        }
        return out;
    }
    rx::Set takes(const Conf& c) const
    {
        rx::Set r;
        if (c.m < 0) { if (!c.sub) { r.set(' '); r.set('\t'); r.set('\r'); r.set('\n'); r.set(0); } return r; }
        const ATNNode<T>& n = node(c.m, c.node);
        switch (n.type())
        {
        case ATNNodeType::WhiteSpace: r.set(' '); r.set('\t'); r.set('\r'); r.set('\n'); break;
        case ATNNodeType::LiteralTerminal: if (c.sub < (int)n.get_literal().size()) r.set((unsigned char)n.get_literal()[c.sub]); break;
        case ATNNodeType::RegularTerminal:
            for (const auto& tr : n.get_nfa().get_transitions(c.sub))
                if (!tr.is_epsilon()) for (int i = 0; i < 255; i++) if (tr.label().includes((T)i)) r.set(i);
            break;
        default: break;
        }
        return r;
    }
    Set step(const Set& in, unsigned char ch) const
    {
        Set out;
        std::set<Conf> fin;
        for (const auto& c : in)
        {
            if (c.m < 0)
            {
                Conf d = c;
                d.sub = ch == 0;
                if (!c.sub && (!ch || is_ws(ch))) out.insert(d);
                continue;
            }
            const ATNNode<T>& n = node(c.m, c.node);
            switch (n.type())
            {
            case ATNNodeType::WhiteSpace: if (is_ws(ch)) hold(out, fin, c); break;
            case ATNNodeType::LiteralTerminal:
                if (c.sub < (int)n.get_literal().size() && n.get_literal()[c.sub] == (T)ch) { Conf d = c; d.sub++; hold(out, fin, d); }
                break;
            case ATNNodeType::RegularTerminal:
                for (const auto& tr : n.get_nfa().get_transitions(c.sub))
                    if (!tr.is_epsilon() && tr.label().includes((T)ch)) { Conf d = c; d.sub = tr.dest(); hold(out, fin, d); }
                break;
            default: break;
            }
        }
        return out;
    }
    static std::set<int> colors(const Set& s) { std::set<int> r; for (auto& c : s) r.insert(c.color); return r; }
    // What an exact minimal-lookahead predictor answers: the branch, -1 when nothing matches, 0 when not even the end of the input settles it.
    int decide(const Identifier& id, int n, const std::string& w, size_t from = 0, size_t *used = nullptr) const
    {
        Set s = begin(id, n);
        for (size_t i = from; i <= w.size(); i++)
        {
            s = step(s, i < w.size() ? (unsigned char)w[i] : 0);
            std::set<int> k = colors(s);
            if (used) *used = i + 1 - from;
            if (k.empty()) return -1;
            if (k.size() == 1) return *k.begin();
        }
        return 0;
    }
    // An input that keeps branches alive as long as it can.
    std::string walk(pbt::Gen& g, const Identifier& id, int n, int maxlen, const std::string& noise) const
    {
        Set s = begin(id, n);
        std::string w;
        for (int i = 0; i < maxlen && !s.empty(); i++)
        {
            unsigned char ch;
            if (g.chance(6)) ch = noise[g.below((uint32_t)noise.size())];
            else
            {
                // Prefer characters that several branches take.
                std::map<int, rx::Set> per;
                for (auto& c : s) per[c.color] |= takes(c);
                rx::Set all, multi;
                for (auto& p : per) { multi |= all & p.second; all |= p.second; }
                if (all.none()) break;
                ch = (unsigned char)rx::pick_set(g, multi.any() && g.chance(75) ? multi : all, noise);
            }
            w += (char)ch;
            s = step(s, ch);
        }
        return w;
    }
};
inline std::vector<std::pair<std::wstring, int>> decisions_of(const Grammar<char>& G, const gr::Gram& gm)
{
    std::vector<std::pair<std::wstring, int>> r;
    for (auto& rule : gm.rules)
    {
        Identifier id = ident(rule.name);
        const auto& m = G[id];
        for (int i = 0; i < m.get_node_num(); i++) if (m.get_node(i).get_transitions().size() > 1) r.push_back({id.str(), i});
    }
    return r;
}
}
