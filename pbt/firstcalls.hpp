// Left recursion of a generated grammar.
#pragma once
#include "grammar.hpp"

namespace gr
{
// The calls a rule, alternative or item can make before anything is consumed.
struct FirstCalls
{
    const Gram& gm;
    std::vector<bool> nul;
    std::vector<std::set<int>> first, reach;
    FirstCalls(const Gram& gm) : gm(gm), nul(Maker::nullables(gm)), first(gm.rules.size()), reach(gm.rules.size())
    {
        int n = (int)gm.rules.size();
        for (int r = 0; r < n; r++) of(gm.rules[r].alt, first[r]);
        for (int r = 0; r < n; r++)
        {
            std::vector<int> todo(first[r].begin(), first[r].end());
            while (!todo.empty()) { int x = todo.back(); todo.pop_back(); if (reach[r].insert(x).second) todo.insert(todo.end(), first[x].begin(), first[x].end()); }
        }
    }
    void of(const Item& i, std::set<int>& out) const
    {
        if (i.kind == Item::NT) out.insert(i.nt);
        if (i.kind == Item::Group) of(*i.group, out);
    }
    void of(const Seq& s, size_t from, std::set<int>& out) const
    {
        for (size_t k = from; k < s.size(); k++) { of(s[k], out); if (!Maker::nullable_item(s[k], nul)) return; }
    }
    void of(const Alt& a, std::set<int>& out) const { for (auto& s : a.seqs) of(s, 0, out); }
    bool endless(const std::set<int>& calls) const
    {
        for (int x : calls)
        {
            if (reach[x].count(x)) return true;
            for (int y : reach[x]) if (reach[y].count(y)) return true;
        }
        return false;
    }
    // Some decision in there has a branch which starts with an endless chain of calls.
    bool bad(const Alt& a) const
    {
        std::set<int> c;
        of(a, c);
        if (a.seqs.size() > 1 && endless(c)) return true;
        for (auto& s : a.seqs)
            for (auto& i : s)
            {
                std::set<int> d;
                of(i, d);
                if (i.post && endless(d)) return true;
                if (i.kind == Item::Group && bad(*i.group)) return true;
            }
        return false;
    }
    bool bad() const { for (auto& r : gm.rules) if (bad(r.alt)) return true; return false; }
};
}
