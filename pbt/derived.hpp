// Grammars whose decisions the next character settles: every part starts with a marker character of its own.
#pragma once
#include "grammar.hpp"

namespace dv
{
inline const std::string& letters() { static const std::string l = "bcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ,.:;!?+-*<>=()[]{}&%#@~^|$_"; return l; }
// False: more parts than marker characters. With open, the root may be a rule of its own which only the end of the input closes.
inline bool make(pbt::Gen& g, gr::Gram& gm, bool prio, bool names = false, bool *open = nullptr)
{
    const std::string& letters = dv::letters();
    int next = 0, n = g.range(1, 4);
    bool out = false, opened = open && g.chance(30);
    int base = opened;
    if (open) *open = opened;
    auto mk = [&]() {
        gr::Item i;
        if (next >= (int)letters.size()) { out = true; i.lit = "b"; return i; }
        i.lit = std::string(1, letters[next++]);
        if (g.chance(25)) { int k = g.chance(30) ? g.range(6, 20) : g.range(1, 4); for (int j = 0; j < k; j++) i.lit += "a0 "[g.below(3)]; }
        return i;
    };
    auto num = [&]() {
        // A regex over characters no marker has; greedy tokens end where the next marker begins.
        gr::Item i;
        i.kind = gr::Item::Re;
        auto ch = [](const std::string& cls) { rx::P p = std::make_shared<rx::Node>(); p->kind = rx::Class; for (unsigned char x : cls) p->set.set(x); p->text = "[" + cls + "]"; return p; };
        rx::P rep = std::make_shared<rx::Node>(), seq = std::make_shared<rx::Node>();
        rep->kind = g.chance(50) ? rx::Star : rx::Plus;
        if (g.chance(40)) rep->mod = "+";
        rep->kids.push_back(ch(g.chance(50) ? "0123456789" : "13579"));
        seq->kind = rx::Seq;
        seq->kids.push_back(ch("02468"));
        seq->kids.push_back(rep);
        i.re = seq;
        return i;
    };
    std::function<gr::Alt(int)> alt = [&](int depth) {
        gr::Alt a;
        int k = g.range(1, 3);
        for (int i = 0; i < k; i++)
        {
            gr::Seq s;
            s.push_back(mk());
            int m = g.range(0, 2);
            for (int j = 0; j < m; j++)
            {
                int what = g.weighted({4, 3, 2, 2});
                gr::Item t;
                if (what == 0) { t.kind = gr::Item::NT; t.nt = base + (int)g.below(n); if (g.chance(40)) t.post = g.pick(std::vector<char>{'?', '*', '+'}); }
                else if (what == 1 && depth) { t.kind = gr::Item::Group; t.group = std::make_shared<gr::Alt>(alt(depth - 1)); if (g.chance(70)) t.post = g.pick(std::vector<char>{'?', '*', '+'}); }
                else if (what == 2) { t = num(); if (g.chance(30)) t.post = '?'; }
                else t = mk();
                s.push_back(t);
                s.push_back(mk());
            }
            a.seqs.push_back(s);
            a.prio.push_back(i > 0 && prio && g.chance(60));
        }
        return a;
    };
    gm.name = "G";
    if (opened)
    {
        gr::Rule ru;
        ru.name = names ? gr::names()[n] : "Root";
        int k = g.chance(25) ? 2 : 1;
        for (int i = 0; i < k; i++)
        {
            gr::Seq s;
            if (k > 1 || g.chance(50)) s.push_back(mk());
            gr::Item t;
            int what = g.weighted({4, 3, 2, 1});
            if (what == 0) { t.kind = gr::Item::NT; t.nt = base + (int)g.below(n); }
            else if (what == 1) { t.kind = gr::Item::Group; t.group = std::make_shared<gr::Alt>(alt(1)); }
            else if (what == 2) t = mk();
            else t = num();
            t.post = what == 3 ? '?' : g.pick(std::vector<char>{'?', '*', '+'});
            s.push_back(t);
            ru.alt.seqs.push_back(s);
            ru.alt.prio.push_back(false);
        }
        gm.rules.push_back(ru);
    }
    for (int r = 0; r < n; r++) { gr::Rule ru; ru.name = names ? gr::names()[r] : "R" + std::to_string(r); ru.alt = alt(2); gm.rules.push_back(ru); }
    return !out;
}
}
