// Reference model of grammars: AST, generator, printer, derivation sampler, recogniser.
#pragma once
#include "regex.hpp"
#include <fstream>
#include <algorithm>
#include <functional>

namespace gr
{
struct Alt;
struct Item
{
    enum Kind { NT, Lit, Re, Group } kind = Lit;
    int nt = 0;
    std::string lit;
    rx::P re;
    std::shared_ptr<Alt> group;
    char post = 0;                         // 0 * + ?
    int localid = -1;
};
using Seq = std::vector<Item>;
struct Alt
{
    std::vector<Seq> seqs;
    std::vector<bool> prio;                // prio[i]: "|>" rather than "|" in front of seqs[i]
};
struct Rule { std::string name; Alt alt; };
struct Gram
{
    std::string name;
    std::vector<Rule> rules;
    std::string terminator;                // literal ending the root rule, or empty
};

// Rules that call one another in a row, n deep.
inline Gram chain(pbt::Gen& g, int n)
{
    Gram gm;
    gm.name = "G";
    for (int i = 0; i < n; i++)
    {
        Rule r;
        r.name = "R" + std::to_string(i);
        auto lit = [&]() { Item x; x.lit = std::string(1, "abcxyz"[g.below(6)]); return x; };
        auto nt = [&](int k) { Item x; x.kind = Item::NT; x.nt = k; return x; };
        Seq s;
        if (i + 1 == n || g.chance(50)) s.push_back(lit());
        if (i + 1 < n) s.push_back(nt(i + 1));
        if (i + 2 < n && g.chance(10)) { s.push_back(lit()); s.push_back(nt(g.range(i + 1, n - 1))); }
        if (g.chance(30)) s.push_back(lit());
        r.alt.seqs.push_back(s);
        r.alt.prio.push_back(false);
        gm.rules.push_back(r);
    }
    return gm;
}
struct Opts
{
    int max_rules = 5;
    int max_depth = 2;
    bool recursion = true;                 // cycles in the call graph, always through a consumed token
    bool priorities = false;
    bool empties = true;                   // empty alternatives, ? and * over anything
    bool regex = true;
    bool terminator = false;
    bool left_recursion = false;
    bool ll = true;                        // alternatives start with distinct tokens as often as possible
    bool repeat_nullable = false;          // * or + over a nullable operand
    bool plain_tokens = false;             // literals only
    int re_share = 30;                     // percentage of tokens that are regexes
    int group_w = 3, max_seq = 3, max_alts = 3;
    bool sizes = false;                    // now and then many alternatives, long sequences, deep groups
    std::string chars = "abcd01";
    rx::Opts rxo;
    Opts()
    {
        rxo.any_char = false;
        rxo.printable = true;
        rxo.nested_nullable = false;
        rxo.allow_empty = false;
        rxo.depth = 1;
        rxo.neg = false;
        rxo.dot = false;
    }
};

inline const std::vector<std::string>& names()
{
    static const std::vector<std::string> n = {"S", "Expr", "Term", "_x", "Fact9", "List", "item", "Value", "k_v", "Z"};
    return n;
}

// Rule names that are easily taken for one another or for a keyword, or are long.
inline std::vector<std::string> name_pool(pbt::Gen& g)
{
    if (!g.chance(35)) return names();
    std::vector<std::string> v, fixed = {"grammars", "grammar1", "Grammar", "includes", "include_", "_include", "INCLUDE", "A", "AA", "AAA", "a", "aa", "R1", "R10", "R100", "r1", "_", "__", "_1", "S_0", "x", "xX", "Xx", "TermList", "Term_List", "Termlist"};
    std::string stem(g.chance(20) ? g.range(30, 300) : g.range(1, 12), g.chance(50) ? 'L' : 'i');
    while (v.size() < 10)
    {
        std::string s;
        switch (g.weighted({5, 2, 2}))
        {
        case 0: s = g.pick(fixed); break;
        case 1: s = stem + std::to_string(g.below(12)); break;
        case 2: s = stem; s[g.below((uint32_t)s.size())] = "aZ_"[g.below(3)]; break;
        }
        if (std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s);
    }
    return v;
}

class Maker
{
    pbt::Gen& g;
    const Opts& o;
    int n;
    int cur;
    // A rule may refer to later rules freely; to earlier ones (or itself) only after a consumed token and only when recursion is on.
public:
    Maker(pbt::Gen& g, const Opts& o) : g(g), o(o), n(0), cur(0) {}
    static bool nullable_seq(const Seq& s, const std::vector<bool>& nul)
    {
        for (auto& i : s) if (!nullable_item(i, nul)) return false;
        return true;
    }
    static bool nullable_alt(const Alt& a, const std::vector<bool>& nul)
    {
        for (auto& s : a.seqs) if (nullable_seq(s, nul)) return true;
        return false;
    }
    static bool nullable_item(const Item& i, const std::vector<bool>& nul)
    {
        if (i.post == '*' || i.post == '?') return true;
        switch (i.kind)
        {
        case Item::NT: return nul[i.nt];
        case Item::Lit: return i.lit.empty();
        case Item::Re: return rx::nullable(i.re);
        case Item::Group: return nullable_alt(*i.group, nul);
        }
        return false;
    }
    static std::vector<bool> nullables(const Gram& gm)
    {
        std::vector<bool> nul(gm.rules.size(), false);
        for (bool ch = true; ch;)
        {
            ch = false;
            for (size_t r = 0; r < gm.rules.size(); r++)
                if (!nul[r] && nullable_alt(gm.rules[r].alt, nul)) { nul[r] = true; ch = true; }
        }
        return nul;
    }
    Item token(int hint)
    {
        Item t;
        if (o.regex && !o.plain_tokens && g.chance(o.re_share))
        {
            t.kind = Item::Re;
            t.re = rx::generate(g, o.rxo);
            if (rx::nullable(t.re))
            {
                // Tokens are not nullable: anchor with a character.
                rx::P s = std::make_shared<rx::Node>(), ch = std::make_shared<rx::Node>();
                ch->kind = rx::Char;
                unsigned char c = o.chars[hint >= 0 ? hint % o.chars.size() : g.below((uint32_t)o.chars.size())];
                if (!isalnum(c)) c = 'a';
                ch->set.set(c);
                ch->text = std::string(1, c);
                s->kind = rx::Seq;
                s->kids.push_back(ch);
                s->kids.push_back(t.re);
                t.re = s;
            }
            return t;
        }
        t.kind = Item::Lit;
        int len = g.chance(1) ? g.range(8, o.sizes ? 300 : 20) : g.weighted({6, 3, 1}) + 1;
        for (int i = 0; i < len; i++) t.lit += o.chars[i == 0 && hint >= 0 ? hint % o.chars.size() : g.below((uint32_t)o.chars.size())];
        return t;
    }
    Item item(int depth, bool consumed, int hint)
    {
        Item t;
        int lo = consumed && o.recursion ? (o.left_recursion ? 0 : 1) : cur + 1;
        bool can_nt = n > 1 && (lo < n) && hint < 0;
        std::vector<int> w = {8, can_nt ? 6 : 0, depth > 0 ? o.group_w : 0};
        switch (g.weighted(w))
        {
        case 0: t = token(hint); break;
        case 1:
            t.kind = Item::NT;
            t.nt = g.range(lo, n - 1);
            if (lo <= cur && g.chance(60)) t.nt = std::min(n - 1, cur + (int)g.below(n - cur));   // mostly forward
            if (t.nt < lo) t.nt = lo;
            break;
        case 2:
            t.kind = Item::Group;
            t.group = std::make_shared<Alt>(alt(depth - 1, consumed, hint >= 0));
            break;
        }
        if (g.chance(25)) t.post = g.pick(std::vector<char>{'?', '*', '+'});
        if (t.kind != Item::Group && g.chance(3)) t.localid = g.chance(80) ? g.range(0, 12) : g.chance(50) ? g.range(13, 300) : g.pick(std::vector<int>{127, 128, 255, 256, 32767, 32768, 65535, 65536, 1000000, 2147483647});
        return t;
    }
    Seq seq(int depth, bool consumed, int hint)
    {
        Seq s;
        int len = g.range(o.empties && g.chance(6) ? 0 : 1, o.sizes && g.chance(2) ? 20 : o.max_seq);
        bool c = consumed;
        for (int i = 0; i < len; i++)
        {
            Item t = item(depth, c, i == 0 ? hint : -1);
            if (!t.post && t.kind != Item::NT && t.kind != Item::Group) c = true;
            s.push_back(t);
        }
        return s;
    }
    Alt alt(int depth, bool consumed, bool hinted)
    {
        Alt a;
        int k = o.sizes && g.chance(2) ? g.range(4, 20) : std::min(o.max_alts, g.weighted({5, 4, 2}) + 1);
        int base = (int)g.below((uint32_t)o.chars.size());
        for (int i = 0; i < k; i++)
        {
            bool distinct = o.ll && k > 1 && g.chance(85);
            a.seqs.push_back(seq(depth, consumed, distinct ? base + i : -1));
            a.prio.push_back(i > 0 && o.priorities && g.chance(60));
        }
        return a;
    }
    Gram make()
    {
        Gram gm;
        n = g.range(1, o.max_rules);
        std::vector<std::string> nm = name_pool(g);
        int rot = g.chance(30) ? g.range(0, (int)nm.size() - 1) : 0;
        for (int i = 0; i < n; i++)
        {
            cur = i;
            Rule r;
            r.name = nm[(i + rot) % nm.size()];
            r.alt = alt(o.sizes && g.chance(3) ? 8 : o.max_depth, false, false);
            gm.rules.push_back(r);
        }
        if (o.terminator)
        {
            gm.terminator = "$";
            Alt inner = gm.rules[0].alt;
            Item end;
            end.lit = "$";
            Seq s;
            if (inner.seqs.size() == 1) s = inner.seqs[0];
            else
            {
                Item grp;
                grp.kind = Item::Group;
                grp.group = std::make_shared<Alt>(inner);
                s.push_back(grp);
            }
            s.push_back(end);
            Alt outer;
            outer.seqs.push_back(s);
            outer.prio.push_back(false);
            gm.rules[0].alt = outer;
        }
        gm.name = g.chance(70) ? "G" + std::to_string(g.range(0, 9)) : "";
        if (!o.repeat_nullable) fix_repeats(gm);
        return gm;
    }
    // A repetition of a nullable operand is ambiguous: drop the repetition.
    static void fix_repeats(Gram& gm)
    {
        for (int round = 0; round < 8; round++)
        {
            std::vector<bool> nul = nullables(gm);
            bool ch = false;
            for (auto& r : gm.rules) fix_alt(r.alt, nul, ch);
            if (!ch) break;
        }
    }
    static void fix_alt(Alt& a, const std::vector<bool>& nul, bool& ch)
    {
        for (auto& s : a.seqs)
            for (auto& i : s)
            {
                if (i.kind == Item::Group) fix_alt(*i.group, nul, ch);
                if (i.post)
                {
                    Item j = i;
                    j.post = 0;
                    if (nullable_item(j, nul)) { i.post = 0; ch = true; }
                }
            }
    }
};
inline Gram generate(pbt::Gen& g, const Opts& o) { return Maker(g, o).make(); }

// ---- printing -------------------------------------------------------------------------------------------
// Layout produces the text between tokens; the default is a single blank.
struct Layout
{
    pbt::Gen *g = nullptr;                 // null: plain
    std::string nl = "\n";
    std::string gap(bool required = false)
    {
        if (!g) return " ";
        switch (g->weighted({10, 4, 3, 2, 2, 2}))
        {
        case 0: return " ";
        case 1: return required ? " " : "";
        case 2: return nl;
        case 3: return g->pick(std::vector<std::string>{" /* c ; | ' \" **/", " /* c */", "/**/", "/***/", " /*/*/", "/*//*/", "/* * / " + nl + "*/"});
        case 4: return g->pick(std::vector<std::string>{" // x ; : ' \" | /*", "//", "///", "//*", "// */"}) + nl;
        case 5: return "\t " + nl + " ";
        }
        return " ";
    }
};
inline std::string quote_lit(const std::string& s, bool dq) { return (dq ? "\"" : "'") + s + (dq ? "\"" : "'"); }
inline std::string print_alt(const Gram& gm, const Alt& a, Layout& l);
inline std::string print_item(const Gram& gm, const Item& i, Layout& l)
{
    std::string s;
    switch (i.kind)
    {
    case Item::NT: s = gm.rules[i.nt].name; break;
    case Item::Lit:
    {
        bool dq = i.lit.find('\'') != std::string::npos || (i.lit.find('"') == std::string::npos && l.g && l.g->chance(30));
        s = quote_lit(i.lit, dq);
        break;
    }
    case Item::Re: s = "/" + rx::print(i.re) + "/"; break;
    case Item::Group: s = "(" + l.gap() + print_alt(gm, *i.group, l) + ")"; break;
    }
    if (i.localid >= 0) s += (l.g ? l.gap() : std::string(" ")) + "{" + std::to_string(i.localid) + "}";
    if (i.post) s += (l.g && l.g->chance(20) ? std::string(" ") : std::string()) + i.post;
    return s;
}
inline std::string print_alt(const Gram& gm, const Alt& a, Layout& l)
{
    std::string s;
    for (size_t k = 0; k < a.seqs.size(); k++)
    {
        if (k) s += (a.prio[k] ? "|>" : "|") + l.gap();
        for (auto& i : a.seqs[k]) s += print_item(gm, i, l) + l.gap(true);
    }
    return s;
}
inline std::string print_rule(const Gram& gm, const Rule& r, Layout& l)
{
    return r.name + l.gap() + ":" + l.gap() + print_alt(gm, r.alt, l) + ";" + (l.g ? l.gap() : std::string(" ")) + l.nl;
}
inline std::string print(const Gram& gm, Layout l = Layout())
{
    std::string s = l.g ? l.gap() : std::string();
    if (!gm.name.empty()) s += "grammar " + gm.name + l.gap() + ";" + l.nl;
    for (auto& r : gm.rules) s += print_rule(gm, r, l);
    return s;
}
inline void write_file(const std::string& path, const std::string& text)
{
    std::ofstream f(path, std::ios::binary | std::ios::trunc);
    f << text;
}

// No rule reaches itself.
inline bool acyclic(const Gram& gm)
{
    int n = (int)gm.rules.size();
    std::vector<std::set<int>> e(n);
    std::function<void(int, const Alt&)> scan = [&](int r, const Alt& a) {
        for (auto& s : a.seqs) for (auto& i : s) { if (i.kind == Item::NT) e[r].insert(i.nt); if (i.kind == Item::Group) scan(r, *i.group); }
    };
    for (int i = 0; i < n; i++) scan(i, gm.rules[i].alt);
    std::vector<int> st(n, 0);
    std::function<bool(int)> dfs = [&](int i) { st[i] = 1; for (int j : e[i]) if (st[j] == 1 || (st[j] == 0 && !dfs(j))) return false; st[i] = 2; return true; };
    for (int i = 0; i < n; i++) if (st[i] == 0 && !dfs(i)) return false;
    return true;
}
// ---- derivations ----------------------------------------------------------------------------------------
struct Tree
{
    int rule = -1;
    size_t start = 0, end = 0;             // start: where the previous token ended
    std::vector<Tree> kids;
    bool operator==(const Tree& t) const { return rule == t.rule && start == t.start && end == t.end && kids == t.kids; }
};
inline std::string show(const Gram& gm, const Tree& t)
{
    std::string s = gm.rules[t.rule].name + "@" + std::to_string(t.start) + "-" + std::to_string(t.end);
    if (!t.kids.empty())
    {
        s += "(";
        for (size_t i = 0; i < t.kids.size(); i++) s += (i ? " " : "") + show(gm, t.kids[i]);
        s += ")";
    }
    return s;
}
inline int count(const Tree& t) { int n = 1; for (auto& k : t.kids) n += count(k); return n; }

class Sampler
{
    pbt::Gen& g;
    const Gram& gm;
    std::vector<int> m_min;                // least nesting depth of a derivation of each rule
    static constexpr int INF = 1000;
    int cost(const Item& i) const
    {
        if (i.post == '*' || i.post == '?') return 0;
        return cost_base(i);
    }
    int cost_base(const Item& i) const
    {
        if (i.kind == Item::NT) return m_min[i.nt] + 1;
        if (i.kind == Item::Group) return cost(*i.group);
        return 0;
    }
    int cost(const Seq& s) const { int c = 0; for (auto& i : s) c = std::max(c, cost(i)); return c; }
    int cost(const Alt& a) const { int c = INF; for (auto& s : a.seqs) c = std::min(c, cost(s)); return c; }
public:
    std::string out;
    int ws = 30;                           // percentage of tokens preceded by white space
    size_t limit = 60;
    std::string prefer = "abcd01";
    struct TokenRec { const Item *item; size_t start, end; };
    std::vector<TokenRec> tokens;          // start is after the white space
    Sampler(pbt::Gen& g, const Gram& gm) : g(g), gm(gm), m_min(gm.rules.size(), INF)
    {
        for (size_t k = 0; k <= gm.rules.size(); k++)
            for (size_t r = 0; r < gm.rules.size(); r++) m_min[r] = std::min(m_min[r], cost(gm.rules[r].alt));
    }
    bool productive(int r) const { return m_min[r] < INF; }
    void item_once(const Item& i, int depth, Tree& t)
    {
        switch (i.kind)
        {
        case Item::NT: t.kids.push_back(rule(i.nt, depth - 1)); break;
        case Item::Group: alt(*i.group, depth, t); break;
        case Item::Lit: case Item::Re:
            if (ws && g.chance(ws)) out += g.pick(std::vector<std::string>{" ", "\n", "\t", "  ", "\r\n"});
            size_t st = out.size();
            if (i.kind == Item::Lit) out += i.lit;
            else { std::string m; rx::sample(g, i.re, m, prefer, 8); out += m; }
            tokens.push_back({&i, st, out.size()});
            break;
        }
    }
    void alt(const Alt& a, int depth, Tree& t)
    {
        std::vector<int> ok;
        int best = INF;
        for (size_t k = 0; k < a.seqs.size(); k++) best = std::min(best, cost(a.seqs[k]));
        bool tight = out.size() > limit;
        for (size_t k = 0; k < a.seqs.size(); k++)
        {
            int c = cost(a.seqs[k]);
            if (c == best || (c <= depth && !tight)) ok.push_back((int)k);
        }
        const Seq& s = a.seqs[g.pick(ok)];
        for (auto& i : s)
        {
            int c = cost_base(i);
            bool may = c <= depth && out.size() <= limit;
            if (i.post == '?') { if (may && g.chance(50)) item_once(i, depth, t); }
            else if (i.post == '*' || i.post == '+')
            {
                int n = i.post == '+' ? 1 : 0;
                while (may && n < 5 && g.chance(45)) n++;
                for (int k = 0; k < n; k++) item_once(i, depth, t);
            }
            else item_once(i, depth, t);
        }
    }
    Tree rule(int r, int depth)
    {
        Tree t;
        t.rule = r;
        t.start = out.size();
        alt(gm.rules[r].alt, depth, t);
        t.end = out.size();
        return t;
    }
};

// ---- recogniser: all end positions, by fixpoint (any context-free grammar) -------------------------------
class Recogniser
{
    const Gram& gm;
    const std::string& s;
    size_t N;
    std::vector<std::vector<rx::PosSet>> memo;      // [rule][start] -> ends
    bool changed;
    rx::PosSet skip(const rx::PosSet& from) const
    {
        rx::PosSet r = from;
        for (size_t i = 0; i < N; i++) if (r[i] && (s[i] == ' ' || s[i] == '\t' || s[i] == '\r' || s[i] == '\n')) r[i + 1] = true;
        return r;
    }
    static void merge(rx::PosSet& a, const rx::PosSet& b) { for (size_t i = 0; i < a.size(); i++) if (b[i]) a[i] = true; }
    rx::PosSet once(const Item& i, const rx::PosSet& from)
    {
        rx::PosSet r(N + 1, false);
        switch (i.kind)
        {
        case Item::Lit:
        {
            rx::PosSet f = skip(from);
            for (size_t p = 0; p <= N; p++) if (f[p] && s.compare(p, i.lit.size(), i.lit) == 0 && p + i.lit.size() <= N) r[p + i.lit.size()] = true;
            return r;
        }
        case Item::Re: return rx::ends(i.re, s, skip(from));
        case Item::NT:
            for (size_t p = 0; p <= N; p++)
                if (from[p])
                {
                    if (memo[i.nt][p].empty()) { memo[i.nt][p].assign(N + 1, false); changed = true; }
                    merge(r, memo[i.nt][p]);
                }
            return r;
        case Item::Group: return alt(*i.group, from);
        }
        return r;
    }
    rx::PosSet seq(const Seq& q, rx::PosSet cur)
    {
        for (auto& i : q)
        {
            if (!i.post) { cur = once(i, cur); continue; }
            rx::PosSet acc = i.post == '+' ? once(i, cur) : cur;
            if (i.post == '?') { merge(acc, once(i, cur)); cur = acc; continue; }
            while (true)
            {
                rx::PosSet nx = acc;
                merge(nx, once(i, acc));
                if (nx == acc) break;
                acc = nx;
            }
            cur = acc;
        }
        return cur;
    }
    rx::PosSet alt(const Alt& a, const rx::PosSet& from)
    {
        rx::PosSet r(N + 1, false);
        for (auto& q : a.seqs) merge(r, seq(q, from));
        return r;
    }
public:
    Recogniser(const Gram& gm, const std::string& s) : gm(gm), s(s), N(s.size()), memo(gm.rules.size(), std::vector<rx::PosSet>(s.size() + 1)), changed(false) {}
    rx::PosSet ends(int rule)
    {
        memo[rule][0].assign(N + 1, false);
        do
        {
            changed = false;
            for (size_t r = 0; r < gm.rules.size(); r++)
                for (size_t p = 0; p <= N; p++)
                    if (!memo[r][p].empty())
                    {
                        rx::PosSet f(N + 1, false);
                        f[p] = true;
                        rx::PosSet e = alt(gm.rules[r].alt, f), nx = memo[r][p];
                        merge(nx, e);
                        if (nx != memo[r][p]) { memo[r][p] = nx; changed = true; }
                    }
        } while (changed);
        return memo[rule][0];
    }
    bool accepts(int rule = 0) { return ends(rule)[N]; }
};
// Strings to try against a grammar: sentences, near misses, noise.
inline std::string subject(pbt::Gen& g, const Gram& gm, const std::string& chars, size_t limit = 24)
{
    std::string s;
    Sampler sm(g, gm);
    int k = g.weighted({4, 4, 1});
    if (k < 2 && sm.productive(0))
    {
        sm.limit = limit / 2;
        sm.rule(0, 6);
        s = sm.out;
        if (k == 1) s = rx::mutate(g, s, chars + " $");
    }
    else
    {
        int len = g.range(0, 8);
        for (int i = 0; i < len; i++) s += (chars + " $")[g.below((uint32_t)chars.size() + 2)];
    }
    if (s.size() > limit) s.resize(limit);
    return s;
}
}
