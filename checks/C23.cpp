// A grammar object answers alike, whatever was asked of it before and wherever it was moved.
#define JT_MAIN
#include "load.hpp"
#include "machine.hpp"
#include "BaseRunner.hpp"
#include "derived.hpp"
#include "CodeGenEM64T.hpp"
using namespace Centaurus;

static const size_t BANK = 8 * 1024 * 1024;
struct Page : BaseListener
{
    static uint64_t *area()
    {
        static void *a = mmap(nullptr, BANK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (a == MAP_FAILED) abort();
        return (uint64_t *)a;
    }
    int count = 0;
    void *feed_callback() override { count++; return area(); }
};
enum Kind { ATN_, NFA_, DFA_, LDFA_, CATN_, VERIFY, DUMP, PARSE, CHASE, LOOKUP, KINDS };
static const char *names[] = {"draw networks", "draw a token", "draw its automaton", "draw a decision", "draw a composite network", "verify", "everything", "parser", "chaser", "look up"};
struct Question
{
    int kind;
    std::string rule;
    int index = 0, flag = 0;
    std::string text;
    std::string show() const
    {
        std::string s = names[kind];
        if (kind == PARSE || kind == CHASE) s += " " + pbt::quote(text);
        else if (kind != VERIFY && kind != DUMP && kind != ATN_) s += " " + rule + "." + std::to_string(index);
        return s + (flag ? " " + std::to_string(flag) : "");
    }
};
template<typename F> static std::string drawn(F print) { std::wostringstream o; print(o); return ld::narrow(o.str()); }
struct Chased : BaseListener
{
    const char *base;
    std::string log;
    const ChaserEM64T<char> *chaser;
    void terminal_callback(int id, const void *start, const void *end) override { log += " t" + std::to_string(id) + "@" + std::to_string((const char *)start - base) + "-" + std::to_string((const char *)end - base); }
    const void *nonterminal_callback(int id, const void *start) override { log += " n" + std::to_string(id) + "@" + std::to_string((const char *)start - base); return (*chaser)[id](static_cast<BaseListener *>(this), start); }
};
static std::string answer(Grammar<char>& G, const Question& q)
{
    try
    {
        Identifier id(rx::widen(q.rule));
        ATNPath path(id, q.index);
        switch (q.kind)
        {
        case ATN_: return drawn([&](std::wostream& o) { G.print_grammar(o, q.index, false); });
        case NFA_: return drawn([&](std::wostream& o) { G.print_nfa(o, path); });
        case DFA_: return drawn([&](std::wostream& o) { G.print_dfa(o, path, q.flag); });
        case LDFA_: return drawn([&](std::wostream& o) { G.print_ldfa(o, path); });
        case CATN_: return drawn([&](std::wostream& o) { G.print_catn(o, id); });
        case VERIFY: return G.verify() ? "sound" : "not sound";
        case DUMP: return ld::dump(G);
        case LOOKUP:
        {
            int n = G.get_machine_id(id);
            return std::to_string(n) + " " + ld::narrow(G.lookup_id(n - 1).str()) + " of " + std::to_string(G.get_machine_num()) + " " + std::to_string(G[id].get_node_num());
        }
        case PARSE:
        {
            ParserEM64T<char> p(G);
            jt::Buffer b(q.text);
            Page l;
            const char *e = (const char *)p(&l, b.text);
            std::string r = e ? "accepts to " + std::to_string(e - b.text) : "rejects";
            std::vector<uint64_t> m;
            for (uint64_t *w = Page::area(); *w; w++) m.push_back(*w);
            return r + ", " + std::to_string(l.count) + " pages: " + mi::show(m, 0, 1000);
        }
        case CHASE:
        {
            ChaserEM64T<char> ch(G);
            jt::Buffer b(q.text);
            Chased l;
            l.base = b.text;
            l.chaser = &ch;
            const char *e = (const char *)ch[G.get_machine_id(id)](static_cast<BaseListener *>(&l), b.text);
            return (e ? "matches to " + std::to_string(e - b.text) : std::string("does not")) + l.log;
        }
        }
    }
    catch (const std::exception& e) { return std::string("exception: ") + e.what(); }
    return "";
}

// What is done to a grammar: a file is read, it is optimised.
struct Change { int kind; std::string text; };      // 0 read, 1 optimise, 2 draw it optimised
static void apply(Grammar<char>& G, const Change& ch, int& next)
{
    switch (ch.kind)
    {
    case 0: next = G.parse(ld::file(ch.text), next); break;
    case 1: G.optimize(); break;
    case 2: drawn([&](std::wostream& o) { G.print_grammar(o, 2, true); }); break;
    }
}
static void history(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    gr::Gram gm;
    std::string chars = "abcdefgh0123";
    if (g.chance(70)) { if (!dv::make(g, gm, g.chance(30), true)) c.discard("no more markers"); }
    else
    {
        gr::Opts o;
        o.max_rules = 3;
        o.max_depth = 1;
        o.group_w = 2;
        o.terminator = true;
        o.rxo.depth = 0;
        o.chars = chars;
        gm = gr::generate(g, o);
    }
    gr::Layout plain;
    std::vector<std::string> files(1);
    for (auto& r : gm.rules) { if (!files.back().empty() && g.chance(40)) files.push_back(""); files.back() += gr::print_rule(gm, r, plain); }
    std::unique_ptr<Grammar<char>> G(new Grammar<char>());
    std::vector<Change> done;
    int next = 1, asked = 0, steps = g.range(3, 14), moved = 0, early = 0;
    size_t file = 0;
    auto change = [&](const Change& ch) {
        done.push_back(ch);
        c.show(ch.kind == 0 ? "read\n" + ch.text : ch.kind == 1 ? "optimise\n" : "draw optimised\n");
        apply(*G, ch, next);
        if (ch.kind == 0 && next != G->get_machine_num() + 1) c.fail("parse() returned " + std::to_string(next) + " for " + std::to_string(G->get_machine_num()) + " rules");
    };
    change({0, files[file++]});
    for (int i = 0; i < steps; i++)
    {
        int what = file < files.size() ? g.weighted({6, 1, 0, 1, 4}) : g.weighted({6, 1, 1, 1, 0});
        if (what == 4 || (i + 1 == steps && file < files.size())) { change({0, files[file++]}); if (asked) early++; continue; }
        if (what == 1 || what == 2) { change({what, ""}); continue; }
        if (what == 3)
        {
            std::unique_ptr<Grammar<char>> H(new Grammar<char>(std::move(*G)));
            if (g.chance(50)) G.reset();
            G = std::move(H);
            c.show("move\n");
            moved++;
            continue;
        }
        Question q;
        // Code is made of complete grammars only.
        q.kind = file < files.size() ? g.weighted({3, 2, 2, 3, 3, 3, 3, 0, 0, 2}) : g.weighted({3, 2, 2, 3, 3, 3, 3, 4, 3, 2});
        q.rule = g.chance(4) ? "NONE" : gm.rules[g.below((uint32_t)gm.rules.size())].name;
        q.index = q.kind == ATN_ ? g.range(0, 4) : g.range(0, 8);
        if (q.kind == DFA_) q.flag = g.below(2);
        if (q.kind == PARSE || q.kind == CHASE) q.text = gr::subject(g, gm, chars, 40);
        c.show(q.show() + "\n");
        Grammar<char> F;
        int n = 1;
        for (auto& ch : done) if (ch.kind != 2) apply(F, ch, n); else F.optimize();
        std::string got = answer(*G, q), want = answer(F, q);
        if (got != want) c.fail("the answer to <" + q.show() + "> is\n" + got + "\nof a grammar only read and optimised alike it is\n" + want);
        c.label(names[q.kind]);
        asked++;
    }
    // Files read one after another are one file.
    bool mixed = false;
    for (size_t i = 0, seen = 0; i < done.size(); i++) { if (done[i].kind == 0) { if (seen) mixed = true; } else seen++; }
    if (!mixed && file == files.size())
    {
        Grammar<char> W;
        std::string all;
        for (auto& f : files) all += f;
        ld::load(W, all);
        for (auto& ch : done) if (ch.kind) W.optimize();
        std::string a = ld::dump(*G), b = ld::dump(W);
        if (a != b) c.fail("read in " + std::to_string(files.size()) + " files the grammar is\n" + a + "\nread in one\n" + b);
        if (files.size() > 1) c.label("read in several files");
    }
    if (moved) c.label("moved");
    if (early) c.label("read on after questions");
    c.nontrivial = asked > 1 && done.size() + moved > 1;
}
static int reg = (pbt::add("history", 8000, 150000, history, {false, 10}), 0);
PBT_MAIN
