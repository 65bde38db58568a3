// Generated parsers: decisions, acceptance, the syntax tree they write, pages, dry runs.
#define JT_MAIN
#include "load.hpp"
#include "machine.hpp"
#include "BaseRunner.hpp"
#include "derived.hpp"
#include "CodeGenEM64T.hpp"
using namespace Centaurus;

static const size_t BANK = 8 * 1024 * 1024, WORDS = BANK / 8;
// Pages filled with junk, a guard page behind each.
struct Pages : BaseListener
{
    static char *area(int i)
    {
        static char *a[4];
        if (!a[i])
        {
            size_t pg = (size_t)sysconf(_SC_PAGESIZE);
            a[i] = (char *)mmap(nullptr, BANK + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if (a[i] == MAP_FAILED || mprotect(a[i] + pg, BANK, PROT_READ | PROT_WRITE)) abort();
            a[i] += pg;
        }
        return a[i];
    }
    int count = 0;
    bool misaligned = false, unfilled = false, toomany = false;
    uint64_t junk;
    Pages(uint64_t junk) : junk(junk | 1) {}
    __attribute__((noinline)) void *feed_callback() override
    {
        // On entry to a function the stack is aligned to 16 bytes less the return address.
        volatile uintptr_t fp = (uintptr_t)__builtin_frame_address(0);
        if (fp % 16) misaligned = true;
        if (count == 4) { toomany = true; count = 3; }
        uint64_t *p = (uint64_t *)area(count++);
        for (size_t i = 0; i < 256; i++) p[i] = junk + i * 2;
        for (size_t i = 511; i < WORDS; i += 4096) p[i] = junk;
        p[WORDS - 1] = junk;
        scramble();
        return p;
    }
    // Callbacks may use every register the calling convention lets them.
    static __attribute__((noinline)) void scramble()
    {
        asm volatile("mov $-1, %%rax; mov $-2, %%rcx; mov $-3, %%rdx; mov $-4, %%rsi; mov $-5, %%rdi; mov $-6, %%r8; mov $-7, %%r9; mov $-8, %%r10; mov $-9, %%r11;"
                     "pcmpeqb %%xmm0, %%xmm0; pcmpeqb %%xmm1, %%xmm1; pcmpeqb %%xmm2, %%xmm2; pcmpeqb %%xmm15, %%xmm15"
                     ::: "rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "xmm0", "xmm1", "xmm2", "xmm15", "cc", "memory");
    }
    // Everything up to the first zero, which has to be followed by zeros only.
    std::vector<uint64_t> marks()
    {
        std::vector<uint64_t> v;
        for (int i = 0; i < count; i++)
        {
            const uint64_t *p = (const uint64_t *)area(i);
            size_t k = 0;
            while (k < WORDS && p[k]) k++;
            v.insert(v.end(), p, p + k);
            if (i + 1 < count ? k < WORDS : k == WORDS) unfilled = true;
            for (; k < WORDS; k++) if (p[k]) unfilled = true;
        }
        return v;
    }
};
template<typename P> static const char *run(pbt::Case& c, P& parser, BaseListener *l, const char *text)
{
    struct Thunk { static const void *run(P *p, BaseListener *l, const void *in) { return (*p)(l, in); } };
    const char *r = (const char *)jt::jt_call((const void *)&Thunk::run, &parser, l, text);
    if (jt::jt_bad) c.fail("the generated parser does not preserve " + jt::trouble());
    return r;
}
template<typename T> static bool compile(pbt::Case& c, const Grammar<T>& G, std::unique_ptr<ParserEM64T<T>>& p, std::unique_ptr<DryParserEM64T<T>>& d)
{
    try
    {
        if (c.g.chance(50)) { p.reset(new ParserEM64T<T>()); p->init(G); }
        else p.reset(new ParserEM64T<T>(G));
        if (c.g.chance(30)) d.reset(new DryParserEM64T<T>(G));
    }
    catch (const std::exception& e) { c.show(std::string("refused: ") + e.what() + "\n"); return false; }
    return true;
}
template<typename T> static void judge(pbt::Case& c, ParserEM64T<T>& parser, DryParserEM64T<T> *dry, const std::string& s, long want, const std::vector<uint64_t>& marks)
{
    jt::Buffer b(s);
    Pages pages(c.g.below(1u << 30) * 0x9e3779b97f4a7c15ull);
    const char *end = run(c, parser, &pages, b.text);
    std::string at = end ? "accepts up to " + std::to_string(end - b.text) : "rejects", w = want >= 0 ? "acceptance up to " + std::to_string(want) : "rejection";
    if (end ? want != end - b.text : want >= 0) c.fail("the parser " + at + " where " + w + " is due, for " + pbt::quote(s));
    std::vector<uint64_t> got = pages.marks();
    if (got != marks) c.fail("the syntax tree written is\n  " + mi::show(got) + "\ninstead of\n  " + mi::show(marks) + "\nfor " + pbt::quote(s));
    if (pages.unfilled) c.fail("a page is not filled up");
    if (pages.toomany) c.fail("too many pages are asked for");
    if (pages.misaligned) c.fail("the page callback is called with a misaligned stack");
    if (dry)
    {
        const char *e2 = run(c, *dry, &pages, b.text);
        if (e2 != end) c.fail("the dry parser answers differently");
    }
}
// Any grammar: the interpreter tells what its decisions allow.
template<typename T> static void any(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    gr::Opts o;
    o.terminator = g.chance(80);
    o.max_rules = g.chance(20) ? 4 : 3;
    o.max_depth = g.chance(25) ? 2 : 1;
    o.group_w = 2;
    o.rxo.depth = g.chance(30) ? 1 : 0;
    o.rxo.max_len = 2;
    o.rxo.max_class = 3;
    o.ll = g.chance(90);
    o.re_share = 20;
    bool prio = g.chance(25);
    o.priorities = prio;
    if (g.chance(60)) o.chars = "abcdefgh0123";
    gr::Gram gm = gr::generate(g, o);
    bool opt = g.chance(60);
    c.show(gr::print(gm) + (opt ? "optimised\n" : ""));
    Grammar<T> G;
    ld::load(G, gr::print(gm));
    if (opt) G.optimize();
    std::unique_ptr<ParserEM64T<T>> parser;
    std::unique_ptr<DryParserEM64T<T>> dry;
    if (!compile(c, G, parser, dry)) { c.label("not analysable"); return; }
    am::Branches<T> ref(G);
    bool exact = !prio && g.chance(60);
    mi::Machine<T> m(G, exact ? &ref : nullptr);
    int acc = 0, rej = 0, n = g.range(1, 5), dec = 0;
    for (int i = 0; i < n; i++)
    {
        std::string s = gr::subject(g, gm, o.chars, 40);
        long want;
        m.reset(s);
        try { want = m.run(am::ident(gm.rules[0].name), 0); }
        catch (const am::Overflow&) { c.discard("too deep"); }
        catch (const mi::TooLong&) { c.discard("endless"); }
        c.show("  input " + pbt::quote(s) + " -> " + std::to_string(want) + "\n");
        judge<T>(c, *parser, dry.get(), s, want, m.marks);
        (want >= 0 ? acc : rej)++;
        dec += m.decisions;
    }
    if (acc) c.label("accepted");
    if (rej) c.label("rejected");
    c.label(exact ? "exact decisions" : "lookahead automata decide");
    c.nontrivial = acc > 0 && dec > 0;
}
// Grammars whose decisions the next character settles: a derivation is known beforehand, and the parser has to find it.
template<typename T> static void derived(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    bool prio = g.chance(15), open;
    gr::Gram gm;
    if (!dv::make(g, gm, prio, false, &open)) c.discard("too large");
    bool opt = g.chance(60);
    c.show(gr::print(gm) + (opt ? "optimised\n" : ""));
    gr::Sampler probe(g, gm);
    if (!probe.productive(0)) c.discard("derives nothing");
    Grammar<T> G;
    ld::load(G, gr::print(gm));
    if (opt) G.optimize();
    std::unique_ptr<ParserEM64T<T>> parser;
    std::unique_ptr<DryParserEM64T<T>> dry;
    if (!compile(c, G, parser, dry)) c.fail("no parser for a grammar that the next character decides");
    int times = g.range(1, 4);
    size_t nodes = 0;
    for (int i = 0; i < times; i++)
    {
        gr::Sampler sm(g, gm);
        sm.prefer = "0123456789";
        if (prio) sm.ws = 0;                // white space would be the contested first character
        sm.limit = g.chance(20) ? 600 : 60;
        gr::Tree t = sm.rule(0, 8);
        std::string s = sm.out;
        // The start symbol may be followed by anything, unless only the end of the input closes it.
        size_t len = s.size();
        if (g.chance(30)) s += open ? std::string(g.range(1, 20), " \n\t"[g.below(3)]) : " " + dv::letters().substr(g.below(20), 3);
        std::vector<uint64_t> marks;
        std::function<void(const gr::Tree&)> walk = [&](const gr::Tree& k) { marks.push_back(mi::mark(true, k.rule + 1, k.start)); for (auto& x : k.kids) walk(x); marks.push_back(mi::mark(false, k.rule + 1, k.end)); };
        walk(t);
        c.show("  input " + pbt::quote(s) + "\n");
        judge<T>(c, *parser, dry.get(), s, (long)len, marks);
        nodes = std::max(nodes, marks.size() / 2);
        if (s.size() > 100) c.label("long input");
    }
    if (nodes > 5) c.label("more than five nodes");
    if (open) c.label("open end");
    c.nontrivial = nodes > 1;
}
// Trees larger than a page.
template<typename T> static void paged(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    bool nested = g.chance(50), deep = g.chance(40);
    std::string text = "grammar G;\nS : '(' ( T | U )* ')' ;\nT : 'a' ;\nU : 'b' V ;\nV : " + std::string(deep ? "'(' V ')' | 'c'" : "'c'") + " ;\n";
    c.show(text);
    Grammar<T> G;
    ld::load(G, text);
    if (g.chance(50)) G.optimize();
    ParserEM64T<T> parser(G);
    int pages = g.range(1, 2);
    size_t total = WORDS * pages + g.range(-4, 4);
    if (g.chance(20)) total = g.range(1, 3) * (WORDS / 2) + g.range(0, 2000);
    total &= ~(size_t)1;
    std::string s = "(";
    std::vector<uint64_t> marks = {mi::mark(true, 1, 0)};
    s.reserve(total);
    marks.reserve(total);
    int seed = g.below(1 << 30), seed0 = seed;
    int every = g.range(1, 50);
    int spaced = g.chance(40) ? g.range(2, 100) : 0;
    // White space belongs to the rule it comes in.
    auto ws = [&]() { if (spaced && s.size() % spaced == 0) s.append(1 + s.size() % 37, " \n\t\r"[s.size() / 64 % 4]); };
    // The last stretch up to the border is random, the rest regular, so that shrinking has little to change.
    size_t tail = 64;
    while (marks.size() + 1 < total)
    {
        size_t left = total - 1 - marks.size(), p = s.size();
        bool rnd = left < tail + 60 && left > 20;
        seed = seed * 1103515245 + 12345;
        bool u = nested && left >= 4 && (rnd ? (seed >> 16 & 1) : (marks.size() / 2 % every == 0));
        ws();
        if (!u) { s += "a"; marks.push_back(mi::mark(true, 2, p)); marks.push_back(mi::mark(false, 2, s.size())); continue; }
        int d = deep ? std::min<int>(seed >> 18 & 7, (int)(left - 4) / 2) : 0;
        s += "b";
        marks.push_back(mi::mark(true, 3, p));
        for (int i = 0; i <= d; i++) { marks.push_back(mi::mark(true, 4, s.size())); ws(); if (i < d) s += "("; }
        s += "c";
        for (int i = d; i >= 0; i--) { if (i < d) s += ")"; marks.push_back(mi::mark(false, 4, s.size())); }
        marks.push_back(mi::mark(false, 3, s.size()));
    }
    s += ")";
    marks.push_back(mi::mark(false, 1, s.size()));
    c.show("markers " + std::to_string(marks.size()) + " of " + std::to_string(WORDS) + " a page, every " + std::to_string(every) + ", tail " + std::to_string(seed0) + (spaced ? ", white space every " + std::to_string(spaced) : "") + "\n");
    bool cut = g.chance(25);
    if (cut) s.back() = 'x';
    jt::Buffer b(s);
    Pages pg(g.below(1u << 30));
    const char *end = run(c, parser, &pg, b.text);
    if (cut ? end != nullptr : end != b.text + s.size()) c.fail("the parser does not " + std::string(cut ? "reject" : "accept"));
    if (cut) marks.pop_back();
    std::vector<uint64_t> got = pg.marks();
    if (got != marks)
    {
        size_t i = 0;
        while (i < got.size() && i < marks.size() && got[i] == marks[i]) i++;
        c.fail("marker " + std::to_string(i) + " of " + std::to_string(marks.size()) + " differs: " + mi::show(got, i, i + 3) + " instead of " + mi::show(marks, i, i + 3));
    }
    if (pg.unfilled) c.fail("a page is not filled up");
    if (pg.toomany) c.fail("too many pages are asked for");
    if (pg.misaligned) c.fail("the page callback is called with a misaligned stack");
    c.label("pages " + std::to_string(pg.count));
    if (marks.size() % WORDS == 0) c.label("ends at a border");
    c.nontrivial = pg.count > 1;
}
// The decision routine alone, with lookahead that keeps branches alive.
template<typename T> static void decision(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    gr::Opts o;
    o.ll = g.chance(70);
    o.re_share = 20;
    o.terminator = g.chance(50);
    o.priorities = g.chance(20);
    o.max_rules = 3;
    o.max_depth = 1;
    o.group_w = 2;
    o.rxo.depth = g.chance(20) ? 1 : 0;
    o.rxo.max_len = 2;
    o.rxo.max_class = 2;
    o.rxo.neg = o.rxo.dot = g.chance(20);
    if (g.chance(50)) o.chars = "abcdefgh0123";
    gr::Gram gm = gr::generate(g, o);
    c.show(gr::print(gm));
    Grammar<char> names;
    ld::load(names, gr::print(gm));
    Grammar<T> G;
    ld::load(G, gr::print(gm));
    if (g.chance(50)) { G.optimize(); names.optimize(); }
    CompositeATN<T> catn(G);
    am::Branches<T> ref(G);
    auto ds = am::decisions_of(names, gm);
    if (ds.empty()) c.discard("no decision");
    auto d = g.pick(ds);
    Identifier id(d.first);
    std::unique_ptr<LookaheadDFA<T>> l;
    try { l.reset(new LookaheadDFA<T>(catn, catn.convert_atn_path(ATNPath(id, d.second)), g.chance(50))); }
    catch (const std::exception&) { c.label("not analysable"); return; }
    LDFARoutineEM64T<T> routine(*l);
    int n = g.range(1, 8), decided = 0;
    try
    {
        for (int k = 0; k < n; k++)
        {
            std::string w = ref.walk(g, id, d.second, g.range(1, 12), o.chars + " $");
            int want = o.priorities ? l->run(am::conv<T>(w)) : ref.decide(id, d.second, w);
            if (want < 0) want = 0;
            c.show("  lookahead " + pbt::quote(w) + " -> " + std::to_string(want) + "\n");
            jt::Buffer b(w);
            struct Thunk { static void *run(LDFARoutineEM64T<T> *r, const void *in) { return (void *)(long)(*r)(in); } };
            int got = (int)(long)jt::jt_call((const void *)&Thunk::run, &routine, b.text, nullptr);
            if (jt::jt_bad) c.fail("the decision routine does not preserve " + jt::trouble());
            if (got != want) c.fail("the generated code decides for branch " + std::to_string(got) + ", not " + std::to_string(want) + ", on " + pbt::quote(w));
            if (want) decided++;
        }
    }
    catch (const am::Overflow&) { c.discard("too deep"); }
    c.nontrivial = decided > 0;
}
// Grammars of many rules: each rule a marker names is the one that was called, or the grammar is refused.
template<typename T> static void many(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    int w = g.weighted({4, 4, 3, 1});
    int n = w == 0 ? g.range(2, 300) : w == 1 ? (256 << g.below(5)) + g.range(-3, 3) : w == 2 ? g.range(32764, 32772) : g.range(32769, 66000);
    int k = g.range(1, 6);
    std::vector<int> called;
    for (int i = 0; i < k; i++) called.push_back(g.chance(50) ? n - (int)g.below(std::min(n - 1, 6)) : g.range(2, n));
    std::string text = "R1 : '['", in = "[";
    std::vector<uint64_t> marks{mi::mark(true, 1, 0)};
    for (int r : called)
    {
        char ch = 'a' + r % 26;
        text += " R" + std::to_string(r);
        marks.push_back(mi::mark(true, r, in.size()));
        in += ch;
        marks.push_back(mi::mark(false, r, in.size()));
    }
    text += " ']' ;\n";
    in += "]";
    marks.push_back(mi::mark(false, 1, in.size()));
    for (int r = 2; r <= n; r++) text += "R" + std::to_string(r) + " : '" + (char)('a' + r % 26) + "' ;\n";
    c.show(std::to_string(n) + " rules, " + text.substr(0, text.find('\n')) + "\n");
    std::unique_ptr<ParserEM64T<T>> parser;
    try
    {
        Grammar<T> G;
        ld::load(G, text);
        if (G.get_machine_num() != n) c.fail("the grammar has " + std::to_string(G.get_machine_num()) + " rules");
        parser.reset(new ParserEM64T<T>(G));
    }
    catch (const std::exception& e)
    {
        // A marker has 15 bits for a rule's number.
        if (n < 32768) c.fail(std::string("refused: ") + e.what());
        c.label("refused");
        return;
    }
    judge<T>(c, *parser, nullptr, in, (long)in.size(), marks);
    for (size_t i = 1; i + 1 < marks.size(); i++)
    {
        CSTMarker m(marks[i]);
        int r = called[(i - 1) / 2];
        if (m.is_start_marker() != (i % 2 == 1) || m.is_end_marker() != (i % 2 == 0) || m.get_machine_id() != r)
            c.fail("the " + std::string(i % 2 ? "start" : "end") + " marker of rule " + std::to_string(r) + " reads as " + (m.is_start_marker() ? "start" : m.is_end_marker() ? "end" : "neither") + " of rule " + std::to_string(m.get_machine_id()));
    }
    c.label(n < 1000 ? "few rules" : n < 32768 ? "many rules" : "too many rules");
    c.nontrivial = n > 255;
}
#define BOTH(f) [](pbt::Case& c) { if (c.g.chance(50)) f<char>(c); else f<unsigned char>(c); }
static int reg = (
    pbt::add("many", 60, 1500, BOTH(many), {false, 60, 120}),
    pbt::add("decision", 20000, 300000, BOTH(decision), {false, 1, 60, false, 0, 10}),
    pbt::add("derived", 20000, 100000, BOTH(derived), {true, 20}),
    pbt::add("any", 6000, 150000, BOTH(any), {false, 1, 60, false, 0, 20}),
    pbt::add("paged", 600, 6000, BOTH(paged), {true, 60}), 0);
PBT_MAIN
