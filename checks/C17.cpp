// Generated chasers: what they report of one rule, and what they make of the answers.
#define JT_MAIN
#include "load.hpp"
#include "machine.hpp"
#include "CodeGenEM64T.hpp"
using namespace Centaurus;

template<typename T> struct Follower : BaseListener
{
    const ChaserEM64T<T> *chaser = nullptr;
    const char *base = nullptr;
    const char *limit = nullptr;
    std::vector<mi::Event> events;
    bool misaligned = false, wild = false, follow = true;
    std::function<const void *(int, const void *)> answer;
    void where(const void *p) { if ((const char *)p < base || (const char *)p > limit) wild = true; }
    __attribute__((noinline)) void terminal_callback(int id, const void *start, const void *end) override
    {
        volatile uintptr_t fp = (uintptr_t)__builtin_frame_address(0);
        if (fp % 16) misaligned = true;
        where(start);
        where(end);
        events.push_back(mi::Event{true, id, (size_t)((const char *)start - base), (size_t)((const char *)end - base)});
        scramble();
    }
    __attribute__((noinline)) const void *nonterminal_callback(int id, const void *input) override
    {
        volatile uintptr_t fp = (uintptr_t)__builtin_frame_address(0);
        if (fp % 16) misaligned = true;
        where(input);
        events.push_back(mi::Event{false, id, (size_t)((const char *)input - base), 0});
        const void *r = follow ? (*chaser)[id](static_cast<BaseListener *>(this), input) : answer(id, input);
        scramble();
        return r;
    }
    // Callbacks may use every register the calling convention lets them.
    static void scramble()
    {
        asm volatile("mov $-1, %%rax; mov $-2, %%rcx; mov $-3, %%rdx; mov $-4, %%rsi; mov $-5, %%rdi; mov $-6, %%r8; mov $-7, %%r9; mov $-8, %%r10; mov $-9, %%r11;"
                     "pcmpeqb %%xmm0, %%xmm0; pcmpeqb %%xmm1, %%xmm1; pcmpeqb %%xmm2, %%xmm2; pcmpeqb %%xmm15, %%xmm15"
                     ::: "rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "xmm0", "xmm1", "xmm2", "xmm15", "cc", "memory");
    }
};
static void ids(pbt::Gen& g, gr::Alt& a)
{
    for (auto& s : a.seqs)
        for (auto& i : s)
        {
            if (i.kind == gr::Item::Group) ids(g, *i.group);
            else i.localid = g.chance(50) ? (g.chance(10) ? 100000 + (int)g.below(1000) : (int)g.below(20)) : -1;
        }
}
template<typename T> static void chase(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    gr::Opts o;
    o.terminator = g.chance(80);
    o.max_rules = g.chance(15) ? 4 : 3;
    o.max_depth = g.chance(25) ? 2 : 1;
    o.group_w = 2;
    o.rxo.depth = g.chance(30) ? 1 : 0;
    o.rxo.max_len = 2;
    o.rxo.max_class = 3;
    o.re_share = 20;
    o.ll = g.chance(90);
    if (g.chance(70)) o.chars = "abcdefgh0123";
    gr::Gram gm = gr::generate(g, o);
    for (auto& r : gm.rules) ids(g, r.alt);
    bool opt = g.chance(60);
    c.show(gr::print(gm) + (opt ? "optimised\n" : ""));
    Grammar<T> G;
    ld::load(G, gr::print(gm));
    if (opt) G.optimize();
    std::unique_ptr<ChaserEM64T<T>> ch;
    try
    {
        if (g.chance(50)) { ch.reset(new ChaserEM64T<T>()); ch->init(G); }
        else ch.reset(new ChaserEM64T<T>(G));
    }
    catch (const std::exception&) { c.label("not analysable"); return; }
    am::Branches<T> ref(G);
    bool exact = g.chance(60);
    mi::Machine<T> m(G, exact ? &ref : nullptr), m2(G, exact ? &ref : nullptr);
    int acc = 0, rej = 0, n = g.range(1, 5);
    size_t most = 0;
    for (int i = 0; i < n; i++)
    {
        // Any rule may be chased; the input is one the rule derives, or nearly.
        int rule = g.chance(60) ? 0 : (int)g.below((uint32_t)gm.rules.size());
        std::string s;
        gr::Sampler sm(g, gm);
        if (sm.productive(rule) && g.chance(90)) { sm.limit = 24; sm.rule(rule, 6); s = sm.out; if (g.chance(40)) s = rx::mutate(g, s, o.chars + " $"); if (rule && g.chance(60)) s += g.pick(std::vector<std::string>{"$", "a", " b", "c$", "d"}); }
        else s = gr::subject(g, gm, o.chars, 30);
        Identifier id = am::ident(gm.rules[rule].name);
        int mid = G[id].get_unique_id();
        jt::Buffer b(s);
        Follower<T> f;
        f.chaser = ch.get();
        f.base = b.text;
        f.limit = b.text + s.size();
        int kind = g.weighted({6, 2, 2});
        long want;
        std::vector<mi::Event> events;
        try
        {
            if (kind == 0) { m.reset(s); want = m.run(id, 0); events = m.events; }
            else
            {
                // The listener answers for the called rules itself: their end, or (2) failure, once.
                f.follow = false;
                m.reset(s);
                m.flat = true;
                want = m.run(id, 0);
                m.flat = false;
                events = m.events;
                std::vector<size_t> calls;
                for (size_t k = 0; k < events.size(); k++) if (!events[k].terminal) calls.push_back(k);
                size_t bad = (size_t)-1;
                if (kind == 2 && !calls.empty())
                {
                    size_t k = g.below((uint32_t)calls.size());
                    bad = k;
                    events.resize(calls[k] + 1);
                    want = -1;
                    c.label("called rule fails");
                }
                auto seen = std::make_shared<size_t>(0);
                f.answer = [&c, &m2, &G, &gm, &b, s, seen, bad](int call, const void *in) -> const void * {
                    if ((*seen)++ == bad) return nullptr;
                    m2.reset(s);
                    for (auto& r : gm.rules)
                        if (G[am::ident(r.name)].get_unique_id() == call)
                        {
                            long e = m2.run(am::ident(r.name), (size_t)((const char *)in - b.text));
                            return e < 0 ? nullptr : b.text + e;
                        }
                    return nullptr;
                };
            }
        }
        catch (const am::Overflow&) { c.discard("too deep"); }
        catch (const mi::TooLong&) { c.discard("endless"); }
        c.show("  " + gm.rules[rule].name + " on " + pbt::quote(s) + " -> " + std::to_string(want) + (kind ? " answered" : "") + "\n");
        ChaserFunc fn = g.chance(50) ? (*ch)[id] : (*ch)[mid];
        const char *end = (const char *)jt::jt_call((const void *)fn, static_cast<BaseListener *>(&f), b.text, nullptr);
        if (jt::jt_bad) c.fail("the chaser does not preserve " + jt::trouble());
        if (f.events != events) c.fail("the chaser reports\n  " + mi::show(f.events) + "\ninstead of\n  " + mi::show(events) + "\nfor " + pbt::quote(s));
        if (end ? want != end - b.text : want >= 0) c.fail("the chaser gives " + (end ? std::to_string(end - b.text) : std::string("failure")) + " instead of " + std::to_string(want) + " for " + pbt::quote(s));
        if (f.misaligned) c.fail("a callback is called with a misaligned stack");
        if (f.wild) c.fail("a position outside the input is reported");
        (want >= 0 ? acc : rej)++;
        most = std::max(most, events.size());
    }
    if (acc) c.label("accepted");
    if (rej) c.label("rejected");
    if (most > 3) c.label("more than three events");
    c.nontrivial = acc > 0 && most > 0;
}
static int reg = (
    pbt::add("chase", 8000, 200000, [](pbt::Case& c) { if (c.g.chance(50)) chase<char>(c); else chase<unsigned char>(c); }, {false, 1, 60, false, 0, 20}), 0);
PBT_MAIN
