// Parallel reduction of a syntax tree equals its serial reduction.
#include "pipeline.hpp"
#include <algorithm>
using namespace Centaurus;

struct Sink
{
    const pl::Scenario& s;
    std::mutex m;
    std::vector<pl::Call> calls;
    Sink(const pl::Scenario& s) : s(s) {}
};
static long reduce(const SymbolEntry *sym, uint64_t *values, int n, void *ctx)
{
    Sink& k = *(Sink *)ctx;
    pl::Call c{(int)sym->id, sym->start, sym->end, std::vector<uint64_t>(values, values + n)};
    pl::nap(k.s, sym->start + 13);
    std::lock_guard<std::mutex> l(k.m);
    k.calls.push_back(c);
    return (long)pl::value(k.s, c);
}
static void parallel(pbt::Case& c, int limit)
{
    pl::Tree t = limit ? pl::tree(c.g, limit) : pl::huge(c.g);
    pl::Scenario s = limit ? pl::scenario(c.g) : pl::huge_scenario(c.g);
    bool whole = !pl::cut(c.g, t);
    bool shuffle = c.g.chance(50);
    int rounds = c.g.chance(20) ? 2 : 1;
    c.show(pl::show(s) + pl::show(t) + (whole ? "\n" : " up to marker " + std::to_string(t.marks.size()) + "\n"));
    if (!whole) c.label("cut short");
    pl::leftovers(true);
    std::vector<pl::Call> want;
    if (whole) pl::serial(t, s, want); else pl::serial_cut(t, s, want);
    std::string in = pl::input("some text");
    for (int r = 0; r < rounds; r++)
    {
        Sink sink(s);
        std::atomic<int> count(0);
        pl::FakeParser parser(t.marks, s);
        size_t bytes = s.per_bank * 8;
        {
            std::vector<std::unique_ptr<BaseRunner>> runners;
            std::vector<std::unique_ptr<BaseRunner>> *all = &runners;
            Stage1Runner *s1 = new Stage1Runner(in.c_str(), &parser, bytes, s.banks);
            all->emplace_back(s1);
            for (int i = 0; i < s.workers; i++)
            {
                Stage2Runner *s2 = new Stage2Runner(in.c_str(), bytes, s.banks, getpid(), &sink, &count);
                all->emplace_back(s2);
                s2->register_listener(reduce);
            }
            Stage3Runner *s3 = new Stage3Runner(in.c_str(), bytes, s.banks, getpid(), &sink, &count);
            all->emplace_back(s3);
            s3->register_listener(reduce);
            // Any start order.
            std::vector<int> order(all->size());
            for (size_t i = 0; i < order.size(); i++) order[i] = (int)i;
            if (shuffle) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[pbt::mix(s.salt + i + r) % i]);
            for (int i : order) { (*all)[i]->start(); if (shuffle) pl::nap(s, i + 5); }
            for (int i : order) (*all)[i]->wait();
            if (s1->get_result() != parser.answer) c.fail("stage 1 does not give the parser's result");
        }
        if (sink.calls.size() != want.size()) c.fail(std::to_string(sink.calls.size()) + " reductions for " + std::to_string(want.size()) + " nodes");
        if (count != (int)want.size()) c.fail("the reduction counter says " + std::to_string(count.load()) + " for " + std::to_string(want.size()) + " nodes");
        if (whole && !(sink.calls.back() == want.back())) c.fail("the last reduction is " + pl::show(sink.calls.back()) + ", not the root's " + pl::show(want.back()));
        if (t.strict)
        {
            // Each node has a start of its own: children come before their parents.
            std::map<long, size_t> at;
            for (size_t i = 0; i < sink.calls.size(); i++) at[sink.calls[i].start] = i;
            for (auto& n : t.n) if (n.parent >= 0 && at.count((long)n.start) && at.count((long)t.n[n.parent].start) && at[(long)n.start] > at[(long)t.n[n.parent].start]) c.fail("a node is reduced before its child");
        }
        std::vector<pl::Call> a = want, b = sink.calls;
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        for (size_t i = 0; i < a.size(); i++)
            if (!(a[i] == b[i])) c.fail("reduction " + pl::show(b[i]) + ", serially " + pl::show(a[i]));
    }
    size_t nb = (t.marks.size() + s.per_bank - 1) / s.per_bank;
    c.label(nb == 1 ? "one bank" : nb <= (size_t)s.banks ? "banks used once" : "banks reused");
    if (s.workers > 1) c.label("several workers");
    c.nontrivial = nb > 1 && t.n.size() > 2;
}
static int reg = (
    pbt::add("small", 15000, 120000, [](pbt::Case& c) { parallel(c, 60); }, {true, 60, 60, true, 4}),
    pbt::add("huge", 24, 600, [](pbt::Case& c) { parallel(c, 0); }, {true, 120, 120, true, 3}),
    pbt::add("large", 3000, 20000, [](pbt::Case& c) { parallel(c, 6000); }, {true, 60, 60, true, 4}), 0);
PBT_MAIN
