// The three-stage pipeline driven with generated syntax trees through a stand-in parser.
#pragma once
#include "pbt.hpp"
#include "Util.hpp"
#include "Identifier.hpp"
#include "Stage1Runner.hpp"
#include "Stage2RunnerNonRecursive.hpp"
#include "Stage3RunnerNonRecursive.hpp"
#include <dirent.h>
#include <sched.h>
#include <sys/stat.h>
#include <map>
#include <memory>
#include <mutex>

namespace pl
{
using namespace Centaurus;
struct Node { int id; uint64_t start, end; std::vector<int> kids; int parent; };
struct Tree { std::vector<Node> n; std::vector<uint64_t> marks; bool strict = true; };

// A tree as nested spans and as the marker stream a parser writes for it.
inline Tree tree(pbt::Gen& g, int limit)
{
    Tree t;
    int want = 1 + (int)(g.chance(70) ? g.below(std::min(limit, 40)) : g.below(limit));
    int shape = g.weighted({4, 2, 2, 1});            // mixed, deep, wide, chain
    int ids = g.chance(20) ? 0x7FFF : 6;
    t.strict = g.chance(70);
    uint64_t off = g.chance(10) ? ((uint64_t)1 << 40) : g.below(3);
    auto tick = [&]() { off += t.strict ? 1 : g.below(2); return off; };
    std::vector<int> open;
    auto push = [&]() {
        Node x;
        x.id = 1 + (int)g.below(ids);
        x.start = tick();
        x.end = 0;
        x.parent = open.empty() ? -1 : open.back();
        if (x.parent >= 0) t.n[x.parent].kids.push_back((int)t.n.size());
        open.push_back((int)t.n.size());
        t.marks.push_back(((uint64_t)1 << 63) | ((uint64_t)x.id << 48) | x.start);
        t.n.push_back(x);
    };
    auto pop = [&]() {
        Node& x = t.n[open.back()];
        x.end = tick();
        t.marks.push_back(((uint64_t)x.id << 48) | x.end);
        open.pop_back();
    };
    push();
    while ((int)t.n.size() < want)
    {
        bool down = open.size() < 2 || shape == 3 || g.chance(shape == 1 ? 75 : shape == 2 ? 15 : 50);
        if (down && !(shape == 2 && open.size() > 3 && g.chance(80))) push();
        else if (open.size() > 1) pop();
    }
    while (!open.empty()) pop();
    return t;
}
// A tree of tens of thousands of nodes: more children, levels and banks than small counters hold.
inline Tree huge(pbt::Gen& g)
{
    Tree t;
    int want = g.range(35000, 90000), shape = g.below(4);           // one parent, few parents, chain, mixed
    uint64_t x = g.below(1u << 30), off = g.chance(50) ? 0 : ((uint64_t)1 << 32) - want;
    auto below = [&](uint32_t n) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(x >> 33) % n; };
    std::vector<int> open;
    auto push = [&]() {
        Node n{1 + (int)below(shape == 1 ? 5 : 0x7FFF), off++, 0, {}, open.empty() ? -1 : open.back()};
        if (n.parent >= 0) t.n[n.parent].kids.push_back((int)t.n.size());
        open.push_back((int)t.n.size());
        t.marks.push_back(((uint64_t)1 << 63) | ((uint64_t)n.id << 48) | n.start);
        t.n.push_back(n);
    };
    auto pop = [&]() {
        Node& n = t.n[open.back()];
        n.end = off++;
        t.marks.push_back(((uint64_t)n.id << 48) | n.end);
        open.pop_back();
    };
    push();
    while ((int)t.n.size() < want)
    {
        size_t depth = open.size();
        bool down = depth < 2 || (shape == 0 ? false : shape == 1 ? below(20000) == 0 || (depth == 3 && below(50) == 0) : shape == 2 ? below(1000) != 0 : below(2) == 0);
        if (down) push();
        else pop();
        if (shape == 0 && open.size() == 1) push();
    }
    while (!open.empty()) pop();
    return t;
}
inline std::string show(const Tree& t)
{
    std::string s;
    std::function<void(int)> f = [&](int i) {
        if (s.size() > 1500) return;
        s += std::to_string(t.n[i].id);
        if (t.n[i].kids.empty()) return;
        s += "(";
        for (size_t k = 0; k < t.n[i].kids.size(); k++) { if (k) s += " "; f(t.n[i].kids[k]); }
        s += ")";
    };
    f(0);
    return s;
}
struct Scenario
{
    int per_bank, banks, workers;                    // markers per bank
    bool eager;                                      // ask for the next bank as soon as one is full
    int jitter;
    uint64_t salt;
};
inline Scenario scenario(pbt::Gen& g, int least = 1)
{
    Scenario s;
    s.per_bank = g.weighted({3, 2, 1}) == 0 ? g.range(least, least + 7) : g.chance(60) ? g.range(least, 64 + least) : g.range(100 + least, 4000);
    s.workers = g.chance(1) ? g.range(5, 12) : g.range(1, 4);
    s.banks = g.chance(50) ? s.workers * 2 : g.range(s.workers, s.workers + 4);
    s.eager = g.chance(50);
    s.jitter = (int)g.below(4);
    s.salt = g.below(1000000);
    return s;
}
inline Scenario huge_scenario(pbt::Gen& g)
{
    Scenario s;
    s.per_bank = g.weighted({2, 1, 1, 1}) == 0 ? 1 : g.chance(40) ? g.range(2, 3) : g.chance(50) ? g.range(4, 500) : g.range(4000, 300000);
    s.workers = g.range(1, 3);
    s.banks = s.workers * 2;
    s.eager = g.chance(50);
    s.jitter = 0;
    s.salt = g.below(1000000);
    return s;
}
inline std::string show(const Scenario& s)
{
    return "bank of " + std::to_string(s.per_bank) + " markers, " + std::to_string(s.banks) + " banks, " + std::to_string(s.workers) + " workers" + (s.eager ? ", eager" : "") + ", jitter " + std::to_string(s.jitter) + "\n";
}
inline void nap(const Scenario& s, uint64_t what)
{
    if (!s.jitter) return;
    uint64_t h = pbt::mix(what * 977 + s.salt);
    if (s.jitter == 1) { if (h % 4 == 0) sched_yield(); }
    else if (s.jitter == 2) { if (h % 16 == 0) usleep(h / 16 % 60); }
    else if (h % 64 == 0) usleep(h / 64 % 400);
}
// Writes the marker stream the way the generated parsers do.
struct FakeParser : IParser
{
    const std::vector<uint64_t>& marks;
    const Scenario& s;
    int fed = 0;
    const void *answer;
    std::vector<uint64_t> fed_stream;
    std::function<void(const void *)> at_input;
    FakeParser(const std::vector<uint64_t>& m, const Scenario& s) : marks(m), s(s), answer(&marks) {}
    const void *operator()(BaseListener *ctx, const void *input) override
    {
        if (at_input) at_input(input);
        uint64_t *p = (uint64_t *)ctx->feed_callback(), *end = p + s.per_bank;
        fed++;
        for (size_t i = 0; i < marks.size(); i++)
        {
            if (p == end) { nap(s, i); p = (uint64_t *)ctx->feed_callback(); end = p + s.per_bank; fed++; }
            *p++ = marks[i];
            if (p == end && s.eager) { nap(s, i); p = (uint64_t *)ctx->feed_callback(); end = p + s.per_bank; fed++; }
        }
        if (p != end) *p = 0;
        return answer;
    }
};
struct Call { int id; long start, end; std::vector<uint64_t> args; bool operator<(const Call& o) const { return std::tie(id, start, end, args) < std::tie(o.id, o.start, o.end, o.args); } bool operator==(const Call& o) const { return id == o.id && start == o.start && end == o.end && args == o.args; } };
inline std::string show(const Call& c)
{
    std::string s = std::to_string(c.id) + "[" + std::to_string(c.start) + "," + std::to_string(c.end) + ")(";
    for (auto a : c.args) s += " " + std::to_string(a);
    return s + " )";
}
// The value of a node: any function of its span and arguments, sometimes none.
inline uint64_t value(const Scenario& s, const Call& c)
{
    uint64_t h = pbt::mix(s.salt + c.id * 31 + c.start * 7 + c.end);
    for (auto a : c.args) h = pbt::mix(h ^ a);
    if (h % 5 == 0) return 0;
    if (h % 17 == 0) return ~(uint64_t)0;
    if (h % 19 == 0) return 1;
    return h;
}
// Serial reduction: children first, zero values dropped.
inline uint64_t serial(const Tree& t, const Scenario& s, std::vector<Call>& calls)
{
    std::vector<std::vector<uint64_t>> args(t.n.size());
    uint64_t last = 0;
    std::vector<std::pair<int, size_t>> st = {{0, 0}};
    while (!st.empty())
    {
        int i = st.back().first;
        if (st.back().second < t.n[i].kids.size()) { int k = t.n[i].kids[st.back().second++]; st.push_back({k, 0}); continue; }
        st.pop_back();
        Call c{t.n[i].id, (long)t.n[i].start, (long)t.n[i].end, args[i]};
        last = value(s, c);
        if (last && t.n[i].parent >= 0) args[t.n[i].parent].push_back(last);
        calls.push_back(c);
    }
    return last;
}
// A parser that rejects its input stops anywhere after the root's start: the nodes completed so far are reduced.
inline bool cut(pbt::Gen& g, Tree& t)
{
    if (t.marks.size() < 2 || !g.chance(15)) return false;
    t.marks.resize(1 + g.below(t.marks.size() - 1));
    return true;
}
inline void serial_cut(const Tree& t, const Scenario& s, std::vector<Call>& calls)
{
    std::vector<Call> open(1);
    for (uint64_t m : t.marks)
    {
        int id = (int)(m >> 48 & 0x7FFF);
        long at = (long)(m & 0xFFFFFFFFFFFFull);
        if (m >> 63) { open.push_back(Call{id, at, 0, {}}); continue; }
        Call c = open.back();
        open.pop_back();
        c.end = at;
        uint64_t v = value(s, c);
        if (v) open.back().args.push_back(v);
        calls.push_back(c);
    }
}
inline std::string tag() { return "[" + std::to_string(getpid()) + "]"; }
// What is left behind under this process's number.
inline std::vector<std::string> leftovers(bool remove = false)
{
    std::vector<std::string> r;
    if (DIR *d = opendir("/dev/shm"))
    {
        while (dirent *e = readdir(d))
        {
            std::string n = e->d_name;
            if (n.find(PROGRAM_UUID) == std::string::npos || n.find(tag()) == std::string::npos) continue;
            r.push_back(n);
        }
        closedir(d);
    }
    if (remove) for (auto& n : r) unlink(("/dev/shm/" + n).c_str());
    return r;
}
inline int open_fds()
{
    int n = 0;
    if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); }
    return n;
}
inline int threads()
{
    int n = 0;
    if (DIR *d = opendir("/proc/self/task")) { while (dirent *e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d); }
    return n;
}
inline std::string input(const std::string& text, const std::string& name = "input.txt")
{
    std::string dir = "w" + std::to_string(getpid());
    mkdir(dir.c_str(), 0700);
    std::ofstream f(dir + "/" + name, std::ios::binary | std::ios::trunc);
    f << text;
    return dir + "/" + name;
}
}
