// Determinisation and minimisation preserve the language and yield deterministic automata.
#include "regex.hpp"
#include "DFA.hpp"
using namespace Centaurus;

template<typename T> static bool walk(const DFA<T>& d, const std::string& s, int *bad)
{
    int st = 0;
    for (unsigned char ch : s)
    {
        int next = -1, n = 0;
        for (const auto& tr : d.get_transitions(st)) if (tr.label().includes((T)ch)) { next = tr.dest(); n++; }
        if (n > 1) *bad = st;
        if (n == 0) return false;
        st = next;
    }
    return d.is_accept_state(st);
}
template<typename T> static void check_deterministic(pbt::Case& c, const DFA<T>& d, const char *what)
{
    int n = d.get_state_num();
    if (n < 1) c.fail(std::string(what) + " has no state");
    for (int i = 0; i < n; i++)
    {
        std::vector<int> owner(255, -1);
        int k = 0;
        for (const auto& tr : d.get_transitions(i))
        {
            if (tr.is_epsilon()) c.fail(std::string(what) + " has an epsilon transition in state " + std::to_string(i));
            if (tr.dest() < 0 || tr.dest() >= n) c.fail(std::string(what) + " has a dangling transition from state " + std::to_string(i));
            for (int ch = 0; ch < 255; ch++)
                if (tr.label().includes((T)ch))
                {
                    if (owner[ch] >= 0) c.fail(std::string(what) + ": two transitions of state " + std::to_string(i) + " take " + std::to_string(ch));
                    owner[ch] = k;
                }
            k++;
        }
    }
}
template<typename T> static void dfa(pbt::Case& c, bool nested)
{
    rx::Opts o;
    o.nested_nullable = nested;
    o.depth = 2;
    rx::P r = rx::generate(c.g, o);
    std::string text = rx::print(r);
    c.show("pattern /" + pbt::quote(text) + "/\n");
    Stream st(rx::widen(text));
    NFA<T> nfa(st);
    DFA<T> big(nfa, false), small(nfa, true);
    check_deterministic(c, big, "the DFA");
    check_deterministic(c, small, "the minimised DFA");
    if (small.get_state_num() > big.get_state_num()) c.fail("minimisation added states");
    if (small.get_state_num() < big.get_state_num()) c.label("minimisation merged states");
    // Copies are the same automaton.
    DFA<T> copy(small);
    int n = c.g.range(1, 8), acc = 0;
    for (int i = 0; i < n; i++)
    {
        std::string s = rx::subject(c.g, r, o.chars, true);
        bool want = rx::match(r, s);
        c.show("  subject " + pbt::quote(s) + (want ? " in" : " out") + "\n");
        std::basic_string<T> t;
        for (unsigned char ch : s) t.push_back((T)ch);
        bool a = big.run(t), b = small.run(t), d = copy.run(t);
        if (a != want) c.fail("the DFA " + std::string(a ? "accepts " : "rejects ") + pbt::quote(s));
        if (b != want) c.fail("the minimised DFA " + std::string(b ? "accepts " : "rejects ") + pbt::quote(s));
        if (d != b) c.fail("a copied DFA disagrees on " + pbt::quote(s));
        int bad = -1;
        if (walk(small, s, &bad) != want) c.fail("walking the transitions of the minimised DFA disagrees on " + pbt::quote(s));
        acc += want;
    }
    if (rx::nullable(r)) c.label("nullable");
    if (text.find('.') != std::string::npos) c.label("dot");
    if (acc) c.label("has member");
    c.nontrivial = acc > 0 && big.get_state_num() > 2;
}
// All strings up to a length over a two-letter alphabet: nothing near the pattern is missed.
static void exhaustive(pbt::Case& c)
{
    rx::Opts o;
    o.chars = "ab";
    o.any_char = false;
    o.dot = false;
    o.depth = 2;
    rx::P r = rx::generate(c.g, o);
    std::string text = rx::print(r);
    c.show("pattern /" + text + "/ against every string over ab up to length 6\n");
    Stream st(rx::widen(text));
    NFA<char> nfa(st);
    DFA<char> big(nfa, false), small(nfa, true);
    int in = 0, out = 0;
    for (int len = 0; len <= 6; len++)
        for (int m = 0; m < (1 << len); m++)
        {
            std::string s;
            for (int i = 0; i < len; i++) s += m >> i & 1 ? 'b' : 'a';
            bool want = rx::match(r, s);
            if (big.run(s) != want) c.fail("the DFA is wrong on " + s);
            if (small.run(s) != want) c.fail("the minimised DFA is wrong on " + s);
            (want ? in : out)++;
        }
    c.nontrivial = in > 1 && out > 1;
}
static int reg = (
    pbt::add("language", 200000, 5000000, [](pbt::Case& c) { dfa<char>(c, false); }, {false, 5}),
    pbt::add("language-nested-nullable", 80000, 1500000, [](pbt::Case& c) { dfa<char>(c, true); }, {false, 5}),
    pbt::add("language-wide", 40000, 600000, [](pbt::Case& c) { dfa<wchar_t>(c, false); }, {false, 5}),
    pbt::add("exhaustive-small", 40000, 800000, exhaustive, {true, 20}), 0);
PBT_MAIN
