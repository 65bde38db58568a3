// Regular expressions: the NFA built from a pattern accepts exactly the pattern's language.
#include "regex.hpp"
#include "NFA.hpp"
using namespace Centaurus;

template<typename T> static void nfa_language(pbt::Case& c, bool nested)
{
    rx::Opts o;
    o.nested_nullable = nested;
    rx::P r = rx::generate(c.g, o);
    std::string text = rx::print(r);
    c.show("pattern /" + pbt::quote(text) + "/\n");
    Stream st(rx::widen(text));
    NFA<T> nfa(st);
    int acc = 0, rej = 0;
    int n = c.g.range(1, 6);
    for (int i = 0; i < n; i++)
    {
        std::string s = rx::subject(c.g, r, o.chars, true);
        if (s.size() > 24) s.resize(24);
        bool want = rx::match(r, s);
        c.show("  subject " + pbt::quote(s) + (want ? " in" : " out") + "\n");
        std::basic_string<T> t;
        for (unsigned char ch : s) t.push_back((T)ch);
        bool got = nfa.run(t);
        if (got != want) c.fail("the NFA " + std::string(got ? "accepts " : "rejects ") + pbt::quote(s) + " for /" + text + "/");
        (want ? acc : rej)++;
    }
    if (rx::nullable(r)) c.label("nullable");
    if (acc && rej) c.label("both");
    if (text.find('|') != std::string::npos) c.label("alternation");
    if (text.find('(') != std::string::npos) c.label("group");
    if (text.find('[') != std::string::npos) c.label("class");
    c.nontrivial = acc > 0 && text.size() > 1;
}
static int reg = (
    pbt::add("char", 500000, 10000000, [](pbt::Case& c) { nfa_language<char>(c, false); }, {true, 20}),
    pbt::add("char-nested-nullable", 200000, 4000000, [](pbt::Case& c) { nfa_language<char>(c, true); }, {true, 20}),
    pbt::add("wide", 100000, 2000000, [](pbt::Case& c) { nfa_language<wchar_t>(c, false); }, {true, 20}), 0);
PBT_MAIN
