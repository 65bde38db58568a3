// Hostile text: rejected with an exception or read, never a crash, a hang or undefined behaviour (built with ASan and UBSan).
#include "hostile.hpp"

static void grammar_text(pbt::Case& c)
{
    gr::Opts o;
    o.left_recursion = c.g.chance(30);
    o.repeat_nullable = true;
    o.priorities = true;
    o.max_rules = 3;
    o.rxo.neg = o.rxo.dot = true;
    o.rxo.depth = 2;
    gr::Gram gm = gr::generate(c.g, o);
    gr::Layout l;
    l.g = &c.g;
    std::string text = hs::damage(c.g, gr::print(gm, l), hs::grammar_bits(), c.g.chance(50) ? 2 : 8);
    if (text.size() > 600) text.resize(600);
    c.show(pbt::quote(text) + "\n");
    if (hs::depth_of(text) > 40) c.discard("deep");
    mkdir(ld::dir().c_str(), 0700);
    int r = hs::grammar(text, ld::dir() + "/hostile.cgr");
    c.label(r ? "accepted" : "rejected");
    c.nontrivial = text.size() > 10;
}
static void regex_text(pbt::Case& c)
{
    rx::Opts o;
    o.depth = 2;
    rx::P r = rx::generate(c.g, o);
    std::string text = c.g.chance(15) ? "" : rx::print(r);
    if (text.size() > 30) text.resize(30);
    text = hs::damage(c.g, text, hs::regex_bits(), c.g.chance(50) ? 2 : 6);
    if (text.size() > 40) text.resize(40);
    std::string s = rx::subject(c.g, r, o.chars, true);
    if (s.size() > 20) s.resize(20);
    c.show(pbt::quote(text) + " on " + pbt::quote(s) + "\n");
    c.label(hs::regex(text, s) ? "accepted" : "rejected");
    c.nontrivial = text.size() > 2;
}
static void class_text(pbt::Case& c)
{
    static const std::vector<std::string> bits = {"[", "]", "^", "-", "\\", "\\n", "\\t", "\\r", "\\]", "\\-", "\\\\", "a", "z", "0-9", "a-z", "z-a", "a-a", "-a", "a-", "\\x", "^^", "--", "]-", "\r\n"};
    std::string text;
    int k = c.g.range(0, 8);
    for (int i = 0; i < k; i++) text += c.g.chance(15) ? std::string(1, (char)c.g.range(0, 254)) : c.g.pick(bits); // the last code point cannot be a class member (documented)
    if (c.g.chance(80)) text += "]";
    c.show(pbt::quote(text) + "\n");
    c.label(hs::char_class(text) ? "accepted" : "rejected");
    c.nontrivial = text.size() > 2;
}
static void path_text(pbt::Case& c)
{
    static const std::vector<std::string> bits = {"A", ".", "0", "12", "_x", "/", " ", "S.1", "..", "-1", "a.b", "99999999999", "\r\n"};
    std::string text;
    int k = c.g.range(0, 6);
    for (int i = 0; i < k; i++) text += c.g.chance(15) ? std::string(1, (char)c.g.range(0, 255)) : c.g.pick(bits);
    c.show(pbt::quote(text) + "\n");
    c.label(hs::path(text) ? "accepted" : "rejected");
    c.nontrivial = text.size() > 2;
}
static int reg = (
    pbt::add("grammar", 80000, 400000, grammar_text, {true, 30}),
    pbt::add("regex", 80000, 400000, regex_text, {true, 30}),
    pbt::add("class", 200000, 400000, class_text, {true, 30}),
    pbt::add("path", 50000, 100000, path_text, {true, 30}), 0);
PBT_MAIN
