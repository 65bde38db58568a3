// Character classes behave as sets of code points.
#include "regex.hpp"
#include "CharClass.hpp"
using namespace Centaurus;

static const int SPACE = 300;    // code points examined (wide classes reach past 255)

template<typename T> static int limit() { return sizeof(T) == 1 ? 255 : SPACE; }
using Bits = std::bitset<SPACE>;

template<typename T> static Bits bits(const CharClass<T>& cc)
{
    Bits b;
    for (int i = 0; i < limit<T>(); i++) if (cc.includes((T)i)) b.set(i);
    return b;
}
static std::string show(const Bits& b)
{
    std::string s = "{";
    for (int i = 0; i < SPACE; i++)
        if (b[i])
        {
            int j = i;
            while (j + 1 < SPACE && b[j + 1]) j++;
            s += (s.size() > 1 ? "," : "") + std::to_string(i) + (j > i ? "-" + std::to_string(j) : "");
            i = j;
        }
    return s + "}";
}
// The ranges handed out describe the same set, in order, without overlap and without empty or reversed entries.
template<typename T> static void check_form(pbt::Case& c, const CharClass<T>& cc, const Bits& want, const std::string& what)
{
    Bits got = bits(cc);
    if (got != want) c.fail(what + ": got " + show(got) + " want " + show(want));
    Bits r;
    long last = -1;
    int n = 0;
    for (const auto& x : cc)
    {
        long a = (long)x.start(), b = (long)x.end();
        if (a >= b) c.fail(what + ": empty or reversed range " + std::to_string(a) + ".." + std::to_string(b));
        if (a < last) c.fail(what + ": ranges out of order or overlapping");
        last = b;
        for (long i = a; i < b && i < SPACE; i++) r.set(i);
        n++;
    }
    for (int i = limit<T>(); i < SPACE; i++) r.reset(i);
    if (r != want) c.fail(what + ": the listed ranges are " + show(r) + " want " + show(want));
    if (n != cc.size()) c.fail(what + ": size() disagrees with iteration");
    if (cc.is_epsilon() != want.none()) c.fail(what + ": is_epsilon() is wrong");
    if ((bool)cc != want.any()) c.fail(what + ": operator bool is wrong");
    IndexVector iv = cc.collect_borders();
    for (int i = 1; i < limit<T>(); i++)
        if (want[i] != want[i - 1] && !iv.includes(i)) c.fail(what + ": border " + std::to_string(i) + " is not reported");
}
// Builds a class through one of the public ways, together with its model.
template<typename T> static CharClass<T> gen(pbt::Case& c, Bits& b, int lo)
{
    pbt::Gen& g = c.g;
    CharClass<T> cc;
    int top = limit<T>();
    auto pt = [&](int a, int z) { int base = g.chance(80) ? 97 : 0; int v = base ? base + (int)g.below(12) : a + (int)g.below(z - a); return std::max(a, std::min(z - 1, v)); };
    int how = g.weighted({4, 2, 2, 1});
    if (how == 0 || how == 3)
    {
        int n = g.range(0, 5);
        c.show("(or");
        for (int i = 0; i < n; i++)
        {
            int a = pt(lo, top), e = a + 1 + (g.chance(60) ? (int)g.below(5) : 0);
            if (e > top) e = top;
            if (a >= e) continue;
            c.show(" " + std::to_string(a) + ".." + std::to_string(e - 1));
            if (how == 0) cc |= Range<T>((T)a, (T)e);
            else cc = cc | CharClass<T>((wchar_t)a, (wchar_t)e);
            for (int k = a; k < e; k++) b.set(k);
        }
        c.show(")");
    }
    else if (how == 1)
    {
        int a = pt(lo, top), e = std::min(top, a + 1 + (int)g.below(6));
        c.show("(range " + std::to_string(a) + ".." + std::to_string(e - 1) + ")");
        cc = CharClass<T>((wchar_t)a, (wchar_t)e);
        for (int k = a; k < e; k++) b.set(k);
    }
    else
    {
        // A class literal.
        rx::Opts o;
        o.chars = "abcdefghijk";
        rx::P p = rx::gen_class(g, o);
        std::string t = p->text.substr(1);
        c.show("(literal " + pbt::quote(p->text) + ")");
        Stream st(rx::widen(t));
        cc = CharClass<T>(st);
        for (int i = 0; i < 255; i++) if (p->set[i]) b.set(i);
        if (sizeof(T) > 1 && t[0] == '^') for (int i = 255; i < SPACE; i++) b.set(i);
    }
    return cc;
}
template<typename T> static void algebra(pbt::Case& c)
{
    Bits a, b;
    c.show("A=");
    CharClass<T> x = gen<T>(c, a, 1);
    c.show(" B=");
    CharClass<T> y = gen<T>(c, b, 1);
    check_form(c, x, a, "A");
    check_form(c, y, b, "B");
    check_form(c, x | y, a | b, "A|B");
    check_form(c, y | x, a | b, "B|A");
    check_form(c, x & y, a & b, "A&B");
    check_form(c, y & x, a & b, "B&A");
    Bits u;
    for (int i = 1; i < limit<T>(); i++) u.set(i);
    check_form(c, ~x, u & ~a, "~A");
    check_form(c, ~~x, u & a, "~~A");
    auto d = x.diff_and_int(y);
    check_form(c, d[0], a & ~b, "A-B");
    check_form(c, d[1], b & ~a, "B-A");
    check_form(c, d[2], a & b, "A&B (diff_and_int)");
    CharClass<T> z = x;
    z |= y;
    check_form(c, z, a | b, "A|=B");
    if (x.overlaps(y) != (a & b).any()) c.fail("overlaps() is wrong");
    if (y.overlaps(x) != (a & b).any()) c.fail("overlaps() is not symmetric");
    // A range inside the class is included; one that is not is not.
    for (int k = 0; k < 3; k++)
    {
        int s = 97 + (int)c.g.below(12), e = s + 1 + (int)c.g.below(3);
        bool sub = true;
        for (int i = s; i < e; i++) sub &= a[i];
        bool got = x.includes(Range<T>((T)s, (T)e));
        if (got && !sub) c.fail("includes(range) claims " + std::to_string(s) + ".." + std::to_string(e - 1));
        if (e == s + 1 && !got && sub) c.fail("includes(range) denies " + std::to_string(s));
    }
    if (a == b && x == y && std::hash<CharClass<T> >()(x) != std::hash<CharClass<T> >()(y)) c.fail("equal classes hash differently");
    if (a != b && x == y) c.fail("different classes compare equal");
    CharClass<T> copy = x;
    if (!(copy == x)) c.fail("a copy compares different");
    if ((a & b).any() && (a & ~b).any() && (b & ~a).any()) c.label("properly overlapping");
    if (a.any() && b.any() && (a & b).none()) c.label("disjoint");
    c.nontrivial = (a & b).any() && a != b;
}
// A sequence of unions gives the same class whatever the order.
template<typename T> static void history(pbt::Case& c)
{
    pbt::Gen& g = c.g;
    int n = g.range(2, 7);
    std::vector<std::pair<int, int>> rs;
    Bits want;
    for (int i = 0; i < n; i++)
    {
        int a = 97 + (int)g.below(20), e = a + 1 + (int)g.below(5);
        rs.push_back({a, e});
        c.show(std::to_string(a) + ".." + std::to_string(e - 1) + " ");
        for (int k = a; k < e; k++) want.set(k);
    }
    CharClass<T> fwd, rev;
    for (auto& r : rs) fwd |= Range<T>((T)r.first, (T)r.second);
    for (size_t i = rs.size(); i-- > 0;) rev |= CharClass<T>((wchar_t)rs[i].first, (wchar_t)rs[i].second);
    check_form(c, fwd, want, "union of ranges");
    check_form(c, rev, want, "union of classes");
    // Split at random into two halves.
    CharClass<T> h[2];
    for (auto& r : rs) h[g.below(2)] |= Range<T>((T)r.first, (T)r.second);
    check_form(c, h[0] | h[1], want, "union of halves");
    c.nontrivial = n > 2;
}
static int reg = (
    pbt::add("algebra-char", 600000, 20000000, algebra<char>),
    pbt::add("algebra-uchar", 150000, 2000000, algebra<unsigned char>),
    pbt::add("algebra-wide", 150000, 2000000, algebra<wchar_t>),
    pbt::add("union-order", 300000, 4000000, history<char>), 0);
PBT_MAIN
