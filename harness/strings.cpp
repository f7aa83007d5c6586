/* Strings: splitting, stripping, regular expressions, UTF-8, streams */
#include "model.h"

#include <filesystem>
#include <fstream>
#include <functional>
#include <map>

#include <lube/string.h>
#include <lube/regex.h>
#include <lube/module.h>

using namespace model;

static var mk(const std::string& s)
{
    return var((int)s.size(), s.data());
}

static std::string text(const var& v)
{
    EXPECT(v.defined() && v.type() == TYPE_ARRAY && v.atype() == TYPE_CHAR
           && !v.view(), "not a string");
    std::string s;
    const char* p = v.str();
    s.assign(p, v.size());
    EXPECT(p[s.size()] == 0, "not terminated");
    return s;
}

static bool space(char c)
{
    return c == ' ' || (c >= 9 && c <= 13);
}

/** A printable rendering for comparison */
static std::string flat(const std::vector<std::string>& v)
{
    std::string s = "[";
    for (auto& x : v)
        s += pbt::quote(x) + ",";
    return s + "]";
}

static std::vector<std::string> pieces(const var& v)
{
    std::vector<std::string> r;
    if (!v.defined())
        return r;
    EXPECT(v.type() == TYPE_ARRAY && v.atype() == TYPE_VAR, "not an array");
    for (int i=0; i<v.size(); i++)
        r.push_back(text(v.at(i)));
    return r;
}

// --- C12 Split and join

static std::string soup(pbt::Gen& g, const std::string& sep, int max)
{
    std::string s;
    int n = g.wide(max, 12*max, 60);
    for (int i=0; i<n; i++)
        switch (g.below(5))
        {
        case 0: s += sep; break;
        case 1: s += (char)('a' + g.below(3)); break;
        case 2: s += sep.substr(0, 1 + g.below((int)sep.size())); break;
        case 3: s += " \t\n\v\f\r,"[g.below(7)]; break;
        default: s += (char)(1 + g.below(255));
        }
    return s;
}

PROPERTY(C12, split, 120000,
         "strings built of separators, parts of separators, spaces and other "
         "bytes, split at a separator of 1 to 40 bytes with and without a "
         "limit, against the textbook definition; joined again; non-trivial "
         "if 3 or more pieces")
{
    std::string sep;
    int n = 1 + (g.rare(30) ? g.below(40) : g.below(4));
    for (int i=0; i<n; i++)
        sep += g.rare(4) ? (char)(1 + g.below(255)) : (char)(',' + g.below(2));
    std::string s = soup(g, sep, 40);
    int max = g.flip() ? 0 : 1 + g.below(g.rare(10) ? 100 : 6);
    g.trace << pbt::quote(s) << ".split(" << pbt::quote(sep) << ", " << max
            << ")";
    var v = mk(s);
    var r = v.split(sep.c_str(), max);

    std::vector<std::string> e;
    size_t p = 0;
    while (!max || (int)e.size() < max-1)
    {
        size_t q = s.find(sep, p);
        if (q == std::string::npos)
            break;
        e.push_back(s.substr(p, q-p));
        p = q + sep.size();
    }
    e.push_back(s.substr(p));
    EXPECT_EQ(flat(pieces(r)), flat(e), "pieces");
    EXPECT_EQ(text(v), s, "the original");
    EXPECT_EQ(text(r.join(sep.c_str())), s, "joined again");
    EXPECT_EQ(flat(pieces(r)), flat(e), "pieces after join");
    EXPECT_EQ(text(v.join(sep.c_str())), s, "a string joined");

    // The pieces are independent of the original and of each other
    int k = g.below((int)e.size());
    r[k].append("!");
    e[k] += "!";
    EXPECT_EQ(flat(pieces(r)), flat(e), "pieces after change");
    EXPECT_EQ(text(v), s, "the original after change");
    g.nontrivial(e.size() > 2);
    g.label(max && (int)e.size() == max, "limited");
}

PROPERTY(C12, space, 120000,
         "strings of words and runs of all kinds of space, split on space "
         "with and without a limit, against the textbook definition; "
         "non-trivial if 3 or more words")
{
    std::string s;
    int n = g.wide(20, 300, 60);
    for (int i=0; i<n; i++)
    {
        if (g.flip())
            for (int j=1+g.below(g.rare(30) ? 80 : 3); j; j--)
                s += " \t\n\v\f\r"[g.below(6)];
        else
            for (int j=1+g.below(g.rare(30) ? 80 : 4); j; j--)
                s += g.rare(4) ? (char)(1 + g.below(255))
                    : (char)('a' + g.below(26));
    }
    int max = g.flip() ? 0 : 1 + g.below(g.rare(10) ? 100 : 6);
    g.trace << pbt::quote(s) << ".split(" << max << ")";
    var v = mk(s);
    var r = max || g.flip() ? v.split(max) : v.split();
    std::vector<std::string> e;
    size_t p = 0;
    while (true)
    {
        while (p < s.size() && space(s[p]))
            p++;
        if (p == s.size())
            break;
        if (max && (int)e.size() == max-1)
        {
            e.push_back(s.substr(p));
            break;
        }
        size_t q = p;
        while (q < s.size() && !space(s[q]))
            q++;
        e.push_back(s.substr(p, q-p));
        p = q;
    }
    EXPECT_EQ(flat(pieces(r)), flat(e), "pieces");
    EXPECT_EQ(text(v), s, "the original");
    g.nontrivial(e.size() > 2);
    g.label(max && (int)e.size() == max, "limited");
}

PROPERTY(C12, join, 100000,
         "arrays of up to 12 strings of any bytes joined with any separator, "
         "including empty ones, against concatenation; non-trivial if 2 or "
         "more strings and a separator")
{
    std::vector<std::string> e;
    var a;
    a.resize(0);
    int n = g.wide(12, 150, 60);
    std::string sep = g.rare(6) ? "" : soup(g, ",;", 4);
    std::string w;
    for (int i=0; i<n; i++)
    {
        e.push_back(soup(g, sep.empty() ? "x" : sep, 12));
        w += (i ? sep : "") + e[i];
        a.push(mk(e[i]));
    }
    g.trace << flat(e) << ".join(" << pbt::quote(sep) << ")";
    EXPECT_EQ(text(a.join(sep.c_str())), w, "join");
    EXPECT_EQ(flat(pieces(a)), flat(e), "the original");
    var r = a.join(sep.c_str());
    r.append("!");
    EXPECT_EQ(flat(pieces(a)), flat(e), "the original after change");
    g.nontrivial(n > 1 && !sep.empty());
    if (g.rare(50))
    {
        bool threw = false;
        try { mk("abc").split(""); }
        catch (error&) { threw = true; }
        EXPECT(threw, "split at nothing");
    }
}

// --- C13 Case and space

static char upper(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static char lower(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }

static std::string expected(int op, const std::string& s)
{
    std::string r(s);
    if (op == 0)
        for (char& c : r)
            c = upper(c);
    else if (op == 1)
        for (char& c : r)
            c = lower(c);
    else
    {
        size_t b = 0, e = s.size();
        while (b < e && space(s[b]))
            b++;
        while (e > b && space(s[e-1]))
            e--;
        r = s.substr(b, e-b);
    }
    return r;
}

static var functional(int op, const var& v)
{
    return op == 0 ? libube::toupper(v)
        : op == 1 ? libube::tolower(v) : libube::strip(v);
}

static var inPlace(int op, var v)
{
    return op == 0 ? v.toupper() : op == 1 ? v.tolower() : v.strip();
}

static std::string caseText(pbt::Gen& g)
{
    std::string s;
    int n = g.wide(20, 400, 60);
    for (int i=0; i<n; i++)
        switch (g.below(4))
        {
        case 0: s += " \t\n\v\f\r"[g.below(6)]; break;
        case 1: s += (char)('a' + g.below(26)); break;
        case 2: s += (char)('A' + g.below(26)); break;
        default: s += (char)g.below(256);
        }
    // Long runs of the same thing at either end
    if (g.rare(8))
        s.insert(0, g.below(70), g.rare(4) ? 'z' : ' ');
    if (g.rare(8))
        s.append(g.below(70), g.rare(4) ? 'Z' : '\n');
    return s;
}

PROPERTY(C13, strings, 400000,
         "strings of any bytes changed to upper or lower case or stripped, in "
         "place or not, seen through several names, as array elements or "
         "not; non-trivial if the result differs from the original")
{
    std::string s = caseText(g);
    int op = g.below(3);
    std::string w = expected(op, s);
    g.nontrivial(w != s);
    g.trace << "op " << op << " " << pbt::quote(s);
    switch (g.below(4))
    {
    case 0:
    {
        g.trace << " functional";
        var v = mk(s);
        var r = functional(op, v);
        EXPECT_EQ(text(r), w, "result");
        EXPECT_EQ(text(v), s, "the original");
        r.append("x");
        EXPECT_EQ(text(v), s, "the original after change");
        break;
    }
    case 1:
    {
        g.trace << " in place";
        var v = mk(s);
        var alias = v;
        var r = inPlace(op, v);
        EXPECT_EQ(text(v), w, "result");
        EXPECT_EQ(text(r), w, "returned");
        EXPECT_EQ(text(alias), w, "by another name");
        break;
    }
    case 2:
    {
        g.trace << " element";
        var a;
        a.resize(0);
        a.push(mk("First "));
        a.push(mk(s));
        a.push(mk("Last "));
        if (g.flip())
            inPlace(op, a[1]);
        else
        {
            var r = a[1];
            r = functional(op, r);
            a[1] = r;
        }
        EXPECT_EQ(text(a.at(1)), w, "element");
        EXPECT_EQ(text(a.at(0)), std::string("First "), "element before");
        EXPECT_EQ(text(a.at(2)), std::string("Last "), "element after");
        break;
    }
    default:
    {
        g.trace << " into";
        var v = mk(s);
        var o = mk(caseText(g));
        if (op == 0)
            libube::toupper(v, o);
        else if (op == 1)
            libube::tolower(v, o);
        else
            libube::strip(v, o);
        EXPECT_EQ(text(o), w, "result");
        EXPECT_EQ(text(v), s, "the original");
    }
    }
}

PROPERTY(C13, collections, 150000,
         "arrays and maps of strings, and arrays of those in place, changed "
         "element by element; anything else is refused and left alone; "
         "non-trivial if 2 or more strings change")
{
    int op = g.below(3);
    int n = g.wide(8, 60);
    bool map = g.flip();
    std::vector<std::string> e;
    var a;
    if (map)
        a[nil];
    else
        a.resize(0);
    int changed = 0;
    g.trace << "op " << op << (map ? " map " : " array ");
    for (int i=0; i<n; i++)
    {
        e.push_back(caseText(g));
        changed += expected(op, e[i]) != e[i];
        if (map)
            a[("Key " + std::to_string(100 + i)).c_str()] = mk(e[i]);
        else
            a.push(mk(e[i]));
    }
    g.trace << flat(e);
    g.nontrivial(changed > 1);
    auto check = [&](const var& v, bool done) {
        EXPECT_EQ(v.size(), n, "size");
        EXPECT_EQ((int)v.atype(), (int)a.atype(), "type");
        for (int i=0; i<n; i++)
        {
            if (map)
                EXPECT_EQ(text(v.key(i)), "Key " + std::to_string(100 + i), "key");
            EXPECT_EQ(text(v.at(i)), done ? expected(op, e[i]) : e[i], "element");
        }
    };
    switch (g.below(3))
    {
    case 0:
    {
        var r = functional(op, a);
        check(r, true);
        check(a, false);
        break;
    }
    case 1:
    {
        var r = inPlace(op, a);
        check(r, true);
        check(a, true);
        break;
    }
    default:
    {
        // Nested
        var outer;
        outer.resize(0);
        outer.push(a);
        outer.push(mk(" Ab "));
        inPlace(op, outer);
        check(outer.at(0), true);
        EXPECT_EQ(text(outer.at(1)), expected(op, " Ab "), "outer");
    }
    }
    if (g.rare(8))
    {
        int type = g.pick({TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE});
        Val m = mArr(type);
        for (int i=1+g.below(4); i; i--)
            m.p->s->e.push_back(genSmall(g, type));
        bool scalar = g.flip();
        if (scalar)
            m = m.p->at(0);
        var v = build(m);
        bool threw = false;
        try { g.flip() ? functional(op, v) : inPlace(op, v); }
        catch (error&) { threw = true; }
        EXPECT(threw, "of " << show(m));
        std::string d = differs(v, m);
        EXPECT(d.empty(), "after refusal " << d);
    }
}

// --- C14 Regular expressions

namespace
{
    struct Re
    {
        enum Kind { CHAR, ANY, SET, SEQ, ALT, REP, GROUP, BOL, EOL, WORDB } k;
        std::string set;        // CHAR, SET
        bool neg = false;
        std::vector<Re> sub;
        int lo = 0, hi = 0;     // REP; hi < 0 is unbounded
        bool lazy = false;
        int group = 0;          // 0 is not capturing
        std::string src;
        bool nullable = false;
    };

    struct TooMuch {};

    struct Matcher
    {
        const std::string& s;
        std::vector<std::pair<int, int>> cap;
        int steps = 0;

        typedef std::function<bool(int)> K;

        bool word(int i) const
        {
            return i >= 0 && i < (int)s.size()
                && (isalnum((unsigned char)s[i]) || s[i] == '_');
        }

        bool m(const Re& r, int p, const K& k)
        {
            if (++steps > 4000)
                throw TooMuch();
            switch (r.k)
            {
            case Re::CHAR:
            case Re::SET:
                if (p >= (int)s.size())
                    return false;
                if ((r.set.find(s[p]) != std::string::npos) == r.neg)
                    return false;
                return k(p+1);
            case Re::ANY:
                return p < (int)s.size() && k(p+1);
            case Re::BOL:
                return p == 0 && k(p);
            case Re::EOL:
                return p == (int)s.size() && k(p);
            case Re::WORDB:
                return word(p-1) != word(p) && k(p);
            case Re::SEQ:
                return seq(r, 0, p, k);
            case Re::ALT:
                for (const Re& x : r.sub)
                    if (m(x, p, k))
                        return true;
                return false;
            case Re::GROUP:
                if (!r.group)
                    return m(r.sub[0], p, k);
                else
                {
                    auto old = cap[r.group];
                    if (m(r.sub[0], p, [&](int q) {
                        auto was = cap[r.group];
                        cap[r.group] = {p, q};
                        if (k(q))
                            return true;
                        cap[r.group] = was;
                        return false;
                    }))
                        return true;
                    cap[r.group] = old;
                    return false;
                }
            case Re::REP:
                return rep(r, 0, p, k);
            }
            return false;
        }

        bool seq(const Re& r, size_t i, int p, const K& k)
        {
            if (i == r.sub.size())
                return k(p);
            return m(r.sub[i], p, [&, i](int q) { return seq(r, i+1, q, k); });
        }

        bool rep(const Re& r, int n, int p, const K& k)
        {
            if (++steps > 4000)
                throw TooMuch();
            auto more = [&]() {
                return (r.hi < 0 || n < r.hi)
                    && m(r.sub[0], p, [&, n](int q) {
                        return rep(r, n+1, q, k);
                    });
            };
            if (n < r.lo)
                return more();
            if (r.lazy)
                return k(p) || more();
            return more() || k(p);
        }
    };

    Re reAtom(pbt::Gen& g, int& groups, int depth);
    Re reAlt(pbt::Gen& g, int& groups, int depth);

    Re rePiece(pbt::Gen& g, int& groups, int depth)
    {
        Re a = reAtom(g, groups, depth);
        if (g.below(3) < 2 || a.nullable || a.k == Re::REP)
            return a;
        Re r;
        r.k = Re::REP;
        switch (g.below(5))
        {
        case 0: r.lo = 0; r.hi = -1; r.src = a.src + "*"; break;
        case 1: r.lo = 1; r.hi = -1; r.src = a.src + "+"; break;
        case 2: r.lo = 0; r.hi = 1; r.src = a.src + "?"; break;
        case 3:
            r.lo = g.below(3);
            r.hi = r.lo + g.below(3);
            if (!r.hi)
                r.hi = 1;
            r.src = a.src + "{" + std::to_string(r.lo) + ","
                + std::to_string(r.hi) + "}";
            break;
        default:
            r.lo = 1 + g.below(2);
            r.hi = r.lo;
            r.src = a.src + "{" + std::to_string(r.lo) + "}";
        }
        // Boost gets the lazy ones that are bounded wrong
        if (r.hi < 0 && g.rare(3))
        {
            r.lazy = true;
            r.src += "?";
        }
        r.nullable = r.lo == 0;
        r.sub.push_back(a);
        return r;
    }

    Re reSeq(pbt::Gen& g, int& groups, int depth)
    {
        Re r;
        r.k = Re::SEQ;
        r.nullable = true;
        int n = 1 + g.below(3);
        for (int i=0; i<n; i++)
        {
            r.sub.push_back(rePiece(g, groups, depth));
            r.src += r.sub.back().src;
            r.nullable = r.nullable && r.sub.back().nullable;
        }
        return r;
    }

    Re reAlt(pbt::Gen& g, int& groups, int depth)
    {
        Re r;
        r.k = Re::ALT;
        int n = g.rare(3) ? 2 + g.below(2) : 1;
        for (int i=0; i<n; i++)
        {
            r.sub.push_back(reSeq(g, groups, depth));
            r.src += (i ? "|" : "") + r.sub.back().src;
            r.nullable = r.nullable || r.sub.back().nullable;
        }
        return r;
    }

    Re reAtom(pbt::Gen& g, int& groups, int depth)
    {
        Re r;
        static const std::string digits = "0123456789";
        static const std::string words = "abcdefghijklmnopqrstuvwxyz"
            "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
        switch (depth > 0 ? g.weighted({6, 2, 3, 4, 1, 1})
                : g.weighted({6, 2, 3}))
        {
        case 0:
        {
            r.k = Re::CHAR;
            char c = "abc1 .+(x"[g.below(9)];
            r.set = std::string(1, c);
            r.src = strchr(".+(", c) ? std::string("\\") + c : r.set;
            break;
        }
        case 1:
            r.k = Re::ANY;
            r.src = ".";
            break;
        case 2:
            r.k = Re::SET;
            switch (g.below(5))
            {
            case 0: r.set = "ab"; r.src = "[ab]"; break;
            case 1: r.set = "a"; r.neg = true; r.src = "[^a]"; break;
            case 2: r.set = digits; r.src = "\\d"; break;
            case 3: r.set = words; r.src = "\\w"; break;
            default: r.set = "abc"; r.src = "[a-c]"; break;
            }
            break;
        case 3:
        {
            r.k = Re::GROUP;
            bool capture = g.below(3) < 2;
            r.group = capture ? ++groups : 0;
            Re a = reAlt(g, groups, depth-1);
            r.src = (capture ? "(" : "(?:") + a.src + ")";
            r.nullable = a.nullable;
            r.sub.push_back(a);
            break;
        }
        case 4:
            r.k = g.flip() ? Re::BOL : Re::EOL;
            r.src = r.k == Re::BOL ? "^" : "$";
            r.nullable = true;
            break;
        default:
            r.k = Re::WORDB;
            r.src = "\\b";
            r.nullable = true;
        }
        return r;
    }

    std::string reText(pbt::Gen& g)
    {
        std::string s;
        int n = g.wide(14, 90, 60);
        for (int i=0; i<n; i++)
            s += "aabbcc1 .+(xyz"[g.below(14)];
        return s;
    }

    typedef std::vector<std::pair<int, int>> Caps;

    /** First match at or after p; caps[0] is the whole */
    bool find(const Re& r, int groups, const std::string& s, int p, bool whole,
              Caps& o)
    {
        for (; p<=(int)s.size(); p++)
        {
            Matcher m{s};
            m.cap.assign(groups+1, {-1, -1});
            int end = -1;
            if (m.m(r, p, [&](int q) {
                if (whole && q != (int)s.size())
                    return false;
                end = q;
                return true;
            }))
            {
                o = m.cap;
                o[0] = {p, end};
                return true;
            }
            if (whole)
                break;
        }
        return false;
    }

    std::string slice(const std::string& s, std::pair<int, int> c)
    {
        return c.first < 0 ? "" : s.substr(c.first, c.second - c.first);
    }
}

static void checkMatch(const var& v, bool found, const std::string& s,
                       const Caps& c, const char* what)
{
    if (!found)
    {
        EXPECT(!v.defined(), what << " finds what is not there");
        return;
    }
    EXPECT(v.defined(), what << " does not find " << pbt::quote(slice(s, c[0])));
    std::vector<std::string> e;
    for (auto& x : c)
        e.push_back(slice(s, x));
    EXPECT_EQ(flat(pieces(v)), flat(e), what);
}

PROPERTY(C14, matching, 100000,
         "generated regular expressions with alternatives, sets, greedy and "
         "lazy repeats, anchors and nested groups, searched for and matched "
         "in short strings and arrays of strings, against a backtracking "
         "matcher; non-trivial if there is a match with a group")
{
    int groups = 0;
    Re r = reAlt(g, groups, 2);
    int n = g.rare(4) ? 2 + g.below(3) : 1;
    std::vector<std::string> s;
    for (int i=0; i<n; i++)
        s.push_back(reText(g));
    bool whole = g.flip();
    g.trace << r.src << (whole ? " matches " : " in ") << flat(s);
    std::vector<Caps> c(n);
    std::vector<bool> found(n);
    try
    {
        for (int i=0; i<n; i++)
            found[i] = find(r, groups, s[i], 0, whole, c[i]);
    }
    catch (TooMuch&)
    {
        g.label("abandoned");
        return;
    }
    var re = r.src.c_str();
    if (n == 1)
    {
        var v = mk(s[0]);
        var o = whole ? v.match(re) : v.search(re);
        checkMatch(o, found[0], s[0], c[0], whole ? "match" : "search");
        EXPECT_EQ(text(v), s[0], "the original");
        // Again, by way of the functor
        if (whole)
        {
            Match f(re);
            checkMatch(f(v), found[0], s[0], c[0], "Match");
        }
        else
        {
            Search f(re);
            checkMatch(f(v), found[0], s[0], c[0], "Search");
        }
        g.label(found[0], "found");
        g.label(!found[0], "not found");
        g.nontrivial(found[0] && groups);
    }
    else
    {
        var a;
        a.resize(0);
        for (int i=0; i<n; i++)
            a.push(mk(s[i]));
        var o = whole ? a.match(re) : a.search(re);
        EXPECT_EQ(o.size(), n, "size");
        for (int i=0; i<n; i++)
        {
            checkMatch(o.at(i), found[i], s[i], c[i], "element");
            g.nontrivial(found[i] && groups);
        }
        EXPECT_EQ(flat(pieces(a)), flat(s), "the original");
    }
}

PROPERTY(C14, replacing, 80000,
         "generated regular expressions that match something, replaced "
         "everywhere by text with and without references to groups, in "
         "strings, elements and arrays, against a backtracking matcher; "
         "non-trivial if 2 or more replacements")
{
    int groups = 0;
    Re r = reAlt(g, groups, 2);
    if (r.nullable)
    {
        // Must match at least something
        Re s;
        s.k = Re::SEQ;
        Re c;
        c.k = Re::CHAR;
        c.set = "a";
        c.src = "a";
        s.src = "(?:" + r.src + ")a";
        s.sub = {r, c};
        r = s;
    }
    // The replacement
    std::string fmt;
    std::vector<int> part; // -1 - char or group
    int np = g.below(4);
    for (int i=0; i<np; i++)
        if (g.flip())
        {
            char c = "xyz -_,"[g.below(7)];
            fmt += c;
            part.push_back(-1 - c);
        }
        else
        {
            int k = g.below(groups + 1);
            if (k > 9)
                k = 0;
            fmt += k ? "$" + std::to_string(k) : std::string("$&");
            part.push_back(k);
            // Digits and the like must not follow
            fmt += " ";
            part.push_back(-1 - ' ');
        }
    int n = g.rare(4) ? 2 + g.below(3) : 1;
    std::vector<std::string> s, e;
    g.trace << "s/" << r.src << "/" << fmt << "/ of ";
    try
    {
        for (int i=0; i<n; i++)
        {
            s.push_back(reText(g));
            g.trace << pbt::quote(s[i]) << " ";
            std::string w;
            int p = 0, count = 0;
            Caps c;
            while (find(r, groups, s[i], p, false, c))
            {
                w += s[i].substr(p, c[0].first - p);
                for (int x : part)
                    w += x < 0 ? std::string(1, (char)(-1 - x))
                        : slice(s[i], c[x]);
                p = c[0].second;
                ++count;
            }
            w += s[i].substr(p);
            e.push_back(w);
            g.nontrivial(count > 1);
        }
    }
    catch (TooMuch&)
    {
        g.label("abandoned");
        return;
    }
    var re = r.src.c_str(), by = fmt.c_str();
    if (n == 1)
    {
        if (g.flip())
        {
            var v = mk(s[0]);
            var x = v.replace(re, by);
            EXPECT_EQ(text(v), e[0], "replaced");
            EXPECT_EQ(text(x), e[0], "returned");
        }
        else
        {
            var v = mk(s[0]);
            Replace f(re, by);
            EXPECT_EQ(text(f(v)), e[0], "Replace");
            EXPECT_EQ(text(v), s[0], "the original");
        }
    }
    else
    {
        var a;
        a.resize(0);
        for (int i=0; i<n; i++)
            a.push(mk(s[i]));
        if (g.flip())
        {
            a.replace(re, by);
            EXPECT_EQ(flat(pieces(a)), flat(e), "array");
        }
        else
        {
            a[0].replace(re, by);
            for (int i=1; i<n; i++)
                e[i] = s[i];
            EXPECT_EQ(flat(pieces(a)), flat(e), "element");
        }
    }
    EXPECT_EQ(text(by), fmt, "the replacement");
    EXPECT_EQ(text(re), r.src, "the expression");
}

// --- C15 UTF-8

static std::string utf8(uint32_t c)
{
    std::string s;
    if (c < 0x80)
        s += (char)c;
    else if (c < 0x800)
    {
        s += (char)(0xC0 | c >> 6);
        s += (char)(0x80 | (c & 0x3F));
    }
    else if (c < 0x10000)
    {
        s += (char)(0xE0 | c >> 12);
        s += (char)(0x80 | ((c >> 6) & 0x3F));
        s += (char)(0x80 | (c & 0x3F));
    }
    else
    {
        s += (char)(0xF0 | c >> 18);
        s += (char)(0x80 | ((c >> 12) & 0x3F));
        s += (char)(0x80 | ((c >> 6) & 0x3F));
        s += (char)(0x80 | (c & 0x3F));
    }
    return s;
}

static uint32_t codePoint(pbt::Gen& g)
{
    switch (g.below(5))
    {
    case 0: return g.below(0x80);
    case 1: return g.range(0x80, 0x7FF);
    case 2: return g.flip() ? g.range(0x800, 0xD7FF) : g.range(0xE000, 0xFFFF);
    case 3: return g.range(0x10000, 0x10FFFF);
    default: return g.pick({0u, 0x7Fu, 0x80u, 0x7FFu, 0x800u, 0xFFFFu,
                0xD7FFu, 0x10000u, 0x10FFFFu});
    }
}

/** -1 malformed, 0 well formed in pattern but not valid, 1 valid */
static int wellFormed(const std::string& s, int& codes)
{
    codes = 0;
    int valid = 1;
    for (size_t i=0; i<s.size(); codes++)
    {
        unsigned char c = s[i];
        int n = c < 0x80 ? 1 : c < 0xC0 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3
            : c < 0xF8 ? 4 : 0;
        if (!n || i + n > s.size())
            return -1;
        uint32_t v = n == 1 ? c : c & (0x7F >> n);
        for (int k=1; k<n; k++)
        {
            if (((unsigned char)s[i+k] & 0xC0) != 0x80)
                return -1;
            v = v << 6 | (s[i+k] & 0x3F);
        }
        if (utf8(v).size() != (size_t)n || v > 0x10FFFF
            || (v >= 0xD800 && v < 0xE000))
            valid = 0;
        i += n;
    }
    return valid;
}

PROPERTY(C15, length, 500000,
         "sequences of up to 30 code points of all lengths, encoded by a "
         "separate encoder, some then damaged by truncation, insertion or "
         "change of a byte; the length in code points, or refusal if "
         "malformed; non-trivial if multi-byte")
{
    std::string s;
    int n = g.wide(30, 500, 60);
    for (int i=0; i<n; i++)
        s += utf8(codePoint(g));
    bool multi = (int)s.size() > n;
    if (g.flip() && !s.empty())
    {
        int k = g.below((int)s.size());
        switch (g.below(4))
        {
        case 0: s.resize(k); break;
        case 1: s[k] = (char)g.below(256); break;
        case 2: s.insert(k, 1, (char)g.below(256)); break;
        case 3: s.erase(k, 1); break;
        }
        g.label("damaged");
    }
    g.trace << pbt::quote(s);
    int codes;
    int w = wellFormed(s, codes);
    var v = mk(s);
    ind l = v.len();
    if (w == 1)
        EXPECT_EQ((long)(intptr_t)l, (long)codes, "length");
    else if (w < 0)
        EXPECT(!l, "accepted, length " << (intptr_t)l);
    EXPECT_EQ(text(v), s, "the string after len()");
    g.label(w < 0, "malformed");
    g.nontrivial(multi);
}

PROPERTY(C15, others, 20000,
         "the length of anything but a string is its size; non-trivial for "
         "collections")
{
    Val m = genVal(g, 2);
    if (m.isNil() || m.t == TYPE_CHAR || (m.isArr() && m.p->type() == TYPE_CHAR))
        return;
    g.trace << show(m);
    var v = build(m);
    EXPECT_EQ((long)(intptr_t)v.len(), (long)sizeOf(m), "length");
    g.nontrivial(m.isArr());
}

// --- C16 Lines

static std::string lineText(pbt::Gen& g, std::vector<std::string>& lines)
{
    int n = g.wide(12, 80, 60);
    std::string s;
    for (int i=0; i<n; i++)
    {
        int l = 0;
        switch (g.below(4))
        {
        case 0: l = 0; break;
        case 1: l = g.below(10); break;
        case 2: l = (64 << g.below(4)) - 3 + g.below(6); break;
        default: l = g.below(600);
        }
        int style = g.below(3);
        std::string x;
        for (int j=0; j<l; j++)
        {
            char c = style == 0 ? (char)('a' + (i + j) % 26)
                : style == 1 ? (char)(j * 37 + i) : (char)(255 - j);
            x += c == '\n' ? 'n' : c;
        }
        lines.push_back(x);
        s += x;
        if (i < n-1 || g.flip() || x.empty())
            s += '\n';
    }
    return s;
}

PROPERTY(C16, getline, 60000,
         "files of up to 12 lines of any bytes, with lengths around the "
         "sizes of the buffer, with and without a last newline, read line "
         "by line into one variable or new ones, or one holding something "
         "else; non-trivial if 2 or more lines")
{
    std::vector<std::string> lines;
    std::string s = lineText(g, lines);
    g.trace << lines.size() << " lines ";
    for (auto& l : lines)
        g.trace << l.size() << " ";
    g.nontrivial(lines.size() > 1);
    g.label(!s.empty() && s.back() != '\n', "no last newline");
    std::stringstream ss(s);
    varstream vs(mk(s));
    std::istream& is = g.flip() ? (std::istream&)ss : (std::istream&)vs;
    var v;
    int start = g.below(4);
    if (start == 1)
        v = 42;
    else if (start == 2)
        v = mk(std::string(g.below(300), 'z'));
    else if (start == 3)
        v = build(genVal(g, 1));
    bool fresh = g.flip();
    for (size_t i=0; i<lines.size(); i++)
    {
        if (fresh)
        {
            var w;
            EXPECT((bool)w.getline(is), "line " << i << " missing");
            EXPECT_EQ(pbt::quote(text(w)), pbt::quote(lines[i]), "line");
        }
        else
        {
            var& r = v.getline(is);
            EXPECT(&r == &v, "does not return itself");
            EXPECT((bool)v, "line " << i << " missing");
            EXPECT_EQ(pbt::quote(text(v)), pbt::quote(lines[i]), "line");
        }
    }
    for (int i=0; i<2; i++)
        EXPECT(!v.getline(is), "a line after the last");
    EXPECT(!v.defined(), "not nil at the end");
}

PROPERTY_NOLEAK(C16, txt, 6000,
         "the same read through the text file module from a file, and values "
         "written through it; non-trivial if 2 or more lines")
{
    static filemodule mod("txt");
    static file& txt = mod.create();
    std::string name = pbt::scratch() + "/lines.txt";
    if (g.below(4))
    {
        std::vector<std::string> lines;
        std::string s = lineText(g, lines);
        g.trace << "read " << lines.size() << " lines ";
        for (auto& l : lines)
            g.trace << l.size() << " ";
        g.nontrivial(lines.size() > 1);
        {
            std::ofstream os(name, std::ios::binary);
            os << s;
        }
        var v = txt.read(name.c_str());
        EXPECT_EQ(v.size(), (int)lines.size(), "number of lines");
        for (size_t i=0; i<lines.size(); i++)
            EXPECT_EQ(pbt::quote(text(v.at((int)i))), pbt::quote(lines[i]),
                      "line");
    }
    else
    {
        // One element each line, as it prints
        Val m = mArr(TYPE_VAR);
        int n = g.sized(10);
        for (int i=0; i<n; i++)
            m.p->s->e.push_back(g.flip() ? genScalar(g, TYPE_INT)
                                : mStr(genText(g, 10)));
        g.trace << "write " << show(m);
        g.nontrivial(n > 1);
        var v = build(m);
        txt.write(name.c_str(), v);
        std::string w;
        for (int i=0; i<n; i++)
        {
            const Val& x = m.p->at(i);
            if (x.isArr())
            {
                w += '"';
                for (char c : strOf(x))
                {
                    if (c == '"' || c == '\\')
                        w += '\\';
                    w += c;
                }
                w += '"';
            }
            else
                w += std::to_string(x.i);
            w += '\n';
        }
        std::ifstream is(name, std::ios::binary);
        std::stringstream ss;
        ss << is.rdbuf();
        EXPECT_EQ(pbt::quote(ss.str()), pbt::quote(w), "file");
        std::string d = differs(v, m);
        EXPECT(d.empty(), "after writing " << d);
    }
    std::filesystem::remove(name);
    if (g.rare(20))
    {
        bool threw = false;
        try { txt.read((pbt::scratch() + "/none").c_str()); }
        catch (error&) { threw = true; }
        EXPECT(threw, "reading nothing");
        threw = false;
        try { txt.write((pbt::scratch() + "/no/ne").c_str(), 1); }
        catch (error&) { threw = true; }
        EXPECT(threw, "writing nowhere");
    }
}

// --- C17 Streams

PROPERTY(C17, stream, 300000,
         "histories of up to 40 formatted and unformatted reads, writes, "
         "peeks, ungets and seeks on a stream to a string of any bytes, "
         "against std::stringstream; the string behind the stream sees what "
         "is written; non-trivial if reads succeed after writes")
{
    std::string init = g.rare(3) ? "" : genText(g, 30);
    if (g.rare(3))
        for (int i=g.below(6); i; i--)
            init += " 12 -7 x 3.5 \377\n"[g.below(16)];
    bool shared = g.flip();
    var v = mk(init);
    var w = shared ? v : v.copy();
    std::unique_ptr<varstream> vp;
    if (init.empty() && g.flip())
    {
        vp.reset(new varstream);
        shared = false;
    }
    else
        vp.reset(new varstream(w));
    varstream& vs = *vp;
    std::stringstream ss(init, std::ios::in|std::ios::out|std::ios::ate);
    g.trace << pbt::quote(init) << (shared ? " shared" : "");
    int n = 1 + g.wide(40, 200);
    bool wrote = false;
    auto same = [&](const char* what) {
        EXPECT(vs.eof() == ss.eof(), what << " eof is " << vs.eof());
        EXPECT(vs.fail() == ss.fail(), what << " fail is " << vs.fail());
        EXPECT(vs.bad() == ss.bad(), what << " bad is " << vs.bad());
        EXPECT_EQ(vs.gcount(), ss.gcount(), what);
    };
    for (int i=0; i<n; i++)
    {
        int op = g.below(16);
        g.trace << "; ";
        switch (op)
        {
        case 0:
        {
            int x = g.range(-1000, 1000);
            g.trace << "<< " << x;
            vs << x;
            ss << x;
            wrote = true;
            same("<< int");
            break;
        }
        case 1:
        {
            std::string x = genText(g, 12);
            g.trace << "<< " << pbt::quote(x);
            vs << x;
            ss << x;
            wrote = true;
            same("<< string");
            break;
        }
        case 2:
        {
            char c = (char)g.below(256);
            g.trace << "put " << (int)c;
            vs.put(c);
            ss.put(c);
            wrote = true;
            same("put");
            break;
        }
        case 3:
        {
            std::string x;
            for (int k=g.below(10); k; k--)
                x += (char)g.below(256);
            g.trace << "write " << pbt::quote(x);
            vs.write(x.data(), x.size());
            ss.write(x.data(), x.size());
            wrote = true;
            same("write");
            break;
        }
        case 4:
        case 5:
        {
            g.trace << "get";
            EXPECT_EQ(vs.get(), ss.get(), "get");
            same("get");
            break;
        }
        case 6:
            g.trace << "peek";
            EXPECT_EQ(vs.peek(), ss.peek(), "peek");
            same("peek");
            break;
        case 7:
            g.trace << "unget";
            vs.unget();
            ss.unget();
            same("unget");
            break;
        case 8:
        {
            int x = 99, y = 99;
            g.trace << ">> int";
            bool a = (bool)(vs >> x), b = (bool)(ss >> y);
            EXPECT_EQ(a, b, ">> int");
            EXPECT_EQ(x, y, ">> int");
            same(">> int");
            g.nontrivial(a && wrote);
            break;
        }
        case 9:
        {
            std::string x, y;
            g.trace << ">> string";
            bool a = (bool)(vs >> x), b = (bool)(ss >> y);
            EXPECT_EQ(a, b, ">> string");
            EXPECT_EQ(pbt::quote(x), pbt::quote(y), ">> string");
            same(">> string");
            g.nontrivial(a && wrote);
            break;
        }
        case 10:
        {
            std::string x, y;
            g.trace << "getline";
            char d = g.flip() ? '\n' : 'a';
            bool a = (bool)std::getline(vs, x, d);
            bool b = (bool)std::getline(ss, y, d);
            EXPECT_EQ(a, b, "getline");
            EXPECT_EQ(pbt::quote(x), pbt::quote(y), "getline");
            same("getline");
            break;
        }
        case 11:
        {
            char x[16] = {0}, y[16] = {0};
            int k = g.below(16);
            g.trace << "read " << k;
            vs.read(x, k);
            ss.read(y, k);
            same("read");
            EXPECT_EQ(pbt::quote(std::string(x, 16)),
                      pbt::quote(std::string(y, 16)), "read");
            break;
        }
        case 12:
        {
            int k = g.below(6);
            int d = g.flip() ? EOF : 'a';
            g.trace << "ignore " << k;
            vs.ignore(k, d);
            ss.ignore(k, d);
            same("ignore");
            break;
        }
        case 13:
        {
            int k = g.rare(4) ? g.range(-2, (int)ss.str().size() + 3)
                : g.range(0, (int)ss.str().size());
            g.trace << "seekg " << k;
            vs.seekg(k);
            ss.seekg(k);
            same("seekg");
            break;
        }
        default:
            g.trace << "clear";
            vs.clear();
            ss.clear();
        }
        if (g.rare(4))
            EXPECT_EQ(pbt::quote(text(var(vs))), pbt::quote(ss.str()),
                      "contents");
    }
    EXPECT_EQ(pbt::quote(text(var(vs))), pbt::quote(ss.str()), "contents");
    EXPECT_EQ(std::string(vs.str()), std::string(ss.str().c_str()), "str()");
    EXPECT_EQ(pbt::quote(text(v)), pbt::quote(shared ? ss.str() : init),
              "the variable behind");
}
