/* JSON: printing, reading, and anything else in place of it */
#include "model.h"

#include <cmath>
#include <map>

using namespace model;

// --- What survives

/** A double as it prints with enough digits; integral ones read as long */
static Val number(double d)
{
    char b[64];
    snprintf(b, sizeof b, "%.17g", d);
    bool integral = true;
    for (const char* p=b; *p; p++)
        integral = integral && (isdigit(*p) || *p == '-');
    if (integral)
        return mLong(strtol(b, 0, 10));
    return mDouble(d);
}

static Val dense1(const Val& a)
{
    // All numbers are stored densely
    bool real = false;
    if (a.p->size() == 0)
        return a;
    for (int i=0; i<a.p->size(); i++)
    {
        const Val& e = a.p->s->e[i];
        if (e.t == TYPE_DOUBLE)
            real = true;
        else if (e.t != TYPE_LONG)
            return a;
    }
    Val r = mArr(real ? TYPE_DOUBLE : TYPE_LONG);
    for (int i=0; i<a.p->size(); i++)
    {
        const Val& e = a.p->s->e[i];
        r.p->s->e.push_back(!real ? e : mDouble(
                                e.t == TYPE_LONG ? (double)e.i : e.re));
    }
    return r;
}

/** What a value is after printing and reading */
static Val survives(const Val& m)
{
    switch (m.t)
    {
    case TYPE_INT:
    case TYPE_LONG:
        return mLong(m.i);
    case TYPE_FLOAT:
    case TYPE_DOUBLE:
        return number(m.re);
    }
    if (m.isNil() || m.p->type() == TYPE_CHAR)
        return m;
    Val r = mArr(isMap(m) ? TYPE_PAIR : TYPE_VAR);
    for (int i=0; i<m.p->size(); i++)
    {
        r.p->s->e.push_back(survives(m.p->at(i)));
        if (isMap(m))
            r.p->s->k.push_back(m.p->s->k[i]);
    }
    return isMap(m) ? r : dense1(r);
}

// --- Generation

static std::string jText(pbt::Gen& g)
{
    std::string s;
    int n = g.wide(12, 600, 80);
    int style = g.below(4);
    for (int i=0; i<n; i++)
        switch (style)
        {
        case 0: s += (char)('a' + g.below(26)); break;
        case 1: s += "\"\\\\\"{}[],: \n\tx"[g.below(14)]; break;
        case 2: s += (char)g.below(256); break;
        case 3: s += (char)(32 + g.below(95)); break;
        }
    return s;
}

static double jDouble(pbt::Gen& g)
{
    switch (g.below(5))
    {
    case 0: return genDouble(g);
    case 1: return g.range(-1000, 1000);
    case 2: return (double)g.range64(-(1ll << 53), 1ll << 53)
            / (double)g.range64(1, 1ll << 53);
    case 3: return std::ldexp((double)g.range64(-(1ll << 53), 1ll << 53),
                              g.range(-900, 900));
    default: return g.pick({0.0, 0.1, 1e15, 1e16, 1e17, 1e18, 123456789.5,
                1e-5, 1e300, 4.9e-300, 1.0/3});
    }
}

static Val jValue(pbt::Gen& g, int depth)
{
    switch (depth > 0 ? g.weighted({2, 5, 4, 3, 4, 4})
            : g.weighted({2, 5, 4, 2}))
    {
    case 0:
        return Val();
    case 1:
        switch (g.below(4))
        {
        case 0: return genScalar(g, TYPE_INT);
        case 1: return genScalar(g, TYPE_LONG);
        case 2: return mFloat((float)genDouble(g) / 3);
        default: return mDouble(jDouble(g));
        }
    case 2:
        return mStr(jText(g));
    case 3:
    {
        int type = g.pick({TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE});
        Val r = mArr(type);
        int n = g.wide(12, 200, 60);
        for (int i=0; i<n; i++)
            r.p->s->e.push_back(type == TYPE_DOUBLE ? mDouble(jDouble(g))
                                : genScalar(g, type));
        return r;
    }
    case 4:
    {
        Val r = mArr(TYPE_VAR);
        int n = g.wide(7, 50, 80);
        for (int i=0; i<n; i++)
            r.p->s->e.push_back(jValue(g, depth-1));
        return r;
    }
    default:
    {
        Val r = mArr(TYPE_PAIR);
        int n = g.wide(7, 50, 80);
        for (int i=0; i<n; i++)
        {
            Val k = mStr(jText(g));
            auto& ks = r.p->s->k;
            size_t p = 0;
            while (p < ks.size() && compare(ks[p], k) < 0)
                ++p;
            if (p < ks.size() && compare(ks[p], k) == 0)
                continue;
            ks.insert(ks.begin()+p, k);
            r.p->s->e.insert(r.p->s->e.begin()+p, jValue(g, depth-1));
        }
        return r;
    }
    }
}

// --- An independent reader, strict but for control characters in strings

namespace
{
    struct Reader
    {
        const std::string& s;
        size_t p = 0;

        void bad(const char* what)
        {
            pbt::fail(std::string("not JSON, ") + what + " at "
                      + std::to_string(p) + ": " + pbt::quote(s));
        }
        void space()
        {
            while (p < s.size() && strchr(" \t\r\n", s[p]) && s[p])
                ++p;
        }
        bool accept(char c)
        {
            space();
            if (p < s.size() && s[p] == c)
            {
                ++p;
                return true;
            }
            return false;
        }
        void expect(char c, const char* what)
        {
            if (!accept(c))
                bad(what);
        }
        std::string str()
        {
            expect('"', "string expected");
            std::string r;
            while (p < s.size() && s[p] != '"')
            {
                if (s[p] == '\\')
                {
                    ++p;
                    if (p >= s.size() || (s[p] != '"' && s[p] != '\\'))
                        bad("escape");
                }
                r += s[p++];
            }
            if (p >= s.size())
                bad("unterminated string");
            ++p;
            return r;
        }
        Val value(int depth)
        {
            if (depth > 60)
                bad("too deep");
            space();
            if (p >= s.size())
                bad("value expected");
            if (s[p] == '"')
                return mStr(str());
            if (accept('['))
            {
                Val r = mArr(TYPE_VAR);
                if (accept(']'))
                    return r;
                do
                    r.p->s->e.push_back(value(depth+1));
                while (accept(','));
                expect(']', "] expected");
                return dense1(r);
            }
            if (accept('{'))
            {
                std::vector<std::pair<std::string, Val>> e;
                Val r = mArr(TYPE_PAIR);
                if (accept('}'))
                    return r;
                do
                {
                    std::string k = (space(), str());
                    expect(':', ": expected");
                    Val v = value(depth+1);
                    r.p->s->k.push_back(mStr(k));
                    r.p->s->e.push_back(v);
                }
                while (accept(','));
                expect('}', "} expected");
                return r;
            }
            if (s.compare(p, 4, "null") == 0)
            {
                p += 4;
                return Val();
            }
            // Number
            size_t b = p;
            bool real = false;
            if (p < s.size() && s[p] == '-')
                ++p;
            size_t d = p;
            while (p < s.size() && isdigit(s[p]))
                ++p;
            if (p == d)
                bad("number");
            if (p < s.size() && s[p] == '.')
            {
                real = true;
                d = ++p;
                while (p < s.size() && isdigit(s[p]))
                    ++p;
                if (p == d)
                    bad("fraction");
            }
            if (p < s.size() && (s[p] == 'e' || s[p] == 'E'))
            {
                real = true;
                ++p;
                if (p < s.size() && (s[p] == '+' || s[p] == '-'))
                    ++p;
                d = p;
                while (p < s.size() && isdigit(s[p]))
                    ++p;
                if (p == d)
                    bad("exponent");
            }
            std::string n = s.substr(b, p-b);
            if (real)
                return mDouble(strtod(n.c_str(), 0));
            return mLong(strtol(n.c_str(), 0, 10));
        }
    };
}

static std::string print(const var& v, int precision = 17)
{
    std::ostringstream os;
    os.precision(precision);
    os << v;
    return os.str();
}

static bool compound(const Val& m)
{
    return m.isArr() && m.p->type() != TYPE_CHAR && m.p->size() > 0;
}

// --- C18 Round trip

PROPERTY(C18, roundtrip, 200000,
         "nil, numbers, strings of any bytes, arrays and maps of those to a "
         "depth of 3 (now and then 25 more), printed, then read by a separate strict reader and "
         "read back by the library through a standard stream and through a "
         "stream on a string; integers read as long and arrays of numbers "
         "become dense; printed again it's the same; non-trivial if an array "
         "or map contains another")
{
    Val m = jValue(g, 3);
    if (g.rare(20))
    {
        // Deep, with something before and after
        int n = 1 + g.below(25);
        for (int i=0; i<n; i++)
        {
            Val r = mArr(TYPE_VAR);
            if (g.rare(4))
            {
                r = mArr(TYPE_PAIR);
                r.p->s->k.push_back(mStr(std::string(1, 'a' + g.below(26))));
                r.p->s->e.push_back(m);
                m = r;
                continue;
            }
            for (int j=g.below(3); j>0; j--)
                r.p->s->e.push_back(jValue(g, 0));
            r.p->s->e.push_back(m);
            for (int j=g.below(3); j>0; j--)
                r.p->s->e.push_back(jValue(g, 0));
            m = r;
        }
    }
    g.trace << show(m);
    var v = build(m);
    std::string s = print(v);
    Val w = survives(m);
    Reader r{s};
    Val x = r.value(0);
    r.space();
    EXPECT(r.p == s.size(), "more than one value " << pbt::quote(s));
    EXPECT(equal(x, w), "printed " << pbt::quote(s));

    var y;
    if (g.flip())
    {
        std::istringstream is(s);
        is >> y;
    }
    else
    {
        var t((int)s.size(), s.data());
        varstream is(t);
        is >> y;
    }
    std::string d = differs(y, w);
    EXPECT(d.empty(), "read back " << d);
    EXPECT_EQ(pbt::quote(print(y)), pbt::quote(print(build(w))),
              "printed again");
    d = differs(v, m);
    EXPECT(d.empty(), "after printing " << d);
    if (m.isArr())
        for (auto& e : m.p->s->e)
            g.nontrivial(compound(m) && compound(e));
    g.label(m.isArr() && m.p->type() == TYPE_CHAR, "string");
}

PROPERTY(C18, precision, 150000,
         "arrays of doubles printed at the precision of the stream; the "
         "digits are those of printf; non-trivial if not integers")
{
    Val m = mArr(TYPE_DOUBLE);
    int n = 1 + g.wide(8, 80);
    int prec = 1 + g.below(17);
    std::string w;
    for (int i=0; i<n; i++)
    {
        double d = jDouble(g);
        m.p->s->e.push_back(mDouble(d));
        char b[64];
        snprintf(b, sizeof b, "%.*g", prec, d);
        w += std::string(i ? ", " : "") + b;
        g.nontrivial(d != std::floor(d));
    }
    g.trace << prec << " digits " << show(m);
    EXPECT_EQ(print(build(m), prec), "[" + w + "]", "printed");
    EXPECT_EQ(print(build(m.p->at(0)), prec), w.substr(0, w.find(',')),
              "scalar");
}

PROPERTY(C18, matrix, 60000,
         "matrices and vectors that are views of part of an array print as "
         "an array of the elements in order; non-trivial if 2 or more rows")
{
    int type = g.pick({TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE});
    int rows = 1 + g.below(5), cols = 1 + g.below(5), off = g.below(4);
    bool flat = g.rare(3);
    Val m = mArr(type);
    for (int i=rows*cols+off+g.below(3); i; i--)
        m.p->s->e.push_back(genSmall(g, type));
    g.trace << show(m) << " as " << rows << "x" << cols << " at " << off;
    var v = build(m);
    var w = flat ? v.view({rows*cols}, off) : v.view({rows, cols}, off);
    Val e = mArr(TYPE_VAR);
    for (int i=0; i<rows*cols; i++)
        e.p->s->e.push_back(m.p->at(i+off));
    var holder;
    bool held = g.flip();
    if (held)
        holder["x"] = w;
    std::string s = print(held ? holder : w);
    Reader r{s};
    Val x = r.value(0);
    if (held)
        x = x.p->at(0);
    EXPECT(equal(x, survives(e)), "printed " << pbt::quote(s));
    g.nontrivial(rows > 1 && !flat);
}

// Text without its white space
static std::string squeeze(const std::string& s)
{
    std::string r;
    for (char c : s)
        if (!isspace((unsigned char)c))
            r += c;
    return r;
}

PROPERTY(C18, other, 30000,
         "what JSON has no form for: tensors of 3 to 5 dimensions, part of an "
         "array or not, single characters, and complex numbers and arrays of "
         "them, alone or in a map; non-trivial if a tensor or complex array")
{
    int form = g.below(4);
    std::string want, got;
    var v;
    std::ostringstream os;
    os.precision(17);
    if (form == 0)
    {
        int type = g.pick({TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE,
                    TYPE_CFLOAT});
        int nd = 3 + g.below(3);
        var shape;
        int size = 1;
        for (int i=0; i<nd; i++)
        {
            int d = 1 + g.below(4);
            os << (i ? "x" : "") << d;
            shape.push(d);
            size *= d;
        }
        os << "tensor:";
        int off = g.below(4);
        Val m = mArr(type);
        for (int i=size+off+g.below(3); i>0; i--)
            m.p->s->e.push_back(genSmall(g, type));
        v = build(m).view(shape, off);
        int mat = v.shape(-1) * v.shape(-2);
        for (int i=0; i<size; i++)
        {
            const Val& x = m.p->s->e[i+off];
            os << (i % mat ? "," : i ? "][" : "[");
            switch (type)
            {
            case TYPE_CFLOAT: os << cfloat(x.re, x.im); break;
            case TYPE_FLOAT: os << (float)x.re; break;
            case TYPE_DOUBLE: os << x.re; break;
            default: os << x.i;
            }
        }
        os << "]";
        g.nontrivial();
    }
    else if (form == 1)
    {
        char c = (char)g.range(33, 126);
        v = c;
        os << "'" << c << "'";
    }
    else
    {
        int n = form == 2 ? 1 : g.sized(6) + 1;
        bool dbl = g.flip();
        os << (form == 2 || (dbl && n == 1) ? "" : "[");
        for (int i=0; i<n; i++)
        {
            Val x = genSmall(g, TYPE_CDOUBLE);
            cdouble z(x.re, x.im);
            os << (i ? "," : "") << z;
            if (dbl)
                v.append(1, &z);
            else
                v.push(cfloat(z));
        }
        os << (form == 2 || (dbl && n == 1) ? "" : "]");
        if (form == 3 && !dbl)
            v.array();
        g.nontrivial(n > 1);
    }
    want = os.str();
    g.trace << want;
    var h = v;
    if (g.flip())
    {
        h = nil;
        h["x"] = v;
        want = "{\"x\":" + want + "}";
    }
    got = print(h);
    EXPECT_EQ(squeeze(got), want, "printed");
    EXPECT_EQ(print(h), got, "printed again");
}

// --- C19 Reading

namespace
{
    struct Writer
    {
        pbt::Gen& g;
        std::string s;

        void space()
        {
            if (g.flip())
                return;
            for (int i=1+g.below(3); i; i--)
                s += " \t\n\r"[g.below(4)];
        }

        void str(const std::string& t)
        {
            s += '"';
            for (char c : t)
            {
                if (c == '"' || c == '\\')
                    s += '\\';
                s += c;
            }
            s += '"';
        }

        Val num()
        {
            std::string t = g.flip() ? "-" : "";
            int digits = 1 + (g.rare(6) ? g.below(30) : g.below(6));
            if (digits == 1)
                t += (char)('0' + g.below(10));
            else
            {
                t += (char)('1' + g.below(9));
                for (int i=1; i<digits; i++)
                    t += (char)('0' + g.below(10));
            }
            bool real = false;
            if (g.rare(3))
            {
                real = true;
                t += '.';
                for (int i=1+g.below(8); i; i--)
                    t += (char)('0' + g.below(10));
            }
            if (g.rare(4))
            {
                real = true;
                t += "eE"[g.below(2)];
                t += g.pick({"", "+", "-"});
                t += std::to_string(g.below(250));
            }
            s += t;
            errno = 0;
            long l = strtol(t.c_str(), 0, 10);
            if (!real && errno == 0)
                return mLong(l);
            return mDouble(strtod(t.c_str(), 0));
        }

        Val value(int depth)
        {
            space();
            Val r = bare(depth);
            space();
            return r;
        }

        Val bare(int depth)
        {
            switch (depth > 0 ? g.weighted({4, 2, 3, 3, 3})
                    : g.weighted({4, 2, 3}))
            {
            case 0:
                return num();
            case 1:
                switch (g.below(3))
                {
                case 0: s += "null"; return Val();
                case 1: s += "true"; return mInt(1);
                default: s += "false"; return mInt(0);
                }
            case 2:
            {
                std::string t = jText(g);
                str(t);
                return mStr(t);
            }
            case 3:
            {
                s += '[';
                Val r = mArr(TYPE_VAR);
                int n = g.wide(6, 50, 80);
                for (int i=0; i<n; i++)
                {
                    if (i)
                        s += ',';
                    r.p->s->e.push_back(value(depth-1));
                }
                if (!n)
                    space();
                s += ']';
                return denser(r);
            }
            default:
            {
                s += '{';
                Val r = mArr(TYPE_PAIR);
                int n = g.wide(6, 50, 80);
                for (int i=0; i<n; i++)
                {
                    if (i)
                        s += ',';
                    space();
                    std::string t = g.rare(3)
                        ? std::string(1, (char)('a' + g.below(3))) : jText(g);
                    Val k = mStr(t);
                    str(t);
                    space();
                    s += ':';
                    Val v = value(depth-1);
                    auto& ks = r.p->s->k;
                    size_t p = 0;
                    while (p < ks.size() && compare(ks[p], k) < 0)
                        ++p;
                    if (p < ks.size() && compare(ks[p], k) == 0)
                    {
                        // The last one counts
                        r.p->s->e[p] = v;
                        repeated = true;
                        continue;
                    }
                    ks.insert(ks.begin()+p, k);
                    r.p->s->e.insert(r.p->s->e.begin()+p, v);
                }
                if (!n)
                    space();
                s += '}';
                return r;
            }
            }
        }

        /** The widest of the types, if all are numbers */
        static Val denser(const Val& a)
        {
            int type = TYPE_INT;
            for (auto& e : a.p->s->e)
                if (e.t == TYPE_INT || e.t == TYPE_LONG || e.t == TYPE_DOUBLE)
                    type = std::max(type, e.t);
                else
                    return a;
            if (a.p->size() == 0)
                return a;
            Val r = mArr(type);
            for (auto& e : a.p->s->e)
            {
                double d = e.t == TYPE_DOUBLE ? e.re : (double)e.i;
                r.p->s->e.push_back(type == TYPE_INT ? mInt((int)e.i)
                                    : type == TYPE_LONG ? mLong(e.i)
                                    : mDouble(d));
            }
            return r;
        }

        bool repeated = false;
    };
}

PROPERTY(C19, documents, 60000,
         "documents written by a separate writer with white space wherever "
         "it's allowed, all forms of number, repeated keys and nesting to a "
         "depth of 3; one or more of them in a stream, read in turn, by a "
         "standard stream or one on a string; non-trivial if an array or map "
         "is not empty")
{
    int n = g.rare(4) ? 2 + g.below(2) : 1;
    std::string s;
    std::vector<Val> e;
    for (int i=0; i<n; i++)
    {
        Writer w{g};
        e.push_back(w.value(3));
        s += (i ? "\n" : "") + w.s;
        g.nontrivial(compound(e[i]));
        g.label(w.repeated, "repeated key");
    }
    g.trace << pbt::quote(s);
    g.label(n > 1, "several");
    std::istringstream ss(s);
    var t((int)s.size(), s.data());
    varstream vs(t);
    std::istream& is = g.flip() ? (std::istream&)ss : (std::istream&)vs;
    for (int i=0; i<n; i++)
    {
        var y = 42;
        is >> y;
        std::string d = differs(y, e[i]);
        EXPECT(d.empty(), "value " << i << " " << d);
    }
}

PROPERTY(C19, cut, 60000,
         "documents that are a string, an array or a map, written by the same "
         "writer, cut short anywhere, are refused, and reading goes on with "
         "another stream; non-trivial if something is nested")
{
    Writer w{g};
    Val m = w.value(3);
    std::string s = w.s;
    while (!s.empty() && strchr(" \t\r\n", s.back()))
        s.pop_back();
    size_t b = s.find_first_not_of(" \t\r\n");
    if (b == std::string::npos || !strchr("[{\"", s[b]))
    {
        g.label("a number or word");
        return;
    }
    size_t k = g.below((int)s.size());
    g.trace << pbt::quote(s) << " cut at " << k;
    if (m.isArr())
        for (auto& e : m.p->s->e)
            g.nontrivial(compound(e));
    std::string t = s.substr(0, k);
    std::istringstream ss(t);
    varstream vs(var((int)t.size(), t.data()));
    std::istream& is = g.flip() ? (std::istream&)ss : (std::istream&)vs;
    var y = 42;
    bool refused = false;
    try
    {
        is >> y;
    }
    catch (std::exception&)
    {
        refused = true;
    }
    EXPECT(refused, "read as " << pbt::quote(print(y)));
    EXPECT_EQ(y.get<int>(), 42, "what was there is gone");
    std::istringstream all(s);
    all >> y;
    std::string d = differs(y, m);
    EXPECT(d.empty(), "the whole of it " << d);
}

PROPERTY(C19, anything, 150000,
         "documents with bytes deleted, inserted, changed, repeated or cut "
         "off, and arbitrary strings of significant characters: either a "
         "value, which prints and compares with itself, or an error; never "
         "anything else; non-trivial if refused, or accepted although "
         "damaged")
{
    std::string s;
    bool damaged = true;
    if (g.below(3))
    {
        Writer w{g};
        w.value(3);
        s = w.s;
        int n = g.below(4);
        damaged = n > 0;
        for (int i=0; i<n && !s.empty(); i++)
        {
            int p = g.below((int)s.size());
            static const std::string spice = "\"\\[]{},: \n-0e.\0\377tfn";
            switch (g.below(5))
            {
            case 0: s.erase(p, 1 + g.below(3)); break;
            case 1: s.insert(p, 1, spice[g.below((int)spice.size())]); break;
            case 2: s[p] = (char)g.below(256); break;
            case 3: s.insert(p, s.substr(p, 1 + g.below(8))); break;
            case 4: s.resize(p); break;
            }
        }
    }
    else
    {
        int n = g.wide(40, 600);
        for (int i=0; i<n; i++)
            s += "[]{}\"\\:,0-e. tn\377"[g.below(17)];
    }
    g.trace << pbt::quote(s);
    std::istringstream ss(s);
    var t((int)s.size(), s.data());
    varstream vs(t);
    std::istream& is = g.flip() ? (std::istream&)ss : (std::istream&)vs;
    var y;
    bool threw = false;
    try
    {
        is >> y;
    }
    catch (libube::error&)
    {
        threw = true;
    }
    g.nontrivial(threw || damaged);
    g.label(threw, "refused");
    g.label(!threw, "accepted");
    if (!threw)
    {
        std::string p = print(y);
        EXPECT(y == y, "not equal to itself");
        EXPECT(!(y < y), "less than itself");
        var c = y.copy();
        EXPECT(c == y, "not equal to a copy");
    }
}

PROPERTY(C19, deep, 400,
         "arrays and maps nested up to 1500 deep; non-trivial if more than "
         "100")
{
    int n = 1 + g.sized(1500);
    bool map = g.flip();
    std::string s;
    for (int i=0; i<n; i++)
        s += map ? "{\"a\":" : "[";
    s += "\"x\"";
    for (int i=0; i<n; i++)
        s += map ? "}" : "]";
    g.trace << (map ? "map " : "array ") << n;
    g.nontrivial(n > 100);
    std::istringstream is(s);
    var y;
    is >> y;
    int depth = 0;
    while (y.atype() != TYPE_CHAR)
    {
        EXPECT_EQ(y.size(), 1, "size");
        var z;
        z = y.at(0);
        y = z;
        ++depth;
    }
    EXPECT_EQ(depth, n, "depth");
    EXPECT_EQ(std::string(y.str()), std::string("x"), "inside");
}
