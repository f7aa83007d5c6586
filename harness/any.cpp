/* Anything combined with anything: no model but what holds of everything */
#include <lube/math.h>
#include <lube/string.h>
#include <functional>
#include "history.h"

using namespace history;
namespace lu = libube;

namespace
{
    // --- What can be seen of a value, to the bit

    void look(std::ostream& o, const var& v, int depth, int& room)
    {
        if (--room < 0 || depth > 20)
        {
            o << "...";
            return;
        }
        if (!v.defined())
        {
            o << "nil";
            return;
        }
        auto bits = [&o](auto x) {
            unsigned char c[sizeof(x)];
            std::memcpy(c, &x, sizeof(x));
            for (unsigned char b : c)
                o << (b >> 4) << '.' << (b & 15) << ',';
        };
        int t = v.type();
        o << lu::typeStr(t);
        switch (t)
        {
        case TYPE_CHAR: bits(v.get<char>()); return;
        case TYPE_INT: o << v.get<int>(); return;
        case TYPE_LONG: o << v.get<long>(); return;
        case TYPE_FLOAT: bits(v.get<float>()); return;
        case TYPE_DOUBLE: bits(v.get<double>()); return;
        case TYPE_CFLOAT: bits(v.get<cfloat>()); return;
        }
        int n = v.size();
        o << lu::typeStr(v.atype()) << n << (v.view() ? "v" : "");
        if (v.view())
            for (int d=0; d<v.dim(); d++)
                o << "x" << v.shape(d);
        if (v.view())
            o << "+" << v.offset();
        o << "(";
        for (int i=0; i<n; i++)
        {
            if (v.atype() == TYPE_PAIR && !v.view())
            {
                look(o, v.key(i), depth+1, room);
                o << ":";
            }
            if (v.atype() == TYPE_CDOUBLE)
            {
                var w = v;
                bits(*w.ptr<cdouble>(i));
            }
            else
                look(o, v.at(i), depth+1, room);
            o << " ";
        }
        o << ")";
    }

    std::string look(const var& v, int* weight = 0)
    {
        std::ostringstream o;
        int room = 3000;
        look(o, v, 0, room);
        if (weight)
            *weight = 3000 - room;
        return o.str();
    }

    /** Whether the array of a is v or somewhere in it */
    bool within(const IHeap* a, const var& v, int depth = 0)
    {
        if (!v.defined() || v.type() != TYPE_ARRAY)
            return false;
        if (v.heap() == a || depth > 20)
            return true;
        if (dense(v.atype()))
            return false;
        for (int i=0; i<v.size(); i++)
            if (within(a, v.at(i), depth+1)
                || (v.atype() == TYPE_PAIR && !v.view()
                    && within(a, v.key(i), depth+1)))
                return true;
        return false;
    }

    /** Numbers small enough for any arithmetic to be defined */
    bool tame(const var& v, int depth = 0)
    {
        auto small = [](double x) { return x > -2000 && x < 2000; };
        if (!v.defined() || depth > 20)
            return true;
        switch (v.type())
        {
        case TYPE_CHAR: return true;
        case TYPE_INT: return small(v.get<int>());
        case TYPE_LONG: return small(v.get<long>());
        case TYPE_FLOAT: return small(v.get<float>());
        case TYPE_DOUBLE: return small(v.get<double>());
        case TYPE_CFLOAT: return small(std::abs(v.get<cfloat>()));
        }
        for (int i=0; i<v.size(); i++)
            if (v.atype() == TYPE_CDOUBLE)
            {
                var w = v;
                if (!small(std::abs(*w.ptr<cdouble>(i))))
                    return false;
            }
            else if (!tame(v.at(i), depth+1))
                return false;
        return true;
    }

    /** A tame value, perhaps a view */
    var value(pbt::Gen& g, int depth)
    {
        switch (g.below(depth ? 11 : 7))
        {
        case 0: return var();
        case 1: case 2:
            return build(genSmall(g, genScalarType(g)));
        case 3:
            return genText(g, 8).c_str();
        case 4: case 5: case 6:
        {
            int t = g.pick({TYPE_INT, TYPE_DOUBLE, TYPE_FLOAT, TYPE_LONG,
                        TYPE_CFLOAT, TYPE_CDOUBLE, TYPE_CHAR});
            Val m = mArr(t);
            for (int i=g.sized(9); i; i--)
                m.p->s->e.push_back(genSmall(g, t));
            return build(m);
        }
        case 7: case 8:
        {
            int t = g.pick({TYPE_DOUBLE, TYPE_FLOAT, TYPE_INT, TYPE_CFLOAT,
                        TYPE_CDOUBLE});
            Val m = mArr(t);
            int r = 1 + g.below(4), c = 1 + g.below(4), off = g.below(3);
            for (int i=0; i<r*c+off; i++)
                m.p->s->e.push_back(genSmall(g, t));
            var v = build(m);
            return v.view({r, c}, off);
        }
        case 9:
        {
            var v;
            v.array();
            v.pop();
            for (int i=g.sized(4); i; i--)
                v.push(value(g, depth-1));
            return v;
        }
        default:
        {
            var v;
            for (int i=g.sized(4); i; i--)
                v[genText(g, 3).c_str()] = value(g, depth-1);
            return v;
        }
        }
    }

    // --- What can be done

    struct Op
    {
        const char* name;
        int uses; ///< Of a, b, c
        bool each; ///< Goes through the elements of an output
        std::function<var(var& a, var& b, var& c, int i)> f;
    };

    /** Containment that would never be freed isn't wanted */
    void put(var& a, const var& b, const std::function<void(var&)>& f)
    {
        var x = b;
        if (a.heap() && within(a.heap(), b))
            x = b.copy();
        if (a.heap() && within(a.heap(), x))
            return;
        f(x);
    }

    /** Only text may be asked for its characters */
    const char* text(const var& v)
    {
        bool ok = v.defined() && v.type() == TYPE_ARRAY && !v.view()
            && v.atype() == TYPE_CHAR;
        return ok ? v.str() : "ab";
    }

    const UnaryFunctor* MATH[] = {
        &lu::sin, &lu::cos, &lu::tan, &lu::atan, &lu::floor, &lu::sqrt,
        &lu::log, &lu::exp, &lu::real, &lu::imag, &lu::abs, &lu::arg,
        &lu::norm
    };

    const std::vector<Op>& ops()
    {
#       define ARITH(N, S, F)                                           \
        {N, 2, false, [](var& a, var& b, var&, int) { return a S b; }}, \
        {N "=", 2, true, [](var& a, var& b, var&, int) {                      \
            a S##= b; return var(); }},                                 \
        {N " out", 3, true, [](var& a, var& b, var& c, int) {                 \
            lu::F(a, b, c); return var(); }}
#       define EACH(N, U, ...)                                          \
        {N, U, true, [](var& a, var& b, var& c, int i) -> var {         \
            (void)a; (void)b; (void)c; (void)i; __VA_ARGS__; return var(); }}
#       define OP(N, U, ...)                                            \
        {N, U, false, [](var& a, var& b, var& c, int i) -> var {               \
            (void)a; (void)b; (void)c; (void)i; __VA_ARGS__ }}
        static const std::vector<Op> all = {
            ARITH("+", +, add),
            ARITH("-", -, sub),
            ARITH("*", *, mul),
            OP("pow", 2, return lu::pow(a, b);),
            EACH("pow out", 3, lu::pow(a, b, c); return var();),
            OP("-a", 1, return -a;),
            OP("math", 1, return (*MATH[i % 13])(a);),
            EACH("math in place", 1, (*MATH[i % 13])(a, a); return var();),
            EACH("math out", 3, (*MATH[i % 13])(a, c); return var();),
            OP("sum", 1, return lu::sum(a);),
            OP("asum", 1, return lu::asum(a);),
            OP("iamax", 1, return lu::iamax(a);),
            OP("sum out", 3, lu::sum(a, c); return var();),
            OP("iamax out", 3, lu::iamax(a, c); return var();),
            OP("dot", 2, return lu::dot(a, b);),
            OP("dot out", 3, lu::dot(a, b, c); return var();),
            OP("swap", 2, lu::swap(a, b); return var();),
            EACH("set", 2, put(a, b, [&](var& x) { lu::set(a, x, a); })),
            OP("transpose", 1, return lu::transpose(a);),
            OP("transpose in place", 1, return a.transpose();),
            OP("transpose out", 3, lu::transpose(a, c); return var();),
            OP("concatenate", 3, return lu::concatenate({a, b, c});),
            OP("concatenate in", 1, return lu::concatenate(a);),
            OP("poly", 1, return lu::poly(a);),
            OP("sort", 1, return a.sort();),
            OP("sort in place", 1, lu::sort(a, a); return var();),
            OP("index", 2, return (long)a.index(b);),
            OP("castChar", 1, return lu::castChar(a);),
            OP("castInt", 1, return lu::castInt(a);),
            OP("castLong", 1, return lu::castLong(a);),
            OP("castFloat", 1, return lu::castFloat(a);),
            OP("castDouble", 1, return lu::castDouble(a);),
            OP("castCFloat", 1, return lu::castCFloat(a);),
            OP("castCDouble", 1, return lu::castCDouble(a);),
            EACH("cast out", 3, lu::castDouble(a, c); return var();),
            OP("cast<int>", 1, return a.cast<int>();),
            OP("cast<long>", 1, return a.cast<long>();),
            OP("cast<double>", 1, return a.cast<double>();),
            OP("cast<cfloat>", 1, return a.cast<cfloat>();),
            OP("push", 2, put(a, b, [&](var& x) { a.push(x); });
               return var();),
            OP("unshift", 2, put(a, b, [&](var& x) { a.unshift(x); });
               return var();),
            OP("insert", 2, put(a, b, [&](var& x) { a.insert(x, i % 5); });
               return var();),
            OP("append", 2, put(a, b, [&](var& x) { a.append(x); });
               return var();),
            OP("comma", 2, put(a, b, [&](var& x) { (a, x); });
               return var();),
            OP("append text", 1, a.append("text"); return var();),
            OP("append ints", 1, int d[2] = {i, 2}; a.append(2, d);
               return var();),
            OP("pop", 1, return a.pop();),
            OP("shift", 1, return a.shift();),
            OP("remove", 1, return a.remove(i % 6);),
            OP("shrink", 1, if (a.size() > i) a.resize(i); return var();),
            OP("grow", 1, if (!a.defined() || a.type() == TYPE_ARRAY)
               {
                   int n = a.size();
                   a.resize(n + i);
                   for (int k=n; a.defined() && k<a.size(); k++)
                       if (a.atype() != TYPE_PAIR)
                           a[k] = 1;
               } return var();),
            OP("presize", 1, a.presize(i * 3); return var();),
            OP("clear", 1, a.clear(); return var();),
            OP("array", 1, a.array(); return var();),
            OP("a = b", 2, a = b; return var();),
            OP("a = b.copy()", 2, a = b.copy(); return var();),
            OP("a = move(b)", 2, a = std::move(b); return var();),
            OP("a[i]", 1, return a.at(i);),
            OP("a.key(i)", 1, return a.key(i);),
            OP("a[b]", 2, return a.at(b);),
            OP("a[i] = b", 2, put(a, b, [&](var& x) {
                // The index alone makes an array
                if (i < a.size() && a.type() == TYPE_ARRAY) a[i] = x; }); return var();),
            OP("a[key] = b", 3, put(a, c, [&](var& k) {
                put(a, b, [&](var& x) {
                    if (!a.defined() || a.atype() == TYPE_PAIR) a[k] = x;
                }); }); return var();),
            OP("swap elements", 1, if (a.size() > 1 && !a.view()
                                       && a.type() == TYPE_ARRAY)
               {
                   var t = a[0].copy();
                   a[0] = a.at(1);
                   a[1] = t;
               } return var();),
            OP("view", 1, if (a.atype() == TYPE_VAR || a.atype() == TYPE_PAIR)
                   return var(); return a.view({i % 4, i % 3}, i % 5);),
            OP("view by var", 2,
               if (a.atype() == TYPE_VAR || a.atype() == TYPE_PAIR)
                   return var(); return a.view(b, i % 3);),
            OP("subview", 1, if (!a.view()) return var();
               return a.subview(i % 4, i % 3);),
            OP("offset", 1, if (!a.view()) return var();
               a.offset(i % 4); return var();),
            OP("advance", 1, if (!a.view()) return var();
               a.advance(i - 2); return var();),
            OP("(i,j)", 1, return a.dim() == 2 ? a(i % 4, i % 3) : var();),
            OP("shape", 1, return a.shape();),
            OP("split", 1, return a.split(" a" + i % 2, i % 4);),
            OP("split by", 2, return a.split(text(b));),
            OP("join", 2, return a.join(text(b));),
            OP("toupper", 1, return lu::toupper(a);),
            EACH("tolower in place", 1, return a.tolower();),
            OP("strip", 1, return lu::strip(a);),
            EACH("strip in place", 1, return a.strip();),
            EACH("strip out", 3, lu::strip(a, c); return var();),
            OP("len", 1, return (long)a.len();),
            OP("search", 1, return a.search("(a)(b)?");),
            OP("match", 1, return a.match("([a-z]*) ?(.*)");),
            EACH("replace", 2, a.replace("[a-c]", b)),
            OP("format", 1, varstream s; s << a; return s;),
            OP("str", 1, return text(a);),
            OP("getline", 2, varstream s(b.copy()); var x; x.getline(s);
               return x;),
            OP("range", 1, return lu::range(i, i + 5, 1 + i % 2);),
            OP("irange", 1, return lu::irange(i);),
            OP("list", 3, return var({a, b, c});),
            OP("init", 2, return var(i % 5, b);),
            OP("shape of", 1, if (a.defined() && !dense(a.atype())) return var();
               return lu::view({i % 3, 2}, a);),
            OP("throw", 2, try { throw error(a); }
               catch (error& e) { return e.what(); }),
            OP("compare", 2, return (a < b) + 2*(a == b) + 4*(a > b)
               + 8*(a != b) + 16*(a <= b) + 32*(a >= b);),
            OP("type", 1, return a.atypeStr();),
            OP("by value", 2, std::vector<var> v(3, a); v[1] = b;
               v.insert(v.begin(), v[2]); v.pop_back(); return v[0];),
            OP("reference", 2, if (!a.size() || a.type() != TYPE_ARRAY)
                   return var();
               var r = a.at(a.size() - 1); var s = r; s.dereference();
               r = s; return s;),
            OP("reference assigned", 2,
               if (!a.size() || a.type() != TYPE_ARRAY) return var();
               put(a, b, [&](var& x) { var r = a.at(a.size()-1); r = x; });
               return var();),
        };
        return all;
    }

    /** Tiny vars made to be used up */
    struct Pool
    {
        var v[3];
        void top(pbt::Gen& g, int k)
        {
            int w;
            look(v[k], &w);
            if (w > 300 || !tame(v[k]))
                v[k] = value(g, 2);
        }
    };

    std::string brief(const var& v)
    {
        std::ostringstream o;
        int w;
        look(v, &w);
        if (w > 60)
            o << v.typeStr() << " of " << v.size();
        else
        {
            o << v;
            if (v.view())
                o << " view of " << v.shape();
        }
        return o.str();
    }

    void one(pbt::Gen& g, Pool& p, bool atomic, int& threw)
    {
        const Op& op = ops()[g.below((int)ops().size())];
        int a = g.below(3), b = g.below(3), c = g.below(3), i = g.below(6);
        g.trace << "; " << op.name << " " << "abc"[a];
        if (op.uses > 1)
            g.trace << "abc"[b];
        if (op.uses > 2)
            g.trace << "abc"[c];
        g.trace << i;
        int keep = g.below(6);
        std::string s[3];
        if (atomic)
            for (int k=0; k<3; k++)
                s[k] = look(p.v[k]);
        bool nested = false;
        for (int k : {a, op.uses > 1 ? b : a, op.uses > 2 ? c : a})
            nested |= p.v[k].defined() && !dense(p.v[k].atype());
        var r;
        try
        {
            r = op.f(p.v[a], p.v[b], p.v[c], i);
        }
        catch (std::exception& e)
        {
            ++threw;
            g.trace << "(throws)";
            g.label(std::string("refused: ") + op.name);
            for (int k=0; atomic && k<3; k++)
            {
                std::string t = look(p.v[k]);
                if (t != s[k] && op.each && nested
                    && pbt::known(g, "C20", "nested-elements"))
                    return;
                EXPECT(t == s[k], "after exception of " << op.name << " "
                       << e.what() << " " << "abc"[k] << " is "
                       << brief(p.v[k]) << " not " << s[k]);
            }
        }
        g.label(op.name);
        r.dereference();
        if (keep < 3)
            p.v[keep] = r;
        for (int k=0; k<3; k++)
            p.top(g, k);
    }

    void start(pbt::Gen& g, Pool& p)
    {
        for (int k=0; k<3; k++)
        {
            if (k && g.rare(5))
                p.v[k] = p.v[g.below(k)];
            else
                p.v[k] = value(g, 2);
            g.trace << (k ? ", " : "") << "abc"[k] << " = " << brief(p.v[k]);
        }
    }
}

PROPERTY(C02, anything, 12000,
         "three values of any kind, nested, shared or views, and up to 40 "
         "operations out of some 100, over the whole library, applied to any "
         "of them, with the result kept now and then; no model, but "
         "sanitizers and allocation accounting; non-trivial if 5 or more "
         "operations succeed and one throws")
{
    Pool p;
    start(g, p);
    int n = 1 + g.sized(40), threw = 0;
    for (int i=0; i<n; i++)
        one(g, p, false, threw);
    g.nontrivial(n - threw > 4 && threw);
}

PROPERTY(C20, anything, 12000,
         "three values of any kind, nested, shared or views, and up to 12 "
         "operations out of some 100, over the whole library; whichever "
         "throws leaves all three values as they were; non-trivial if one "
         "throws")
{
    Pool p;
    start(g, p);
    int n = 1 + g.sized(11), threw = 0;
    for (int i=0; i<n; i++)
        one(g, p, true, threw);
    g.nontrivial(threw);
}
