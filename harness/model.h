/*
 * Reference model of a var: an ordinary object graph.
 *
 * A Val is nil, a scalar, or a pointer to an Obj.  Assignment copies the Val,
 * so that arrays are shared.  An Obj is an array (its own storage) or a view
 * (a window onto the storage of an array).
 */
#ifndef MODEL_H
#define MODEL_H

#include <cmath>
#include <algorithm>
#include <complex>
#include <memory>
#include <string>
#include <vector>

#include <lube/var.h>
#include "pbt.h"

namespace model
{
    using libube::var;
    using libube::ind;
    using libube::cfloat;
    using libube::cdouble;
    using libube::nil;
    using namespace libube; // TYPE_xxx

    struct Obj;
    typedef std::shared_ptr<Obj> ObjP;

    /** Scalar types only; an element whose value is indeterminate is UNKNOWN */
    enum { UNKNOWN = -1 };

    struct Val
    {
        int t = TYPE_ARRAY;     // With p null, nil
        long i = 0;
        double re = 0, im = 0;
        ObjP p;

        bool isNil() const { return t == TYPE_ARRAY && !p; }
        bool isArr() const { return t == TYPE_ARRAY && p; }
        bool scalar() const { return t != TYPE_ARRAY; }
    };

    struct Storage
    {
        int type;               // Element type, TYPE_VAR or TYPE_PAIR
        std::vector<Val> e;
        std::vector<Val> k;     // Keys of a map
    };

    struct Obj
    {
        std::shared_ptr<Storage> s;
        bool view = false;
        int off = 0;
        std::vector<int> shape;

        int size() const
        {
            if (!view)
                return (int)s->e.size();
            int n = 1;
            for (int x : shape)
                n *= x;
            return n;
        }
        Val& at(int i) { return s->e[i + off]; }
        int type() const { return s->type; }
        int dim() const { return view ? (int)shape.size() : 1; }
        int dimSize(int i) const { return view ? shape[i] : size(); }
    };

    /** The model says that the operation must throw */
    struct Throws {};

    // --- Construction

    inline Val mChar(char c) { Val v; v.t = TYPE_CHAR; v.i = c; return v; }
    inline Val mInt(int i) { Val v; v.t = TYPE_INT; v.i = i; return v; }
    inline Val mLong(long i) { Val v; v.t = TYPE_LONG; v.i = i; return v; }
    inline Val mFloat(float f) { Val v; v.t = TYPE_FLOAT; v.re = f; return v; }
    inline Val mDouble(double f) { Val v; v.t = TYPE_DOUBLE; v.re = f; return v; }
    inline Val mCFloat(cfloat c)
    {
        Val v; v.t = TYPE_CFLOAT; v.re = c.real(); v.im = c.imag(); return v;
    }
    /** As an element; on its own it is an array of size 1 */
    inline Val mCDouble(cdouble c)
    {
        Val v; v.t = TYPE_CDOUBLE; v.re = c.real(); v.im = c.imag(); return v;
    }
    inline Val mUnknown() { Val v; v.t = UNKNOWN; return v; }
    inline Val mArr(int type)
    {
        Val v;
        v.p = std::make_shared<Obj>();
        v.p->s = std::make_shared<Storage>();
        v.p->s->type = type;
        return v;
    }
    inline Val mStr(const std::string& s)
    {
        Val v = mArr(TYPE_CHAR);
        for (char c : s)
            v.p->s->e.push_back(mChar(c));
        return v;
    }

    inline int sizeOf(const Val& v)
    {
        return v.isNil() ? 0 : v.scalar() ? 1 : v.p->size();
    }
    inline bool dense(int type)
    {
        return type != TYPE_VAR && type != TYPE_PAIR;
    }
    inline bool isMap(const Val& v)
    {
        return v.isArr() && v.p->type() == TYPE_PAIR;
    }
    inline std::string strOf(const Val& v)
    {
        std::string s;
        for (int i=0; i<v.p->size(); i++)
            s += (char)v.p->at(i).i;
        return s;
    }

    // --- Text

    inline void print(std::ostream& o, const Val& v, int depth = 0)
    {
        switch (v.t)
        {
        case UNKNOWN: o << "?"; return;
        case TYPE_CHAR: o << "'" << pbt::quote(std::string(1, (char)v.i)) << "'"; return;
        case TYPE_INT: o << v.i; return;
        case TYPE_LONG: o << v.i << "l"; return;
        case TYPE_FLOAT: o << v.re << "f"; return;
        case TYPE_DOUBLE: o << v.re << "d"; return;
        case TYPE_CFLOAT: o << v.re << "+" << v.im << "if"; return;
        case TYPE_CDOUBLE: o << v.re << "+" << v.im << "id"; return;
        }
        if (!v.p)
        {
            o << "nil";
            return;
        }
        if (depth > 8)
        {
            o << "...";
            return;
        }
        if (v.p->view)
        {
            o << "view@" << v.p->off << "(";
            for (int x : v.p->shape)
                o << x << ",";
            o << ")";
        }
        if (v.p->type() == TYPE_CHAR && !v.p->view)
        {
            bool k = true;
            for (auto& e : v.p->s->e)
                k = k && e.t == TYPE_CHAR;
            if (k)
            {
                o << pbt::quote(strOf(v));
                return;
            }
        }
        o << typeStr(v.p->type()) << (isMap(v) ? "{" : "[");
        int n = v.p->size();
        if (v.p->off + n > (int)v.p->s->e.size())
        {
            o << "dangling]";
            return;
        }
        for (int i=0; i<n; i++)
        {
            if (i)
                o << ", ";
            if (i > 40)
            {
                o << "... " << n;
                break;
            }
            if (isMap(v))
            {
                print(o, v.p->s->k[i+v.p->off], depth+1);
                o << ": ";
            }
            print(o, v.p->at(i), depth+1);
        }
        o << (isMap(v) ? "}" : "]");
    }

    inline std::string show(const Val& v)
    {
        std::ostringstream s;
        s.precision(9);
        print(s, v);
        return s.str();
    }

    // --- Equality and order, structurally

    /** The value as an element reads: a cdouble element reads as an array */
    inline bool equal(const Val& a, const Val& b)
    {
        if (a.t != b.t)
            return false;
        switch (a.t)
        {
        case TYPE_CHAR: case TYPE_INT: case TYPE_LONG:
            return a.i == b.i;
        case TYPE_FLOAT: case TYPE_DOUBLE:
            return a.re == b.re;
        case TYPE_CFLOAT: case TYPE_CDOUBLE:
            return a.re == b.re && a.im == b.im;
        }
        if (!a.p || !b.p)
            return !a.p && !b.p;
        if (a.p->size() != b.p->size())
            return false;
        if (isMap(a) != isMap(b))
            return false;
        if (a.p->dim() != b.p->dim())
            return false;
        if (a.p->dim() > 1 && a.p->shape != b.p->shape)
            return false;
        for (int i=0; i<a.p->size(); i++)
        {
            if (isMap(a) && !equal(a.p->s->k[i+a.p->off],
                                   b.p->s->k[i+b.p->off]))
                return false;
            if (!equal(a.p->at(i), b.p->at(i)))
                return false;
        }
        return true;
    }

    /** -1, 0, 1.  Not for complex */
    inline int compare(const Val& a, const Val& b)
    {
        if (a.t != b.t)
            return a.t < b.t ? -1 : 1;
        switch (a.t)
        {
        case TYPE_CHAR:
        {
            int x = (unsigned char)a.i, y = (unsigned char)b.i;
            return x < y ? -1 : x > y;
        }
        case TYPE_INT: case TYPE_LONG:
            return a.i < b.i ? -1 : a.i > b.i;
        case TYPE_FLOAT: case TYPE_DOUBLE:
            return a.re < b.re ? -1 : a.re > b.re;
        }
        if (!a.p || !b.p)
            return (a.p ? 1 : 0) - (b.p ? 1 : 0);
        if (isMap(a) != isMap(b))
            return isMap(b) ? -1 : 1;
        bool chars = a.p->type() == TYPE_CHAR && b.p->type() == TYPE_CHAR;
        bool maps = isMap(a) && isMap(b);
        int n = std::min(a.p->size(), b.p->size());
        for (int i=0; i<n; i++)
        {
            int c = 0;
            if (chars)
                c = (int)(unsigned char)a.p->at(i).i
                    - (int)(unsigned char)b.p->at(i).i;
            else
            {
                if (maps)
                    c = compare(a.p->s->k[i+a.p->off], b.p->s->k[i+b.p->off]);
                if (!c)
                    c = compare(a.p->at(i), b.p->at(i));
            }
            if (c)
                return c < 0 ? -1 : 1;
        }
        int sa = a.p->size(), sb = b.p->size();
        if (sa != sb)
            return sa < sb ? -1 : 1;
        if (a.p->dim() != b.p->dim())
            return a.p->dim() < b.p->dim() ? -1 : 1;
        if (a.p->dim() > 1)
            for (int i=0; i<a.p->dim(); i++)
                if (a.p->shape[i] != b.p->shape[i])
                    return a.p->shape[i] < b.p->shape[i] ? -1 : 1;
        return 0;
    }

    // --- Reality

    /** A scalar read through the typed accessor */
    inline bool sameScalar(const var& v, const Val& m)
    {
        switch (m.t)
        {
        case TYPE_CHAR: return v.get<char>() == (char)m.i;
        case TYPE_INT: return v.get<int>() == (int)m.i;
        case TYPE_LONG: return v.get<long>() == m.i;
        case TYPE_FLOAT: return v.get<float>() == (float)m.re;
        case TYPE_DOUBLE: return v.get<double>() == m.re;
        case TYPE_CFLOAT: return v.get<cfloat>() == cfloat(m.re, m.im);
        case TYPE_CDOUBLE: return v.get<cdouble>() == cdouble(m.re, m.im);
        }
        return false;
    }

    inline bool samePtr(var& v, const Val& m, int i)
    {
        switch (m.t)
        {
        case TYPE_CHAR: return *v.ptr<char>(i) == (char)m.i;
        case TYPE_INT: return *v.ptr<int>(i) == (int)m.i;
        case TYPE_LONG: return *v.ptr<long>(i) == m.i;
        case TYPE_FLOAT: return *v.ptr<float>(i) == (float)m.re;
        case TYPE_DOUBLE: return *v.ptr<double>(i) == m.re;
        case TYPE_CFLOAT: return *v.ptr<cfloat>(i) == cfloat(m.re, m.im);
        case TYPE_CDOUBLE: return *v.ptr<cdouble>(i) == cdouble(m.re, m.im);
        }
        return false;
    }

    /**
     * Everything observable about v against the model.  Returns an empty
     * string or what is wrong.
     */
    inline std::string differs(const var& v, const Val& m,
                               const std::string& path = "", int depth = 0)
    {
        auto bad = [&](const std::string& s) {
            return "at " + (path.empty() ? std::string("top") : path) + ": "
                + s + ", expected " + show(m);
        };
        if (m.t == UNKNOWN)
            return "";
        if (depth > 40)
            return "";
        if (m.isNil())
        {
            if (v.defined() || v.type() != TYPE_ARRAY)
                return bad("not nil");
            if (v.size() != 0)
                return bad("nil has size " + std::to_string(v.size()));
            return "";
        }
        if (!v.defined())
            return bad("undefined");
        if (m.scalar())
        {
            if (v.type() != m.t || v.atype() != m.t)
                return bad(std::string("type is ") + typeStr(v.type()));
            if (v.size() != 1)
                return bad("scalar size is " + std::to_string(v.size()));
            if (!sameScalar(v, m))
                return bad("wrong value");
            if (v.heap())
                return bad("scalar is an array");
            return "";
        }

        // Array
        Obj& o = *m.p;
        if (v.type() != TYPE_ARRAY)
            return bad(std::string("type is ") + typeStr(v.type()));
        if (v.atype() != o.type())
            return bad(std::string("array type is ") + typeStr(v.atype()));
        if (v.size() != o.size())
            return bad("size is " + std::to_string(v.size()));
        if (v.view() != o.view)
            return bad(v.view() ? "is a view" : "is not a view");
        if (v.dim() != o.dim())
            return bad("dim is " + std::to_string(v.dim()));
        if (o.view)
        {
            if (v.offset() != o.off)
                return bad("offset is " + std::to_string(v.offset()));
            int stride = 1;
            for (int d=o.dim()-1; d>=0; d--)
            {
                if (v.shape(d) != o.shape[d])
                    return bad("shape");
                if (v.shape(d - o.dim()) != o.shape[d])
                    return bad("negative shape");
                if (v.stride(d) != stride)
                    return bad("stride");
                stride *= o.shape[d];
            }
        }
        int n = o.size();
        if (o.off + n > (int)o.s->e.size())
            return ""; // The array shrank under the view
        for (int i=0; i<n; i++)
        {
            const Val& e = o.at(i);
            std::string p = path + "[" + std::to_string(i) + "]";
            if (o.type() == TYPE_CDOUBLE)
            {
                if (e.t != UNKNOWN)
                {
                    var r = v.at(i);
                    if (r.get<cdouble>() != cdouble(e.re, e.im))
                        return bad("element " + std::to_string(i));
                }
            }
            else
            {
                std::string s = differs(v.at(i), e, p, depth+1);
                if (!s.empty())
                    return s;
            }
            if (dense(o.type()) && e.t != UNKNOWN)
            {
                var w = v;
                if (!samePtr(w, e, i))
                    return bad("data pointer at " + std::to_string(i));
            }
            if (o.type() == TYPE_PAIR && !o.view)
            {
                std::string s =
                    differs(v.key(i), o.s->k[i], path + ".key"
                            + std::to_string(i), depth+1);
                if (!s.empty())
                    return s;
            }
        }
        if (o.type() == TYPE_CHAR && !o.view)
        {
            const char* s = v.str();
            if (s[n] != 0)
                return bad("string is not terminated");
        }
        return "";
    }

    // --- Building the real thing from the model

    var build(const Val& m);

    inline var buildScalar(const Val& m)
    {
        switch (m.t)
        {
        case TYPE_CHAR: return var((char)m.i);
        case TYPE_INT: return var((int)m.i);
        case TYPE_LONG: return var((long)m.i);
        case TYPE_FLOAT: return var((float)m.re);
        case TYPE_DOUBLE: return var((double)m.re);
        case TYPE_CFLOAT: return var(cfloat(m.re, m.im));
        case TYPE_CDOUBLE: return var(cdouble(m.re, m.im));
        }
        return var();
    }

    /** An array with the given element type and size; the slow, plain way */
    inline var build(const Val& m)
    {
        var r;
        if (m.isNil())
            return r;
        if (m.scalar())
        {
            r = buildScalar(m);
            return r;
        }
        Obj& o = *m.p;
        switch (o.type())
        {
        case TYPE_CHAR:
            r = strOf(m).c_str();
            if (r.size() != o.size())
            {
                // Embedded zero
                std::string s = strOf(m);
                r = var((int)s.size(), s.data());
            }
            break;
        case TYPE_VAR:
            r.resize(0);
            for (int i=0; i<o.size(); i++)
            {
                r.resize(i+1);
                r[i] = build(o.at(i));
            }
            break;
        case TYPE_PAIR:
            r[nil];
            for (int i=0; i<o.size(); i++)
                r[build(o.s->k[i])] = build(o.at(i));
            break;
        default:
        {
            Val z;
            z.t = o.type();
            r = buildScalar(z);
            r.array();
            r.resize(o.size());
            for (int i=0; i<o.size(); i++)
                r[i] = buildScalar(o.at(i));
        }
        }
        return r;
    }

    // --- Generators

    inline float genFloat(pbt::Gen& g)
    {
        // Of modest size; now and then using all of the precision
        if (g.rare(15))
            return (float)g.range(-(1 << 24), 1 << 24) / (float)(1 << 17);
        return (float)(g.range(0, 200) - 100) / (float)(1 << g.below(4));
    }
    inline double genDouble(pbt::Gen& g)
    {
        if (g.rare(15))
            return (double)g.range64(-(1L << 53), 1L << 53)
                / (double)(1L << 43);
        return (double)(g.range(0, 4000) - 2000) / (double)(1 << g.below(6));
    }

    inline Val genScalar(pbt::Gen& g, int type)
    {
        switch (type)
        {
        case TYPE_CHAR: return mChar((char)(g.rare(12) ? g.below(256)
                                            : 'a' + g.below(26)));
        case TYPE_INT: return mInt(g.rare(20)
                                   ? (int)g.range64(INT32_MIN, INT32_MAX)
                                   : g.range(-50, 50));
        case TYPE_LONG: return mLong(g.rare(10)
                                     ? g.range64(INT64_MIN, INT64_MAX)
                                     : g.range(-50, 50));
        case TYPE_FLOAT: return mFloat(genFloat(g));
        case TYPE_DOUBLE: return mDouble(genDouble(g));
        case TYPE_CFLOAT:
        {
            float a = genFloat(g), b = genFloat(g);
            return mCFloat(cfloat(a, b));
        }
        case TYPE_CDOUBLE:
        {
            double a = genDouble(g), b = genDouble(g);
            return mCDouble(cdouble(a, b));
        }
        }
        return Val();
    }

    /** A scalar of the same type that is hard to tell apart */
    inline Val nearby(pbt::Gen& g, const Val& x)
    {
        bool up = g.flip();
        switch (x.t)
        {
        case TYPE_CHAR: return mChar((char)(x.i ^ (1 << g.below(8))));
        case TYPE_INT:
            if (g.flip())
                return mInt((int)((uint32_t)x.i ^ (1u << g.below(32))));
            return mInt((int)((uint32_t)x.i + (up ? 1 : -1)));
        case TYPE_LONG:
            if (g.flip())
                return mLong((long)((uint64_t)x.i ^ (1ul << g.below(64))));
            return mLong((long)((uint64_t)x.i + (up ? 1 : -1)));
        case TYPE_FLOAT:
            return mFloat(g.rare(8) ? -(float)x.re
                          : std::nextafter((float)x.re, up ? 1e9f : -1e9f));
        case TYPE_DOUBLE:
            return mDouble(g.rare(8) ? -x.re : g.flip() ? (double)(float)x.re
                           : std::nextafter(x.re, up ? 1e99 : -1e99));
        case TYPE_CFLOAT:
            return mCFloat(up ? cfloat(x.re, -x.im) : cfloat(-x.re, x.im));
        case TYPE_CDOUBLE:
            return mCDouble(up ? cdouble(x.re, -x.im) : cdouble(-x.re, x.im));
        }
        return x;
    }

    /** Scalars that are safe to convert to any type */
    inline Val genSmall(pbt::Gen& g, int type)
    {
        int n = g.range(0, 100);
        switch (type)
        {
        case TYPE_CHAR: return mChar((char)n);
        case TYPE_INT: return mInt(n - 50);
        case TYPE_LONG: return mLong(n - 50);
        case TYPE_FLOAT: return mFloat((n - 50) / 4.0f);
        case TYPE_DOUBLE: return mDouble((n - 50) / 8.0);
        case TYPE_CFLOAT: return mCFloat(cfloat(n - 50, g.below(9)));
        case TYPE_CDOUBLE: return mCDouble(cdouble(n - 50, g.below(9)));
        }
        return Val();
    }

    inline std::string genText(pbt::Gen& g, int max)
    {
        std::string s;
        int n = g.sized(max);
        int style = g.below(5);
        for (int i=0; i<n; i++)
            switch (style)
            {
            case 0: s += (char)('a' + g.below(3)); break;
            case 1: s += (char)('a' + g.below(26)); break;
            case 2: s += (char)(32 + g.below(95)); break;
            case 3: s += " \t\nab\r"[g.below(6)]; break;
            case 4: s += (char)(1 + g.below(255)); break;
            }
        return s;
    }

    inline int genScalarType(pbt::Gen& g)
    {
        return g.pick({TYPE_INT, TYPE_CHAR, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE,
                    TYPE_CFLOAT});
    }

    /** Any value at all; complex numbers as wanted */
    inline Val genVal(pbt::Gen& g, int depth, bool cplx = true)
    {
        int w = depth > 0 ? g.weighted({2, 8, 4, 3, 3, 2})
            : g.weighted({2, 8, 4});
        switch (w)
        {
        case 0:
            return Val();
        case 1:
        {
            int t = genScalarType(g);
            if (!cplx && t == TYPE_CFLOAT)
                t = TYPE_INT;
            return genScalar(g, t);
        }
        case 2:
            return mStr(genText(g, 12));
        case 3:
        {
            int t = g.pick({TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE,
                        TYPE_CFLOAT, TYPE_CDOUBLE});
            if (!cplx && (t == TYPE_CFLOAT || t == TYPE_CDOUBLE))
                t = TYPE_DOUBLE;
            Val r = mArr(t);
            int n = g.sized(10);
            for (int i=0; i<n; i++)
                r.p->s->e.push_back(genScalar(g, t));
            return r;
        }
        case 4:
        {
            Val r = mArr(TYPE_VAR);
            int n = g.sized(6);
            for (int i=0; i<n; i++)
                r.p->s->e.push_back(genVal(g, depth-1, cplx));
            return r;
        }
        default:
        {
            Val r = mArr(TYPE_PAIR);
            int n = g.sized(6);
            for (int i=0; i<n; i++)
            {
                Val k = g.rare(4) ? genScalar(g, TYPE_INT)
                    : mStr(genText(g, 5));
                auto& ks = r.p->s->k;
                size_t p = 0;
                while (p < ks.size() && compare(ks[p], k) < 0)
                    ++p;
                if (p < ks.size() && compare(ks[p], k) == 0)
                    continue;
                ks.insert(ks.begin()+p, k);
                Val x = genVal(g, depth-1, cplx);
                r.p->s->e.insert(r.p->s->e.begin()+p, x);
            }
            return r;
        }
        }
    }
}

#endif // MODEL_H
