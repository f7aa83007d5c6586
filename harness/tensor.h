/* Arrays and views of one numeric type, with a flat model */
#ifndef TENSOR_H
#define TENSOR_H

#include <algorithm>
#include <cmath>
#include <complex>
#include <limits>
#include <lube/var.h>
#include "pbt.h"

namespace tensor
{
    using libube::var;
    using libube::cfloat;
    using libube::cdouble;

    template<class T> struct Traits;
    template<> struct Traits<char>
    { typedef int R; enum { code = libube::TYPE_CHAR, real = 0, cplx = 0 }; };
    template<> struct Traits<int>
    { typedef int R; enum { code = libube::TYPE_INT, real = 0, cplx = 0 }; };
    template<> struct Traits<long>
    { typedef long R; enum { code = libube::TYPE_LONG, real = 0, cplx = 0 }; };
    template<> struct Traits<float>
    { typedef float R; enum { code = libube::TYPE_FLOAT, real = 1, cplx = 0 };};
    template<> struct Traits<double>
    { typedef double R;
        enum { code = libube::TYPE_DOUBLE, real = 1, cplx = 0 }; };
    template<> struct Traits<cfloat>
    { typedef float R;
        enum { code = libube::TYPE_CFLOAT, real = 0, cplx = 1 }; };
    template<> struct Traits<cdouble>
    { typedef double R;
        enum { code = libube::TYPE_CDOUBLE, real = 0, cplx = 1 }; };

    typedef std::vector<int> Shape;

    inline int product(const Shape& s, int from = 0)
    {
        int n = 1;
        for (size_t i=from; i<s.size(); i++)
            n *= s[i];
        return n;
    }

    inline std::string str(const Shape& s)
    {
        std::string r = "(";
        for (int i : s)
            r += (r.size() > 1 ? "," : "") + std::to_string(i);
        return r + ")";
    }

    inline var shapeVar(const Shape& s)
    {
        var v;
        v = var((int)s.size(), var(0));
        for (size_t i=0; i<s.size(); i++)
            v.ptr<int>()[i] = s[i];
        return v;
    }

    /** Quarters, mostly small; exact in float, as are their sums */
    inline double number(pbt::Gen& g)
    {
        switch (g.weighted({6, 3, 1}))
        {
        case 0: return g.range(-4, 4);
        case 1: return g.range(-40, 40) * 0.25;
        default: return g.range(-1000, 1000) * 0.5;
        }
    }

    template<class T> struct Make
    {
        static T one(pbt::Gen& g)
        {
            if (Traits<T>::real)
                return (T)number(g);
            // The product of two such still fits
            if (sizeof(T) > 1 && g.rare(12))
                return (T)(sizeof(T) == 8
                           ? g.range64(-3000000000ll, 3000000000ll)
                           : g.range(-40000, 40000));
            return (T)g.range(-9, 9);
        }
    };
    template<class R> struct Make<std::complex<R>>
    {
        static std::complex<R> one(pbt::Gen& g)
        {
            R re = (R)number(g);
            return std::complex<R>(re, g.flip() ? (R)number(g) : (R)0);
        }
    };

    template<class T> bool near(T a, T b, double scale, double eps)
    {
        return a == b || std::abs((cdouble)a - (cdouble)b) <= eps * scale;
    }
    inline bool bothNaN(double a, double b)
    {
        return std::isnan(a) && std::isnan(b);
    }
    template<class T> double epsilon()
    {
        return std::numeric_limits<typename Traits<T>::R>::epsilon();
    }

    inline Shape genShape(pbt::Gen& g, int dims, int limit = 240)
    {
        // Now and then much bigger
        bool big = g.rare(40);
        if (big)
            limit *= 10;
        Shape s;
        int n = 1;
        for (int d=0; d<dims; d++)
        {
            int m = std::max(1, std::min(limit / n, dims == 1
                                         ? big ? 2500 : 1 + g.sized(60)
                                         : (dims == 2 ? 9 : 5)
                                         * (big ? 8 : 1)));
            int k = 1 + g.below(m);
            s.push_back(k);
            n *= k;
        }
        return s;
    }

    /** How a tensor is held */
    enum { PLAIN, VIEW, WINDOW };

    template<class T> struct Tensor
    {
        Shape shape;
        std::vector<T> data;    ///< Expected elements
        var v;                  ///< The variable
        var back;               ///< The array it's a window on, if any
        std::vector<T> all;     ///< Expected content of back
        int off = 0;

        int size() const { return (int)data.size(); }
        int dim() const { return (int)shape.size(); }

        /** Model of a write to the whole tensor */
        void set(const std::vector<T>& d)
        {
            data = d;
            if (!all.empty())
                std::copy(d.begin(), d.end(), all.begin() + off);
        }

        /** What's wrong with it */
        std::string wrong(double scale = 0, double tol = 0) const
        {
            std::string s = wrongly(v, shape, data, scale, tol);
            if (!s.empty())
                return s;
            if (all.empty())
                return s;
            Shape b = {(int)all.size()};
            s = wrongly(back, b, all, scale, tol);
            return s.empty() ? s : "in array behind window: " + s;
        }

        static std::string wrongly(const var& v, const Shape& shape,
                                   const std::vector<T>& data,
                                   double scale = 0, double tol = 0)
        {
            std::ostringstream o;
            if (!v.defined())
                return "undefined";
            if (v.atype() != (int)Traits<T>::code)
            {
                o << "type " << libube::typeStr(v.atype());
                return o.str();
            }
            if (v.size() != (int)data.size())
            {
                o << "size " << v.size() << " for " << data.size();
                return o.str();
            }
            Shape s;
            for (int i=0; i<v.dim(); i++)
                s.push_back(v.shape(i));
            if (s != shape)
                return "shape " + str(s) + " for " + str(shape);
            // ...which is what operator () goes by
            for (int i=v.dim()-1, stride=1; i>=0; i--)
            {
                if (v.stride(i) != stride)
                {
                    o << "stride " << i << " of " << str(shape) << " is "
                      << v.stride(i);
                    return o.str();
                }
                stride *= shape[i];
            }
            for (size_t i=0; i<data.size(); i++)
            {
                T x = v.at((int)i).template get<T>();
                if (!near(x, data[i], scale + std::abs((cdouble)data[i]), tol))
                {
                    o.precision(17);
                    o << "element " << i << " of " << str(shape) << " is "
                      << (cdouble)x << " for " << (cdouble)data[i];
                    return o.str();
                }
            }
            return "";
        }
    };

    template<class T> std::ostream& operator <<(std::ostream& o,
                                                const Tensor<T>& t)
    {
        o << libube::typeStr((int)Traits<T>::code) << str(t.shape)
          << (t.all.empty() ? "" : "@") ;
        if (!t.all.empty())
            o << t.off << "/" << t.all.size();
        o << "[";
        for (size_t i=0; i<t.data.size(); i++)
            o << (i ? " " : "") << (cdouble)t.data[i];
        return o << "]";
    }

    template<class T> var array(int n)
    {
        var v = (T)0;
        v.array();
        v.resize(n);
        return v;
    }

    template<class T>
    Tensor<T> hold(const Shape& s, const std::vector<T>& d, int how,
                   int before = 0, int after = 0)
    {
        Tensor<T> t;
        t.shape = s;
        t.data = d;
        int n = (int)d.size();
        if (how == PLAIN && s.size() != 1)
            how = VIEW;
        switch (how)
        {
        case PLAIN:
            t.v = array<T>(n);
            if (n > 0)
                std::copy(d.begin(), d.end(), t.v.template ptr<T>());
            break;
        case VIEW:
            t.v = libube::view(shapeVar(s), var((T)0));
            for (int i=0; i<n; i++)
                *t.v.template ptr<T>(i) = d[i];
            break;
        case WINDOW:
            t.off = before;
            t.all.assign(before + n + after, (T)0);
            for (size_t i=0; i<t.all.size(); i++)
                t.all[i] = (T)(100 + (int)(i % 17));
            std::copy(d.begin(), d.end(), t.all.begin() + before);
            t.back = array<T>((int)t.all.size());
            std::copy(t.all.begin(), t.all.end(), t.back.template ptr<T>());
            t.v = t.back.view(shapeVar(s), before);
            break;
        }
        return t;
    }

    template<class T>
    Tensor<T> hold(pbt::Gen& g, const Shape& s, const std::vector<T>& d)
    {
        int how = g.below(3);
        int b = how == WINDOW ? g.below(5) : 0;
        int a = how == WINDOW ? 1 + g.below(4) : 0;
        return hold(s, d, how, b, a);
    }

    template<class T> std::vector<T> fill(pbt::Gen& g, int n)
    {
        std::vector<T> d;
        for (int i=0; i<n; i++)
            d.push_back(Make<T>::one(g));
        return d;
    }

    template<class T> Tensor<T> gen(pbt::Gen& g, const Shape& s)
    {
        return hold(g, s, fill<T>(g, product(s)));
    }

    /** True if f() throws libube::error */
    template<class F> bool throws(F f)
    {
        try { f(); }
        catch (libube::error&) { return true; }
        return false;
    }
}

#endif // TENSOR_H
