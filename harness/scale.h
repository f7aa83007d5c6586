/* Cases that are big: few choices, much content */
#ifndef SCALE_H
#define SCALE_H

#include <algorithm>
#include <cmath>
#include <complex>
#include <cstring>
#include <map>
#include <memory>
#include <set>

#include <lube/lube.h>
#include <lube/dft.h>
#include <lube/string.h>
#include <lube/regex.h>
#include "modules.h"

namespace scale
{
    using namespace modules;
    using libube::cfloat;
    using libube::cdouble;

    /** Uniform in magnitude, and often next to a power of two */
    inline int size(pbt::Gen& g, int log)
    {
        int b = 1 << g.below(log + 1);
        int n = g.flip() ? std::max(b + g.range(-1, 1), 1) : b + g.below(b);
        g.trace << n << " ";
        g.nontrivial(n > 300);
        g.label(n > 4000, "more than 4000");
        return n;
    }

    /** Content, from a single choice */
    struct Fill
    {
        uint64_t x;
        explicit Fill(pbt::Gen& g) : x(g.draw(1 << 20) * 2 + 1)
        {
            g.trace << "by " << x << " ";
        }
        uint32_t next()
        {
            x = x * 6364136223846793005ull + 1442695040888963407ull;
            return (uint32_t)(x >> 33);
        }
        int below(int n) { return (int)(next() % (uint32_t)n); }
        int range(int a, int b) { return a + below(b - a + 1); }
        std::string letters(int n)
        {
            std::string s;
            for (int i=0; i<n; i++)
                s += (char)('a' + below(26));
            return s;
        }
        std::string bytes(int n, bool zero = true)
        {
            std::string s;
            for (int i=0; i<n; i++)
                s += zero ? (char)below(256) : (char)(1 + below(255));
            return s;
        }
    };

    /** Small numbers, so that arithmetic is exact */
    template<class T> inline T make(Fill& f) { return (T)f.range(-99, 99); }
    template<> inline cfloat make<cfloat>(Fill& f)
    {
        float r = (float)f.range(-99, 99);
        return cfloat(r, (float)f.range(-99, 99));
    }
    template<> inline cdouble make<cdouble>(Fill& f)
    {
        double r = f.range(-99, 99);
        return cdouble(r, f.range(-99, 99));
    }

    template<class T> inline void same(
        const var& v, const std::vector<T>& e, const char* what
    )
    {
        EXPECT_EQ((size_t)v.size(), e.size(), "size");
        if (e.empty())
            return;
        const T* p = const_cast<var&>(v).ptr<T>();
        for (size_t i=0; i<e.size(); i++)
            EXPECT(p[i] == e[i], what << ": element " << i << " of "
                   << e.size() << " is " << p[i] << " for " << e[i]);
    }

    template<class T> inline var array(const std::vector<T>& e)
    {
        var v = T();
        v.array();
        v.resize((int)e.size());
        for (size_t i=0; i<e.size(); i++)
            *v.ptr<T>((int)i) = e[i];
        return v;
    }

    template<class T> inline std::vector<T> some(Fill& f, int n)
    {
        std::vector<T> e;
        for (int i=0; i<n; i++)
            e.push_back(make<T>(f));
        return e;
    }

    /** Where two texts differ; all of them would be too much */
    inline void sameText(const std::string& a, const std::string& b,
                         const char* what)
    {
        size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i])
            i++;
        size_t from = i < 10 ? 0 : i - 10;
        EXPECT(a == b, what << ": at " << i << " of " << a.size() << " and "
               << b.size() << ": " << pbt::quote(a.substr(from, 30))
               << " expected " << pbt::quote(b.substr(from, 30)));
    }

    inline std::string text(const var& v)
    {
        EXPECT(v.defined() && v.type() == lu::TYPE_ARRAY
               && v.atype() == lu::TYPE_CHAR, "not a text");
        const char* p = v.str();
        EXPECT(p[v.size()] == 0, "not terminated");
        return std::string(p, v.size());
    }
}

#endif // SCALE_H
