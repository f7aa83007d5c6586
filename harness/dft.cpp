/* Discrete Fourier transforms */
#include <memory>
#include <lube/dft.h>
#include "tensor.h"

using namespace tensor;
namespace lu = libube;

namespace libube
{
    UnaryFunctor* dftOther(int iSize, bool iInverse, var iType);
}

static lu::UnaryFunctor* make(bool other, int n, bool inverse, var type)
{
    if (other)
        return lu::dftOther(n, inverse, type);
    if (inverse)
        return new lu::IDFT(n, type);
    return new lu::DFT(n, type);
}

static std::vector<cdouble> transform(const std::vector<cdouble>& x, int sign)
{
    int n = (int)x.size();
    std::vector<cdouble> y;
    for (int k=0; k<n; k++)
    {
        cdouble s = 0;
        for (int i=0; i<n; i++)
            s += x[i] * std::polar(1.0, sign * 2 * M_PI
                                   * ((long)i * k % n) / n);
        y.push_back(s);
    }
    return y;
}

#define CHECK(t, tol, what)                                     \
    do { std::string why_s = (t).wrong(scale, tol);             \
        EXPECT(why_s.empty(), what << ": " << why_s); } while (0)

// T is the type of the input to the forward transform, C of its output
template<class T, class C> void dft(pbt::Gen& g, bool other)
{
    typedef typename Traits<T>::R R;
    bool real = (int)Traits<T>::code == (int)Traits<R>::code;
    int n = g.rare(4) ? 1 + g.wide(63, 600) : 1 + g.below(17);
    if (other && real && n % 2)
        n++;
    Shape lead;
    int rows = 1;
    for (int d=g.weighted({3, 2, 1}); d>0; d--)
    {
        lead.push_back(1 + (n < 64 ? g.wide(2, 40, 60) : g.below(3)));
        rows *= lead.back();
    }
    int m = real ? n/2 + 1 : n;
    Shape st = lead, sf = lead;
    st.push_back(n);
    sf.push_back(m);
    std::vector<T> t;
    std::vector<C> f;
    double scale = 0;
    for (int r=0; r<rows; r++)
    {
        std::vector<cdouble> x;
        for (int i=0; i<n; i++)
        {
            T y = Make<T>::one(g);
            if (g.rare(3))
                y = 0;
            x.push_back((cdouble)y);
            t.push_back(y);
            scale = std::max(scale, std::abs((cdouble)y));
        }
        std::vector<cdouble> y = transform(x, -1);
        for (int i=0; i<m; i++)
            f.push_back((C)y[i]);
    }
    // Both the sum and rounding in f
    scale *= n;
    double tol = 16 * epsilon<T>();
    bool inverse = g.flip();
    bool out = g.flip();
    g.trace << (other ? "kiss " : "mkl ") << (inverse ? "inverse " : "")
            << n << " ";
    int before = g.below(4), how = g.below(3);
    Tensor<T> a = hold(st, t, how, before, 1 + g.below(3));
    Tensor<C> b = hold(sf, f, how, before, 1 + g.below(3));
    // A single cdouble is a scalar unless a view
    if ((!inverse && a.size() == 1) || (inverse && b.size() == 1))
    {
        a = hold(st, t, VIEW);
        b = hold(sf, f, VIEW);
    }
    var type = (T)0;
    std::unique_ptr<lu::UnaryFunctor> p(make(other, n, inverse, type));
    const lu::UnaryFunctor& fn = *p;
    if (!inverse)
    {
        g.trace << a;
        if (out)
        {
            Tensor<C> o = gen<C>(g, sf);
            if (o.size() == 1)
                o = hold(sf, f, VIEW);
            fn(a.v, o.v);
            o.set(f);
            CHECK(o, tol, "output");
        }
        else
        {
            Tensor<C> o;
            o.v = fn(a.v);
            o.shape = sf;
            o.data = f;
            CHECK(o, tol, "result");
        }
        CHECK(a, 0, "operand");
    }
    else
    {
        g.trace << b;
        Tensor<T> o;
        if (out)
        {
            o = gen<T>(g, st);
            if (o.size() == 1)
                o = hold(st, t, VIEW);
            fn(b.v, o.v);
            o.set(t);
        }
        else
        {
            o.v = fn(b.v);
            o.shape = st;
            o.data = t;
        }
        CHECK(o, tol, (out ? "output" : "result"));
        CHECK(b, 0, "operand");
    }
    // And again with the same one
    if (!inverse && g.rare(4))
    {
        Tensor<C> o;
        o.v = fn(a.v);
        o.shape = sf;
        o.data = f;
        CHECK(o, tol, "second result");
        // The results are independent
        var other = fn(a.v);
        for (int i=0; i<other.size(); i++)
            other.at(i) = C(1);
        CHECK(o, tol, "second result after writing the third");
    }
    g.nontrivial(n > 2);
    g.label(rows > 1, "several");
    g.label(n & (n-1), "size not a power of 2");
    g.label(real ? "real" : "complex");
}

PROPERTY(C26, transform, 60000,
         "forward and inverse transforms of sizes 1 to 64 (rarely 600) of the 4 "
         "floating types with up to 2 leading dimensions, by both (with a "
         "stand-in for the Kiss FFT library), against the sum that "
         "defines it; non-trivial if the size is 3 or more")
{
    switch (g.weighted({3, 3, 2, 2, 1, 1}))
    {
    case 0: dft<double, cdouble>(g, false); break;
    case 1: dft<float, cfloat>(g, false); break;
    case 2: dft<cdouble, cdouble>(g, false); break;
    case 3: dft<cfloat, cfloat>(g, false); break;
    case 4: dft<float, cfloat>(g, true); break;
    case 5: dft<cfloat, cfloat>(g, true); break;
    }
}

PROPERTY(C26, refused, 20000,
         "input or output that is not an array, is of the wrong type, or is "
         "too small, and transforms of other types, are refused; in place "
         "too; all non-trivial")
{
    const int T[] = {lu::TYPE_FLOAT, lu::TYPE_CFLOAT, lu::TYPE_DOUBLE,
                     lu::TYPE_CDOUBLE};
    auto zero = [&](int t) {
        switch (t)
        {
        case lu::TYPE_FLOAT: return var(0.0f);
        case lu::TYPE_DOUBLE: return var(0.0);
        case lu::TYPE_CFLOAT: return var(cfloat(0, 0));
        default: return var(cdouble(0, 0));
        }
    };
    auto tensor = [&](int t, int n) {
        var s;
        s.push(n);
        return lu::view(s, zero(t));
    };
    int k = g.below(4);
    bool other = k < 2 && g.flip();
    bool inverse = g.flip();
    int n = 2 + 2 * g.below(10);
    int spectrum = k == 1 ? lu::TYPE_CFLOAT : k == 3 ? lu::TYPE_CDOUBLE
        : k == 0 ? lu::TYPE_CFLOAT : lu::TYPE_CDOUBLE;
    int m = k == 0 || k == 2 ? n/2 + 1 : n;
    int ti = inverse ? spectrum : T[k], to = inverse ? T[k] : spectrum;
    int ni = inverse ? m : n, no = inverse ? n : m;
    g.trace << (other ? "kiss " : "mkl ") << lu::typeStr(T[k])
            << (inverse ? " inverse " : " ") << n;
    bool threw = false;
    switch (g.below(6))
    {
    case 0:
    {
        g.trace << " of bad type";
        var t = g.flip() ? var(1) : g.flip() ? var("x") : var(1l);
        if (other && g.flip())
            t = g.flip() ? var(0.0) : var(cdouble(0, 0));
        threw = throws([&] {
            std::unique_ptr<lu::UnaryFunctor> p(make(other, n, inverse, t));
        });
        break;
    }
    default:
    {
        std::unique_ptr<lu::UnaryFunctor> p(make(other, n, inverse,
                                                 zero(T[k])));
        switch (g.below(6))
        {
        case 0:
        {
            g.trace << " wrong input";
            int t = T[g.below(4)];
            while (t == ti)
                t = t == lu::TYPE_FLOAT ? lu::TYPE_DOUBLE : lu::TYPE_FLOAT;
            var v = tensor(t, ni);
            threw = throws([&] { var r = (*p)(v); });
            break;
        }
        case 1:
        {
            g.trace << " wrong output";
            int t = T[g.below(4)];
            while (t == to)
                t = t == lu::TYPE_FLOAT ? lu::TYPE_DOUBLE : lu::TYPE_FLOAT;
            var v = tensor(ti, ni), o = tensor(t, no);
            threw = throws([&] { (*p)(v, o); });
            break;
        }
        case 2:
        {
            g.trace << " scalar";
            var v = 1.0f, o = tensor(to, no);
            threw = throws([&] { (*p)(v, o); });
            break;
        }
        case 3:
        {
            g.trace << " short input";
            var v = tensor(ti, ni - 1);
            threw = throws([&] { var r = (*p)(v); });
            break;
        }
        case 4:
        {
            g.trace << " short output";
            var v = tensor(ti, ni), o = tensor(to, no - 1);
            threw = throws([&] { (*p)(v, o); });
            break;
        }
        case 5:
        {
            g.trace << " in place";
            var v = tensor(ti, n);
            threw = throws([&] { (*p)(v, v); });
            break;
        }
        }
    }
    }
    EXPECT(threw, "accepted");
    g.nontrivial();
}
