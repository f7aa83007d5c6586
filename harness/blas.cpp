/* The templated BLAS and LAPACK calls */
#include <cmath>
#include <complex>
#include <limits>
#include <vector>

#include <lube/c++blas.h>
#include <lube/c++lapack.h>
#include "pbt.h"

typedef std::complex<float> cfloat;
typedef std::complex<double> cdouble;

template<class T> struct Real { typedef T R; };
template<> struct Real<cfloat> { typedef float R; };
template<> struct Real<cdouble> { typedef double R; };

static cdouble value(pbt::Gen& g, cdouble)
{
    return cdouble(g.range(-40, 40) / 8.0, g.range(-40, 40) / 8.0);
}
static cfloat value(pbt::Gen& g, cfloat) { return cfloat(value(g, cdouble())); }
static double value(pbt::Gen& g, double) { return g.range(-40, 40) / 8.0; }
static float value(pbt::Gen& g, float) { return (float)value(g, 0.0); }

/** Storage with something on either side that should stay as it is */
template<class T> struct Buf
{
    enum { PAD = 3 };
    std::vector<T> all;
    int n;
    Buf(pbt::Gen& g, int iN) : all(iN + 2*PAD, T(77)), n(iN)
    {
        for (int i=0; i<n; i++)
        {
            (*this)[i] = value(g, T());
            g.trace << (*this)[i] << " ";
        }
        g.trace << "; ";
    }
    Buf(int iN, T x) : all(iN + 2*PAD, T(77)), n(iN)
    {
        for (int i=0; i<n; i++)
            (*this)[i] = x;
    }
    T& operator [](int i) { return all[i + PAD]; }
    T* p() { return all.data() + PAD; }
    void kept()
    {
        for (int i=0; i<PAD; i++)
            EXPECT(all[i] == T(77) && all[PAD + n + i] == T(77),
                   "written outside");
    }
    std::vector<T> v() { return std::vector<T>(p(), p() + n); }
};

template<class T> void near(T a, cdouble b, double scale, const char* what)
{
    double e = std::numeric_limits<typename Real<T>::R>::epsilon();
    EXPECT(std::abs(cdouble(a) - b) <= 8 * e * (scale + 1), what << ": got "
           << a << ", expected " << b);
}

template<class T> void level1(pbt::Gen& g, int n)
{
    Buf<T> x(g, n), y(g, n);
    std::vector<T> x0 = x.v(), y0 = y.v();
    bool changed = false;
    switch (g.below(5))
    {
    case 0:
        g.trace << "swap";
        blas::swap(n, x.p(), y.p());
        EXPECT(x.v() == y0 && y.v() == x0, "swap");
        changed = true;
        break;
    case 1:
        g.trace << "copy";
        blas::copy(n, x.p(), y.p());
        EXPECT(y.v() == x0, "copy");
        break;
    case 2:
    {
        T a = value(g, T());
        g.trace << "axpy " << a;
        blas::axpy(n, a, x.p(), y.p());
        for (int i=0; i<n; i++)
            near(y[i], cdouble(a) * cdouble(x0[i]) + cdouble(y0[i]), 100,
                 "axpy");
        break;
    }
    case 3:
    {
        g.trace << "dot";
        // The first operand is conjugated
        cdouble s = 0;
        for (int i=0; i<n; i++)
            s += std::conj(cdouble(x0[i])) * cdouble(y0[i]);
        near(blas::dot(n, x.p(), y.p()), s, 100 * n, "dot");
        EXPECT(y.v() == y0, "operand");
        break;
    }
    case 4:
    {
        g.trace << "iamax";
        // For complex, of the sum of the absolute values of the parts
        auto size = [](T z) { return std::abs(cdouble(z).real())
                              + std::abs(cdouble(z).imag()); };
        int k = 0;
        for (int i=1; i<n; i++)
            if (size(x0[i]) > size(x0[k]))
                k = i;
        EXPECT_EQ(blas::iamax(n, x.p()), (long)k, "iamax");
        break;
    }
    }
    EXPECT(changed || x.v() == x0, "operand");
    x.kept();
    y.kept();
    g.nontrivial(n > 1);
}

template<class T> void real(pbt::Gen& g, int n)
{
    Buf<T> a(g, n), x(g, n), y(g, n);
    std::vector<T> a0 = a.v(), x0 = x.v(), y0 = y.v();
    T s = value(g, T()), t = value(g, T());
    switch (g.below(4))
    {
    case 0:
        g.trace << "scal " << s;
        blas::scal(n, s, x.p());
        for (int i=0; i<n; i++)
            near(x[i], cdouble(s * x0[i]), 100, "scal");
        x0 = x.v();
        break;
    case 1:
    {
        g.trace << "asum";
        double w = 0;
        for (T z : x0)
            w += std::abs(z);
        near(blas::asum(n, x.p()), w, 10 * n, "asum");
        break;
    }
    case 2:
        g.trace << "tbmv";
        blas::tbmv(n, 0, a.p(), x.p());
        for (int i=0; i<n; i++)
            near(x[i], cdouble(a0[i] * x0[i]), 100, "tbmv");
        x0 = x.v();
        break;
    case 3:
        g.trace << "sbmv " << s << " " << t;
        blas::sbmv(n, 0, s, a.p(), x.p(), t, y.p());
        for (int i=0; i<n; i++)
            near(y[i], cdouble((double)s * a0[i] * x0[i] + (double)t * y0[i]),
                 1000, "sbmv");
        y0 = y.v();
        break;
    }
    EXPECT(a.v() == a0 && x.v() == x0 && y.v() == y0, "operand");
    a.kept();
    x.kept();
    y.kept();
    g.nontrivial(n > 1);
}

template<class T> void product(pbt::Gen& g)
{
    int m = 1 + g.wide(5, 60, 40), n = 1 + g.wide(5, 60, 40),
        k = 1 + g.wide(5, 60, 40);
    Buf<T> a(g, m*k), b(g, k*n), c(g, m*n);
    std::vector<T> a0 = a.v(), b0 = b.v(), c0 = c.v();
    T s = g.flip() ? T(1) : value(g, T()), t = g.flip() ? T(0) : value(g, T());
    g.trace << m << "x" << k << "x" << n << " " << s << " " << t;
    blas::gemm(m, n, k, s, a.p(), b.p(), t, c.p());
    for (int i=0; i<m; i++)
        for (int j=0; j<n; j++)
        {
            double w = (double)t * c0[i*n + j];
            for (int l=0; l<k; l++)
                w += (double)s * a0[i*k + l] * b0[l*n + j];
            near(c[i*n + j], w, 1000 * (1 + k/6), "gemm");
        }
    EXPECT(a.v() == a0 && b.v() == b0, "operand");
    a.kept();
    b.kept();
    c.kept();
    g.nontrivial(m != n && n != k && m > 1);
}

PROPERTY(C30, vectors, 60000,
         "swap, copy, axpy, dot and iamax of the 4 floating types, and scal, "
         "asum and diagonal products of 2, of up to 40 (rarely 1500) elements "
         "amid others that stay; non-trivial if 2 or more elements")
{
    int n = 1 + g.wide(39, 1500);
    switch (g.below(6))
    {
    case 0: level1<float>(g, n); break;
    case 1: level1<double>(g, n); break;
    case 2: level1<cfloat>(g, n); break;
    case 3: level1<cdouble>(g, n); break;
    case 4: real<float>(g, n); break;
    case 5: real<double>(g, n); break;
    }
}

PROPERTY(C30, matrices, 40000,
         "products of row-major matrices to 6 by 6 by 6 (rarely 60) with both factors; "
         "non-trivial if the sizes differ")
{
    if (g.flip())
        product<float>(g);
    else
        product<double>(g);
}

/** Is v (real and imaginary parts) an eigenvector? */
static bool eigen(const std::vector<double>& a, int n, cdouble l,
                  const std::vector<cdouble>& v, bool left, double tol)
{
    double big = 0;
    for (auto& x : v)
        big = std::max(big, std::abs(x));
    if (!(big > 0.01))
        return false;
    for (int i=0; i<n; i++)
    {
        cdouble s = 0;
        for (int j=0; j<n; j++)
            s += (left ? a[j*n + i] : a[i*n + j]) * v[j];
        if (!(std::abs(s - l * v[i]) <= tol))
            return false;
    }
    return true;
}

template<class T> void eigenvectors(pbt::Gen& g)
{
    int n = 1 + g.wide(6, 24, 40);
    Buf<T> a(g, n*n);
    std::vector<double> a0(a.p(), a.p() + n*n);
    double norm = 1;
    for (double x : a0)
        norm += std::abs(x);
    Buf<T> wr(n, 0), wi(n, 0), vl(n*n, 0), vr(n*n, 0);
    bool left = g.flip(), right = g.flip();
    g.trace << (left ? "left " : "") << (right ? "right " : "") << n;
    T* none = nullptr;
    long r = lapack::geev((long)n, a.p(), wr.p(), wi.p(),
                          left ? vl.p() : none, right ? vr.p() : none);
    EXPECT_EQ(r, 0l, "return code");
    double e = 100 * std::numeric_limits<T>::epsilon() * norm;
    // The sum and the sum of squares of the values
    double t = 0, t2 = 0, w = 0, w2 = 0;
    for (int i=0; i<n; i++)
    {
        t += a0[i*n + i];
        w += wr[i];
        w2 += (double)wr[i] * wr[i] - (double)wi[i] * wi[i];
        for (int j=0; j<n; j++)
            t2 += a0[i*n + j] * a0[j*n + i];
    }
    EXPECT(std::abs(t - w) <= e * n, "sum of values " << w << ", expected "
           << t);
    EXPECT(std::abs(t2 - w2) <= e * norm * n, "sum of squares " << w2
           << ", expected " << t2);
    for (int i=0; i<n; i++)
    {
        bool pair = wi[i] != 0;
        if (pair)
        {
            EXPECT(i+1 < n && wr[i+1] == wr[i] && wi[i+1] == -wi[i] && wi[i] > 0,
                   "conjugate pair");
            g.label("complex pair");
        }
        for (int side=0; side<2; side++)
        {
            if (side ? !right : !left)
                continue;
            Buf<T>& b = side ? vr : vl;
            bool ok = false;
            for (int sign : {1, -1})
            {
                std::vector<cdouble> v;
                for (int j=0; j<n; j++)
                    v.push_back(cdouble(b[i*n + j],
                                        pair ? sign * b[(i+1)*n + j] : 0));
                ok = ok || eigen(a0, n, cdouble(wr[i], wi[i]), v, !side, e);
            }
            EXPECT(ok, (side ? "right" : "left") << " vector " << i);
        }
        if (pair)
            i++;
    }
    if (!left)
        EXPECT(vl.v() == std::vector<T>(n*n, 0), "left vectors");
    if (!right)
        EXPECT(vr.v() == std::vector<T>(n*n, 0), "right vectors");
    a.kept();
    wr.kept();
    wi.kept();
    vl.kept();
    vr.kept();
    g.nontrivial(n > 1);
}

PROPERTY(C30, eigen, 30000,
         "eigenvalues, with and without left and right eigenvectors, of "
         "row-major matrices to 7 by 7 (rarely 25) by geev; the trace and residuals; "
         "non-trivial if 2 by 2 or more")
{
    if (g.flip())
        eigenvectors<float>(g);
    else
        eigenvectors<double>(g);
}

PROPERTY(C30, schur, 20000,
         "Schur forms of row-major matrices to 7 by 7 (rarely 25) by gees: orthogonal, "
         "triangular, and multiply to the original; non-trivial if 2 by 2 or "
         "more")
{
    typedef float T;
    int n = 1 + g.wide(6, 24, 40);
    Buf<T> a(g, n*n), wr(n, 0), wi(n, 0), vs(n*n, 0);
    std::vector<double> a0(a.p(), a.p() + n*n);
    double norm = 1;
    for (double x : a0)
        norm += std::abs(x);
    bool vectors = !g.rare(4);
    T* none = nullptr;
    long r = lapack::gees((long)n, a.p(), wr.p(), wi.p(),
                          vectors ? vs.p() : none);
    EXPECT_EQ(r, 0l, "return code");
    double e = 100 * std::numeric_limits<T>::epsilon() * norm;
    // In row-major order it's the transpose that is upper triangular
    for (int i=0; i<n; i++)
    {
        EXPECT(std::abs(a[i*n + i] - wr[i]) <= e, "diagonal");
        for (int j=i+1; j<n; j++)
            EXPECT(std::abs(a[i*n + j]) <= e || (j == i+1 && wi[i] != 0),
                   "triangular");
        if (wi[i] > 0)
            EXPECT(std::abs((double)a[i*n + i+1] * a[(i+1)*n + i]
                            + (double)wi[i] * wi[i]) <= e * norm, "pair");
    }
    if (vectors)
        for (int i=0; i<n; i++)
            for (int j=0; j<n; j++)
            {
                double s = 0, o = 0;
                for (int k=0; k<n; k++)
                {
                    o += (double)vs[i*n + k] * vs[j*n + k];
                    for (int l=0; l<n; l++)
                        s += (double)vs[k*n + i] * a[k*n + l] * vs[l*n + j];
                }
                EXPECT(std::abs(o - (i == j)) <= e, "orthogonal");
                EXPECT(std::abs(s - a0[i*n + j]) <= e, "product at " << i
                       << "," << j << " is " << s);
            }
    a.kept();
    wr.kept();
    wi.kept();
    vs.kept();
    g.nontrivial(n > 1);
}
