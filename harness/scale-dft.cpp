/* Fourier transforms at scale */
#include "scale.h"

using namespace scale;

/*
 * Rows of a few spikes, of which the transform is known everywhere without
 * summing over them all, to and fro.
 */
template<class T, class C> static void transform(pbt::Gen& g)
{
    bool real = std::is_floating_point<T>::value;
    int n = size(g, 13), rows = n > 600 ? 1 : 1 + g.below(3);
    if (n < 2)
        n = 2;
    if (real)
        n += n & 1;
    Fill f(g);
    int m = real ? n/2 + 1 : n;
    std::vector<T> x(rows * n);
    std::vector<cdouble> y(rows * m);
    for (int r=0; r<rows; r++)
        for (int s=1+f.below(5); s; s--)
        {
            int at = f.below(n);
            T a = make<T>(f);
            x[r*n + at] += a;
            for (int k=0; k<m; k++)
                y[r*m + k] += (cdouble)a * std::polar(
                    1.0, -2 * M_PI * (double)((long)at * k % n) / n
                );
        }
    var type = (T)0;
    auto alike = [](const var& v, const auto& w, double tol, const char* s) {
        EXPECT_EQ((size_t)v.size(), w.size(), "size");
        for (size_t i=0; i<w.size(); i++)
        {
            cdouble z = v.at((int)i).template cast<cdouble>();
            EXPECT(std::abs(z - (cdouble)w[i]) <= tol, s << ": element " << i
                   << " is " << z << " for " << w[i]);
        }
    };
    double eps = sizeof(T) == sizeof(float) || sizeof(C) == sizeof(cfloat)
        ? 1e-6 : 1e-14;
    lu::DFT df(n, type);
    lu::IDFT db(n, type);
    var v = array(x), in = v.view({rows, n});
    var out = df(in);
    EXPECT_EQ(out.shape(0), rows, "rows");
    EXPECT_EQ(out.shape(1), m, "columns");
    alike(out, y, 1000 * eps * 20, "transform");
    same(v, x, "operand");
    var again = db(out);
    EXPECT_EQ(again.shape(1), n, "columns");
    alike(again, x, 1000 * eps * 20, "inverse");
}

PROPERTY(C26, scale, 150,
         "rows of up to 16384 values that are 0 but for a few, forward and "
         "back, against the sum; non-trivial if more than 300")
{
    switch (g.below(4))
    {
    case 0: transform<float, cfloat>(g); break;
    case 1: transform<double, cdouble>(g); break;
    case 2: transform<cfloat, cfloat>(g); break;
    default: transform<cdouble, cdouble>(g); break;
    }
}
