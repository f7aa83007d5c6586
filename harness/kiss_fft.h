/* Stand-in for the Kiss FFT library, which isn't here: same interface, but the
 * transform is the sum that defines it. */
#ifndef KISS_FFT_H
#define KISS_FFT_H
#include <cmath>
#include <cstdlib>
#include <vector>
#define kiss_fft_scalar float
struct kiss_fft_cpx { float r; float i; };
struct kiss_fft_state { int n; int inverse; };
typedef kiss_fft_state* kiss_fft_cfg;
extern int kissLive;
inline kiss_fft_cfg kiss_fft_alloc(int n, int inverse, void*, size_t*)
{
    kiss_fft_cfg c = (kiss_fft_cfg)malloc(sizeof(kiss_fft_state));
    c->n = n;
    c->inverse = inverse;
    return c;
}
inline void kiss_fft_cleanup(void) {}
inline void kissSum(int n, int sign, const kiss_fft_cpx* in, kiss_fft_cpx* out)
{
    std::vector<kiss_fft_cpx> t(in, in + n);
    for (int k=0; k<n; k++)
    {
        double re = 0, im = 0;
        for (int i=0; i<n; i++)
        {
            double a = sign * 2 * M_PI * ((long)i * k % n) / n;
            re += t[i].r * std::cos(a) - t[i].i * std::sin(a);
            im += t[i].r * std::sin(a) + t[i].i * std::cos(a);
        }
        out[k].r = (float)re;
        out[k].i = (float)im;
    }
}
inline void kiss_fft(kiss_fft_cfg c, const kiss_fft_cpx* in, kiss_fft_cpx* out)
{
    kissSum(c->n, c->inverse ? 1 : -1, in, out);
}
#endif
