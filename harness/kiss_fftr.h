#ifndef KISS_FFTR_H
#define KISS_FFTR_H
#include "kiss_fft.h"
/* As in the library, the real transform is of even size */
typedef kiss_fft_state* kiss_fftr_cfg;
inline kiss_fftr_cfg kiss_fftr_alloc(int n, int inverse, void*, size_t*)
{
    return n & 1 ? 0 : kiss_fft_alloc(n, inverse, 0, 0);
}
inline void kiss_fftr(kiss_fftr_cfg c, const float* in, kiss_fft_cpx* out)
{
    if (c->inverse)
        abort();
    std::vector<kiss_fft_cpx> t(c->n), o(c->n);
    for (int i=0; i<c->n; i++)
    {
        t[i].r = in[i];
        t[i].i = 0;
    }
    kissSum(c->n, -1, t.data(), o.data());
    for (int i=0; i<c->n/2+1; i++)
        out[i] = o[i];
}
inline void kiss_fftri(kiss_fftr_cfg c, const kiss_fft_cpx* in, float* out)
{
    if (!c->inverse)
        abort();
    int n = c->n;
    std::vector<kiss_fft_cpx> t(n), o(n);
    for (int i=0; i<n/2+1; i++)
    {
        t[i] = in[i];
        if (i && i < n - i)
        {
            t[n-i].r = in[i].r;
            t[n-i].i = -in[i].i;
        }
    }
    t[0].i = 0;
    if (n > 1)
        t[n/2].i = 0;
    kissSum(n, 1, t.data(), o.data());
    for (int i=0; i<n; i++)
        out[i] = o[i].r;
}
#endif
