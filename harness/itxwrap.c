/* Measures how large the dequantised coefficients of a run get.  The C and the
 * assembly transforms have to agree only while the intermediate values stay in the
 * range the standard demands of a conforming stream. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdatomic.h>

typedef void (*itx_fn)(void *dst, ptrdiff_t stride, void *cf, int eob, int bdmax);
enum { NTX = 19, NTT = 17 };
static itx_fn orig[2][NTX][NTT];
static const uint8_t W[NTX] = { 4, 8, 16, 32, 32, 4, 8, 8, 16, 16, 32, 32, 32, 4, 16, 8, 32, 16, 32 };
static const uint8_t H[NTX] = { 4, 8, 16, 32, 32, 8, 4, 16, 8, 32, 16, 32, 32, 16, 4, 32, 8, 32, 16 };
atomic_long vh_itx_l1[2];

static void note(const int hbd, const int tx, const void *const cf, const int sh)
{
    long s = 0;
    const int n = W[tx] * H[tx];
    if (hbd) { const int32_t *c = cf; for (int i = 0; i < n; i++) s += labs((long)c[i]); }
    else { const int16_t *c = cf; for (int i = 0; i < n; i++) s += labs((long)c[i]); }
    s >>= sh;
    long o = atomic_load(&vh_itx_l1[hbd]);
    while (s > o && !atomic_compare_exchange_weak(&vh_itx_l1[hbd], &o, s));
}

#define ONE(b, x, y) static void w##b##_##x##_##y(void *d, ptrdiff_t s, void *c, int e, int m) \
    { note(b, x, c, b && m > 1023 ? 4 : b ? 2 : 0); orig[b][x][y](d, s, c, e, m); }
#define ROW(b, x) ONE(b,x,0) ONE(b,x,1) ONE(b,x,2) ONE(b,x,3) ONE(b,x,4) ONE(b,x,5) ONE(b,x,6) ONE(b,x,7) ONE(b,x,8) ONE(b,x,9) \
    ONE(b,x,10) ONE(b,x,11) ONE(b,x,12) ONE(b,x,13) ONE(b,x,14) ONE(b,x,15) ONE(b,x,16)
#define ALL(b) ROW(b,0) ROW(b,1) ROW(b,2) ROW(b,3) ROW(b,4) ROW(b,5) ROW(b,6) ROW(b,7) ROW(b,8) ROW(b,9) ROW(b,10) ROW(b,11) \
    ROW(b,12) ROW(b,13) ROW(b,14) ROW(b,15) ROW(b,16) ROW(b,17) ROW(b,18)
ALL(0) ALL(1)
#define P(b, x, y) w##b##_##x##_##y,
#define PROW(b, x) { P(b,x,0) P(b,x,1) P(b,x,2) P(b,x,3) P(b,x,4) P(b,x,5) P(b,x,6) P(b,x,7) P(b,x,8) P(b,x,9) \
    P(b,x,10) P(b,x,11) P(b,x,12) P(b,x,13) P(b,x,14) P(b,x,15) P(b,x,16) },
#define PALL(b) { PROW(b,0) PROW(b,1) PROW(b,2) PROW(b,3) PROW(b,4) PROW(b,5) PROW(b,6) PROW(b,7) PROW(b,8) PROW(b,9) PROW(b,10) \
    PROW(b,11) PROW(b,12) PROW(b,13) PROW(b,14) PROW(b,15) PROW(b,16) PROW(b,17) PROW(b,18) },
static const itx_fn wrapped[2][NTX][NTT] = { PALL(0) PALL(1) };

static void hook(const int hbd, itx_fn (*const t)[NTT])
{
    for (int x = 0; x < NTX; x++)
        for (int y = 0; y < NTT; y++)
            if (t[x][y]) { orig[hbd][x][y] = t[x][y]; t[x][y] = wrapped[hbd][x][y]; }
}
void __real_dav1d_itx_dsp_init_8bpc(void *c, int bpc);
void __real_dav1d_itx_dsp_init_16bpc(void *c, int bpc);
void __wrap_dav1d_itx_dsp_init_8bpc(void *c, int bpc);
void __wrap_dav1d_itx_dsp_init_16bpc(void *c, int bpc);
void __wrap_dav1d_itx_dsp_init_8bpc(void *c, int bpc) { __real_dav1d_itx_dsp_init_8bpc(c, bpc); hook(0, c); }
void __wrap_dav1d_itx_dsp_init_16bpc(void *c, int bpc) { __real_dav1d_itx_dsp_init_16bpc(c, bpc); hook(1, c); }
