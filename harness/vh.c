/* Trace recorder: drives the public dav1d API from a job file and records every
 * observable result as one JSON event per API call.
 *
 *   vh JOB BLOB OUT
 * JOB lines:
 *   P <idx> <blob offset> <size> <timestamp> <duration> <offset> <propsize> <user data id or -1>
 *   R <run id> key=value ... acts=<string>
 * Every run is executed in a forked child; a crash or a hang is an event of its own.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <limits.h>
#include <pthread.h>
#ifdef __clang__      /* the recorder's own bookkeeping is not under test */
#define NOTSAN __attribute__((no_sanitize("thread")))
#else
#define NOTSAN
#endif
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include "dav1d/dav1d.h"

void dav1d_set_cpu_flags_mask(unsigned mask);

/* harness/itxwrap.c, where linked in: largest sum of coefficient magnitudes, 8-bit and deeper */
extern atomic_long vh_itx_l1[2] __attribute__((weak));

#ifdef VH_SCHED
void sched_enable(uint64_t seed, const char *strategy, long maxsteps);
void sched_disable(void);
void sched_stats(char *buf, size_t n);
#else
#define sched_enable(a, b, c) ((void)0)
#define sched_disable() ((void)0)
#endif

#define MAXPK 4096
typedef struct { size_t off, sz; int ts, dur, poff, psz, ud; } Pk;
static Pk pk[MAXPK];
static int npk;
static uint8_t *blob;
static size_t blobsz;
static FILE *out;
static char runid[64];

/* the recorder's own allocations never fail */
#ifdef VH_WRAP_MALLOC
void *__real_realloc(void *, size_t);
int __real_posix_memalign(void **, size_t, size_t);
#define OWN_REALLOC __real_realloc
#define REAL_MEMALIGN __real_posix_memalign
#else
#define OWN_REALLOC realloc
#define REAL_MEMALIGN posix_memalign
#endif

/* ------------------------------------------------------------ event buffer */
static pthread_mutex_t ev_lock = PTHREAD_MUTEX_INITIALIZER;
typedef struct { int *v; int n, cap; } IntV;
NOTSAN static void iv_add(IntV *a, int x) {
    if (a->n == a->cap) {
        a->cap = a->cap ? a->cap * 2 : 64;
        a->v = OWN_REALLOC(a->v, a->cap * sizeof(int));
    }
    a->v[a->n++] = x;
}
static IntV fr, fu, rl, al;     /* freed data, freed user data, released pics, allocs (5 each) */
static int badguard, wrongthread;
static pthread_t main_thread;

static void put_iv(FILE *f, const char *name, IntV *a, int grp) {
    fprintf(f, ",\"%s\":[", name);
    for (int i = 0; i < a->n; i += grp) {
        if (i) fputc(',', f);
        if (grp > 1) {
            fputc('[', f);
            for (int k = 0; k < grp; k++) fprintf(f, "%s%d", k ? "," : "", a->v[i + k]);
            fputc(']', f);
        } else fprintf(f, "%d", a->v[i]);
    }
    fputc(']', f);
    a->n = 0;
}
static void ev_begin(const char *op) { fprintf(out, "{\"run\":\"%s\",\"op\":\"%s\"", runid, op); }
static int n_async;
static void ev_end(void) {
    pthread_mutex_lock(&ev_lock);
    put_iv(out, "al", &al, 5);
    put_iv(out, "fr", &fr, 1);
    put_iv(out, "fu", &fu, 1);
    put_iv(out, "rl", &rl, 1);
    fprintf(out, ",\"gb\":%d,\"wt\":%d}\n", badguard, wrongthread);
    pthread_mutex_unlock(&ev_lock);
    fflush(out);
}

/* ------------------------------------------------------------ malloc faults */
static __thread int in_cb;       /* in one of the recorder's own callbacks */
static atomic_int in_lib;              /* only allocations made on behalf of the library count */
static atomic_long mcount;
static long mfail = -1, mfail_n = 1;
static int mfailed;
#ifdef VH_WRAP_MALLOC
void *__real_malloc(size_t);
void *__real_realloc(void *, size_t);
int __real_posix_memalign(void **, size_t, size_t);
NOTSAN static int mf(void) {
    if (!in_lib || in_cb) return 0;
    const long k = atomic_fetch_add(&mcount, 1);
    if (mfail >= 0 && k >= mfail && k < mfail + mfail_n) { mfailed = 1; return 1; }
    return 0;
}
void *__wrap_malloc(size_t n) { return mf() ? NULL : __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { return mf() ? NULL : __real_realloc(p, n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) {
    return mf() ? ENOMEM : __real_posix_memalign(p, a, n);
}
#endif
#define LIB(x) do { in_lib++; x; in_lib--; } while (0)

/* ------------------------------------------------------------ picture allocator */
typedef struct { int id; uint8_t *base; uint8_t *buf[3]; ptrdiff_t stride[3]; int w[3], h[3]; size_t rowbytes[3]; void *m; size_t sz; void *next; } Buf;
static Buf *all_bufs;    /* never freed, so that a late use or second release is visible */
static int nbuf, allocpat, failat = -1, failn = 1, fillseed, custom, nfc_gt1;
static int cookie_val;
static int nlive;

static uint8_t guardbyte(size_t i) { return (uint8_t)(0xA5 ^ (i * 7)); }

NOTSAN static int my_alloc(Dav1dPicture *p, void *cookie) {
    in_cb++;
    if (cookie != &cookie_val) wrongthread |= 4;
    if (!pthread_equal(pthread_self(), main_thread)) wrongthread |= 1;
    const int id = nbuf++;
    pthread_mutex_lock(&ev_lock);
    iv_add(&al, p->p.w); iv_add(&al, p->p.h); iv_add(&al, p->p.layout); iv_add(&al, p->p.bpc); iv_add(&al, id);
    pthread_mutex_unlock(&ev_lock);
    if (failat >= 0 && id >= failat && id < failat + failn) { in_cb--; return DAV1D_ERR(ENOMEM); }
    Buf *b = OWN_REALLOC(NULL, sizeof(*b));
    if (!b) abort();
    memset(b, 0, sizeof(*b));
    b->id = id;
    pthread_mutex_lock(&ev_lock); b->next = all_bufs; all_bufs = b; pthread_mutex_unlock(&ev_lock);
    const int hbd = p->p.bpc > 8;
    const int aw = (p->p.w + 127) & ~127, ah = (p->p.h + 127) & ~127;
    const int ssh = p->p.layout != DAV1D_PIXEL_LAYOUT_I444, ssv = p->p.layout == DAV1D_PIXEL_LAYOUT_I420;
    const int npl = p->p.layout == DAV1D_PIXEL_LAYOUT_I400 ? 1 : 3;
    /* layout pattern: extra stride in units of 64 bytes, guard rows, plane order */
    const int extra = allocpat & 7;
    size_t off[3], tot = 256;
    const size_t guard = 64 * 8;
    for (int i = 0; i < npl; i++) {
        const int pl = (allocpat & 8) ? npl - 1 - i : i;
        b->rowbytes[pl] = (size_t)(pl ? aw >> ssh : aw) << hbd;
        b->w[pl] = pl ? (p->p.w + ssh) >> ssh : p->p.w;
        b->h[pl] = pl ? ah >> ssv : ah;
        b->stride[pl] = b->rowbytes[pl] + 64 * extra;
        if (pl && (b->stride[pl] & 63)) b->stride[pl] += 64 - (b->stride[pl] & 63);
        tot += guard;
        off[pl] = tot;
        tot += b->stride[pl] * b->h[pl] + DAV1D_PICTURE_ALIGNMENT + guard;
    }
    b->sz = tot;
    b->m = NULL;
    if (REAL_MEMALIGN(&b->m, 64, tot + 64)) abort();
    b->base = b->m;
    for (size_t i = 0; i < tot; i++) b->base[i] = guardbyte(i);
    for (int pl = 0; pl < npl; pl++) {
        b->buf[pl] = b->base + off[pl];
        if ((allocpat & 16) && !pl) { }
        for (int y = 0; y < b->h[pl]; y++)
            memset(b->buf[pl] + y * b->stride[pl], 0, b->rowbytes[pl]);
        if (fillseed) {
            uint32_t s = fillseed * 2654435761u + id;
            const int mask = hbd ? (1 << p->p.bpc) - 1 : 255;
            for (int y = 0; y < b->h[pl]; y++) {
                uint8_t *r = b->buf[pl] + y * b->stride[pl];
                if (hbd) for (size_t x = 0; x < b->rowbytes[pl] / 2; x++) { s = s * 1664525 + 1013904223; ((uint16_t *)r)[x] = (s >> 16) & mask; }
                else for (size_t x = 0; x < b->rowbytes[pl]; x++) { s = s * 1664525 + 1013904223; r[x] = s >> 24; }
            }
        }
        p->data[pl] = b->buf[pl];
    }
    p->stride[0] = b->stride[0];
    p->stride[1] = npl > 1 ? b->stride[1] : 0;
    p->allocator_data = b;
    nlive++;
    in_cb--;
    return 0;
}

NOTSAN static void check_guard(const Buf *b) {
    /* every byte outside the padded planes (and the alignment padding) must be untouched */
    for (int pl = 0; pl < 3; pl++) {
        if (!b->buf[pl]) continue;
        const uint8_t *s = b->buf[pl];
        for (int y = 0; y < b->h[pl]; y++)
            for (ptrdiff_t x = b->rowbytes[pl]; x < b->stride[pl]; x++) {
                const size_t i = s + y * b->stride[pl] + x - b->base;
                if (b->base[i] != guardbyte(i)) badguard |= 1;
            }
        const uint8_t *e = s + b->h[pl] * b->stride[pl] + DAV1D_PICTURE_ALIGNMENT;
        for (int k = 0; k < 64 * 8; k++) {
            size_t i = e + k - b->base;
            if (b->base[i] != guardbyte(i)) badguard |= 2;
            i = s - b->base - 1 - k;
            if (b->base[i] != guardbyte(i)) badguard |= 4;
        }
    }
}

NOTSAN static void my_release(Dav1dPicture *p, void *cookie) {
    in_cb++;
    Buf *b = p->allocator_data;
    if (cookie != &cookie_val) wrongthread |= 4;
    if (!nfc_gt1 && !pthread_equal(pthread_self(), main_thread)) wrongthread |= 2;
    pthread_mutex_lock(&ev_lock);
    if (!b->m) wrongthread |= 8; /* double release */
    else {
        check_guard(b);
        iv_add(&rl, b->id);
        nlive--;
        free(b->m);
        b->m = NULL; /* Buf itself is kept: later use or a second release is visible */
    }
    pthread_mutex_unlock(&ev_lock);
    in_cb--;
}

/* ------------------------------------------------------------ digests */
static uint64_t fnv(uint64_t h, const uint8_t *p, size_t n) {
    for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 0x100000001b3ull;
    return h;
}
static uint64_t plane_digest(const Dav1dPicture *p, int pl) {
    const int hbd = p->p.bpc > 8;
    const int ssh = p->p.layout != DAV1D_PIXEL_LAYOUT_I444, ssv = p->p.layout == DAV1D_PIXEL_LAYOUT_I420;
    const int w = pl ? (p->p.w + ssh) >> ssh : p->p.w, hh = pl ? (p->p.h + ssv) >> ssv : p->p.h;
    uint64_t h = 0xcbf29ce484222325ull;
    for (int y = 0; y < hh; y++)
        h = fnv(h, (const uint8_t *)p->data[pl] + y * p->stride[!!pl], (size_t)w << hbd);
    return h;
}
static uint64_t pic_digest(const Dav1dPicture *p) {
    uint64_t h = 0xcbf29ce484222325ull;
    const int hbd = p->p.bpc > 8;
    const int ssh = p->p.layout != DAV1D_PIXEL_LAYOUT_I444, ssv = p->p.layout == DAV1D_PIXEL_LAYOUT_I420;
    for (int pl = 0; pl < (p->p.layout ? 3 : 1); pl++) {
        const int w = pl ? (p->p.w + ssh) >> ssh : p->p.w, hh = pl ? (p->p.h + ssv) >> ssv : p->p.h;
        for (int y = 0; y < hh; y++)
            h = fnv(h, (const uint8_t *)p->data[pl] + y * p->stride[!!pl], (size_t)w << hbd);
    }
    return h;
}

/* ------------------------------------------------------------ header dumps */
#define W32(x) (unsigned)((x) >> 16), (unsigned)((x) & 0xffff)
static void dump_seq(FILE *f, const Dav1dSequenceHeader *s) {
#define I(n) fprintf(f, ",\"" #n "\":%d", (int)s->n)
#define Q(n) fprintf(f, ",\"" #n "\":[%u,%u]", W32(s->n))
    fprintf(f, "{\"profile\":%d", s->profile);
    I(max_width); I(max_height); I(layout); I(pri); I(trc); I(mtrx); I(chr); I(hbd); I(color_range);
    I(num_operating_points);
    fprintf(f, ",\"ops\":[");
    for (int i = 0; i < s->num_operating_points; i++) {
        fprintf(f, "%s[%d,%d,%d,%d,%d,%d,%d,%u,%u,%u,%u,%d]", i ? "," : "",
                s->operating_points[i].major_level, s->operating_points[i].minor_level,
                s->operating_points[i].initial_display_delay, s->operating_points[i].idc,
                s->operating_points[i].tier, s->operating_points[i].decoder_model_param_present,
                s->operating_points[i].display_model_param_present,
                W32(s->operating_parameter_info[i].decoder_buffer_delay),
                W32(s->operating_parameter_info[i].encoder_buffer_delay),
                s->operating_parameter_info[i].low_delay_mode);
    }
    fprintf(f, "]");
    I(still_picture); I(reduced_still_picture_header); I(timing_info_present); Q(num_units_in_tick); Q(time_scale);
    I(equal_picture_interval); Q(num_ticks_per_picture); I(decoder_model_info_present);
    I(encoder_decoder_buffer_delay_length); Q(num_units_in_decoding_tick); I(buffer_removal_delay_length);
    I(frame_presentation_delay_length); I(display_model_info_present); I(width_n_bits); I(height_n_bits);
    I(frame_id_numbers_present); I(delta_frame_id_n_bits); I(frame_id_n_bits); I(sb128); I(filter_intra);
    I(intra_edge_filter); I(inter_intra); I(masked_compound); I(warped_motion); I(dual_filter); I(order_hint);
    I(jnt_comp); I(ref_frame_mvs); I(screen_content_tools); I(force_integer_mv); I(order_hint_n_bits);
    I(super_res); I(cdef); I(restoration); I(ss_hor); I(ss_ver); I(monochrome); I(color_description_present);
    I(separate_uv_delta_q); I(film_grain_present);
    fputc('}', f);
#undef I
#undef Q
}

static void arr_i(FILE *f, const char *n, const int *v, int c) {
    fprintf(f, ",\"%s\":[", n);
    for (int i = 0; i < c; i++) fprintf(f, "%s%d", i ? "," : "", v[i]);
    fputc(']', f);
}

static void dump_fg(FILE *f, const Dav1dFilmGrainData *g) {
    int t[64];
    fprintf(f, "{\"seed\":%u,\"ny\":%d", g->seed, g->num_y_points);
    int n = 0;
    for (int i = 0; i < g->num_y_points; i++) { t[n++] = g->y_points[i][0]; t[n++] = g->y_points[i][1]; }
    arr_i(f, "yp", t, n);
    fprintf(f, ",\"csl\":%d,\"nuv\":[%d,%d]", g->chroma_scaling_from_luma, g->num_uv_points[0], g->num_uv_points[1]);
    for (int pl = 0; pl < 2; pl++) {
        n = 0;
        for (int i = 0; i < g->num_uv_points[pl]; i++) { t[n++] = g->uv_points[pl][i][0]; t[n++] = g->uv_points[pl][i][1]; }
        arr_i(f, pl ? "vp" : "up", t, n);
    }
    fprintf(f, ",\"sshift\":%d,\"lag\":%d", g->scaling_shift, g->ar_coeff_lag);
    for (int i = 0; i < 24; i++) t[i] = g->ar_coeffs_y[i];
    arr_i(f, "ary", t, 24);
    for (int i = 0; i < 25; i++) t[i] = g->ar_coeffs_uv[0][i];
    arr_i(f, "aru", t, 25);
    for (int i = 0; i < 25; i++) t[i] = g->ar_coeffs_uv[1][i];
    arr_i(f, "arv", t, 25);
    fprintf(f, ",\"arshift\":%d,\"gss\":%d,\"uvm\":[%d,%d],\"uvlm\":[%d,%d],\"uvo\":[%d,%d],\"overlap\":%d,\"clip\":%d}",
            (int)g->ar_coeff_shift, g->grain_scale_shift, g->uv_mult[0], g->uv_mult[1], g->uv_luma_mult[0],
            g->uv_luma_mult[1], g->uv_offset[0], g->uv_offset[1], g->overlap_flag, g->clip_to_restricted_range);
}

static void dump_fh(FILE *f, const Dav1dFrameHeader *h, int nops, int full) {
    int t[80];
#define I(n, x) fprintf(f, ",\"" n "\":%d", (int)h->x)
    fprintf(f, "{\"frame_type\":%d", h->frame_type);
    fprintf(f, ",\"width\":[%d,%d]", h->width[0], h->width[1]);
    I("height", height); I("frame_offset", frame_offset); I("temporal_id", temporal_id); I("spatial_id", spatial_id);
    I("show_frame", show_frame); I("showable_frame", showable_frame); I("refresh_frame_flags", refresh_frame_flags);
    if (!full) { fputc('}', f); return; }
    I("frame_id", frame_id);
    I("show_existing_frame", show_existing_frame); I("existing_frame_idx", existing_frame_idx);
    fprintf(f, ",\"frame_presentation_delay\":[%u,%u]", W32(h->frame_presentation_delay));
    I("error_resilient_mode", error_resilient_mode); I("disable_cdf_update", disable_cdf_update);
    I("allow_screen_content_tools", allow_screen_content_tools); I("force_integer_mv", force_integer_mv);
    I("frame_size_override", frame_size_override); I("primary_ref_frame", primary_ref_frame);
    I("buffer_removal_time_present", buffer_removal_time_present);
    fprintf(f, ",\"brt\":[");
    for (int i = 0; i < nops; i++) fprintf(f, "%s[%u,%u]", i ? "," : "", W32(h->operating_points[i].buffer_removal_time));
    fputc(']', f);
    I("render_width", render_width); I("render_height", render_height);
    I("sr_den", super_res.width_scale_denominator); I("sr_enabled", super_res.enabled);
    I("have_render_size", have_render_size); I("allow_intrabc", allow_intrabc);
    I("frame_ref_short_signaling", frame_ref_short_signaling);
    for (int i = 0; i < 7; i++) t[i] = h->refidx[i];
    arr_i(f, "refidx", t, 7);
    I("hp", hp); I("subpel_filter_mode", subpel_filter_mode); I("switchable_motion_mode", switchable_motion_mode);
    I("use_ref_frame_mvs", use_ref_frame_mvs); I("refresh_context", refresh_context);
    I("t_uniform", tiling.uniform); I("t_n_bytes", tiling.n_bytes); I("t_min_log2_cols", tiling.min_log2_cols);
    I("t_max_log2_cols", tiling.max_log2_cols); I("t_log2_cols", tiling.log2_cols); I("t_cols", tiling.cols);
    I("t_min_log2_rows", tiling.min_log2_rows); I("t_max_log2_rows", tiling.max_log2_rows);
    I("t_log2_rows", tiling.log2_rows); I("t_rows", tiling.rows);
    for (int i = 0; i <= h->tiling.cols && i < 66; i++) t[i] = h->tiling.col_start_sb[i];
    arr_i(f, "t_col_start", t, h->tiling.cols + 1);
    for (int i = 0; i <= h->tiling.rows && i < 66; i++) t[i] = h->tiling.row_start_sb[i];
    arr_i(f, "t_row_start", t, h->tiling.rows + 1);
    I("t_update", tiling.update);
    I("yac", quant.yac); I("ydc", quant.ydc_delta); I("udc", quant.udc_delta); I("uac", quant.uac_delta);
    I("vdc", quant.vdc_delta); I("vac", quant.vac_delta); I("qm", quant.qm); I("qm_y", quant.qm_y);
    I("qm_u", quant.qm_u); I("qm_v", quant.qm_v);
    I("seg_enabled", segmentation.enabled); I("seg_update_map", segmentation.update_map);
    I("seg_temporal", segmentation.temporal); I("seg_update_data", segmentation.update_data);
    fprintf(f, ",\"seg\":[");
    for (int i = 0; i < 8; i++) {
        const Dav1dSegmentationData *d = &h->segmentation.seg_data.d[i];
        fprintf(f, "%s[%d,%d,%d,%d,%d,%d,%d,%d]", i ? "," : "", d->delta_q, d->delta_lf_y_v, d->delta_lf_y_h,
                d->delta_lf_u, d->delta_lf_v, d->ref, d->skip, d->globalmv);
    }
    fputc(']', f);
    I("seg_preskip", segmentation.seg_data.preskip); I("seg_last", segmentation.seg_data.last_active_segid);
    for (int i = 0; i < 8; i++) t[i] = h->segmentation.lossless[i];
    arr_i(f, "lossless", t, 8);
    for (int i = 0; i < 8; i++) t[i] = h->segmentation.qidx[i];
    arr_i(f, "qidx", t, 8);
    I("dq_present", delta.q.present); I("dq_res", delta.q.res_log2); I("dlf_present", delta.lf.present);
    I("dlf_res", delta.lf.res_log2); I("dlf_multi", delta.lf.multi); I("all_lossless", all_lossless);
    t[0] = h->loopfilter.level_y[0]; t[1] = h->loopfilter.level_y[1]; t[2] = h->loopfilter.level_u; t[3] = h->loopfilter.level_v;
    arr_i(f, "lf", t, 4);
    I("lf_delta_enabled", loopfilter.mode_ref_delta_enabled); I("lf_delta_update", loopfilter.mode_ref_delta_update);
    for (int i = 0; i < 8; i++) t[i] = h->loopfilter.mode_ref_deltas.ref_delta[i];
    t[8] = h->loopfilter.mode_ref_deltas.mode_delta[0]; t[9] = h->loopfilter.mode_ref_deltas.mode_delta[1];
    arr_i(f, "lfd", t, 10);
    I("sharpness", loopfilter.sharpness);
    I("cdef_damping", cdef.damping); I("cdef_bits", cdef.n_bits);
    for (int i = 0; i < 8; i++) t[i] = h->cdef.y_strength[i];
    arr_i(f, "cdef_y", t, 8);
    for (int i = 0; i < 8; i++) t[i] = h->cdef.uv_strength[i];
    arr_i(f, "cdef_uv", t, 8);
    t[0] = h->restoration.type[0]; t[1] = h->restoration.type[1]; t[2] = h->restoration.type[2];
    arr_i(f, "rest", t, 3);
    t[0] = h->restoration.unit_size[0]; t[1] = h->restoration.unit_size[1];
    arr_i(f, "rest_unit", t, 2);
    I("txfm_mode", txfm_mode); I("switchable_comp_refs", switchable_comp_refs);
    I("skip_mode_allowed", skip_mode_allowed); I("skip_mode_enabled", skip_mode_enabled);
    t[0] = h->skip_mode_refs[0]; t[1] = h->skip_mode_refs[1];
    arr_i(f, "skip_mode_refs", t, 2);
    I("warp_motion", warp_motion); I("reduced_txtp_set", reduced_txtp_set);
    fprintf(f, ",\"gmv\":[");
    for (int i = 0; i < 7; i++)
        fprintf(f, "%s[%d,%d,%d,%d,%d,%d,%d]", i ? "," : "", h->gmv[i].type, h->gmv[i].matrix[0], h->gmv[i].matrix[1],
                h->gmv[i].matrix[2], h->gmv[i].matrix[3], h->gmv[i].matrix[4], h->gmv[i].matrix[5]);
    fputc(']', f);
    I("fg_present", film_grain.present); I("fg_update", film_grain.update);
    fprintf(f, ",\"fg\":");
    dump_fg(f, &h->film_grain.data);
    fputc('}', f);
#undef I
}

static int udmap(const Dav1dUserData *u) { return u->data ? *(const int *)u->data : -1; }

static void dump_props(FILE *f, const Dav1dDataProps *m) {
    fprintf(f, "[%d,%d,%d,%d,%d]", m->timestamp == INT64_MIN ? -1 : (int)m->timestamp, (int)m->duration,
            (int)m->offset, (int)m->size, udmap(&m->user_data));
}

/* ------------------------------------------------------------ callbacks for data */
NOTSAN static void free_data(const uint8_t *d, void *ck) {
    in_cb++;
    pthread_mutex_lock(&ev_lock);
    iv_add(&fr, (int)(intptr_t)ck);
    pthread_mutex_unlock(&ev_lock);
    free((void *)d);
    in_cb--;
}
NOTSAN static void free_ud(const uint8_t *d, void *ck) {
    in_cb++;
    pthread_mutex_lock(&ev_lock);
    iv_add(&fu, (int)(intptr_t)ck);
    pthread_mutex_unlock(&ev_lock);
    free((void *)d);
    in_cb--;
}

static char logbuf[256];
NOTSAN static void my_log(void *c, const char *fmt, va_list ap) { (void)c; vsnprintf(logbuf, sizeof logbuf, fmt, ap); }

/* ------------------------------------------------------------ one run */
#define MAXHELD 512
static Dav1dPicture held[MAXHELD];
static uint64_t held_dg[MAXHELD];
static int held_id[MAXHELD], nheld, held0, npic;

NOTSAN static void drop_pic(int i) {
    const uint64_t d = pic_digest(&held[i]);
    LIB(dav1d_picture_unref(&held[i]));
    ev_begin("p");
    fprintf(out, ",\"n\":%d,\"same\":%d", held_id[i], d == held_dg[i]);
    ev_end();
}

static int dumplvl = 1;

static void dump_pic(const char *name, const Dav1dPicture *p, uint64_t dg, int n) {
    fprintf(out, ",\"%s\":{\"n\":%d,\"p\":[%d,%d,%d,%d],\"dg\":\"%016" PRIx64 "\",\"buf\":%d,\"dp\":", name, n, p->p.w, p->p.h,
            p->p.layout, p->p.bpc, dg, custom ? ((Buf *)p->allocator_data)->id : -1);
    for (int pl = 0; pl < 3; pl++) fprintf(out, "%s\"%016" PRIx64 "\"", pl ? "," : "[", pl && !p->p.layout ? 0 : plane_digest(p, pl));
    fprintf(out, "],\"m\":");
    dump_props(out, &p->m);
    if (p->content_light)
        fprintf(out, ",\"cll\":[%d,%d]", p->content_light->max_content_light_level, p->content_light->max_frame_average_light_level);
    else fprintf(out, ",\"cll\":[]");
    fprintf(out, ",\"mdcv\":[");
    if (p->mastering_display) {
        const Dav1dMasteringDisplay *d = p->mastering_display;
        for (int i = 0; i < 3; i++) fprintf(out, "%d,%d,", d->primaries[i][0], d->primaries[i][1]);
        fprintf(out, "%d,%d,%u,%u,%u,%u", d->white_point[0], d->white_point[1], W32(d->max_luminance), W32(d->min_luminance));
    }
    fprintf(out, "],\"t35\":[");
    for (size_t i = 0; i < p->n_itut_t35; i++) {
        fprintf(out, "%s[%d,%d", i ? "," : "", p->itut_t35[i].country_code, p->itut_t35[i].country_code_extension_byte);
        for (size_t k = 0; k < p->itut_t35[i].payload_size; k++) fprintf(out, ",%d", p->itut_t35[i].payload[k]);
        fputc(']', out);
    }
    fprintf(out, "],\"fh\":");
    dump_fh(out, p->frame_hdr, p->seq_hdr->num_operating_points, dumplvl > 1);
    if (dumplvl > 1) { fprintf(out, ",\"sh\":"); dump_seq(out, p->seq_hdr); }
    fputc('}', out);
}

NOTSAN static int do_get(Dav1dContext *c, int hold) {
    Dav1dPicture p;
    memset(&p, 0, sizeof(p));
    int r;
    LIB(r = dav1d_get_picture(c, &p));
    uint64_t dg = 0;
    const int have = !r && p.data[0];
    if (have) dg = pic_digest(&p);
    ev_begin("g");
    fprintf(out, ",\"r\":%d", r);
    if (r && (p.data[0] || p.ref)) fprintf(out, ",\"leak\":1");
    if (have) dump_pic("pic", &p, dg, npic);
    ev_end();
    if (have) {
        if (nheld - held0 >= MAXHELD) abort();
        const int i = nheld++ % MAXHELD;
        held[i] = p; held_dg[i] = dg; held_id[i] = npic++;
        if (hold >= 0)
            while (nheld - held0 > hold) drop_pic(held0++ % MAXHELD);
    }
    return r;
}

static int64_t kvi(char **kv, int n, const char *key, int64_t def) {
    const size_t l = strlen(key);
    for (int i = 0; i < n; i++) if (!strncmp(kv[i], key, l) && kv[i][l] == '=') return strtoll(kv[i] + l + 1, NULL, 0);
    return def;
}
static const char *kvs(char **kv, int n, const char *key, const char *def) {
    const size_t l = strlen(key);
    for (int i = 0; i < n; i++) if (!strncmp(kv[i], key, l) && kv[i][l] == '=') return kv[i] + l + 1;
    return def;
}

static int nwrap;
static Dav1dData cur;
static int curpk = -1;

static int load(int k) {
    const Pk *q = &pk[k];
    memset(&cur, 0, sizeof cur);
    uint8_t *d = malloc(q->sz ? q->sz : 1); /* exact size: reads beyond it are visible to ASan */
    memcpy(d, blob + q->off, q->sz);
    int r;
    LIB(r = dav1d_data_wrap(&cur, d, q->sz, free_data, (void *)(intptr_t)nwrap));
    if (r) { free(d); memset(&cur, 0, sizeof cur); return r; }
    if (q->ud >= 0) {
        int *u = malloc(sizeof(int));
        *u = q->ud;
        LIB(r = dav1d_data_wrap_user_data(&cur, (const uint8_t *)u, free_ud, (void *)(intptr_t)nwrap));
        if (r) { free(u); LIB(dav1d_data_unref(&cur)); return r; }
    }
    cur.m.timestamp = q->ts < 0 ? INT64_MIN : q->ts;
    cur.m.duration = q->dur;
    cur.m.offset = q->poff;
    if (q->psz >= 0) cur.m.size = q->psz;
    curpk = k;
    nwrap++;
    return 0;
}

static int next_pk, last_pk;
NOTSAN static int do_send(Dav1dContext *c) {
    if (curpk < 0) {
        if (next_pk >= last_pk) return 1;
        const int lr = load(next_pk);
        if (lr) { ev_begin("w"); fprintf(out, ",\"k\":%d,\"r\":%d", next_pk, lr); ev_end(); next_pk++; return lr; }
        next_pk++;
    }
    int r;
    const uint8_t *d0 = cur.data; const size_t s0 = cur.sz;
    LIB(r = dav1d_send_data(c, &cur));
    ev_begin("s");
    fprintf(out, ",\"k\":%d,\"w\":%d,\"r\":%d,\"left\":%d,\"touched\":%d", curpk, nwrap - 1, r, (int)cur.sz,
            r && (cur.data != d0 || cur.sz != s0));
    if (r && r != DAV1D_ERR(EAGAIN)) { LIB(dav1d_data_unref(&cur)); curpk = -1; }
    else if (!r) { curpk = -1; if (cur.data) fprintf(out, ",\"own\":1"); memset(&cur, 0, sizeof cur); }
    ev_end();
    return r;
}

/* calls with arguments the documentation rules out; only for builds without assertions */
static void bad_calls(Dav1dContext *c) {
    Dav1dData d; Dav1dPicture p; Dav1dSettings s; Dav1dDataProps m; Dav1dSequenceHeader sh; Dav1dContext *c2 = NULL;
    enum Dav1dEventFlags fl;
    uint8_t byte = 0, z = 0;
    dav1d_default_settings(&s);
    memset(&d, 0, sizeof d); memset(&p, 0, sizeof p); memset(&m, 0, sizeof m);
    int v[40], k = 0;
    LIB(v[k++] = dav1d_send_data(NULL, &d)); LIB(v[k++] = dav1d_send_data(c, NULL));
    d.data = &byte; d.sz = 0;
    LIB(v[k++] = dav1d_send_data(c, &d));
    d.sz = SIZE_MAX / 2 + 1;
    LIB(v[k++] = dav1d_send_data(c, &d));
    memset(&d, 0, sizeof d);
    LIB(v[k++] = dav1d_get_picture(NULL, &p)); LIB(v[k++] = dav1d_get_picture(c, NULL));
    LIB(v[k++] = dav1d_get_event_flags(NULL, &fl)); LIB(v[k++] = dav1d_get_event_flags(c, NULL));
    LIB(v[k++] = dav1d_get_decode_error_data_props(NULL, &m)); LIB(v[k++] = dav1d_get_decode_error_data_props(c, NULL));
    LIB(v[k++] = dav1d_apply_grain(NULL, &p, &p)); LIB(v[k++] = dav1d_apply_grain(c, NULL, &p)); LIB(v[k++] = dav1d_apply_grain(c, &p, NULL));
    LIB(v[k++] = dav1d_parse_sequence_header(NULL, &byte, 1)); LIB(v[k++] = dav1d_parse_sequence_header(&sh, NULL, 1));
    LIB(v[k++] = dav1d_parse_sequence_header(&sh, &byte, 0));
    LIB(v[k++] = dav1d_data_wrap(NULL, &byte, 1, free_data, NULL)); LIB(v[k++] = dav1d_data_wrap(&d, NULL, 1, free_data, NULL));
    LIB(v[k++] = dav1d_data_wrap(&d, &byte, 1, NULL, NULL));
    LIB(v[k++] = dav1d_data_wrap_user_data(NULL, &byte, free_ud, NULL)); LIB(v[k++] = dav1d_data_wrap_user_data(&d, &byte, NULL, NULL));
    LIB(v[k++] = dav1d_open(NULL, &s)); LIB(v[k++] = dav1d_open(&c2, NULL)); LIB(v[k++] = dav1d_get_frame_delay(NULL));
    v[k++] = c2 || dav1d_data_create(NULL, 5) || dav1d_data_create(&d, SIZE_MAX / 2 + 1) || d.data || p.data[0] || z ? 1 : DAV1D_ERR(EINVAL);
    dav1d_close(NULL); dav1d_data_unref(NULL); dav1d_picture_unref(NULL); dav1d_data_props_unref(NULL);
    dav1d_data_unref(&d); dav1d_picture_unref(&p); dav1d_data_props_unref(&m); dav1d_close(&c2);
    ev_begin("N"); fprintf(out, ",\"v\":[");
    for (int i = 0; i < k; i++) fprintf(out, "%s%d", i ? "," : "", v[i]);
    fputc(']', out); ev_end();
}

/* threads of this process; a joined thread may linger for a moment */
#include <dirent.h>
static int threads_left(void) {
    int k = 0;
    for (int tries = 0; tries < 200; tries++) {
        DIR *d = opendir("/proc/self/task");
        if (!d) return 1;
        struct dirent *e; k = 0;
        while ((e = readdir(d))) k += e->d_name[0] != '.';
        closedir(d);
        if (k <= 1) break;
        usleep(5000);
    }
    return k;
}

NOTSAN static void run(char **kv, int n) {
    setvbuf(out, NULL, _IOFBF, 1 << 16);
    main_thread = pthread_self();
    Dav1dSettings s;
    dav1d_default_settings(&s);
    s.n_threads = kvi(kv, n, "nt", 1);
    s.max_frame_delay = kvi(kv, n, "fd", 1);
    s.apply_grain = kvi(kv, n, "grain", 1);
    s.operating_point = kvi(kv, n, "op", 0);
    s.all_layers = kvi(kv, n, "all", 1);
    s.frame_size_limit = kvi(kv, n, "limit", 0);
    s.strict_std_compliance = kvi(kv, n, "strict", 0);
    s.output_invisible_frames = kvi(kv, n, "invis", 0);
    s.inloop_filters = kvi(kv, n, "ilf", 7);
    s.decode_frame_type = kvi(kv, n, "dft", 0);
    s.logger.callback = my_log;
    custom = kvi(kv, n, "alloc", 1);
    allocpat = kvi(kv, n, "pat", 0);
    fillseed = kvi(kv, n, "fill", 0);
    failat = kvi(kv, n, "afail", -1);
    failn = kvi(kv, n, "afailn", 1);
    mfail = kvi(kv, n, "mfail", -1);
    mfail_n = kvi(kv, n, "mfailn", 1);
    dumplvl = kvi(kv, n, "dump", 1);
    const int hold = kvi(kv, n, "hold", 0);
    if (custom) {
        s.allocator.alloc_picture_callback = my_alloc;
        s.allocator.release_picture_callback = my_release;
        s.allocator.cookie = &cookie_val;
    }
    if (kvi(kv, n, "defs", 0)) {
        Dav1dSettings q; memset(&q, 0xa5, sizeof q);
        dav1d_default_settings(&q);
        Dav1dPicAllocator *const al_ = &q.allocator;
        ev_begin("v");
        fprintf(out, ",\"n_threads\":%d,\"max_frame_delay\":%d,\"apply_grain\":%d,\"operating_point\":%d,\"all_layers\":%d,"
                "\"frame_size_limit\":%d,\"strict\":%d,\"invis\":%d,\"ilf\":%d,\"dft\":%d,\"cb\":%d,\"api\":%d",
                q.n_threads, q.max_frame_delay, q.apply_grain, q.operating_point, q.all_layers, (int)q.frame_size_limit,
                q.strict_std_compliance, q.output_invisible_frames, (int)q.inloop_filters, (int)q.decode_frame_type,
                al_->alloc_picture_callback && al_->release_picture_callback && !al_->cookie && q.logger.callback,
                dav1d_version_api() == ((DAV1D_API_VERSION_MAJOR << 16) | (DAV1D_API_VERSION_MINOR << 8) | DAV1D_API_VERSION_PATCH));
        ev_end();
    }
    const int aff = kvi(kv, n, "aff", 0);
    if (aff > 0) { /* run on that many of the processors */
        cpu_set_t have_, want_; CPU_ZERO(&want_);
        int k = 0;
        if (!sched_getaffinity(0, sizeof have_, &have_))
            for (int i = 0; i < CPU_SETSIZE && k < aff; i++) if (CPU_ISSET(i, &have_)) { CPU_SET(i, &want_); k++; }
        sched_setaffinity(0, sizeof want_, &want_);
    }
    cpu_set_t cs_; CPU_ZERO(&cs_); sched_getaffinity(0, sizeof cs_, &cs_);
    const int ncpu = CPU_COUNT(&cs_);
    /* deliberately odd combinations for settings validation */
    const char *odd = kvs(kv, n, "odd", "");
    if (strchr(odd, 'a')) s.allocator.alloc_picture_callback = NULL;
    if (strchr(odd, 'r')) s.allocator.release_picture_callback = NULL;
    if (strchr(odd, 'm')) { dav1d_default_settings(&s); s.allocator.alloc_picture_callback = my_alloc; s.allocator.cookie = &cookie_val; s.n_threads = 1; }
    if (strchr(odd, 'n')) { dav1d_default_settings(&s); s.allocator.release_picture_callback = my_release; s.allocator.cookie = &cookie_val; s.n_threads = 1; }
    if (strchr(odd, 'k')) { dav1d_default_settings(&s); s.allocator.cookie = &cookie_val; s.n_threads = 1; custom = 0; }
    const int64_t cpu = kvi(kv, n, "cpu", -1);
    if (cpu >= 0) dav1d_set_cpu_flags_mask((unsigned)cpu);
    next_pk = kvi(kv, n, "from", 0);
    last_pk = kvi(kv, n, "to", npk);

    const char *sched = kvs(kv, n, "sched", "");
    if (*sched) sched_enable((uint64_t)kvi(kv, n, "sseed", 1), sched, kvi(kv, n, "maxsteps", 3000000));

    const int delay = dav1d_get_frame_delay(&s);
    nfc_gt1 = s.n_threads != 1; /* with worker threads a buffer may be released on any of them */
    Dav1dContext *c = NULL;
    int r;
    const int mopen = kvi(kv, n, "mopen", 0);
    if (!mopen) { const long m = mfail; mfail = -1; LIB(r = dav1d_open(&c, &s)); mfail = m; mcount = 0; }
    else LIB(r = dav1d_open(&c, &s));
    ev_begin("o");
    fprintf(out, ",\"r\":%d,\"delay\":%d,\"ctx\":%d,\"ncpu\":%d", r, delay, c != NULL, ncpu);
    ev_end();
    if (r) goto end;

    const char *acts = kvs(kv, n, "acts", "A");
    int lastr = 0;
    for (const char *a = acts; *a; a++) {
        int guard = 0;
        switch (*a) {
        case 's': lastr = do_send(c); break;
        case 'z': { /* send an empty packet */
            Dav1dData d; memset(&d, 0, sizeof d);
            int rr; LIB(rr = dav1d_send_data(c, &d));
            ev_begin("z"); fprintf(out, ",\"r\":%d", rr); ev_end();
            break; }
        case 'g': lastr = do_get(c, hold); break;
        case 'S': /* send one packet, fetching pictures while the decoder is full */
            while ((lastr = do_send(c)) == DAV1D_ERR(EAGAIN) && guard++ < 4096) do_get(c, hold);
            break;
        case 'G': /* fetch all that is ready */
            while (!(lastr = do_get(c, hold)) && guard++ < 4096) ;
            break;
        case 'A': /* all remaining packets, eagerly */
            while ((lastr = do_send(c)) != 1 && guard++ < 100000) {
                if (lastr == DAV1D_ERR(EAGAIN)) { do_get(c, hold); continue; }
                while (!(lastr = do_get(c, hold)) && guard++ < 100000) ;
            }
            break;
        case 'L': /* all remaining packets, lazily: one get per EAGAIN */
            while ((lastr = do_send(c)) != 1 && guard++ < 100000)
                if (lastr == DAV1D_ERR(EAGAIN)) do_get(c, hold);
            break;
        case 'D': { /* drain */
            int again = 0;
            while (again < 2 && guard++ < 100000) { lastr = do_get(c, hold); if (lastr == DAV1D_ERR(EAGAIN)) again++; else again = 0; }
            break; }
        case 'd': /* drain the way applications do: first get, then until EAGAIN */
            do_get(c, hold);
            while ((lastr = do_get(c, hold)) != DAV1D_ERR(EAGAIN) && guard++ < 100000) ;
            break;
        case 'f': LIB(dav1d_flush(c)); ev_begin("f"); ev_end(); break;
        case 'e': { enum Dav1dEventFlags fl = 0; int rr; LIB(rr = dav1d_get_event_flags(c, &fl));
            ev_begin("e"); fprintf(out, ",\"r\":%d,\"f\":%d", rr, (int)fl); ev_end(); break; }
        case 'x': { Dav1dDataProps m; memset(&m, 0, sizeof m); int rr;
            LIB(rr = dav1d_get_decode_error_data_props(c, &m));
            ev_begin("x"); fprintf(out, ",\"r\":%d,\"m\":", rr); dump_props(out, &m);
            LIB(dav1d_data_props_unref(&m)); ev_end(); break; }
        case 'p': if (held0 < nheld) drop_pic(held0++ % MAXHELD); break;
        case 'P': while (held0 < nheld) drop_pic(held0++ % MAXHELD); break;
        case 'a': if (held0 < nheld) { /* apply grain to the newest held picture */
            Dav1dPicture o; memset(&o, 0, sizeof o);
            const int i = (nheld - 1) % MAXHELD; int rr;
            LIB(rr = dav1d_apply_grain(c, &o, &held[i]));
            uint64_t dg = rr ? 0 : pic_digest(&o);
            const uint64_t d2 = pic_digest(&held[i]);
            ev_begin("a"); fprintf(out, ",\"r\":%d,\"n\":%d,\"same\":%d", rr, held_id[i], d2 == held_dg[i]);
            if (!rr) dump_pic("pic", &o, dg, -1);
            if (!rr) LIB(dav1d_picture_unref(&o));
            ev_end(); } break;
        case 'b': next_pk = kvi(kv, n, "from", 0); if (curpk >= 0) { LIB(dav1d_data_unref(&cur)); curpk = -1; ev_begin("u"); ev_end(); } break; /* back to the start */
        case 'u': if (curpk >= 0) { LIB(dav1d_data_unref(&cur)); curpk = -1; ev_begin("u"); ev_end(); } break; /* give up the refused packet */
        case 'j': if (next_pk < last_pk) next_pk++; break; /* skip one packet */
        case 'Q': /* stand-alone sequence header parser on every packet */
            for (int k = next_pk; k < last_pk; k++) {
                Dav1dSequenceHeader sh; int rr;
                uint8_t *d = malloc(pk[k].sz ? pk[k].sz : 1); /* exact size */
                memcpy(d, blob + pk[k].off, pk[k].sz);
                memset(&sh, 0xa5, sizeof sh);
                LIB(rr = dav1d_parse_sequence_header(&sh, d, pk[k].sz));
                ev_begin("q"); fprintf(out, ",\"k\":%d,\"r\":%d", k, rr);
                if (!rr) { fprintf(out, ",\"sh\":"); dump_seq(out, &sh); }
                ev_end();
                free(d);
            }
            break;
        case 'N': bad_calls(c); break;
        case 'm': mfail = -1; break; /* end of injected failures */
        case 'c': LIB(dav1d_close(&c)); ev_begin("c"); fprintf(out, ",\"ctx\":%d", c != NULL); ev_end(); break;
        }
        if (!c) break;
    }
    mfail = -1; /* tear-down never fails */
    if (curpk >= 0) { LIB(dav1d_data_unref(&cur)); curpk = -1; ev_begin("u"); ev_end(); }
    if (c) { LIB(dav1d_close(&c)); ev_begin("c"); fprintf(out, ",\"ctx\":%d", c != NULL); ev_end(); }
    while (held0 < nheld) drop_pic(held0++ % MAXHELD);
end:
    if (*sched) sched_disable();
    if (cpu >= 0) dav1d_set_cpu_flags_mask(UINT_MAX);
    ev_begin("end");
    fprintf(out, ",\"live\":%d,\"mcount\":%ld,\"mfailed\":%d", nlive, (long)mcount, mfailed);
    if (kvi(kv, n, "thr", 0)) fprintf(out, ",\"thr\":%d", threads_left());
    if (vh_itx_l1) fprintf(out, ",\"l1\":[%ld,%ld]", (long)vh_itx_l1[0], (long)vh_itx_l1[1]);
#ifdef VH_SCHED
    if (*sched) { char b[256]; sched_stats(b, sizeof b); fprintf(out, ",\"sched\":%s", b); }
#endif
    ev_end();
}

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    FILE *f = fopen(argv[2], "rb");
    if (!f) return 2;
    fseek(f, 0, SEEK_END); blobsz = ftell(f); fseek(f, 0, SEEK_SET);
    blob = malloc(blobsz + 1);
    if (fread(blob, 1, blobsz, f) != blobsz) return 2;
    fclose(f);
    const int ofd = open(argv[3], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    if (ofd < 0) return 2;
    f = fopen(argv[1], "r");
    char *line = NULL; size_t cap = 0;
    const char *te = getenv("VH_TIMEOUT");
    const int tmo = te ? atoi(te) : 30;
    const int nofork = getenv("VH_NOFORK") != NULL;
    int hangs = 0;
    while (getline(&line, &cap, f) > 0) {
        if (line[0] == 'P') {
            int i; Pk q;
            if (sscanf(line + 1, "%d %zu %zu %d %d %d %d %d", &i, &q.off, &q.sz, &q.ts, &q.dur, &q.poff, &q.psz, &q.ud) != 8) return 3;
            if (i >= MAXPK) return 3;
            pk[i] = q;
            npk = i + 1;
        } else if (line[0] == 'R') {
            char *kv[64]; int n = 0;
            line[strcspn(line, "\n")] = 0;
            char *tok = strtok(line + 1, " ");
            snprintf(runid, sizeof runid, "%s", tok);
            while ((tok = strtok(NULL, " ")) && n < 64) kv[n++] = tok;
            fflush(NULL);
            if (nofork) { out = fdopen(dup(ofd), "a"); run(kv, n); fclose(out); continue; }
            int ep[2];
            if (pipe(ep)) return 4;
            const pid_t pid = fork();
            if (!pid) {
                close(ep[0]);
                dup2(ep[1], 2); close(ep[1]);
                out = fdopen(ofd, "a");
                run(kv, n);
                fflush(out);
#if defined(__SANITIZE_ADDRESS__) || defined(VH_LSAN)
                extern int __lsan_do_recoverable_leak_check(void) __attribute__((weak));
                if (__lsan_do_recoverable_leak_check && kvi(kv, n, "leakcheck", 1)) {
                    memset(&cur, 0, sizeof cur);
                    if (__lsan_do_recoverable_leak_check()) _exit(77);
                }
#endif
                _exit(0);
            }
            close(ep[1]);
            fcntl(ep[0], F_SETFL, O_NONBLOCK);
            char err[6000]; size_t en = 0;
            struct timeval t0, t1;
            gettimeofday(&t0, NULL);
            int st = 0, hung = 0;
            for (;;) {
                char tmp[2048]; ssize_t k;
                while ((k = read(ep[0], tmp, sizeof tmp)) > 0) {
                    if ((size_t)k > sizeof(err) - 1 - en) k = sizeof(err) - 1 - en;
                    memcpy(err + en, tmp, k); en += k;
                }
                const pid_t w = waitpid(pid, &st, WNOHANG);
                if (w == pid) {
                    while ((k = read(ep[0], tmp, sizeof tmp)) > 0) {
                        if ((size_t)k > sizeof(err) - 1 - en) k = sizeof(err) - 1 - en;
                        memcpy(err + en, tmp, k); en += k;
                    }
                    break;
                }
                gettimeofday(&t1, NULL);
                const long us = (t1.tv_sec - t0.tv_sec) * 1000000L + (t1.tv_usec - t0.tv_usec);
                if (us > tmo * 1000000L) { hung = 1; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
                usleep(us < 20000 ? 200 : 1000);
            }
            close(ep[0]);
            err[en] = 0;
            if (hung || !WIFEXITED(st) || WEXITSTATUS(st)) {
                FILE *o = fdopen(dup(ofd), "a");
                fprintf(o, "\n{\"run\":\"%s\",\"op\":\"%s\",\"st\":%d,\"msg\":\"", runid, hung ? "hang" : "crash", WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st));
                for (size_t i = 0; i < en && i < 3000; i++) {
                    const unsigned char ch = err[i];
                    if (ch == '"' || ch == '\\') fprintf(o, "'"); else if (ch < 32 || ch > 126) fprintf(o, " "); else fputc(ch, o);
                }
                fprintf(o, "\"}\n");
                fclose(o);
                hangs += hung || (WIFEXITED(st) && WEXITSTATUS(st) == 96);
                if (hangs >= 2) return 0;               /* enough has been seen */
            }
        }
    }
    return 0;
}
