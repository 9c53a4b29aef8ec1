/* Driver for gutil_datapack.h. All buffers are blocks of exactly the right size. */
#include "common.h"
#include <gutil_datapack.h>

#define MAXB (1 << 19)
static guchar buf[MAXB], tmp[MAXB];
static guint nbuf, pos;

static void begin(const char* op) { ev_begin("op"); ev_str("op", op); }
static void* mdup(const void* p, gsize n) { void* d = malloc(n); if (n) memcpy(d, p, n); return d; }

static void enc(guint64 v, int sg)
{
    const guint size = sg ? gutil_signed_mbn_size((gint64)v) : gutil_unsigned_mbn_size(v);
    guint k, r;
    guchar* b = malloc(size);
    memset(b, 0xcc, size);
    r = sg ? gutil_signed_mbn_encode(b, (gint64)v) : gutil_unsigned_mbn_encode(b, v);
    begin("enc"); ev_bool("sg", sg); ev_u64("v", v); ev_int("size", size); ev_int("r", r); ev_bytes("b", b, size);
    free(b);
    ev_open("more", "[");
    for (k = size + 1; k <= 10; k++) {
        b = malloc(k);
        memset(b, 0xcc, k);
        r = sg ? gutil_signed_mbn_encode2(b, (gint64)v, k) : gutil_unsigned_mbn_encode2(b, v, k);
        ev_open(NULL, "{"); ev_int("r", r); ev_bytes("b", b, k); ev_close("}");
        free(b);
    }
    ev_close("]");
    b = malloc(0);
    ev_int("none", sg ? gutil_signed_mbn_encode2(b, (gint64)v, 0) : gutil_unsigned_mbn_encode2(b, v, 0));
    free(b);
    ev_end();
}

static void dec(const guchar* bytes, guint n, int sg)
{
    const guint64 fill = G_GUINT64_CONSTANT(0x5a5aa5a512345678);
    guchar* b = mdup(bytes, n);
    GUtilRange in;
    GUtilData d;
    guint64 v = fill;
    gboolean r;
    #define CALL(in,p) (sg ? gutil_signed_mbn_decode(in, (gint64*)(p)) : gutil_unsigned_mbn_decode(in, (p)))
    #define CALL2(d,p) (sg ? gutil_signed_mbn_decode2(d, (gint64*)(p)) : gutil_unsigned_mbn_decode2(d, (p)))
    in.ptr = b; in.end = b + n;
    r = CALL(&in, &v);
    begin("dec"); ev_bool("sg", sg); ev_bytes("b", b, n); ev_bool("r", r); ev_u64("v", v); ev_bool("same", v == fill);
    ev_int("adv", in.end == b + n ? in.ptr - b : -1);
    in.ptr = b;
    r = CALL(&in, NULL);
    ev_bool("rnull", r); ev_int("advnull", in.end == b + n ? in.ptr - b : -1);
    d.bytes = b; d.size = n; v = fill;
    r = CALL2(&d, &v);
    ev_bool("r2", r); ev_u64("v2", v); ev_bool("same2", v == fill);
    ev_bool("r2null", CALL2(&d, NULL));
    ev_end();
    free(b);
}

static void vf_scenario(void)
{
    nbuf = pos = 0;
    while (vf_next()) {
        if (vf_is("enc")) {
            guchar raw[8] = {0}; guint64 v = 0; int i;
            vf_hexbytes(vf_s(1), raw);
            for (i = 7; i >= 0; i--) v = (v << 8) | raw[i];
            enc(v, 0); enc(v, 1);
        } else if (vf_is("dec")) {
            const int n = vf_hexbytes(vf_s(1), tmp);
            dec(tmp, n, 0); dec(tmp, n, 1);
        } else if (vf_is("null")) {
            guint64 u = 1; gint64 s = 1; GUtilData e, z; guchar* b = malloc(0);
            memset(&z, 0, sizeof(z)); e.bytes = b; e.size = 0;
            begin("null"); ev_bool("r", !gutil_signed_mbn_decode2(NULL, &s) && !gutil_unsigned_mbn_decode2(NULL, &u) &&
                !gutil_signed_mbn_decode2(&z, &s) && !gutil_unsigned_mbn_decode2(&z, &u) &&
                !gutil_signed_mbn_decode2(&e, &s) && !gutil_unsigned_mbn_decode2(&e, &u) && u == 1 && s == 1); ev_end();
            free(b);
        } else if (vf_is("put")) {
            const guint tag = (guint)vf_ll(1); int n = vf_hexbytes(vf_s(2), tmp);
            GUtilData d; guint size; gsize r; guchar* b;
            size = gutil_tlv_size(tag, n);
            if (nbuf + size > MAXB) continue;
            d.bytes = mdup(tmp, n); d.size = n;
            b = malloc(size); memset(b, 0xcc, size);
            r = gutil_tlv_encode(b, tag, (n || (vf_pos & 1)) ? &d : NULL);
            begin("put"); ev_int("tag", tag); ev_bytes("val", tmp, n); ev_int("size", size); ev_int("r", r); ev_bytes("b", b, size); ev_end();
            memcpy(buf + nbuf, b, size); nbuf += size;
            free(b); free((void*)d.bytes);
        } else if (vf_is("size")) {
            const guint tag = (guint)vf_ll(1); const gsize len = (gsize)vf_ll(2);
            begin("size"); ev_int("tag", tag); ev_u64("len", len); ev_u64("r", gutil_tlv_size(tag, len)); ev_end();
        } else if (vf_is("junk")) {
            int n = vf_hexbytes(vf_s(1), tmp);
            if (nbuf + n > MAXB) continue;
            memcpy(buf + nbuf, tmp, n); nbuf += n;
            begin("junk"); ev_bytes("b", tmp, n); ev_end();
        } else if (vf_is("get")) {
            const guint n = nbuf - pos;
            guchar* b = mdup(buf + pos, n);
            GUtilRange in; GUtilData val; guint r; int want = (vf_pos & 3) != 0;
            in.ptr = b; in.end = b + n;
            val.bytes = (void*)1; val.size = 77;
            r = gutil_tlv_decode(&in, want ? &val : NULL);
            begin("get"); ev_int("r", MIN(r, G_MAXINT)); ev_int("adv", in.end == b + n ? CLAMP(in.ptr - b, -1, G_MAXINT) : -2);
            ev_bool("want", want);
            if (r && want) { ev_int("off", CLAMP(val.bytes - b, -1, G_MAXINT)); ev_int("len", MIN(val.size, G_MAXINT)); }
            else { ev_int("off", 0); ev_int("len", 0); }
            ev_end();
            if (in.ptr >= b && in.ptr <= b + n) pos += in.ptr - b;
            free(b);
        } else if (vf_is("tlvs")) {
            const int skip = vf_i(1); int k, n = 0, r, want = (vf_pos & 3) != 0;
            guint* tags = malloc(sizeof(guint) * (vf_argc - 1));
            GUtilData* vals; GUtilData in;
            guchar* b = mdup(buf, nbuf);
            for (k = 2; k < vf_argc; k++) tags[n++] = (guint)vf_ll(k);
            tags[n] = 0;
            vals = malloc(n * sizeof(GUtilData));
            memset(vals, 0x55, n * sizeof(GUtilData));
            in.bytes = b; in.size = nbuf;
            r = gutil_tlvs_decode(&in, tags, want ? vals : NULL, skip);
            begin("tlvs"); ev_bool("skip", skip & 1);
            ev_open("tags", "["); for (k = 0; k < n; k++) ev_int(NULL, tags[k]); ev_close("]");
            ev_int("err", MIN(r, 0));
            ev_open("mask", "["); for (k = 0; k < 31; k++) ev_int(NULL, r > 0 && (r & (1 << k))); ev_close("]");
            ev_open("vals", "[");
            if (want && r >= 0) for (k = 0; k < n; k++) {
                ev_open(NULL, "{"); ev_int("off", vals[k].bytes ? CLAMP(vals[k].bytes - b, -2, G_MAXINT) : -1);
                ev_int("len", MIN(vals[k].size, G_MAXINT)); ev_close("}");
            }
            ev_close("]"); ev_end();
            free(tags); free(vals); free(b);
        } else { fprintf(stderr, "bad op %s\n", vf_argv[0]); _exit(98); }
    }
}

int main(int argc, char** argv)
{
    gutil_log_default.level = GLOG_LEVEL_NONE;
    return vf_main(argc, argv);
}
