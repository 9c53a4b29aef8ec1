/* Driver for the conversions of gutil_misc.h */
#include "common.h"
#include <gutil_misc.h>

typedef struct { guint8* mem; guint8* p; int n; gboolean own; } Blk;   /* p is NULL if absent */
static unsigned char tmp[1 << 19];

static void begin(const char* op) { ev_begin("op"); ev_str("op", op); }

/* The end of the block is the end of the memory, the beginning isn't necessarily aligned */
static Blk blk(const char* s)
{
    Blk b = { NULL, NULL, 0, TRUE };
    if (strcmp(s, "-1")) {
        int k = vf_pos % 3;
        b.n = vf_hexbytes(s, tmp);
        b.mem = malloc(b.n + k);
        b.p = b.mem + k;
        memcpy(b.p, tmp, b.n);
    }
    return b;
}
static void unblk(Blk* b) { if (b->own) free(b->mem); }
static GBytes* bytes_of(const Blk* b) { return b->p ? g_bytes_new_static(b->p, b->n) : NULL; }
static GUtilData* data_of(const Blk* b, GUtilData* d)
{
    d->bytes = b->p; d->size = b->n;
    return b->p ? d : NULL;
}
static void ev_blk(const char* k, const void* p, size_t n, int there)
{
    if (there) ev_bytes(k, p, n);
    else { ev_open(k, "["); ev_int(NULL, -1); ev_close("]"); }
}
static void ev_gbytes(const char* k, GBytes* b)
{
    gsize n = 0;
    const void* p = b ? g_bytes_get_data(b, &n) : NULL;
    ev_blk(k, p, n, b != NULL);
}
static int bytes_are(GBytes* b, const void* p, gsize n)
{
    gsize m;
    const void* q = g_bytes_get_data(b, &m);
    return m == n && (!n || !memcmp(p, q, n));
}

static char* text(int i, int* n)
{
    char* s;
    *n = vf_hexbytes(vf_s(i), tmp);
    s = malloc(*n + 1);
    memcpy(s, tmp, *n);
    s[*n] = 0;
    return s;
}

static void unhex(const char* t, int len, int n)
{
    /* Nothing past the given length may be looked at */
    char* part = malloc(n ? n : 1);
    void* out = malloc(n / 2);
    void* r;
    GBytes* b; GBytes* ib;
    if (n) memcpy(part, t, n);
    begin("unhex"); ev_bytes("t", t, len); ev_int("n", n);
    r = gutil_hex2bin(part, n, out);
    ev_bool("r", r != NULL); ev_bytes("b", out, r == out ? n / 2 : 0);
    b = gutil_hex2bytes(part, n);
    ib = gutil_hex2bytes(t, -1);
    ev_bool("br", b != NULL); ev_gbytes("bb", b);
    ev_bool("ir", ib != NULL); ev_gbytes("ib", ib);
    if (b) g_bytes_unref(b);
    if (ib) g_bytes_unref(ib);
    ev_end();
    free(part); free(out);
}

static void hexstr(const char* k, char* s) { ev_bytes(k, s, strlen(s)); g_free(s); }

static void pair(Blk* x, Blk* y)
{
    GUtilData d1, d2;
    GUtilData* a = data_of(x, &d1); GUtilData* b = data_of(y, &d2);
    GBytes* ga = bytes_of(x); GBytes* gb = bytes_of(y); GBytes* xr;
    guint8* sa = g_memdup2(x->p, x->n); guint8* sb = g_memdup2(y->p, y->n);
    GUtilRange r;
    int skip, intact;

    begin("pair");
    ev_blk("a", x->p, x->n, x->p != NULL); ev_blk("b", y->p, y->n, y->p != NULL);
    ev_bool("eq", gutil_data_equal(a, b));
    ev_bool("pre", gutil_data_has_prefix(a, b));
    ev_bool("suf", gutil_data_has_suffix(a, b));
    ev_bool("beq", gutil_bytes_equal(ga, y->p, y->n));
    ev_bool("beqd", gutil_bytes_equal_data(ga, b));
    ev_bool("bpre", gutil_bytes_has_prefix(ga, y->p, y->n));
    ev_bool("bsuf", gutil_bytes_has_suffix(ga, y->p, y->n));
    xr = gutil_bytes_xor(ga, gb);
    ev_gbytes("xor", xr);
    r.ptr = x->p; r.end = x->p ? x->p + x->n : NULL;
    ev_bool("rpre", gutil_range_has_prefix(&r, b));
    intact = r.ptr == x->p && (!x->p || r.end == x->p + x->n);
    skip = gutil_range_skip_prefix(&r, b);
    ev_bool("rskip", skip);
    ev_int("rpos", x->p ? r.ptr - x->p : 0);
    intact = intact && (x->p ? r.end == x->p + x->n : !r.ptr && !r.end);
    /* the operands are as they were, and not owned by the result */
    intact = intact && (!a || (a->bytes == x->p && a->size == x->n)) && (!b || (b->bytes == y->p && b->size == y->n)) &&
        (!x->p || !x->n || !memcmp(sa, x->p, x->n)) && (!y->p || !y->n || !memcmp(sb, y->p, y->n));
    if (xr) g_bytes_unref(xr);
    intact = intact && (!ga || bytes_are(ga, x->p, x->n)) && (!gb || bytes_are(gb, y->p, y->n));
    if (ga) g_bytes_unref(ga);
    if (gb) g_bytes_unref(gb);
    ev_bool("intact", intact);
    ev_end();
    g_free(sa); g_free(sb);
}

static void vf_scenario(void)
{
    while (vf_next()) {
        if (vf_is("unhex")) {
            int len, n; char* t = text(1, &len);
            for (n = MAX(0, len - 3); n <= len; n++) unhex(t, len, n);
            free(t);
        } else if (vf_is("hex")) {
            Blk b = blk(vf_s(1));
            GUtilData d;
            begin("hex"); ev_bytes("b", b.p, b.n);
            hexstr("lo", gutil_bin2hex(b.p, b.n, FALSE)); hexstr("up", gutil_bin2hex(b.p, b.n, TRUE));
            hexstr("lod", gutil_data2hex(data_of(&b, &d), FALSE)); hexstr("upd", gutil_data2hex(data_of(&b, &d), TRUE));
            ev_end();
            unblk(&b);
        } else if (vf_is("hexdump")) {
            Blk b = blk(vf_s(1));
            char* buf = malloc(GUTIL_HEXDUMP_BUFSIZE);
            memset(buf, 'z', GUTIL_HEXDUMP_BUFSIZE);
            begin("hexdump"); ev_bytes("b", b.p, b.n);
            ev_int("r", gutil_hexdump(buf, b.p, b.n)); buf[GUTIL_HEXDUMP_BUFSIZE - 1] = 0; ev_str("s", buf);
            ev_end();
            free(buf);
            unblk(&b);
        } else if (vf_is("parse")) {
            int base = vf_i(1), absent = !strcmp(vf_s(2), "NULL"), n = 0;
            char* t = absent ? NULL : text(2, &n);
            char* copy = absent ? NULL : g_strdup(t);
            int k;
            begin("parse"); ev_int("base", base); ev_bool("absent", absent); ev_bytes("s", t, n);
            ev_open("p", "[");
            for (k = 0; k < 4; k++) {
                const guint64 pat = G_GUINT64_CONSTANT(0xa5c3961e5a3c69e1);
                guint64 v = pat; int r = 0, rn = 0;
                ev_open(NULL, "{");
                errno = (vf_pos & 1) ? ERANGE : 0;
                switch (k) {
                case 0: r = gutil_parse_int(t, base, (int*)(void*)&v); rn = gutil_parse_int(t, base, NULL); break;
                case 1: r = gutil_parse_uint(t, base, (guint*)(void*)&v); rn = gutil_parse_uint(t, base, NULL); break;
                case 2: r = gutil_parse_int64(t, base, (gint64*)&v); rn = gutil_parse_int64(t, base, NULL); break;
                case 3: r = gutil_parse_uint64(t, base, &v); rn = gutil_parse_uint64(t, base, NULL); break;
                }
                ev_bool("r", r); ev_bool("rn", rn);
                /* the other half of a smaller target isn't touched either */
                ev_bool("same", k < 2 && r ? (v >> 32) == (pat >> 32) : v == pat);
                ev_u64("v", k == 0 ? (guint64)(gint64)(gint32)v : k == 1 ? (guint32)v : v);
                ev_close("}");
            }
            ev_close("]");
            ev_bool("intact", absent || !strcmp(copy, t));
            ev_end();
            free(t); g_free(copy);
        } else if (vf_is("pair")) {
            Blk a = blk(vf_s(1)), b = blk(vf_s(2));
            pair(&a, &b);
            unblk(&a); unblk(&b);
        } else if (vf_is("overlap")) {
            Blk a = blk(vf_s(1)), b = a;
            b.p = a.p + vf_i(2); b.n = vf_i(3); b.own = FALSE;
            if (!a.p || vf_i(2) < 0 || b.n < 0 || vf_i(2) + b.n > a.n) { fprintf(stderr, "bad overlap\n"); _exit(98); }
            pair(&a, &b);
            pair(&b, &a);
            pair(&a, &a);
            unblk(&a);
        } else if (vf_is("concat")) {
            GBytes* g[60]; Blk b[60]; GBytes* r; int k, n = MIN(vf_argc - 1, 60), intact = 1;
            memset(g, 0, sizeof(g));
            for (k = 0; k < n; k++) { b[k] = blk(vf_s(k + 1)); g[k] = bytes_of(b + k); }
#define G4(i) g[i], g[i + 1], g[i + 2], g[i + 3]
#define G20(i) G4(i), G4(i + 4), G4(i + 8), G4(i + 12), G4(i + 16)
            r = gutil_bytes_concat(G20(0), G20(20), G20(40), NULL);
            begin("concat"); ev_open("s", "["); for (k = 0; k < n; k++) ev_bytes(NULL, b[k].p, b[k].n); ev_close("]");
            for (k = 0; k < n; k++) intact = intact && bytes_are(g[k], b[k].p, b[k].n);
            /* The result lives on its own reference */
            for (k = 0; k < n; k++) g_bytes_unref(g[k]);
            ev_gbytes("r", r);
            if (r) g_bytes_unref(r);
            ev_bool("intact", intact);
            ev_end();
            for (k = 0; k < n; k++) unblk(b + k);
        } else if (vf_is("conv")) {
            Blk b = blk(vf_s(1));
            GUtilData d, fb; GUtilData* nd; GUtilData* cp; GUtilData* a = data_of(&b, &d);
            GBytes* gb = bytes_of(&b); GVariant* var; GUtilRange rng; gsize rs;
            guint8* save = g_memdup2(b.p, b.n);
            char* str = malloc(b.n + 1);
            int intact = 1;
            memset(&fb, 0x5a, sizeof(fb)); memset(&rng, 0x5a, sizeof(rng));
            begin("conv"); ev_blk("a", b.p, b.n, b.p != NULL);
            intact = gutil_data_from_bytes(&fb, gb) == &fb;
            nd = gutil_data_new(b.p, b.n);
            cp = gutil_data_copy(a);
            var = gutil_data_copy_as_variant(a);
            intact = intact && (!a || (a->bytes == b.p && a->size == b.n)) && (!b.n || !memcmp(save, b.p, b.n));
            ev_bytes("fb", fb.bytes, fb.size);
            rs = gutil_range_init_with_bytes(&rng, gb);
            ev_bytes("rng", rng.ptr, rng.end - rng.ptr); ev_int("rsize", rs);
            intact = intact && gutil_range_init_with_bytes(NULL, gb) == 0;
            if (b.n) memcpy(str, b.p, b.n);
            str[b.n] = 0;
            memset(&fb, 0x5a, sizeof(fb));
            intact = intact && gutil_data_from_string(&fb, str) == &fb;
            ev_bytes("str", fb.bytes, fb.size);
            /* Copies don't depend on the original */
            if (b.n) memset(b.p, 0xee, b.n);
            ev_bytes("new", nd->bytes, nd->size);
            ev_blk("copy", cp ? cp->bytes : NULL, cp ? cp->size : 0, cp != NULL);
            {
                gsize n = 0; gconstpointer p = NULL;
                int ok = !var || (g_variant_is_floating(var) && g_variant_is_of_type(var, G_VARIANT_TYPE_BYTESTRING));
                if (var) { g_variant_ref_sink(var); p = g_variant_get_fixed_array(var, &n, 1); }
                ev_blk("var", p, n, var != NULL);
                ev_bool("floating", ok);
                if (var) g_variant_unref(var);
            }
            if (b.n) memcpy(b.p, save, b.n);
            ev_bool("intact", intact);
            ev_end();
            g_free(nd); g_free(cp);
            if (gb) g_bytes_unref(gb);
            g_free(save); free(str);
            unblk(&b);
        } else if (vf_is("null")) {
            guint8 out[4]; GUtilData d = { (void*)out, 4 }; GUtilRange r; char* s; GUtilData* nd; GBytes* gb;
            int ok = !gutil_hex2bin(NULL, 2, out) && !gutil_hex2bin("00", 2, NULL) && !gutil_hex2bin("00", 0, out) &&
                !gutil_hex2bin("00", -1, out) && !gutil_hex2bytes(NULL, 2) && !gutil_hex2bytes(NULL, -1) &&
                !gutil_data2hex(NULL, TRUE);
            s = gutil_bin2hex(NULL, 0, FALSE); ok = ok && s && !*s; g_free(s);
            ok = ok && !gutil_data_from_string(NULL, "x") && !gutil_data_from_bytes(NULL, NULL);
            ok = ok && gutil_data_from_string(&d, NULL) == &d && !d.bytes && !d.size;
            d.bytes = out; d.size = 4;
            ok = ok && gutil_data_from_bytes(&d, NULL) == &d && !d.bytes && !d.size;
            nd = gutil_data_new(NULL, 0); ok = ok && nd && !nd->bytes && !nd->size; g_free(nd);
            nd = gutil_data_new(NULL, 3); ok = ok && nd && !nd->bytes && !nd->size; g_free(nd);
            ok = ok && !gutil_data_copy(NULL) && !gutil_data_copy_as_variant(NULL);
            nd = gutil_data_copy(&d); ok = ok && nd && !nd->size; g_free(nd);
            ok = ok && !gutil_bytes_concat(NULL, NULL) && !gutil_bytes_xor(NULL, NULL);
            gb = g_bytes_new_static("", 0);
            ok = ok && !gutil_bytes_xor(gb, NULL) && !gutil_bytes_xor(NULL, gb) && !gutil_bytes_equal(gb, NULL, 0) &&
                !gutil_bytes_equal(NULL, "", 0) && gutil_bytes_equal(NULL, NULL, 0) && gutil_bytes_equal(gb, "", 0) &&
                gutil_bytes_equal_data(gb, &d) && !gutil_bytes_equal_data(NULL, &d);
            g_bytes_unref(gb);
            memset(&r, 0x5a, sizeof(r));
            ok = ok && gutil_range_init_with_bytes(&r, NULL) == 0 && !r.ptr && !r.end;
            ok = ok && !gutil_range_has_prefix(NULL, &d) && !gutil_range_skip_prefix(NULL, &d) &&
                !gutil_range_has_prefix(NULL, NULL) && !gutil_range_has_prefix(&r, NULL) && !gutil_range_has_prefix(&r, &d);
            begin("null"); ev_bool("r", ok); ev_end();
        } else { fprintf(stderr, "bad op %s\n", vf_argv[0]); _exit(98); }
    }
}

int main(int argc, char** argv)
{
    gutil_log_default.level = GLOG_LEVEL_NONE;
    return vf_main(argc, argv);
}
