/* Driver for gutil_ints.h */
#include "common.h"
#include <gutil_ints.h>

#define NI 12
static GUtilInts* t[NI + 1];
static int refs[NI + 1], taken[NI + 1];
static int* block[NI + 1];        /* memory provided by the client */
static int fixed[NI + 1][VF_MAXARG];
static int rel[2 * NI], nrel;
static int vals[VF_MAXARG], nv;

static void begin(const char* op) { ev_begin("op"); ev_str("op", op); }
static void ints(const char* k, const int* v, guint n)
{
    guint i;
    ev_open(k, "["); for (i = 0; i < n; i++) ev_int(NULL, v[i]); ev_close("]");
}
static void finish(void)
{
    int i;
    ints("rel", rel, nrel); nrel = 0;
    ev_open("o", "[");
    for (i = 1; i <= NI; i++) if (refs[i]) {
        guint n = 0;
        const int* d = gutil_ints_get_data(t[i], &n);
        if (gutil_ints_get_count(t[i]) != n || gutil_ints_get_data(t[i], NULL) != d) n = 0;
        ev_open(NULL, "{"); ev_int("i", i); ints("c", d, n); ev_close("}");
    }
    ev_close("]");
    ev_end();
}
static void released(gpointer p)
{
    int i = GPOINTER_TO_INT(p);
    if (nrel < 2 * NI) rel[nrel++] = i;
    g_free(block[i]);
}
static guint cap(guint x) { return MIN(x, G_MAXINT); }
static guint pos(int i) { gint64 x = vf_ll(i); return x == G_MAXINT ? G_MAXUINT : (guint)x; }

static void do_unref(int i, int todata)
{
    GUtilInts* p = t[i];
    if (!--refs[i]) t[i] = NULL;
    if (todata) {
        guint n = 0;
        static int copy[4096];
        int* d = gutil_ints_unref_to_data(p, (todata & 2) ? NULL : &n);
        if (todata & 2) n = todata >> 2;
        memcpy(copy, d, n * sizeof(int));
        memset(d, 0xaa, n * sizeof(int)); /* it's mine */
        g_free(d);
        begin("todata"); ev_int("i", i); ints("d", copy, n);
    } else {
        gutil_ints_unref(p);
        begin("unref"); ev_int("i", i);
    }
    finish();
}

static void matrices(GUtilInts** x, int n)
{
    int i, j;
    ev_open("eq", "[");
    for (i = 0; i < n; i++) { ev_open(NULL, "["); for (j = 0; j < n; j++) ev_bool(NULL, gutil_ints_equal(x[i], x[j])); ev_close("]"); }
    ev_close("]");
    ev_open("cmp", "[");
    for (i = 0; i < n; i++) {
        ev_open(NULL, "[");
        for (j = 0; j < n; j++) { int c = gutil_ints_compare(x[i], x[j]); ev_int(NULL, c > 0 ? 1 : c < 0 ? -1 : 0); }
        ev_close("]");
    }
    ev_close("]");
    ev_open("hash", "[");
    for (i = 0; i < n; i++) ev_u64(NULL, gutil_ints_hash(x[i]));
    ev_close("]");
}
static void laws(void)
{
    GUtilInts* x[NI + 1];
    int s[NI + 1], n = 0, i;
    x[n] = NULL; s[n++] = 0;
    for (i = 1; i <= NI; i++) if (refs[i]) { x[n] = t[i]; s[n++] = i; }
    begin("laws");
    ints("s", s, n);
    matrices(x, n);
    finish();
}
/* Large arrays of zeros with a single other value somewhere */
static void bigs(void)
{
    GUtilInts* x[VF_MAXARG]; int n, i;
    begin("bigs");
    ev_open("s", "[");
    for (n = 0; n + 1 < vf_argc; n++) {
        int size, at, val, off; int* v; guint k = 0;
        if (sscanf(vf_s(n + 1), "%d,%d,%d,%d", &size, &at, &val, &off) != 4) _exit(98);
        v = g_new0(int, size + 2 * off);
        if (off) v[off - 1] = v[off + size] = 12345;
        v[off + at] = val;
        x[n] = gutil_ints_new_take(v, size + 2 * off);
        if (off) { GUtilInts* y = gutil_ints_new_from_ints(x[n], off, size); gutil_ints_unref(x[n]); x[n] = y; }
        ev_open(NULL, "{"); ev_int("n", size); ev_int("at", at); ev_int("v", val);
        ev_int("find", gutil_ints_find(x[n], val)); ev_bool("has", gutil_ints_contains(x[n], val));
        ev_bool("not", gutil_ints_contains(x[n], 54321)); ev_int("find2", gutil_ints_find(x[n], 54321));
        ev_bool("r", gutil_ints_get_count(x[n]) == size && gutil_ints_get_data(x[n], &k)[at] == val && k == size);
        ev_close("}");
    }
    ev_close("]");
    matrices(x, n);
    /* What's given back, as what isn't zero there */
    ev_open("d", "[");
    for (i = 0; i < n; i++) {
        guint k = 0, j; int* d = (i & 1) ? gutil_ints_unref_to_data(gutil_ints_ref(x[i]), &k) : gutil_ints_unref_to_data(x[i], &k);
        ev_open(NULL, "{"); ev_int("n", k); ev_open("nz", "[");
        for (j = 0; j < k; j++) if (d[j]) { ev_open(NULL, "{"); ev_int("at", j); ev_int("v", d[j]); ev_close("}"); }
        ev_close("]"); ev_close("}");
        memset(d, 0xaa, k * sizeof(int));
        g_free(d);
        if (i & 1) gutil_ints_unref(x[i]);
    }
    ev_close("]");
    finish();
}

static void vf_scenario(void)
{
    int i;
    memset(t, 0, sizeof(t)); memset(refs, 0, sizeof(refs)); memset(taken, 0, sizeof(taken));
    nrel = 0;
    while (vf_next()) {
        i = vf_i(1);
        if (vf_is("null")) {
            guint n = 5; int v = 1, ok;
            ok = !gutil_ints_new(NULL, 0) && !gutil_ints_new(NULL, 1) && !gutil_ints_new_take(NULL, 1) &&
                !gutil_ints_new(&v, 0) && !gutil_ints_new_static(&v, 0) && 
                !gutil_ints_new_static(NULL, 1) && !gutil_ints_new_with_free_func(NULL, 0, g_free, NULL) &&
                !gutil_ints_new_from_ints(NULL, 0, 0) && !gutil_ints_new_from_ints(NULL, 0, 1) && !gutil_ints_ref(NULL) &&
                !gutil_ints_unref_to_data(NULL, NULL) && !gutil_ints_unref_to_data(NULL, &n) && n == 0;
            n = 5;
            ok = ok && !gutil_ints_get_data(NULL, NULL) && !gutil_ints_get_data(NULL, &n) && n == 0 && !gutil_ints_get_count(NULL) &&
                gutil_ints_find(NULL, 0) == -1 && !gutil_ints_contains(NULL, 0) && gutil_ints_hash(NULL) == gutil_ints_hash(NULL);
            gutil_ints_unref(NULL);
            begin("null"); ev_bool("r", ok); finish();
            continue;
        }
        if (vf_is("laws")) { laws(); continue; }
        if (vf_is("bigs")) { bigs(); continue; }
        if (i < 1 || i > NI) continue;
        if (vf_is("new")) {
            char kind[16]; int k, own = 0;
            if (taken[i]) continue;
            snprintf(kind, sizeof(kind), "%s", vf_s(2));
            for (nv = 0, k = 3; k < vf_argc; k++) vals[nv++] = vf_i(k);
            if (!strcmp(kind, "copy")) {
                int* tmp = g_memdup2(vals, nv * sizeof(int));
                t[i] = gutil_ints_new(tmp, nv);
                if (nv) memset(tmp, 0x55, nv * sizeof(int));
                g_free(tmp);
            } else if (!strcmp(kind, "take")) {
                t[i] = gutil_ints_new_take(g_memdup2(vals, nv * sizeof(int)), nv);
            } else if (!strcmp(kind, "static")) {
                memcpy(fixed[i], vals, sizeof(vals));
                t[i] = gutil_ints_new_static(fixed[i], nv);
            } else if (!strcmp(kind, "gfree") && nv) {
                /* allocated as a part of something else */
                int* b = g_new(int, nv + 4);
                memcpy(b + 2, vals, nv * sizeof(int));
                t[i] = gutil_ints_new_with_free_func(b + 2, nv, g_free, b);
            } else {
                own = 1;
                block[i] = nv ? g_memdup2(vals, nv * sizeof(int)) : NULL;
                t[i] = gutil_ints_new_with_free_func(block[i], nv, released, GINT_TO_POINTER(i));
            }
            refs[i] = t[i] != NULL; taken[i] |= refs[i];
            begin("new"); ev_int("i", i); ints("v", vals, nv); ev_bool("own", own); ev_bool("r", t[i] != NULL); finish();
            continue;
        }
        if (vf_is("slice")) {
            int p = vf_i(2); guint off = pos(3), n = pos(4);
            if (taken[i] || p < 1 || p > NI || !refs[p]) continue;
            t[i] = gutil_ints_new_from_ints(t[p], off, n);
            refs[i] = t[i] != NULL; taken[i] |= refs[i];
            begin("slice"); ev_int("i", i); ev_int("p", p); ev_int("off", cap(off)); ev_int("n", cap(n)); ev_bool("r", t[i] != NULL); finish();
            continue;
        }
        if (!refs[i]) continue;
        if (vf_is("ref")) {
            int r = gutil_ints_ref(t[i]) == t[i];
            refs[i]++;
            begin("ref"); ev_int("i", i); ev_bool("r", r); finish();
        } else if (vf_is("unref")) do_unref(i, 0);
        else if (vf_is("todata")) do_unref(i, 1 + ((vf_pos & 3) == 0 ? 2 + 4 * gutil_ints_get_count(t[i]) : 0));
        else if (vf_is("find")) {
            int x = vf_i(2), r = gutil_ints_find(t[i], x);
            begin("find"); ev_int("i", i); ev_int("x", x); ev_int("r", r); ev_bool("has", gutil_ints_contains(t[i], x)); finish();
        } else { fprintf(stderr, "bad op %s\n", vf_argv[0]); _exit(98); }
    }
    for (i = 1; i <= NI; i++) while (refs[i]) do_unref(i, i & 1);
}

int main(int argc, char** argv)
{
    gutil_log_default.level = GLOG_LEVEL_NONE;
    return vf_main(argc, argv);
}
