/* Driver for gutil_ring.h */
#include "common.h"
#include <gutil_ring.h>

static GUtilRing* r;
static int refs, dying, quiet;

static void obs(void)
{
    int i, n = gutil_ring_size(r);
    if (!r || dying) { ev_bool("live", 0); return; }
    ev_bool("live", 1);
    ev_int("n", n);
    ev_int("max", gutil_ring_max_size(r));
    if (!quiet) {
        ev_open("c", "[");
        for (i = 0; i < n && i < 100000; i++) ev_int(NULL, GPOINTER_TO_INT(gutil_ring_data_at(r, i)));
        ev_close("]");
    }
    /* out of range positions */
    ev_bool("oor", gutil_ring_data_at(r, -1) || gutil_ring_data_at(r, n) ||
        gutil_ring_data_at(r, n + 1) || gutil_ring_data_at(r, G_MAXINT) ||
        gutil_ring_data_at(r, G_MININT));
    ev_bool("can1", gutil_ring_can_put(r, 1));
}

static void commands(int nested);

static void free_cb(gpointer p)
{
    ev_begin("cb"); ev_int("x", GPOINTER_TO_INT(p)); obs(); ev_end();
    vf_depth++;
    commands(1);
    vf_depth--;
    ev_begin("cbret"); ev_end();
}

static void op_begin(const char* op, gint64 a) { ev_begin("op"); ev_str("op", op); ev_int("a", a); }
static void op_end(gint64 ret) { ev_int("r", ret); obs(); ev_end(); }
static void call_begin(const char* op, gint64 a)
{
    ev_begin("call"); ev_str("op", op); ev_int("a", a); ev_end();
}
static void call_end(gint64 ret) { ev_begin("ret"); ev_int("r", ret); obs(); ev_end(); }

static void commands(int nested)
{
    while (vf_next()) {
        int a = vf_i(1);
        if (vf_is("cbret")) { if (nested) return; continue; }
        if (vf_is("new")) {
            int res = vf_i(1), max = vf_i(2), ff = vf_i(3);
            if (r || dying) continue;
            r = ff ? gutil_ring_new_full(res, max, free_cb) :
                (res || max >= 0) ? gutil_ring_sized_new(res, max) : gutil_ring_new();
            refs = 1;
            ev_begin("new"); ev_int("max", max); ev_bool("ff", ff); obs(); ev_end();
            continue;
        }
        if (vf_is("null")) {
            int sz = 77; gboolean ok;
            gpointer* fl = gutil_ring_flatten(NULL, &sz);
            gutil_ring_unref(NULL); gutil_ring_clear(NULL); gutil_ring_compact(NULL);
            gutil_ring_set_free_func(NULL, free_cb); gutil_ring_set_max_size(NULL, 1);
            ok = !gutil_ring_ref(NULL) && !gutil_ring_max_size(NULL) && !gutil_ring_size(NULL) &&
                !gutil_ring_reserve(NULL, 1) && !gutil_ring_can_put(NULL, 1) &&
                !gutil_ring_put(NULL, &sz) && !gutil_ring_put_front(NULL, &sz) &&
                !gutil_ring_get(NULL) && !gutil_ring_get_last(NULL) &&
                !gutil_ring_drop(NULL, 1) && !gutil_ring_drop_last(NULL, 1) &&
                !gutil_ring_data_at(NULL, 0) && !gutil_ring_flatten(NULL, NULL) && !fl && !sz;
            ev_begin("null"); ev_bool("ok", ok); ev_end();
            continue;
        }
        if (!r || dying) continue;
        if (vf_is("quiet")) quiet = a;
        else if (vf_is("putn")) {
            /* many of them at a time */
            int i, n = 0, k = vf_i(2);
            for (i = 0; i < k && gutil_ring_put(r, GINT_TO_POINTER(a + i)); i++) n++;
            op_begin("putn", a); ev_int("k", k); op_end(n);
        }
        else if (vf_is("getn") || vf_is("getln")) {
            int i;
            op_begin(vf_argv[0], a);
            ev_open("g", "[");
            for (i = 0; i < a && gutil_ring_size(r); i++) ev_int(NULL, GPOINTER_TO_INT(vf_is("getn") ? gutil_ring_get(r) : gutil_ring_get_last(r)));
            ev_close("]");
            op_end(0);
        }
        else if (vf_is("put")) { op_begin("put", a); op_end(gutil_ring_put(r, GINT_TO_POINTER(a))); }
        else if (vf_is("putf")) { op_begin("putf", a); op_end(gutil_ring_put_front(r, GINT_TO_POINTER(a))); }
        else if (vf_is("get")) { op_begin("get", 0); op_end(GPOINTER_TO_INT(gutil_ring_get(r))); }
        else if (vf_is("getl")) { op_begin("getl", 0); op_end(GPOINTER_TO_INT(gutil_ring_get_last(r))); }
        else if (vf_is("compact")) { op_begin("compact", 0); gutil_ring_compact(r); op_end(0); }
        else if (vf_is("reserve")) { op_begin("reserve", a); op_end(gutil_ring_reserve(r, a)); }
        else if (vf_is("canput")) { op_begin("canput", a); op_end(gutil_ring_can_put(r, a)); }
        else if (vf_is("setfree")) { if (vf_depth) continue; op_begin("setfree", a != 0); gutil_ring_set_free_func(r, a ? free_cb : NULL); op_end(0); }
        else if (vf_is("ref")) { GUtilRing* p; op_begin("ref", 0); p = gutil_ring_ref(r); refs++; op_end(p == r); }
        else if (vf_is("flat")) {
            int n = -1, i; gpointer* p = gutil_ring_flatten(r, &n);
            op_begin("flat", 0);
            ev_bool("null", !p);
            ev_open("f", "[");
            if (p) for (i = 0; i < n; i++) ev_int(NULL, GPOINTER_TO_INT(p[i]));
            ev_close("]");
            op_end(n);
        }
        else if (vf_is("flat0")) { op_begin("compact", 0); gutil_ring_flatten(r, NULL); op_end(0); }
        else if (vf_is("drop")) { call_begin("drop", a); call_end(gutil_ring_drop(r, a)); }
        else if (vf_is("dropl")) { call_begin("dropl", a); call_end(gutil_ring_drop_last(r, a)); }
        else if (vf_is("clear")) { call_begin("clear", 0); gutil_ring_clear(r); call_end(0); }
        else if (vf_is("setmax")) { call_begin("setmax", a); gutil_ring_set_max_size(r, a); call_end(0); }
        else if (vf_is("unref")) {
            GUtilRing* p = r;
            /* a client that still uses the ring afterwards holds a reference */
            if (vf_depth && refs == 1) continue;
            call_begin("unref", 0);
            if (!--refs) dying = 1;
            gutil_ring_unref(p);
            if (!refs) { r = NULL; dying = 0; }
            call_end(0);
        }
        else { fprintf(stderr, "bad op %s\n", vf_argv[0]); _exit(98); }
    }
}

static void vf_scenario(void)
{
    r = NULL; refs = dying = quiet = 0;
    commands(0);
    while (r) {
        GUtilRing* p = r;
        call_begin("unref", 0);
        if (!--refs) dying = 1;
        gutil_ring_unref(p);
        if (!refs) { r = NULL; dying = 0; }
        call_end(0);
    }
}

int main(int argc, char** argv)
{
    gutil_log_default.level = GLOG_LEVEL_NONE;
    return vf_main(argc, argv);
}
