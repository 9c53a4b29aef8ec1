/* Driver for gutil_intarray.h */
#include "common.h"
#include <gutil_intarray.h>
#include <gutil_ints.h>

static GUtilIntArray* a;
static int refs;
static int vals[100000], nv;

static void begin(const char* op) { ev_begin("op"); ev_str("op", op); }
static void ints(const char* k, const int* v, guint n)
{
    guint i;
    ev_open(k, "["); for (i = 0; i < n; i++) ev_int(NULL, v[i]); ev_close("]");
}
static void finish(int ok) { ev_bool("ok", ok); ints("c", a ? a->data : NULL, a ? a->count : 0); ev_end(); }
static void take(int from) { for (nv = 0; from < vf_argc; from++) vals[nv++] = vf_i(from); }
static guint cap(guint x) { return MIN(x, G_MAXINT); }
/* The biggest number in the specification stands for the biggest one there is */
static guint pos(int i) { gint64 x = vf_ll(i); return x == G_MAXINT ? G_MAXUINT : (guint)x; }
static void dropped(void) { if (!--refs) a = NULL; }

static void do_free(int k)
{
    static int out[300000];
    guint n = 0, i;
    GUtilIntArray* p = a;
    gboolean ok = TRUE;
    guint cnt = p->count;

    if (k == 0) {
        ok = !gutil_int_array_free(p, TRUE);
    } else if (k == 1) {
        int* d = gutil_int_array_free(p, FALSE);
        if (d) { n = cnt; memcpy(out, d, n * sizeof(int)); d[0] = 0; g_free(d); }
        ok = (d != NULL) == (cnt > 0);
    } else {
        GUtilInts* t = gutil_int_array_free_to_ints(p);
        const int* d = gutil_ints_get_data(t, &n);
        for (i = 0; i < n; i++) out[i] = d[i];
        ok = (t != NULL) == (cnt > 0) && gutil_ints_get_count(t) == n;
        gutil_ints_unref(t);
    }
    dropped();
    begin("free"); ev_int("k", k); ints("out", out, n); finish(ok);
}

static void vf_scenario(void)
{
    a = NULL; refs = 0;
    while (vf_next()) {
        guint p = pos(1), n = pos(2);
        int x = vf_i(1), r;
        if (vf_is("new")) {
            if (a) continue;
            take(1);
            if (nv == 0) a = (vf_pos & 1) ? gutil_int_array_new() : gutil_int_array_new_from_vals(NULL, 0);
            else if (nv == 1 && (vf_pos & 1)) a = gutil_int_array_new_from_value(vals[0]);
            else if (vf_pos & 2) a = gutil_int_array_append_vals(gutil_int_array_sized_new(vf_pos % 5), vals, nv);
            else a = gutil_int_array_new_from_vals(vals, nv);
            refs = 1;
            begin("new"); ints("v", vals, nv); finish(a != NULL);
            continue;
        }
        if (vf_is("null")) {
            int v = 1;
            int ok = !gutil_int_array_free(NULL, TRUE) && !gutil_int_array_free(NULL, FALSE) &&
                !gutil_int_array_free_to_ints(NULL) && !gutil_int_array_ref(NULL) &&
                !gutil_int_array_append(NULL, 1) && !gutil_int_array_append_vals(NULL, &v, 1) &&
                !gutil_int_array_prepend(NULL, 1) && !gutil_int_array_prepend_vals(NULL, &v, 1) &&
                !gutil_int_array_insert(NULL, 0, 1) && !gutil_int_array_insert_vals(NULL, 0, &v, 1) &&
                !gutil_int_array_set_count(NULL, 1) && gutil_int_array_find(NULL, 0) == -1 &&
                !gutil_int_array_contains(NULL, 0) && !gutil_int_array_remove(NULL, 0) &&
                !gutil_int_array_remove_fast(NULL, 0) && !gutil_int_array_remove_all(NULL, 0) &&
                !gutil_int_array_remove_all_fast(NULL, 0) && !gutil_int_array_remove_index(NULL, 0) &&
                !gutil_int_array_remove_index_fast(NULL, 0) && !gutil_int_array_remove_range(NULL, 0, 1);
            gutil_int_array_unref(NULL);
            gutil_int_array_sort_ascending(NULL);
            gutil_int_array_sort_descending(NULL);
            begin("null"); finish(ok);
            continue;
        }
        if (!a) continue;
        if (vf_is("append") || vf_is("prepend")) {
            int app = vf_is("append");
            take(1);
            if (nv == 1 && (vf_pos & 1)) r = (app ? gutil_int_array_append(a, vals[0]) : gutil_int_array_prepend(a, vals[0])) == a;
            else r = (app ? gutil_int_array_append_vals(a, vals, nv) : gutil_int_array_prepend_vals(a, vals, nv)) == a;
            begin(app ? "append" : "prepend"); ints("v", vals, nv); finish(r);
        } else if (vf_is("appendn") || vf_is("prependn") || vf_is("insertn")) {
            /* Lots of values in a known range */
            const char* op = vf_is("appendn") ? "append" : vf_is("prependn") ? "prepend" : "insert";
            guint k = vf_i(1), seed = vf_i(2), range = vf_i(3);
            p = vf_i(4);
            for (nv = 0; nv < (int)k; nv++) { seed = seed * 1664525u + 1013904223u; vals[nv] = range ? (int)((seed >> 8) % range) - (int)(range / 2) : (int)seed; }
            if (vf_is("insertn") && p > a->count) continue;
            r = (vf_is("appendn") ? gutil_int_array_append_vals(a, vals, nv) : vf_is("prependn") ? gutil_int_array_prepend_vals(a, vals, nv) :
                gutil_int_array_insert_vals(a, p, vals, nv)) == a;
            begin(op); if (op[0] == 'i') ev_int("p", p); ints("v", vals, nv); finish(r);
        } else if (vf_is("insert")) {
            if (p > a->count + 16) continue;
            take(2);
            if (nv == 1 && (vf_pos & 1)) r = gutil_int_array_insert(a, p, vals[0]) == a;
            else r = gutil_int_array_insert_vals(a, p, vals, nv) == a;
            begin("insert"); ev_int("p", p); ints("v", vals, nv); finish(r);
        } else if (vf_is("count")) {
            if (p > a->count + 16) continue;
            r = gutil_int_array_set_count(a, p) == a;
            begin("count"); ev_int("n", p); finish(r);
        } else if (vf_is("remove") || vf_is("removef") || vf_is("removeall") || vf_is("removeallf")) {
            char op[16];
            strcpy(op, vf_argv[0]);
            r = !strcmp(op, "remove") ? gutil_int_array_remove(a, x) :
                !strcmp(op, "removef") ? gutil_int_array_remove_fast(a, x) :
                !strcmp(op, "removeall") ? gutil_int_array_remove_all(a, x) :
                gutil_int_array_remove_all_fast(a, x);
            begin(op); ev_int("x", x); ev_int("r", r); finish(1);
        } else if (vf_is("removei") || vf_is("removeif")) {
            int fast = vf_is("removeif");
            r = (fast ? gutil_int_array_remove_index_fast(a, p) : gutil_int_array_remove_index(a, p)) == a;
            begin(fast ? "removeif" : "removei"); ev_int("p", cap(p)); finish(r);
        } else if (vf_is("range")) {
            r = gutil_int_array_remove_range(a, p, n) == a;
            begin("range"); ev_int("p", cap(p)); ev_int("n", cap(n)); finish(r);
        } else if (vf_is("sort")) {
            if (x) gutil_int_array_sort_ascending(a); else gutil_int_array_sort_descending(a);
            begin("sort"); ev_bool("asc", x); finish(1);
        } else if (vf_is("find")) {
            r = gutil_int_array_find(a, x);
            begin("find"); ev_int("x", x); ev_int("r", r); ev_bool("has", gutil_int_array_contains(a, x)); finish(1);
        } else if (vf_is("ref")) {
            r = gutil_int_array_ref(a) == a; refs++;
            begin("ref"); finish(r);
        } else if (vf_is("unref")) {
            gutil_int_array_unref(a); dropped();
            begin("unref"); finish(1);
        } else if (vf_is("free")) {
            do_free(x);
        } else { fprintf(stderr, "bad op %s\n", vf_argv[0]); _exit(98); }
    }
    while (refs) do_free(refs % 3);
}

int main(int argc, char** argv)
{
    gutil_log_default.level = GLOG_LEVEL_NONE;
    return vf_main(argc, argv);
}
