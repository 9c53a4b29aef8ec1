/* Driver for gutil_objv.h */
#include "common.h"
#include <gutil_objv.h>

#define NV 3
#define NO 12
static GObject** v[NV + 1];
static GObject* obj[NO + 1];      /* those alive */
static int own[NO + 1], born[NO + 1];
static int fin[64], nfin;

static void gone(gpointer p, GObject* o)
{
    int x = GPOINTER_TO_INT(p);
    if (nfin < 64) fin[nfin++] = x;
    obj[x] = NULL;
}
static int id(GObject* o)
{
    int i;
    if (!o) return 0;
    for (i = 1; i <= NO; i++) if (obj[i] == o) return i;
    return -1;
}
static void begin(const char* op) { ev_begin("op"); ev_str("op", op); }
static void finish(void)
{
    int i;
    ev_open("fin", "["); for (i = 0; i < nfin; i++) ev_int(NULL, fin[i]); ev_close("]");
    nfin = 0;
    ev_open("vec", "[");
    for (i = 1; i <= NV; i++) {
        GObject** p;
        ev_open(NULL, "{"); ev_int("v", i); ev_bool("there", v[i] != NULL);
        ev_open("c", "["); for (p = v[i]; p && *p; p++) ev_int(NULL, id(*p)); ev_close("]");
        ev_close("}");
    }
    ev_close("]");
    ev_open("refs", "[");
    for (i = 1; i <= NO; i++) if (obj[i]) {
        ev_open(NULL, "{"); ev_int("o", i); ev_int("r", obj[i]->ref_count); ev_close("}");
    }
    ev_close("]");
    ev_end();
}
static gsize pos(int i) { gint64 x = vf_ll(i); return x == G_MAXINT ? G_MAXSIZE : (gsize)x; }
static gint64 cap(gsize p) { return MIN(p, G_MAXINT); }
static void do_free(int i)
{
    GObject** p = v[i];
    v[i] = NULL;
    gutil_objv_free(p);
    begin("free"); ev_int("v", i); finish();
}
static void objdrop(int x)
{
    own[x]--;
    g_object_unref(obj[x]);
    begin("objdrop"); ev_int("x", x); finish();
}
static int vlen(GObject** p) { int n = 0; while (p && p[n]) n++; return n; }
static int is_obj(int x) { return x > 0 && x <= NO && obj[x]; }

static void vf_scenario(void)
{
    int i, x, w;
    memset(v, 0, sizeof(v)); memset(obj, 0, sizeof(obj)); memset(own, 0, sizeof(own)); memset(born, 0, sizeof(born));
    nfin = 0;
    while (vf_next()) {
        i = vf_i(1); x = vf_i(2);
        if (vf_is("obj")) {
            if (i < 1 || i > NO || born[i]) continue;
            obj[i] = g_object_new(G_TYPE_OBJECT, NULL);
            g_object_weak_ref(obj[i], gone, GINT_TO_POINTER(i));
            born[i] = own[i] = 1;
            begin("obj"); ev_int("x", i); finish();
            continue;
        }
        if (vf_is("objdrop")) {
            if (i < 1 || i > NO || !own[i]) continue;
            objdrop(i);
            continue;
        }
        if (vf_is("null")) {
            int ok = gutil_objv_add(NULL, NULL) == NULL && !gutil_objv_insert(NULL, NULL, 0) && !gutil_objv_append(NULL, NULL) &&
                !gutil_objv_remove(NULL, NULL, TRUE) && !gutil_objv_remove_at(NULL, 0) && !gutil_objv_copy(NULL) &&
                !gutil_objv_at(NULL, 0) && !gutil_objv_first(NULL) && !gutil_objv_last(NULL) &&
                gutil_objv_find(NULL, NULL) == -1 && gutil_objv_find_last(NULL, NULL) == -1 && !gutil_objv_contains(NULL, NULL) &&
                gutil_objv_equal(NULL, NULL);
            gutil_objv_free(NULL);
            for (i = 1; i <= NV; i++) if (v[i]) {
                ok = ok && gutil_objv_find(v[i], NULL) == -1 && gutil_objv_find_last(v[i], NULL) == -1 &&
                    !gutil_objv_contains(v[i], NULL) && gutil_objv_add(v[i], NULL) == v[i] &&
                    gutil_objv_insert(v[i], NULL, 0) == v[i] && gutil_objv_remove(v[i], NULL, TRUE) == v[i];
            }
            begin("null"); ev_bool("r", ok); finish();
            continue;
        }
        if (i < 1 || i > NV) continue;
        if (vf_is("new")) {
            GObject* o[4] = { NULL, NULL, NULL, NULL }; int n = 0, k, s[4];
            if (v[i]) continue;
            for (k = 2; k < vf_argc && n < 3; k++) if (is_obj(vf_i(k))) { s[n] = vf_i(k); o[n++] = obj[vf_i(k)]; }
            v[i] = gutil_objv_new(o[0], o[1], o[2], NULL);
            begin("new"); ev_int("v", i); ev_open("s", "["); for (k = 0; k < n; k++) ev_int(NULL, s[k]); ev_close("]"); finish();
        } else if (vf_is("free")) {
            do_free(i);
        } else if (vf_is("copy")) {
            if (v[i] || x < 1 || x > NV || x == i) continue;
            v[i] = gutil_objv_copy(v[x]);
            begin("copy"); ev_int("v", i); ev_int("w", x); finish();
        } else if (vf_is("add")) {
            if (!is_obj(x)) continue;
            v[i] = gutil_objv_add(v[i], obj[x]);
            begin("add"); ev_int("v", i); ev_int("x", x); finish();
        } else if (vf_is("insert")) {
            gsize p = pos(3);
            if (!is_obj(x)) continue;
            v[i] = gutil_objv_insert(v[i], obj[x], p);
            begin("insert"); ev_int("v", i); ev_int("x", x); ev_int("p", cap(p)); finish();
        } else if (vf_is("append")) {
            /* The array itself too, unless that would make it a huge one */
            if (x < 1 || x > NV || (x == i && vlen(v[i]) > 400)) continue;
            v[i] = gutil_objv_append(v[i], v[x]);
            begin("append"); ev_int("v", i); ev_int("w", x); finish();
        } else if (vf_is("removeat")) {
            gsize p = pos(2);
            v[i] = gutil_objv_remove_at(v[i], p);
            begin("removeat"); ev_int("v", i); ev_int("p", cap(p)); finish();
        } else if (vf_is("remove")) {
            int all = vf_i(3);
            if (!is_obj(x)) continue;
            v[i] = gutil_objv_remove(v[i], obj[x], all);
            begin("remove"); ev_int("v", i); ev_int("x", x); ev_bool("all", all); finish();
        } else if (vf_is("look")) {
            int n = 0, k; GObject** p;
            for (p = v[i]; p && *p; p++) n++;
            begin("look"); ev_int("v", i);
            ev_open("at", "[");
            for (k = 0; k <= n + 3; k++) {
                gsize q = k == n + 3 ? G_MAXSIZE : k == n + 2 ? ((gsize)G_MAXUINT) + 1 : (gsize)k;
                ev_open(NULL, "{"); ev_int("p", cap(q)); ev_int("r", id(gutil_objv_at(v[i], q))); ev_close("}");
            }
            ev_close("]");
            ev_int("first", id(gutil_objv_first(v[i]))); ev_int("last", id(gutil_objv_last(v[i])));
            ev_open("find", "[");
            for (k = 1; k <= NO; k++) if (obj[k]) {
                ev_open(NULL, "{"); ev_int("x", k); ev_int("first", gutil_objv_find(v[i], obj[k]));
                ev_int("last", gutil_objv_find_last(v[i], obj[k])); ev_bool("has", gutil_objv_contains(v[i], obj[k])); ev_close("}");
            }
            ev_close("]");
            finish();
        } else if (vf_is("equal")) {
            w = x;
            if (w < 1 || w > NV) continue;
            begin("equal"); ev_int("v", i); ev_int("w", w); ev_bool("r", gutil_objv_equal(v[i], v[w])); finish();
        } else { fprintf(stderr, "bad op %s\n", vf_argv[0]); _exit(98); }
    }
    for (i = 1; i <= NV; i++) do_free(i);
    for (i = 1; i <= NO; i++) while (own[i]) objdrop(i);
}

int main(int argc, char** argv)
{
    gutil_log_default.level = GLOG_LEVEL_NONE;
    return vf_main(argc, argv);
}
