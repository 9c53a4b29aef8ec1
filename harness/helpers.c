/* Driver for the helpers of gutil_misc.h: handlers, sources, references, vectors */
#include "common.h"
#include <gutil_misc.h>
#include <gutil_version.h>

#ifndef NS
#define NS 6
#endif
#define NV 4
typedef GObject TestObj; typedef GObjectClass TestObjClass;
static guint sig;
G_DEFINE_TYPE(TestObj, test_obj, G_TYPE_OBJECT)
static void test_obj_init(TestObj* o) {}
static void test_obj_class_init(TestObjClass* c)
{
    sig = g_signal_new("ev", test_obj_get_type(), G_SIGNAL_RUN_FIRST, 0, NULL, NULL, NULL, G_TYPE_NONE, 0);
}

#define MAXID 4096
static TestObj* obj;
static gulong hid[MAXID], slot[NS + 1];     /* what the library has */
static guint sid[MAXID], var[NV + 1];
static int next, refs, emitting, closing;
static int hnum(gulong id) { int i; if (!id) return 0; for (i = 1; i < next; i++) if (hid[i] == id) return i; return -1; }
static int snum(guint id) { int i; if (!id) return 0; for (i = 1; i < next; i++) if (sid[i] == id) return i; return -1; }
static void obs(void)
{
    int i;
    ev_open("slot", "["); for (i = 1; i <= NS; i++) ev_int(NULL, hnum(slot[i])); ev_close("]");
    ev_open("var", "["); for (i = 1; i <= NV; i++) ev_int(NULL, snum(var[i])); ev_close("]");
    ev_int("refs", emitting ? refs : obj->ref_count); /* GLib has its own while emitting */
    ev_end();
}
static void begin(const char* op, int x, int ret) { ev_begin("op"); ev_str("op", op); ev_int("x", x); ev_int("ret", ret); }
static void commands(int nested);
static void fired(int n)
{
    ev_begin("fire"); ev_int("x", n); obs();
    vf_depth++; commands(1); vf_depth--;
    ev_begin("fret"); ev_end();
}
static void handler(TestObj* o, gpointer p) { fired(GPOINTER_TO_INT(p)); }
static gboolean source(gpointer p)
{
    int i, n = GPOINTER_TO_INT(p);
    for (i = 1; i <= NV; i++) if (var[i] && var[i] == sid[n]) var[i] = 0;
    fired(n);
    return G_SOURCE_REMOVE;
}
static gboolean source_stay(gpointer p) { fired(GPOINTER_TO_INT(p)); return G_SOURCE_CONTINUE; }
static void gone(gpointer p)
{
    if (closing) return;
    ev_begin("gone"); ev_int("x", GPOINTER_TO_INT(p)); obs();
    vf_depth++; commands(1); vf_depth--;
    ev_begin("gret"); ev_end();
}
static void gone_closure(gpointer p, GClosure* c) { gone(p); }
static void call(const char* op, int x) { ev_begin("call"); ev_str("op", op); ev_int("x", x); ev_end(); }
static void ret(int r) { ev_begin("ret"); ev_int("ret", r); obs(); }
static void commands(int nested)
{
    while (vf_next()) {
        int x = vf_i(1), i;
        if (vf_is("ret")) { if (nested) return; continue; }
        if (vf_is("conn")) {
            if (x < 0 || x > NS || (x && slot[x]) || next >= MAXID) continue;
            hid[next] = g_signal_connect_data(obj, "ev", G_CALLBACK(handler), GINT_TO_POINTER(next), gone_closure, 0);
            if (x) slot[x] = hid[next];
            next++;
            begin("conn", x, 0); obs();
        } else if (vf_is("disc")) {
            if (x > NS) x = NS;
            if (vf_depth > 20) continue;
            call("disc", MAX(x, 0));
            gutil_disconnect_handlers(obj, slot + 1, x);
            ret(0);
        } else if (vf_is("add") || vf_is("stay")) {
            const int stay = vf_is("stay");
            if (x < 1 || x > NV || var[x] || next >= MAXID) continue;
            sid[next] = var[x] = g_idle_add_full(G_PRIORITY_DEFAULT_IDLE, stay ? source_stay : source, GINT_TO_POINTER(next), gone);
            next++;
            begin(stay ? "stay" : "add", x, 0); obs();
        } else if (vf_is("remove")) {
            guint id;
            if (x < 1 || x > NV || vf_depth > 20) continue;
            id = var[x]; var[x] = 0;
            call("remove", x);
            ret(gutil_source_remove(id));
        } else if (vf_is("clear")) {
            if (x < 1 || x > NV || vf_depth > 20) continue;
            call("clear", x);
            ret(gutil_source_clear(var + x));
        } else if (vf_is("none")) {
            gulong ids[2] = {1, 2};
            gutil_disconnect_handlers(NULL, ids, 2);
            gutil_disconnect_handlers(obj, NULL, 2);
            gutil_object_unref(NULL);
            gutil_ptrv_free(NULL);
            i = gutil_source_clear(NULL) || gutil_source_remove(0) || gutil_object_ref(NULL) || ids[0] != 1 || ids[1] != 2;
            begin("none", 0, i); obs();
        } else if (vf_is("oref")) {
            i = gutil_object_ref(obj) == obj; refs++;
            begin("oref", 0, i); obs();
        } else if (vf_is("ounref")) {
            if (refs < 2) continue;
            gutil_object_unref(obj); refs--;
            begin("ounref", 0, 0); obs();
        } else if (vf_is("ptrv")) {
            void** v = x < 0 ? NULL : g_new0(void*, x + 1); int n, e;
            for (i = 0; i < x; i++) v[i] = g_malloc(1 + i);
            n = gutil_ptrv_length(v); e = gutil_ptrv_is_empty(v);
            gutil_ptrv_free(v);
            begin("ptrv", x, n); ev_bool("empty", e); obs();
        } else if (vf_is("memdup")) {
            static unsigned char b[1 << 18]; int none = !strcmp(vf_s(1), "null"), n = none ? vf_i(2) : !strcmp(vf_s(1), "big") ? vf_i(2) : vf_hexbytes(vf_s(1), b);
            unsigned char* in = g_malloc(n + 1), *r;
            if (!strcmp(vf_s(1), "big")) for (i = 0; i < n; i++) b[i] = (i * 7 + (i >> 8)) & 0xff;
            memcpy(in, b, n);
            r = gutil_memdup(none ? NULL : in, n);
            if (!none) memset(in, 0x5a, n);   /* the copy has to be a copy */
            begin("memdup", n, 0); ev_bool("none", none); ev_bytes("b", b, none ? 0 : n);
            ev_bool("rnone", !r); ev_bytes("r", r, r ? n : 0); ev_bool("own", r && r != in); obs();
            g_free(r); g_free(in);
        } else if (vf_is("strlen")) {
            char* s = x < 0 ? NULL : g_strnfill(x, 'x');
            i = gutil_strlen0(s);
            g_free(s);
            begin("strlen", x, i); obs();
        } else if (vf_is("version")) {
            guint v = gutil_version();
            begin("version", GUTIL_VERSION_MAJOR, v); ev_int("y", GUTIL_VERSION_MINOR); ev_int("z", GUTIL_VERSION_MICRO); obs();
        } else if (vf_is("emit")) {
            if (emitting || vf_depth) continue;
            emitting++;
            ev_begin("emit"); ev_end();
            g_signal_emit(obj, sig, 0);
            ev_begin("over"); obs();
            emitting--;
        } else if (vf_is("iter")) {
            if (vf_depth) continue;
            ev_begin("iter"); ev_end();
            g_main_context_iteration(NULL, FALSE);
            ev_begin("over"); obs();
        } else { fprintf(stderr, "bad op %s\n", vf_argv[0]); _exit(98); }
    }
}
static void vf_scenario(void)
{
    int i;
    memset(slot, 0, sizeof(slot)); memset(var, 0, sizeof(var)); next = 1; refs = 1; emitting = closing = 0;
    obj = g_object_new(test_obj_get_type(), NULL);
    commands(0);
    for (i = 1; i <= NV; i++) { call("clear", i); ret(gutil_source_clear(var + i)); }
    call("disc", NS); gutil_disconnect_handlers(obj, slot + 1, NS); ret(0);
    closing = 1;
    while (refs-- > 0) g_object_unref(obj);
}
int main(int argc, char** argv)
{
    gutil_log_default.level = GLOG_LEVEL_NONE;
    return vf_main(argc, argv);
}
