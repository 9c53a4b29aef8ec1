/* Driver for gutil_idlepool.h */
#include "common.h"
#include <gutil_idlepool.h>

#define NP 8
#define MAIN 9
#define NS 2
#define NX 4096
#define NF 64
static GUtilIdlePool* pool[MAIN + 1];
static GUtilIdlePool* var[NS + 1];
static int cref[MAIN + 1], destroying[MAIN + 1], psh[MAIN + 1];
static int used[NX];
static gpointer kept[NX];
static char kept_kind[NX];
static guint foreign[3][NF];
static GMainContext* ctx2;
static int in_ctx2, in_thread, in_worker, still_pending, dying, gone, null_x;

static gboolean never(gpointer p) { return G_SOURCE_CONTINUE; }
static void add_foreign(int c, int n)
{
    int i;
    for (i = 0; i < n; i++) {
        GSource* s = g_timeout_source_new_seconds(100000);
        g_source_set_callback(s, never, NULL, NULL);
        foreign[c][i] = g_source_attach(s, c == 2 ? ctx2 : NULL);
        g_source_unref(s);
    }
}
static int foreign_ok(void)
{
    int c, i;
    for (c = 1; c <= 2 - dying; c++) for (i = 0; i < NF; i++)
        if (foreign[c][i] && !g_main_context_find_source_by_id(c == 2 ? ctx2 : NULL, foreign[c][i])) return 0;
    return 1;
}
static int slot_of(GUtilIdlePool* p)
{
    int i;
    /* Addresses may be reused, the last one is it */
    for (i = NP; p && i > 0; i--) if (pool[i] == p) return i;
    return p ? -1 : 0;
}
static int known(int p)
{
    return p >= 1 && p <= MAIN && pool[p] && (cref[p] > 0 || (psh[p] && var[psh[p]] == pool[p] && slot_of(pool[p]) == p));
}
static int free_slot(void)
{
    int i;
    for (i = 1; i <= NP; i++) if (!pool[i]) return i;
    return 0;
}
static void obs(void)
{
    int i;
    ev_bool("foreign", foreign_ok());
    ev_open("var", "[");
    for (i = 1; i <= NS; i++) ev_int(NULL, slot_of(var[i]));
    ev_close("]");
    ev_open("kept", "[");
    for (i = 0; i < NX; i++) if (kept[i] && kept_kind[i] == 'o') {
        ev_open(NULL, "{");
        ev_int("x", i); ev_int("r", G_OBJECT(kept[i])->ref_count);
        ev_close("}");
    }
    ev_close("]");
}
static void commands(int nested);
static void rel(gpointer p)
{
    /* One of the things may be a NULL pointer */
    if (!p) { p = GINT_TO_POINTER(null_x); null_x = -1; }
    ev_begin("rel"); ev_int("x", GPOINTER_TO_INT(p)); obs(); ev_end();
    if (!in_thread || in_worker) {
        vf_depth++;
        commands(1);
        vf_depth--;
    }
    ev_begin("cbret"); ev_end();
}
static void weak(gpointer p, GObject* o) { rel(p); }
static void call(const char* op, int p) { ev_begin("call"); ev_str("op", op); ev_int("p", p); ev_end(); }
static void ret(int r) { ev_begin("ret"); ev_int("r", r); obs(); ev_end(); }

static int release_own(char kind, gpointer o)
{
    switch (kind) {
    case 'o': g_object_unref(o); break;
    case 'v': if (g_variant_is_floating(o)) o = g_variant_take_ref(o); g_variant_unref(o); break;
    case 'a': g_ptr_array_unref(o); break;
    case 'b': g_bytes_unref(o); break;
    default: return 0;
    }
    return 1;
}
/* adds a thing, returns TRUE if the result is right */
static int add(GUtilIdlePool* p, int x, const char* kind)
{
    gpointer t = GINT_TO_POINTER(x), o, r;
    int keep = kind[0] == 'K', ref;
    char k = keep ? kind[1] : kind[0];
    static char data[4] = "data";

    ref = keep || g_ascii_isupper(k);
    k = g_ascii_tolower(k);
    switch (k) {
    case 'o':
        o = g_object_new(G_TYPE_OBJECT, NULL);
        g_object_weak_ref(o, weak, t);
        r = ref ? gutil_idle_pool_add_object_ref(p, o) : gutil_idle_pool_add_object(p, o);
        break;
    case 'v':
        o = g_variant_new_from_data(G_VARIANT_TYPE_BYTESTRING, data, 4, TRUE, rel, t);
        /* Somebody else's reference may well be a floating one */
        if (!ref || (x & 1)) g_variant_ref_sink(o);
        r = ref ? gutil_idle_pool_add_variant_ref(p, o) : gutil_idle_pool_add_variant(p, o);
        break;
    case 'a':
        o = g_ptr_array_new_with_free_func(rel);
        g_ptr_array_add(o, t);
        r = ref ? gutil_idle_pool_add_ptr_array_ref(p, o) : gutil_idle_pool_add_ptr_array(p, o);
        break;
    case 'b':
        o = g_bytes_new_with_free_func(data, 4, rel, t);
        r = ref ? gutil_idle_pool_add_bytes_ref(p, o) : gutil_idle_pool_add_bytes(p, o);
        break;
    case 's':
        o = g_strsplit("a,b,c", ",", 0);
        if (x % 5 == 0) {
            /* there may be many of them, or none */
            char** v = g_new0(char*, (x % 2) * 100 + 1);
            int i;
            for (i = 0; i < (x % 2) * 100; i++) v[i] = g_strdup("abc");
            g_strfreev(o);
            o = v;
        }
        r = gutil_idle_pool_add_strv(p, o);
        ref = keep = 0;
        break;
    default:
        o = t;
        if (x == null_x) o = NULL;
        r = gutil_idle_pool_add(p, o, rel);
        ref = keep = 0;
        break;
    }
    if (keep) { kept[x] = o; kept_kind[x] = k; }
    else if (ref) release_own(k, o);
    return r == o;
}
static gpointer thread_proc(gpointer arg)
{
    int* a = arg, i;
    for (i = 0; i < a[1]; i++) gutil_idle_pool_add((i & 1) ? gutil_idle_pool_get_default() : NULL, GINT_TO_POINTER(a[0] + i), rel);
    if (a[2]) gutil_idle_pool_drain(NULL);
    return NULL;
}

/* The worker does one thing at a time while the main thread is waiting */
static struct { GThread* t; GAsyncQueue *in, *out; GMainContext* ctx; int own, ready, what, x, n, r; } wk;
static int wadd(int x, int n)
{
    static GUtilIdlePool* first;
    GUtilIdlePool* dflt = gutil_idle_pool_get_default();
    int i, ok = dflt != pool[MAIN];

    if (!wk.ready) { wk.ready = 1; first = dflt; }
    for (i = 0; i < n; i++) gutil_idle_pool_add((i & 1) ? dflt : NULL, GINT_TO_POINTER(x + i), rel);
    return ok && first == dflt && gutil_idle_pool_get_default() == dflt;
}
static gpointer worker_proc(gpointer arg)
{
    if (wk.own) {
        wk.ctx = g_main_context_new();
        g_main_context_push_thread_default(wk.ctx);
    }
    g_async_queue_push(wk.out, &wk);
    for (;;) {
        g_async_queue_pop(wk.in);
        if (!wk.what) break;
        if (wk.what == 1) wk.r = wadd(wk.x, wk.n);
        if (wk.what == 2) gutil_idle_pool_drain((wk.x & 1) ? gutil_idle_pool_get_default() : NULL);
        if (wk.what == 3) wk.r = g_main_context_iteration(wk.ctx, FALSE);
        g_async_queue_push(wk.out, &wk);
    }
    if (wk.own) {
        g_main_context_pop_thread_default(wk.ctx);
        g_main_context_unref(wk.ctx);
    }
    return NULL;
}
static int wdo(int what)
{
    in_thread = 1;
    in_worker = what != 0; /* nothing else can be done by an exiting thread */
    wk.what = what; wk.r = 0;
    g_async_queue_push(wk.in, &wk);
    if (what) {
        g_async_queue_pop(wk.out);
    } else {
        g_thread_join(wk.t);
        g_async_queue_unref(wk.in); g_async_queue_unref(wk.out);
        memset(&wk, 0, sizeof(wk));
    }
    in_thread = in_worker = 0;
    return wk.r;
}
static void do_wexit(void)
{
    call("wexit", 0);
    wdo(0);
    ret(0);
}
/* returns TRUE if the command has been handled */
static int worker_command(void)
{
    if (vf_is("wstart")) {
        int s = free_slot();
        if (wk.t || vf_depth || !s) return 1;
        pool[s] = (void*)&pool[s];
        wk.own = vf_i(1);
        wk.in = g_async_queue_new(); wk.out = g_async_queue_new();
        wk.t = g_thread_new("wk", worker_proc, NULL);
        g_async_queue_pop(wk.out);
        ev_begin("op"); ev_str("op", "wstart"); ev_int("p", s); ev_bool("own", wk.own); obs(); ev_end();
    } else if (vf_is("wadd")) {
        int i, x = vf_i(1), n = vf_i(2), ok;
        if (!wk.t || (in_worker ? !vf_depth : vf_depth) || x < 1 || n < 1 || n > 20 || x + n >= NX) return 1;
        for (i = 0; i < n && !used[x + i]; i++);
        if (i < n) return 1;
        for (i = 0; i < n; i++) used[x + i] = 1;
        wk.x = x; wk.n = n;
        ok = in_worker ? wadd(x, n) : wdo(1);
        ev_begin("op"); ev_str("op", "wadd"); ev_open("xs", "["); for (i = 0; i < n; i++) ev_int(NULL, x + i); ev_close("]");
        ev_bool("r", ok); obs(); ev_end();
    } else if (vf_is("wdrain")) {
        if (!wk.t || (in_worker ? !vf_depth : vf_depth)) return 1;
        call("wdrain", 0);
        if (in_worker) gutil_idle_pool_drain(NULL); else { wk.x = vf_pos; wdo(2); }
        ret(0);
    } else if (vf_is("witer")) {
        int r;
        if (!wk.t || !wk.own || vf_depth) return 1;
        call("witer", 0);
        r = wdo(3);
        ret(r);
    } else if (vf_is("wexit")) {
        if (wk.t && !vf_depth) do_wexit();
    } else return 0;
    return 1;
}

static void do_unref(int p)
{
    call("unref", p);
    cref[p]--;
    gutil_idle_pool_unref(pool[p]);
    ret(0);
}
static void do_iter(int c)
{
    int r;
    ev_begin("call"); ev_str("op", "iter"); ev_int("c", c); ev_end();
    r = g_main_context_iteration(c == 2 ? ctx2 : NULL, FALSE);
    ret(r);
}
static void do_drain(int p)
{
    call("drain", p);
    gutil_idle_pool_drain(p == MAIN ? NULL : pool[p]);
    ret(0);
}
static void do_dropkept(int x)
{
    gpointer o = kept[x];
    ev_begin("call"); ev_str("op", "dropkept"); ev_int("x", x); ev_end();
    kept[x] = NULL;
    release_own(kept_kind[x], o);
    ret(0);
}

static void commands(int nested)
{
    while (vf_next()) {
        int p = vf_i(1);
        if (vf_is("cbret")) { if (nested) return; continue; }
        if (worker_command() || in_worker) continue;
        if (vf_is("new")) {
            int i = free_slot();
            if (!i) continue;
            pool[i] = (vf_pos & 1) ? gutil_idle_pool_new() : gutil_idle_pool_get(NULL);
            cref[i] = 1;
            ev_begin("op"); ev_str("op", "new"); ev_int("p", i); obs(); ev_end();
            continue;
        }
        if (vf_is("get")) {
            GUtilIdlePool* old; GUtilIdlePool* r;
            int i = free_slot();
            if (p < 1 || p > NS || (!var[p] && !i)) continue;
            old = var[p];
            r = gutil_idle_pool_get(var + p);
            if (!old) { pool[i] = r; psh[i] = p; }
            ev_begin("op"); ev_str("op", "get"); ev_int("s", p);
            ev_int("p", slot_of(r)); obs(); ev_end();
            continue;
        }
        if (vf_is("dropkept")) {
            if (p > 0 && p < NX && kept[p]) do_dropkept(p);
            continue;
        }
        if (vf_is("nullx")) { if (!null_x) null_x = p; continue; }
        if (vf_is("ctxgone")) {
            if (vf_depth || in_ctx2) continue;
            call("ctxgone", 0);
            dying = 1;
            g_main_context_unref(ctx2);
            ctx2 = g_main_context_new();
            memset(foreign[2], 0, sizeof(foreign[2]));
            dying = 0;
            add_foreign(2, 2);
            gone = 1;
            ret(0);
            continue;
        }
        if (vf_is("ctx")) {
            if (vf_depth) continue;
            if (in_ctx2) g_main_context_pop_thread_default(ctx2);
            else g_main_context_push_thread_default(ctx2);
            in_ctx2 = !in_ctx2;
            ev_begin("op"); ev_str("op", "ctx"); obs(); ev_end();
            continue;
        }
        if (vf_is("iter") || vf_is("niter")) {
            /* release functions may do that too */
            if ((vf_is("iter") ? !vf_depth : (vf_depth && !dying)) && (p == 1 || p == 2)) do_iter(p);
            continue;
        }
        if (vf_is("pending")) {
            if (vf_depth || (p != 1 && p != 2)) continue;
            ev_begin("op"); ev_str("op", "pending"); ev_int("c", p);
            ev_bool("r", g_main_context_pending(p == 2 ? ctx2 : NULL)); obs(); ev_end();
            continue;
        }
        if (vf_is("null")) {
            int ok = !gutil_idle_pool_ref(NULL);
            gutil_idle_pool_unref(NULL); gutil_idle_pool_destroy(NULL);
            ok = ok && gutil_idle_pool_add(NULL, &ok, NULL) == &ok
                && !gutil_idle_pool_add_strv(NULL, NULL) && !gutil_idle_pool_add_object(NULL, NULL)
                && !gutil_idle_pool_add_object_ref(NULL, NULL) && !gutil_idle_pool_add_variant(NULL, NULL)
                && !gutil_idle_pool_add_variant_ref(NULL, NULL) && !gutil_idle_pool_add_ptr_array(NULL, NULL)
                && !gutil_idle_pool_add_ptr_array_ref(NULL, NULL) && !gutil_idle_pool_add_bytes(NULL, NULL)
                && !gutil_idle_pool_add_bytes_ref(NULL, NULL);
            ev_begin("op"); ev_str("op", "null"); ev_bool("r", ok); obs(); ev_end();
            continue;
        }
        if (vf_is("default")) {
            ev_begin("op"); ev_str("op", "default"); ev_bool("r", gutil_idle_pool_get_default() == pool[MAIN]); obs(); ev_end();
            continue;
        }
        if (vf_is("thr")) {
            int a[3], i, s = free_slot();
            GThread* t;
            a[0] = vf_i(1); a[1] = vf_i(2); a[2] = vf_i(3);
            if (vf_depth || !s || a[0] < 1 || a[1] < 0 || a[0] + a[1] >= NX) continue;
            for (i = 0; i < a[1] && !used[a[0] + i]; i++);
            if (i < a[1] || (!a[1])) continue;
            for (i = 0; i < a[1]; i++) used[a[0] + i] = 1;
            pool[s] = (void*)&pool[s]; /* taken, never to be used */
            ev_begin("call"); ev_str("op", "thr"); ev_int("p", s);
            ev_open("xs", "["); for (i = 0; i < a[1]; i++) ev_int(NULL, a[0] + i); ev_close("]");
            ev_bool("d", a[2]); ev_end();
            in_thread = 1;
            t = g_thread_new("vf", thread_proc, a);
            g_thread_join(t);
            in_thread = 0;
            ret(0);
            continue;
        }
        if (!known(p)) continue;
        if (vf_is("add")) {
            int x = vf_i(2), ok; const char* kind = vf_s(3);
            char copy[3];
            if (x <= 0 || x >= NX || used[x]) continue;
            used[x] = 1;
            copy[0] = kind[0]; copy[1] = kind[0] ? kind[1] : 0; copy[2] = 0;
            ok = add((p == MAIN && (x & 1)) ? NULL : pool[p], x, copy);
            ev_begin("op"); ev_str("op", "add"); ev_int("p", p); ev_int("x", x);
            ev_bool("vis", copy[0] != 's'); ev_bool("keep", copy[0] == 'K'); ev_bool("r", ok); obs(); ev_end();
            continue;
        }
        if (vf_is("drain")) { do_drain(p); continue; }
        if (p == MAIN) continue;
        if (vf_is("ref")) {
            GUtilIdlePool* r = gutil_idle_pool_ref(pool[p]);
            cref[p]++;
            ev_begin("op"); ev_str("op", "ref"); ev_int("p", p); ev_bool("r", r == pool[p]); obs(); ev_end();
        } else if (vf_is("unref")) {
            if (cref[p] - destroying[p] > 0) do_unref(p);
        } else if (vf_is("destroy")) {
            if (cref[p] - destroying[p] < 1) continue;
            call("destroy", p);
            destroying[p]++;
            gutil_idle_pool_destroy(pool[p]);
            destroying[p]--;
            cref[p]--;
            ret(0);
        } else { fprintf(stderr, "bad op %s\n", vf_argv[0]); _exit(98); }
    }
}

static void vf_scenario(void)
{
    int i, c, n;
    memset(used, 0, sizeof(used)); memset(pool, 0, sizeof(pool)); memset(var, 0, sizeof(var)); memset(cref, 0, sizeof(cref));
    memset(destroying, 0, sizeof(destroying)); memset(psh, 0, sizeof(psh)); memset(foreign[2], 0, sizeof(foreign[2])); 
    pool[MAIN] = gutil_idle_pool_get_default(); cref[MAIN] = 1;
    ctx2 = g_main_context_new();
    in_ctx2 = 0;
    gone = null_x = 0;
    add_foreign(2, 2);
    commands(0);
    if (wk.t) do_wexit();
    /* Nobody else is going to do that */
    for (i = 1; i <= NP && gone; i++) if (known(i)) do_drain(i);
    for (i = 1; i <= NP; i++) while (pool[i] && cref[i] > 0) do_unref(i);
    do_drain(MAIN);
    for (n = 0; n < 20; n++) for (c = 1; c <= 2; c++) 
        if (g_main_context_pending(c == 2 ? ctx2 : NULL)) do_iter(c);
    for (i = 0; i < NX; i++) if (kept[i]) do_dropkept(i);
    if (in_ctx2) g_main_context_pop_thread_default(ctx2);
    /* GLib may still hold references to sources it was about to dispatch */
    still_pending = g_main_context_pending(NULL) || g_main_context_pending(ctx2);
    g_main_context_unref(ctx2);
    ctx2 = NULL;
}
static void end_hook(void) { ev_bool("pending", still_pending); }

int main(int argc, char** argv)
{
    gutil_log_default.level = GLOG_LEVEL_NONE;
    add_foreign(1, NF);
    vf_end_hook = end_hook;
    return vf_main(argc, argv);
}
