/* Driver for gutil_idlequeue.h */
#include "common.h"
#include <gutil_idlequeue.h>

#define NQ 3
#define NX 8192
static GUtilIdleQueue* q[NQ + 1];
static int refs[NQ + 1], freeing[NQ + 1], late[NQ + 1];
/* While the queue is being freed, it can't be used after the last reference is
 * gone. We don't know when that happens if calls have been added meanwhile. */
#define USABLE(i) (q[i] && (refs[i] > freeing[i] || (refs[i] > 0 && !late[i])))
static int used[NX];
static GMainContext* ctx;
static int null_x; /* this one has NULL data */
#define DATA(x) GINT_TO_POINTER((x) == null_x ? 0 : (x))

static void obs(void)
{
    int i, t;
    ev_open("o", "[");
    for (i = 1; i <= NQ; i++) if (USABLE(i)) {
        ev_open(NULL, "{");
        ev_int("q", i);
        ev_open("t", "[");
        for (t = 0; t < 4; t++) ev_bool(NULL, gutil_idle_queue_contains_tag(q[i], t));
        ev_close("]");
        ev_close("}");
    }
    ev_close("]");
}

static int destroying;
static void commands(int nested);
static void cb(const char* what, gpointer p)
{
    ev_begin(what); ev_int("x", p ? GPOINTER_TO_INT(p) : null_x); obs(); ev_end();
    vf_depth++;
    commands(1);
    vf_depth--;
    ev_begin("cbret"); ev_end();
}
static void run_cb(gpointer p) { cb("run", p); }
static void destroy_cb(gpointer p) { destroying++; cb("destroy", p); destroying--; }
static void call(const char* op, int qi, int tag)
{
    ev_begin("call"); ev_str("op", op); ev_int("q", qi); ev_int("tag", tag); ev_end();
}
static void ret(int r) { ev_begin("ret"); ev_int("r", r); obs(); ev_end(); }
static void dropped(int i) { if (!--refs[i]) q[i] = NULL; }

static void do_unref(int i)
{
    GUtilIdleQueue* p = q[i];
    call("unref", i, 0);
    /* nothing may be done with it in the callbacks */
    dropped(i);
    gutil_idle_queue_unref(p);
    ret(0);
}

static void commands(int nested)
{
    while (vf_next()) {
        int i = vf_i(1);
        if (vf_is("cbret")) { if (nested) return; continue; }
        if (vf_is("iter") || vf_is("niter")) {
            int r;
            /* those run may do that too, not the destroy functions */
            if (vf_is("iter") ? vf_depth : (!vf_depth || destroying)) continue;
            call("iter", 0, 0); r = g_main_context_iteration(NULL, FALSE); ret(r);
            continue;
        }
        if (vf_is("pending")) {
            if (vf_depth) continue;
            ev_begin("op"); ev_str("op", "pending"); ev_bool("r", g_main_context_pending(NULL)); obs(); ev_end();
            continue;
        }
        if (vf_is("nullx")) { if (!null_x) null_x = i; continue; }
        if (vf_is("ctx")) {
            /* has no effect on the queue */
            if (!ctx) { ctx = g_main_context_new(); g_main_context_push_thread_default(ctx); }
            else { g_main_context_pop_thread_default(ctx); g_main_context_unref(ctx); ctx = NULL; }
            continue;
        }
        if (vf_is("otherloop")) {
            if (vf_depth || !ctx) continue;
            ev_begin("op"); ev_str("op", "otherloop"); ev_bool("r", !g_main_context_iteration(ctx, FALSE)); obs(); ev_end();
            continue;
        }
        if (vf_is("null")) {
            gboolean ok;
            gutil_idle_queue_unref(NULL); gutil_idle_queue_free(NULL); gutil_idle_queue_cancel_all(NULL);
            gutil_idle_queue_add(NULL, run_cb, NULL); gutil_idle_queue_add_tag(NULL, 1, run_cb, NULL);
            ok = !gutil_idle_queue_ref(NULL) && !gutil_idle_queue_contains_tag(NULL, 0) &&
                !gutil_idle_queue_cancel_tag(NULL, 0);
            ev_begin("op"); ev_str("op", "null"); ev_bool("r", ok); obs(); ev_end();
            continue;
        }
        if (vf_is("add")) {
            int x = vf_i(2), tag = vf_i(3), run = vf_i(4), d = vf_i(5);
            if (x <= 0 || x >= NX || used[x]) continue;
            if (i == 0) {
                used[x] = 1;
                ev_begin("call"); ev_str("op", "addnone"); ev_int("x", x); ev_bool("d", d); ev_end();
                gutil_idle_queue_add_tag_full(NULL, tag, run_cb, DATA(x), d ? destroy_cb : NULL);
                ret(0);
                continue;
            }
            if (i < 1 || i > NQ || !q[i] || refs[i] - freeing[i] < 1) continue;
            used[x] = 1;
            if (freeing[i]) late[i] = 1;
            if (!run || d) {
                if (tag || !run) gutil_idle_queue_add_tag_full(q[i], tag, run ? run_cb : NULL, DATA(x), d ? destroy_cb : NULL);
                else gutil_idle_queue_add_full(q[i], run_cb, DATA(x), destroy_cb);
            } else if (tag) gutil_idle_queue_add_tag(q[i], tag, run_cb, DATA(x));
            else gutil_idle_queue_add(q[i], run_cb, DATA(x));
            ev_begin("op"); ev_str("op", "add"); ev_int("q", i); ev_int("x", x); ev_int("tag", tag);
            ev_bool("run", run); ev_bool("d", d); obs(); ev_end();
            continue;
        }
        if (i < 1 || i > NQ) continue;
        if (vf_is("new")) {
            if (q[i] || vf_depth) continue;
            q[i] = gutil_idle_queue_new(); refs[i] = 1;
            ev_begin("op"); ev_str("op", "new"); ev_int("q", i); obs(); ev_end();
            refs[i] = 1;
            continue;
        }
        if (!USABLE(i)) continue;
        if (vf_is("contains")) {
            int r = gutil_idle_queue_contains_tag(q[i], vf_i(2));
            ev_begin("op"); ev_str("op", "contains"); ev_int("q", i); ev_int("tag", vf_i(2)); ev_bool("r", r); obs(); ev_end();
        } else if (vf_is("ref")) {
            GUtilIdleQueue* p = gutil_idle_queue_ref(q[i]);
            refs[i]++;
            ev_begin("op"); ev_str("op", "ref"); ev_int("q", i); ev_bool("r", p == q[i]); obs(); ev_end();
        } else if (vf_is("cancel")) {
            int r;
            call("cancel", i, vf_i(2)); r = gutil_idle_queue_cancel_tag(q[i], vf_i(2)); ret(r);
        } else if (vf_is("cancelall")) {
            call("cancelall", i, 0); gutil_idle_queue_cancel_all(q[i]); ret(0);
        } else if (vf_is("unref")) {
            if (refs[i] - freeing[i] < 1) continue;
            do_unref(i);
        } else if (vf_is("free")) {
            GUtilIdleQueue* p = q[i];
            if (refs[i] - freeing[i] < 1) continue;
            call("free", i, 0);
            freeing[i]++;
            gutil_idle_queue_free(p);
            if (!--freeing[i]) late[i] = 0;
            dropped(i);
            ret(0);
        } else { fprintf(stderr, "bad op %s\n", vf_argv[0]); _exit(98); }
    }
}

static void vf_scenario(void)
{
    int i;
    null_x = 0;
    memset(used, 0, sizeof(used)); memset(q, 0, sizeof(q)); memset(refs, 0, sizeof(refs)); memset(freeing, 0, sizeof(freeing)); memset(late, 0, sizeof(late));
    commands(0);
    for (i = 1; i <= NQ; i++) while (q[i]) do_unref(i);
    if (ctx) { g_main_context_pop_thread_default(ctx); g_main_context_unref(ctx); ctx = NULL; }
    /* GLib may still hold references to sources it was about to dispatch */
    g_main_context_pending(NULL);
}
static void end_hook(void) { ev_bool("pending", g_main_context_pending(NULL)); }

int main(int argc, char** argv)
{
    gutil_log_default.level = GLOG_LEVEL_NONE;
    vf_end_hook = end_hook;
    return vf_main(argc, argv);
}
