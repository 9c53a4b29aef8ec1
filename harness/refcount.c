/* Driver for the reference counts: threads referencing and unreferencing one object */
#include "common.h"
#include "steps.h"
#include <gutil_ring.h>
#include <gutil_ints.h>
#include <gutil_history.h>
#include <gutil_idlequeue.h>
#include <gutil_idlepool.h>
#include <gutil_weakref.h>

/* ---- the types ---- */

static GObject* gobj;
static int numbers[3] = {7, -1, 12345};
static void payload(gpointer p);

typedef struct {
    const char* name; int pay;
    void* (*create)(void); void* (*ref)(void*); void (*unref)(void*); int (*use)(void*);
    void* (*xref)(void*); void (*xunref)(void*); int (*data)(void*);
} Type;

static void* ring_new(void) { GUtilRing* r = gutil_ring_new_full(2, -1, payload); gutil_ring_put(r, numbers); return r; }
static void* ring_ref(void* p) { return gutil_ring_ref(p); }
static void ring_unref(void* p) { gutil_ring_unref(p); }
static int ring_use(void* p) { return gutil_ring_size(p) == 1 && gutil_ring_data_at(p, 0) == numbers; }

static void* queue_new(void) { GUtilIdleQueue* q = gutil_idle_queue_new(); gutil_idle_queue_add_full(q, NULL, numbers, payload); return q; }
static void* queue_ref(void* p) { return gutil_idle_queue_ref(p); }
static void queue_unref(void* p) { gutil_idle_queue_unref(p); }
static int queue_use(void* p) { return gutil_idle_queue_contains_tag(p, 0) && !gutil_idle_queue_contains_tag(p, 1); }

static void* pool_new(void) { return gutil_idle_pool_new(); }
static void* pool_ref(void* p) { return gutil_idle_pool_ref(p); }
static void pool_unref(void* p) { gutil_idle_pool_unref(p); }
static int pool_use(void* p) { gutil_idle_pool_drain(p); return 1; }

static void* hist_new(void) { GUtilIntHistory* h = gutil_int_history_new(4, G_MAXINT); gutil_int_history_add(h, 5); return h; }
static void* hist_ref(void* p) { return gutil_int_history_ref(p); }
static void hist_unref(void* p) { gutil_int_history_unref(p); }
static int hist_use(void* p) { return gutil_int_history_size(p) == 1; }

static void* ints_new(void) { return gutil_ints_new_with_free_func(numbers, 3, payload, numbers); }
static void* intss_new(void) { return gutil_ints_new_static(numbers, 3); }
static void* intsg_new(void) { return gutil_ints_new(numbers, 3); }
static void* ints_ref(void* p) { return gutil_ints_ref(p); }
static void ints_unref(void* p) { gutil_ints_unref(p); }
static int ints_use(void* p) { return gutil_ints_get_count(p) == 3 && gutil_ints_find(p, -1) == 1 && gutil_ints_contains(p, 12345); }
static int ints_data(void* p)
{
    guint n = 0; int* d = gutil_ints_unref_to_data(p, &n); int ok = d && n == 3 && !memcmp(d, numbers, sizeof(numbers));
    g_free(d);
    return ok;
}
static void* ints_sub(void* p) { return gutil_ints_new_from_ints(p, 1, 2); }
static void ints_sub_unref(void* b) { gutil_ints_unref(b); }

static void* weak_new(void) { return gutil_weakref_new(gobj); }
static void* weak_ref(void* p) { return gutil_weakref_ref(p); }
static void weak_unref(void* p) { gutil_weakref_unref(p); }
static int weak_use(void* p) { GObject* o = gutil_weakref_get(p); if (o) g_object_unref(o); return o == gobj; }

static const Type types[] = {
    {"ring", 1, ring_new, ring_ref, ring_unref, ring_use},
    {"queue", 1, queue_new, queue_ref, queue_unref, queue_use},
    {"pool", 0, pool_new, pool_ref, pool_unref, pool_use},
    {"history", 0, hist_new, hist_ref, hist_unref, hist_use},
    {"ints", 1, ints_new, ints_ref, ints_unref, ints_use, ints_sub, ints_sub_unref, ints_data},
    {"intsg", 0, intsg_new, ints_ref, ints_unref, ints_use, ints_sub, ints_sub_unref, ints_data},
    {"intss", 0, intss_new, ints_ref, ints_unref, ints_use, ints_sub, ints_sub_unref, ints_data},
    {"weakref", 0, weak_new, weak_ref, weak_unref, weak_use},
};
static const Type* T;

/* ---- what happens ---- */

enum { INV, RES, DROP, FREED, BAD, MANY };
static const char* kinds[] = {"inv", "res", "drop", "free", "bad", "many"};
typedef struct { int k, th; const char* op; int ok; } Rec;
#define MAXREC 600
static Rec rec[MAXREC];
static int nrec;
static void* obj;
static void note(int k, const char* op, int ok)
{
    if (nrec < MAXREC) { rec[nrec].k = k; rec[nrec].th = sc_me; rec[nrec].op = op; rec[nrec++].ok = ok; }
}
static void payload(gpointer p) { note(DROP, "", p == numbers); }
static void freed(void* p) { if (p == obj) note(FREED, "", 1); }
static void bad(const char* what)
{
    int i;
    for (i = 0; i < nrec; i++) if (rec[i].k == BAD) return;
    note(BAD, what, 1);
}

/* Who is allowed to do what: references which the threads have */
#define MAXOWN 16
static int own[SC_MAXT], xown[SC_MAXT];
static void* xs[SC_MAXT][MAXOWN];
static const char* cur[SC_MAXT];
static int may(int th, const char* op)
{
    if (!strcmp(op, "ref")) return own[th] > 0 && (own[th] < MAXOWN || own[th] > 1000);
    if (!strcmp(op, "use")) return own[th] > 0;
    if (!strcmp(op, "unref")) return own[th] > 0;
    if (!strcmp(op, "data")) return own[th] > 0 && T->data;
    if (!strcmp(op, "xref")) return own[th] > 0 && xown[th] < MAXOWN && T->xref;
    if (!strcmp(op, "xunref")) return xown[th] > 0 && T->xref;
    if (!strcmp(op, "null")) return own[th] > 0;
    fprintf(stderr, "bad op %s\n", op); _exit(98);
}
static void perform(int th, void* arg)
{
    const char* op = arg; int ok = 1;
    note(INV, op, 1);
    /* unlike a reference, the right to use one goes at the beginning */
    if (!strcmp(op, "ref")) { ok = T->ref(obj) == obj; own[th]++; }
    else if (!strcmp(op, "use")) ok = T->use(obj);
    else if (!strcmp(op, "unref")) { own[th]--; T->unref(obj); }
    else if (!strcmp(op, "data")) { own[th]--; ok = T->data(obj); }
    else if (!strcmp(op, "xref")) { void* x = T->xref(obj); ok = x != NULL; xs[th][xown[th]++] = x; }
    else if (!strcmp(op, "xunref")) { T->xunref(xs[th][--xown[th]]); }
    else { ok = !T->ref(NULL); T->unref(NULL); }
    note(RES, op, ok);
}

static int refs[SC_MAXT];
static void setup(void)
{
    int i, j;
    nrec = 0; sc_on = 0; sc_keep = 0;
    gobj = g_object_new(G_TYPE_OBJECT, NULL);
    obj = T->create();
    for (i = 1, j = 0; i < SC_MAXT; i++) j += own[i] = refs[i], xown[i] = 0;
    while (--j > 0) T->ref(obj);
    sc_freed = freed; sc_bad = bad; sc_keep = 1; sc_on = 1;
}
/* The rest of the references go away */
static void teardown(void)
{
    int i;
    sc_on = 0;
    for (i = 1; i < SC_MAXT; i++) {
        while (xown[i] > 0) { sc_start(i, perform, "xunref"); }
        if (own[i] > 1000) {
            const int n = own[i] - 2;
            sc_me = i;
            while (own[i] > 2) { own[i]--; T->unref(obj); }
            note(MANY, "", -n);
            sc_me = 0;
        }
        while (own[i] > 0) { sc_start(i, perform, "unref"); }
    }
    sc_release();
    /* whatever is left of idle sources */
    while (g_main_context_iteration(NULL, FALSE));
    g_object_unref(gobj);
}
static guint64 hash(void)
{
    guint64 h = 14695981039346656037ull; int i;
    for (i = 0; i < nrec; i++) { h = (h ^ (rec[i].k * 8 + rec[i].th * 2 + rec[i].ok)) * 1099511628211ull; h = (h ^ (gsize)rec[i].op) * 1099511628211ull; }
    return h;
}
static void emit(void)
{
    int i;
    ev_begin("exec"); ev_str("type", T->name); ev_bool("pay", T->pay); ev_open("own", "[");
    for (i = 1; i < SC_MAXT; i++) ev_int(NULL, refs[i]);
    ev_close("]"); ev_end();
    for (i = 0; i < nrec; i++) {
        ev_begin(kinds[rec[i].k]); ev_int("th", rec[i].th); ev_str("op", rec[i].op); if (rec[i].k == MANY) ev_int("n", rec[i].ok); else ev_bool("ok", rec[i].ok); ev_end();
    }
    ev_begin("done"); ev_int("more", nrec >= MAXREC); ev_end();
}

#include "explore.h"
static const char* intern(const char* s)
{
    static const char* all[] = {"ref", "unref", "xref", "xunref", "data", "use", "null"}; int i;
    for (i = 0; i < G_N_ELEMENTS(all); i++) if (!strcmp(all[i], s)) return all[i];
    fprintf(stderr, "bad op %s\n", s); _exit(98);
}

static void vf_scenario(void)
{
    int i, open = 0;
    memset(refs, 0, sizeof(refs));
    T = types;
    memset(nprog, 0, sizeof(nprog));
    while (vf_next()) {
        int th = vf_i(1);
        if (vf_is("type")) {
            for (i = 0; i < G_N_ELEMENTS(types); i++) if (!strcmp(types[i].name, vf_s(1))) T = types + i;
            memset(nprog, 0, sizeof(nprog));
        } else if (vf_is("own")) {
            for (i = 1; i < SC_MAXT; i++) refs[i] = vf_i(i);
        } else if (vf_is("prog")) {
            for (i = 2; i < vf_argc && nprog[th] < MAXPROG; i++) prog[th][nprog[th]++] = intern(vf_s(i));
        } else if (vf_is("explore")) {
            explore(T->name, vf_i(1), vf_i(2), vf_i(3));
        } else {
            /* one step after another, as the specification has it */
            if (!open) { setup(); open = 1; }
            if (vf_is("many")) {
                /* Lots of references at once: acquired if the number is positive, released if it's negative */
                int n = vf_i(2);
                if (sc_thread[th].busy || own[th] <= 0 || own[th] + n <= 0) continue;
                sc_on = 0; sc_me = th;
                for (i = 0; i < n; i++) T->ref(obj);
                for (i = 0; i > n; i--) T->unref(obj);
                own[th] += n;
                note(MANY, "", n);
                sc_on = 1; sc_me = 0;
            } else if (vf_is("inv")) {
                const char* op = intern(vf_s(2));
                if (!sc_thread[th].busy && may(th, op)) sc_start(th, perform, (void*)op);
            } else if (vf_is("lin")) {
                int n = sc_thread[th].rmw;
                while (sc_thread[th].busy && !sc_thread[th].blocked && sc_thread[th].rmw == n) sc_step(th);
            } else if (vf_is("res")) {
                if (sc_thread[th].busy) sc_finish(th);
            } else { fprintf(stderr, "bad op %s\n", vf_argv[0]); _exit(98); }
        }
    }
    if (open) {
        for (i = 1; i < SC_MAXT; i++) if (sc_thread[i].busy) sc_finish(i);
        teardown();
        emit();
    }
}

int main(int argc, char** argv)
{
    gutil_log_default.level = GLOG_LEVEL_NONE;
    sc_init();
    return vf_main(argc, argv);
}
