/* Driver for gutil_weakref.h */
#include "common.h"
#include <gutil_weakref.h>
#include <pthread.h>

#define NO 6
#define NR 3
static GObject* obj[NO + 1];
static int refs[NO + 1], born[NO + 1];
static GUtilWeakRef* wr[NR + 1];
static int wrefs[NR + 1];
static int threads;

static int id(gpointer o)
{
    int i;
    if (!o) return 0;
    for (i = 1; i <= NO; i++) if (obj[i] == o) return i;
    return -1;
}
static void obs(void)
{
    int i;
    ev_open("o", "[");
    for (i = 1; i <= NO; i++) if (obj[i]) { ev_open(NULL, "{"); ev_int("o", i); ev_int("n", obj[i]->ref_count); ev_close("}"); }
    ev_close("]");
    ev_open("w", "[");
    for (i = 1; i <= NR; i++) if (wr[i]) {
        GObject* o = gutil_weakref_get(wr[i]);
        ev_open(NULL, "{"); ev_int("r", i); ev_int("t", id(o)); ev_close("}");
        if (o) g_object_unref(o);
    }
    ev_close("]");
}
static void begin(const char* op) { ev_begin("op"); ev_str("op", op); }
static void finish(void) { obs(); ev_end(); }
static void commands(int nested);
static void gone(gpointer p, GObject* o)
{
    int x = GPOINTER_TO_INT(p);
    obj[x] = NULL;
    if (threads) return;
    ev_begin("gone"); ev_int("o1", x); obs(); ev_end();
    vf_depth++;
    commands(1);
    vf_depth--;
    ev_begin("goneret"); ev_end();
}
static void ounref(int o)
{
    GObject* p = obj[o];
    ev_begin("ounref"); ev_int("o1", o); ev_end();
    refs[o]--;
    g_object_unref(p);
    ev_begin("ret"); obs(); ev_end();
}
static void wunref(int r)
{
    GUtilWeakRef* w = wr[r];
    if (!--wrefs[r]) wr[r] = NULL;
    gutil_weakref_unref(w);
    begin("wunref"); ev_int("r", r); finish();
}

/* ---- threads ---- */

#define NT 4
#define MAXOPS 8
typedef struct { int seq, inv, th; const char* op; int r, o, got; } Rec;
typedef struct { int th, n; unsigned seed; GObject* own[NO + MAXOPS + 8]; int oid[NO + MAXOPS + 8]; int nown; Rec rec[2 * MAXOPS]; int nrec; } Thread;
static int seq, ready, nthreads;
static GObject* all[NO + 1];   /* addresses of those alive at the start */
static int oid_of(GObject* o) { int i; if (!o) return 0; for (i = 1; i <= NO; i++) if (all[i] == o) return i; return -1; }
static Rec* rec(Thread* t, int inv, const char* op, int r, int o, int got)
{
    Rec* p = t->rec + t->nrec++;
    p->inv = inv; p->th = t->th; p->op = op; p->r = r; p->o = o; p->got = got;
    p->seq = __atomic_fetch_add(&seq, 1, __ATOMIC_SEQ_CST);
    return p;
}
static unsigned rnd(Thread* t) { t->seed = t->seed * 1103515245u + 12345u; return t->seed >> 16; }
static void* work(void* arg)
{
    Thread* t = arg; int i;
    __atomic_fetch_add(&ready, 1, __ATOMIC_SEQ_CST);
    while (__atomic_load_n(&ready, __ATOMIC_SEQ_CST) < nthreads);
    for (i = 0; i < t->n; i++) {
        int r, k = rnd(t) % 10, tries = 0;
        do r = 1 + rnd(t) % NR; while (!wr[r] && ++tries < 100);
        if (!wr[r]) break;
        if (k < 4) {
            GObject* o;
            rec(t, 1, "get", r, 0, 0);
            o = gutil_weakref_get(wr[r]);
            rec(t, 0, "get", r, 0, oid_of(o));
            if (o) { t->oid[t->nown] = oid_of(o); t->own[t->nown++] = o; }
        } else if (k < 7 && t->nown) {
            int j = rnd(t) % t->nown; GObject* o = t->own[j]; int x = t->oid[j];
            t->own[j] = t->own[--t->nown]; t->oid[j] = t->oid[t->nown];
            rec(t, 1, "unref", 0, x, 0);
            g_object_unref(o);
            rec(t, 0, "unref", 0, x, 0);
        } else if (k < 9) {
            int j = t->nown && rnd(t) % 5 ? rnd(t) % t->nown : -1;
            int x = j < 0 ? 0 : t->oid[j];
            rec(t, 1, "set", r, x, 0);
            gutil_weakref_set(wr[r], j < 0 ? NULL : t->own[j]);
            rec(t, 0, "set", r, x, 0);
        } else {
            rec(t, 1, "wref", r, 0, 0);
            gutil_weakref_ref(wr[r]);
            rec(t, 0, "wref", r, 0, 0);
            if (++i < t->n) {
                rec(t, 1, "wunref", r, 0, 0);
                gutil_weakref_unref(wr[r]);
                rec(t, 0, "wunref", r, 0, 0);
            } else {
                __atomic_fetch_add(wrefs + r, 1, __ATOMIC_SEQ_CST);
            }
        }
    }
    return NULL;
}
static int by_seq(const void* a, const void* b) { return ((Rec*)a)->seq - ((Rec*)b)->seq; }
static void run_threads(unsigned seed, int nt, int nops)
{
    static Thread t[NT]; pthread_t p[NT]; Rec m[NT * 2 * MAXOPS]; int i, j, n = 0;
    nthreads = nt = CLAMP(nt, 1, NT); nops = CLAMP(nops, 1, MAXOPS);
    memset(t, 0, sizeof(t));
    seq = ready = 0; threads = 1;
    memcpy(all, obj, sizeof(all));
    /* All the references go to the threads */
    for (i = 1; i <= NO; i++) while (refs[i] > 0) {
        Thread* q = t + (i + refs[i]) % nt;
        refs[i]--;
        q->oid[q->nown] = i;
        q->own[q->nown++] = obj[i];
    }
    for (i = 0; i < nt; i++) { t[i].th = i + 1; t[i].n = nops; t[i].seed = seed * 31 + i * 7919; }
    for (i = 0; i < nt; i++) if (pthread_create(p + i, NULL, work, t + i)) _exit(98);
    for (i = 0; i < nt; i++) pthread_join(p[i], NULL);
    for (i = 0; i < nt; i++) {
        memcpy(m + n, t[i].rec, t[i].nrec * sizeof(Rec)); n += t[i].nrec;
        /* The rest of references comes back */
        for (j = 0; j < t[i].nown; j++) refs[t[i].oid[j]]++;
    }
    qsort(m, n, sizeof(Rec), by_seq);
    for (i = 0; i < n; i++) {
        ev_begin(m[i].inv ? "inv" : "res"); ev_int("th", m[i].th);
        if (m[i].inv) { ev_str("op", m[i].op); ev_int("r", m[i].r); ev_int("o1", m[i].o); } else ev_int("got", m[i].got);
        ev_end();
    }
    threads = 0;
    ev_begin("joined"); obs(); ev_end();
}

static void commands(int nested)
{
    while (vf_next()) {
        int r = vf_i(1), o = vf_is("obj") || vf_is("oref") || vf_is("ounref") ? vf_i(1) : vf_i(2);
        if (vf_is("ret")) { if (nested) return; continue; }
        if (vf_is("null")) {
            int ok;
            gutil_weakref_unref(NULL); gutil_weakref_set(NULL, NULL);
            ok = !gutil_weakref_ref(NULL) && !gutil_weakref_get(NULL);
            begin("null"); ev_bool("ok", ok); finish();
            continue;
        }
        if (vf_is("threads")) {
            if (!vf_depth) run_threads(vf_i(1), vf_i(2), vf_i(3));
            continue;
        }
        if (o < 0 || o > NO) continue;
        if (vf_is("obj")) {
            if (!o || born[o]) continue;
            obj[o] = g_object_new(G_TYPE_OBJECT, NULL);
            g_object_weak_ref(obj[o], gone, GINT_TO_POINTER(o));
            refs[o] = born[o] = 1;
            begin("obj"); ev_int("o1", o); finish();
        } else if (vf_is("oref")) {
            if (!o || !refs[o]) continue;
            g_object_ref(obj[o]); refs[o]++;
            begin("oref"); ev_int("o1", o); finish();
        } else if (vf_is("ounref")) {
            if (!o || !refs[o] || vf_depth > 3) continue;
            ounref(o);
        } else if (r < 1 || r > NR) {
            continue;
        } else if (vf_is("wnew")) {
            if (wr[r] || (o && !refs[o])) continue;
            wr[r] = gutil_weakref_new(o ? obj[o] : NULL);
            wrefs[r] = 1;
            begin("wnew"); ev_int("r", r); ev_int("o1", o); ev_bool("ok", wr[r] != NULL); finish();
        } else if (!wr[r]) {
            continue;
        } else if (vf_is("wref")) {
            int ok = gutil_weakref_ref(wr[r]) == wr[r];
            wrefs[r]++;
            begin("wref"); ev_int("r", r); ev_bool("ok", ok); finish();
        } else if (vf_is("wunref")) {
            wunref(r);
        } else if (vf_is("wset")) {
            if (o && !refs[o]) continue;
            gutil_weakref_set(wr[r], o ? obj[o] : NULL);
            begin("wset"); ev_int("r", r); ev_int("o1", o); finish();
        } else if (vf_is("wget")) {
            GObject* p = gutil_weakref_get(wr[r]);
            if (id(p) > 0) refs[id(p)]++;
            begin("wget"); ev_int("r", r); ev_int("got", id(p)); finish();
        } else { fprintf(stderr, "bad op %s\n", vf_argv[0]); _exit(98); }
    }
}

static void vf_scenario(void)
{
    int i;
    memset(obj, 0, sizeof(obj)); memset(refs, 0, sizeof(refs)); memset(born, 0, sizeof(born));
    memset(wr, 0, sizeof(wr)); memset(wrefs, 0, sizeof(wrefs));
    commands(0);
    for (i = 1; i <= NO; i++) while (refs[i] > 0) ounref(i);
    for (i = 1; i <= NR; i++) while (wrefs[i]) wunref(i);
}

int main(int argc, char** argv)
{
    gutil_log_default.level = GLOG_LEVEL_NONE;
    return vf_main(argc, argv);
}
