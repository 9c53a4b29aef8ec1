/* Driver for gutil_weakref.h: operations of several threads one step after another */
#include "common.h"
#include "steps.h"
#include <gutil_weakref.h>

#define NO 3
#define NR 2

/* GLib isn't instrumented, what it does is one step */
void __real_g_weak_ref_init(GWeakRef*, gpointer); void __real_g_weak_ref_set(GWeakRef*, gpointer);
gpointer __real_g_weak_ref_get(GWeakRef*); void __real_g_weak_ref_clear(GWeakRef*);
gpointer __real_g_object_ref(gpointer); void __real_g_object_unref(gpointer);
void __real_g_slice_free1(gsize, gpointer);
static int gone(const void* p, gsize n) { if (sc_me && sc_keep && sc_gone(p, n)) { sc_bad("uaf"); return 1; } return 0; }
void __wrap_g_weak_ref_init(GWeakRef* w, gpointer o) { sc_point(); __real_g_weak_ref_init(w, o); sc_point(); }
void __wrap_g_weak_ref_set(GWeakRef* w, gpointer o) { sc_point(); if (!gone(w, sizeof(*w))) __real_g_weak_ref_set(w, o); sc_point(); }
gpointer __wrap_g_weak_ref_get(GWeakRef* w) { gpointer r; sc_point(); r = gone(w, sizeof(*w)) ? NULL : __real_g_weak_ref_get(w); sc_point(); return r; }
void __wrap_g_weak_ref_clear(GWeakRef* w) { sc_point(); if (!gone(w, sizeof(*w))) __real_g_weak_ref_clear(w); sc_point(); }
gpointer __wrap_g_object_ref(gpointer o) { sc_point(); if (!gone(o, sizeof(GObject))) __real_g_object_ref(o); sc_point(); return o; }
void __wrap_g_object_unref(gpointer o) { sc_point(); if (!gone(o, sizeof(GObject))) __real_g_object_unref(o); sc_point(); }

static GObject* obj[NO + 1];
static int alive[NO + 1];
static GUtilWeakRef* wr[NR + 1];
/* What's there at the beginning: references of the threads to objects and to weak references, targets */
static int orefs[SC_MAXT][NO + 1], wrefs[SC_MAXT][NR + 1], target[NR + 1];
static int oown[SC_MAXT][NO + 1], wown[SC_MAXT][NR + 1];

enum { INV, RES, BAD };
typedef struct { int k, th; const char* op; int r, o, got; } Rec;
#define MAXREC 300
static Rec rec[MAXREC];
static int nrec;
static void note(int k, const char* op, int r, int o, int got)
{
    if (nrec < MAXREC) { Rec* p = rec + nrec++; p->k = k; p->th = sc_me; p->op = op; p->r = r; p->o = o; p->got = got; }
}
static void bad(const char* what)
{
    int i;
    for (i = 0; i < nrec; i++) if (rec[i].k == BAD) return;
    note(BAD, what, 0, 0, 0);
}
static int oid(gpointer o) { int i; if (!o) return 0; for (i = 1; i <= NO; i++) if (obj[i] == o) return i; return -1; }
static void finalized(gpointer p, GObject* o) { alive[GPOINTER_TO_INT(p)] = 0; }

/* get1 set12 set10 oref1 ounref1 wref1 wunref1 */
static const char* const names[] = {"get", "set", "oref", "unref", "wref", "wunref"};
typedef struct { const char* op; int r, o; } Op;
static Op op_of(const char* s)
{
    Op x; int i, n;
    memset(&x, 0, sizeof(x));
    for (i = 0; i < G_N_ELEMENTS(names); i++) {
        n = strlen(names[i]);
        if (!strncmp(s, names[i], n) && g_ascii_isdigit(s[n])) {
            x.op = names[i];
            if (i == 2 || i == 3) x.o = s[n] - '0'; else x.r = s[n] - '0';
            if (i == 1) x.o = s[n + 1] - '0';
        }
    }
    if (!x.op || x.r < 0 || x.r > NR || x.o < 0 || x.o > NO) { fprintf(stderr, "bad op %s\n", s); _exit(98); }
    return x;
}
static int may(int th, const char* s)
{
    Op x = op_of(s);
    return (!x.r || wown[th][x.r] > 0) && (!x.o || oown[th][x.o] > 0);
}
static void perform(int th, void* arg)
{
    Op x = op_of(arg); int got = 0;
    note(INV, x.op, x.r, x.o, 0);
    if (x.op == names[0]) {
        GObject* o = gutil_weakref_get(wr[x.r]);
        got = oid(o);
        if (got > 0) oown[th][got]++;
    } else if (x.op == names[1]) {
        gutil_weakref_set(wr[x.r], obj[x.o]);
    } else if (x.op == names[2]) {
        g_object_ref(obj[x.o]); oown[th][x.o]++;
    } else if (x.op == names[3]) {
        oown[th][x.o]--; g_object_unref(obj[x.o]);
    } else if (x.op == names[4]) {
        got = gutil_weakref_ref(wr[x.r]) == wr[x.r] ? 0 : -1; wown[th][x.r]++;
    } else {
        wown[th][x.r]--; gutil_weakref_unref(wr[x.r]);
    }
    note(RES, x.op, x.r, x.o, got);
}
static int sumo(int i) { int k, n = 0; for (k = 1; k < SC_MAXT; k++) n += oown[k][i]; return n; }
static int sumw(int i) { int k, n = 0; for (k = 1; k < SC_MAXT; k++) n += wown[k][i]; return n; }

/* What's there at the end */
static int joined, final_n[NO + 1], final_t[NR + 1], final_w[NR + 1];
static void setup(void)
{
    int i, j;
    nrec = 0; sc_on = 0; sc_keep = 0; joined = MAXREC + 1;
    memcpy(oown, orefs, sizeof(oown)); memcpy(wown, wrefs, sizeof(wown));
    for (i = 1; i <= NO; i++) {
        obj[i] = NULL;
        if (!(alive[i] = sumo(i) > 0)) continue;
        obj[i] = g_object_new(G_TYPE_OBJECT, NULL);
        g_object_weak_ref(obj[i], finalized, GINT_TO_POINTER(i));
        for (j = sumo(i); j > 1; j--) g_object_ref(obj[i]);
    }
    for (i = 1; i <= NR; i++) {
        wr[i] = NULL;
        if (!sumw(i)) continue;
        wr[i] = gutil_weakref_new(obj[target[i]]);
        for (j = sumw(i); j > 1; j--) gutil_weakref_ref(wr[i]);
    }
    sc_bad = bad; sc_keep = 1; sc_on = 1;
}
static int is_bad(void) { int i; for (i = 0; i < nrec; i++) if (rec[i].k == BAD) return 1; return 0; }
static void teardown(void)
{
    int i, k;
    sc_on = 0; joined = nrec;
    for (i = 1; i <= NO; i++) final_n[i] = alive[i] ? (int)obj[i]->ref_count : 0;
    for (i = 1; i <= NR; i++) {
        final_t[i] = 0; final_w[i] = sumw(i) > 0;
        if (sumw(i) && !is_bad()) { GObject* o = gutil_weakref_get(wr[i]); final_t[i] = oid(o); if (o) g_object_unref(o); }
    }
    if (!is_bad()) for (k = 1; k < SC_MAXT; k++) {
        char s[16];
        for (i = 1; i <= NO; i++) while (oown[k][i] > 0) { snprintf(s, sizeof(s), "unref%d", i); sc_start(k, perform, s); }
        for (i = 1; i <= NR; i++) while (wown[k][i] > 0) { snprintf(s, sizeof(s), "wunref%d", i); sc_start(k, perform, s); }
    }
    sc_release();
}
static guint64 hash(void)
{
    guint64 h = 14695981039346656037ull; int i;
    for (i = 0; i < nrec; i++) {
        h = (h ^ (rec[i].k * 8 + rec[i].th + rec[i].r * 64 + rec[i].o * 512 + (rec[i].got + 1) * 4096)) * 1099511628211ull;
        h = (h ^ (gsize)rec[i].op) * 1099511628211ull;
    }
    for (i = 1; i <= NO; i++) h = (h ^ final_n[i]) * 1099511628211ull;
    for (i = 1; i <= NR; i++) h = (h ^ final_t[i]) * 1099511628211ull;
    return h;
}
static void obs(void)
{
    int i;
    ev_begin("joined"); ev_open("o", "[");
    for (i = 1; i <= NO; i++) if (final_n[i]) { ev_open(NULL, "{"); ev_int("o", i); ev_int("n", final_n[i]); ev_close("}"); }
    ev_close("]"); ev_open("w", "[");
    for (i = 1; i <= NR; i++) if (final_w[i]) { ev_open(NULL, "{"); ev_int("r", i); ev_int("t", final_t[i]); ev_close("}"); }
    ev_close("]"); ev_end();
}
static void emit(void)
{
    int i;
    ev_begin("exec"); ev_open("refs", "[");
    for (i = 1; i <= NO; i++) { int k, n = 0; for (k = 1; k < SC_MAXT; k++) n += orefs[k][i]; ev_int(NULL, n); }
    ev_close("]"); ev_open("w", "[");
    for (i = 1; i <= NR; i++) {
        int k, n = 0; for (k = 1; k < SC_MAXT; k++) n += wrefs[k][i];
        ev_open(NULL, "{"); ev_int("refs", n); ev_int("t", n ? target[i] : 0); ev_close("}");
    }
    ev_close("]"); ev_end();
    for (i = 0; i <= nrec; i++) {
        if (i == joined) obs();
        if (i == nrec) break;
        ev_begin(rec[i].k == INV ? "inv" : rec[i].k == RES ? "res" : "bad"); ev_int("th", rec[i].th);
        ev_str("op", rec[i].op); ev_int("r", rec[i].r); ev_int("o1", rec[i].o); ev_int("got", rec[i].got); ev_end();
    }
    ev_begin("done"); ev_int("more", nrec >= MAXREC); ev_end();
}
#include "explore.h"

static void vf_scenario(void)
{
    memset(orefs, 0, sizeof(orefs)); memset(wrefs, 0, sizeof(wrefs)); memset(target, 0, sizeof(target));
    memset(nprog, 0, sizeof(nprog));
    while (vf_next()) {
        const int a = vf_i(1), b = vf_i(2); int i;
        if (vf_is("own")) orefs[a][b] = vf_i(3);            /* thread, object, references */
        else if (vf_is("wown")) wrefs[a][b] = vf_i(3);      /* thread, weak reference, references */
        else if (vf_is("target")) target[a] = b;
        else if (vf_is("prog")) {
            for (i = 2; i < vf_argc && nprog[a] < MAXPROG; i++) prog[a][nprog[a]++] = g_intern_string(vf_s(i));
        } else if (vf_is("explore")) explore("weakref", a, b, vf_i(3));
        else { fprintf(stderr, "bad op %s\n", vf_argv[0]); _exit(98); }
    }
}

int main(int argc, char** argv)
{
    gutil_log_default.level = GLOG_LEVEL_NONE;
    sc_init();
    return vf_main(argc, argv);
}
