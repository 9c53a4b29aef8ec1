/* Driver for gutil_history.h */
#include "common.h"
#include <gutil_history.h>

static GUtilIntHistory* h;
static int refs;
static gint64 now;
static gint64 clock_fn(void) { return now; }
/* The default clock of the library is replaced too */
gint64 g_get_monotonic_time(void) { return now; }

static int quiet;

static void do_unref(void)
{
    if (!quiet) { ev_begin("op"); ev_str("op", "unref"); ev_end(); }
    gutil_int_history_unref(h);
    if (!--refs) h = NULL;
}

static void vf_scenario(void)
{
    now = 0; h = NULL; refs = 0; quiet = 0;
    while (vf_next()) {
        if (vf_is("new") || vf_is("newdef")) {
            gint64 n = vf_ll(1), i = vf_ll(2);
            if (h) continue;
            h = vf_is("new") ? gutil_int_history_new_full((int)n, i, clock_fn) : 
                (vf_pos & 1) ? gutil_int_history_new_full((int)n, i, NULL) :
                gutil_int_history_new((int)n, i);
            refs = h ? 1 : 0;
            ev_begin("op"); ev_str("op", "new"); ev_u64("n", n); ev_u64("i", i); ev_int("ni", (int)n);
            ev_bool("r", h != NULL); ev_end();
        } else if (vf_is("time") || vf_is("tick")) {
            now = (vf_is("tick") ? now : 0) + vf_ll(1);
            ev_begin("op"); ev_str("op", "time"); ev_u64("t", now); ev_end();
        } else if (vf_is("null")) {
            int ok = !gutil_int_history_ref(NULL) && !gutil_int_history_size(NULL) &&
                !gutil_int_history_interval(NULL) && !gutil_int_history_add(NULL, 5) &&
                gutil_int_history_median(NULL, 7) == 7;
            gutil_int_history_unref(NULL); gutil_int_history_clear(NULL);
            ev_begin("op"); ev_str("op", "null"); ev_bool("r", ok); ev_end();
        } else if (vf_is("lnew")) {
            /* Very many samples */
            if (h) continue;
            h = gutil_int_history_new_full(vf_i(1), vf_i(2), clock_fn);
            refs = quiet = 1;
            ev_begin("op"); ev_str("op", "lnew"); ev_int("n", vf_i(1)); ev_int("i", vf_i(2)); ev_end();
        } else if (!h) {
        } else if (vf_is("gap")) {
            now += vf_i(1);
            ev_begin("op"); ev_str("op", "gap"); ev_int("n", vf_i(1)); ev_end();
        } else if (vf_is("fill")) {
            int i, n = vf_i(1), r = 0;
            for (i = 0; i < n; i++) { now++; r = gutil_int_history_add(h, (int)(2 * now)); }
            ev_begin("op"); ev_str("op", "fill"); ev_int("n", n); ev_int("r", r); ev_end();
        } else if (vf_is("llook")) {
            int size = gutil_int_history_size(h), d = -vf_pos;
            int median = gutil_int_history_median(h, d);
            ev_begin("op"); ev_str("op", "llook"); ev_int("size", size); ev_int("interval", gutil_int_history_interval(h));
            ev_int("median", median); ev_int("d", d); ev_end();
        } else if (vf_is("add")) {
            int v = vf_i(1), r = gutil_int_history_add(h, v);
            ev_begin("op"); ev_str("op", "add"); ev_u64("v", v); ev_u64("r", r); ev_end();
        } else if (vf_is("clear")) {
            gutil_int_history_clear(h);
            ev_begin("op"); ev_str("op", "clear"); ev_end();
        } else if (vf_is("look")) {
            const char* s = vf_argc > 1 ? vf_s(1) : "sim";
            for (; *s; s++) {
                ev_begin("op");
                if (*s == 's') { ev_str("op", "size"); ev_int("r", gutil_int_history_size(h)); }
                else if (*s == 'i') { ev_str("op", "interval"); ev_u64("r", gutil_int_history_interval(h)); }
                else { int d = vf_i(2); ev_str("op", "median"); ev_u64("d", d); ev_u64("r", gutil_int_history_median(h, d)); }
                ev_end();
            }
        } else if (vf_is("ref")) {
            refs++;
            ev_begin("op"); ev_str("op", "ref"); ev_bool("r", gutil_int_history_ref(h) == h); ev_end();
        } else if (vf_is("unref")) {
            do_unref();
        } else { fprintf(stderr, "bad op %s\n", vf_argv[0]); _exit(98); }
    }
    while (refs) do_unref();
}

int main(int argc, char** argv)
{
    gutil_log_default.level = GLOG_LEVEL_NONE;
    return vf_main(argc, argv);
}
