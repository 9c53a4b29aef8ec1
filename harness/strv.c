/* Driver for gutil_strv.h */
#include "common.h"
#include <gutil_strv.h>

#define NV 3
static GStrV* sv[NV + 1];
static char arg[VF_MAXARG][1 << 18];
static char* args[VF_MAXARG + 1];
static int na;

static void str(const char* k, const char* s) { ev_bytes(k, s, strlen(s)); }
static void begin(const char* op, int v) { ev_begin("op"); ev_str("op", op); ev_int("v", v); }
static void finish(int v)
{
    GStrV* p;
    ev_bool("there", sv[v] != NULL);
    ev_open("c", "["); for (p = sv[v]; p && *p; p++) str(NULL, *p); ev_close("]");
    ev_end();
}
static char* word(int i, char* buf) { buf[vf_hexbytes(vf_s(i), (unsigned char*)buf)] = 0; return buf; }
static void take(int from)
{
    for (na = 0; from < vf_argc; from++, na++) args[na] = word(from, arg[na]);
    args[na] = NULL;
}
static void strs(const char* k) { int i; ev_open(k, "["); for (i = 0; i < na; i++) str(NULL, args[i]); ev_close("]"); }
/* "at most one string" */
static void opt(const char* k, const char* s) { ev_open(k, "["); if (s) str(NULL, s); ev_close("]"); }
static void drop(int v)
{
    g_strfreev(sv[v]); sv[v] = NULL;
    begin("drop", v); finish(v);
}

static void vf_scenario(void)
{
    int v, r, i;
    memset(sv, 0, sizeof(sv));
    while (vf_next()) {
        v = vf_i(1);
        if (v < 1 || v > NV) continue;
        if (vf_is("new")) {
            if (sv[v]) continue;
            take(2);
            sv[v] = g_new0(char*, na + 1);
            for (i = 0; i < na; i++) sv[v][i] = g_strdup(args[i]);
            begin("new", v); strs("s"); finish(v);
        } else if (vf_is("drop")) {
            drop(v);
        } else if (vf_is("add")) {
            take(2);
            if (na > 1) na = 1;
            sv[v] = gutil_strv_add(sv[v], na ? args[0] : NULL);
            begin("add", v); strs("s"); finish(v);
        } else if (vf_is("addv")) {
            take(2);
            if (na > 4) { na = 4; args[4] = NULL; }
            sv[v] = gutil_strv_addv(sv[v], args[0], na > 1 ? args[1] : NULL, na > 2 ? args[2] : NULL, na > 3 ? args[3] : NULL, NULL);
            begin("add", v); strs("s"); finish(v);
        } else if (vf_is("removeat")) {
            int p = vf_i(2), f = vf_i(3);
            char* s = sv[v] && p >= 0 && p < (int)gutil_strv_length(sv[v]) && !f ? sv[v][p] : NULL;
            sv[v] = gutil_strv_remove_at(sv[v], p, f);
            if (s) { memset(s, 'x', strlen(s)); g_free(s); }
            begin("removeat", v); ev_int("p", p); finish(v);
        } else if (vf_is("remove") || vf_is("removeel") || vf_is("addel")) {
            int all = vf_i(3), add = vf_is("addel"); char* s;
            na = 1;
            if (vf_is("remove")) s = args[0] = word(2, arg[0]);
            else {
                /* an element of the vector itself */
                i = vf_i(2);
                if (!sv[v] || i < 0 || i >= (int)gutil_strv_length(sv[v])) continue;
                s = sv[v][i];
                strcpy(arg[0], s);
                args[0] = arg[0];
            }
            if (add) sv[v] = (vf_pos & 1) ? gutil_strv_add(sv[v], s) : gutil_strv_addv(sv[v], s, NULL);
            else if (vf_argc > 1 && (vf_pos & 1)) sv[v] = all ? gutil_strv_remove_all(sv[v], s) : gutil_strv_remove_one(sv[v], s);
            else sv[v] = gutil_strv_remove(sv[v], s, all);
            begin(add ? "add" : "remove", v);
            if (add) strs("s"); else { str("s", args[0]); ev_bool("all", all); }
            finish(v);
        } else if (vf_is("dups")) {
            sv[v] = gutil_strv_remove_dups(sv[v]);
            begin("dups", v); finish(v);
        } else if (vf_is("strip")) {
            sv[v] = gutil_strv_strip(sv[v]);
            begin("strip", v); finish(v);
        } else if (vf_is("sort")) {
            int asc = vf_i(2);
            sv[v] = gutil_strv_sort(sv[v], asc);
            begin("sort", v); ev_bool("asc", asc); finish(v);
        } else if (vf_is("find")) {
            char* s = word(2, arg[0]);
            begin("find", v); str("s", s);
            ev_int("first", gutil_strv_find(sv[v], s)); ev_int("last", gutil_strv_find_last(sv[v], s));
            ev_bool("has", gutil_strv_contains(sv[v], s)); finish(v);
        } else if (vf_is("look")) {
            int n = sv[v] ? g_strv_length(sv[v]) : 0;
            begin("look", v);
            ev_int("len", gutil_strv_length(sv[v]));
            ev_open("at", "[");
            for (i = 0; i <= n + 3; i++) {
                guint p = (i == n + 3) ? G_MAXUINT : (guint)i;
                ev_open(NULL, "{"); ev_int("p", MIN(p, G_MAXINT)); opt("r", gutil_strv_at(sv[v], p)); ev_close("}");
            }
            ev_close("]");
            opt("end", gutil_strv_last(sv[v])); finish(v);
        } else if (vf_is("nofind")) {
            r = gutil_strv_find(sv[v], NULL) == -1 && gutil_strv_find_last(sv[v], NULL) == -1 &&
                !gutil_strv_contains(sv[v], NULL) && gutil_strv_bsearch(sv[v], NULL, TRUE) == -1 &&
                gutil_strv_remove(sv[v], NULL, TRUE) == sv[v] && gutil_strv_addv(sv[v], NULL, NULL) == sv[v];
            begin("nofind", v); ev_bool("r", r); finish(v);
        } else if (vf_is("equal")) {
            int w = vf_i(2);
            if (w < 1 || w > NV) continue;
            r = gutil_strv_equal(sv[v], sv[w]);
            begin("equal", v); ev_int("w", w); ev_bool("r", r); finish(v);
        } else if (vf_is("equalview")) {
            /* a vector made of (some of) the very same strings */
            int n = sv[v] ? g_strv_length(sv[v]) : 0, from = vf_i(2), k = vf_i(3), r2;
            GStrV* view;
            if (from < 0 || from > n || k < 0) continue;
            if (k > n - from) k = n - from;
            view = g_new0(char*, k + 1);
            for (i = 0; i < k; i++) view[i] = sv[v][from + i];
            r = gutil_strv_equal(sv[v], view);
            r2 = gutil_strv_equal(view, sv[v]);
            g_free(view);
            begin("equalview", v); ev_int("from", from); ev_int("k", k); ev_bool("r", r); ev_bool("r2", r2); finish(v);
        } else if (vf_is("findel")) {
            /* an element of the vector itself */
            char* s;
            i = vf_i(2);
            if (!sv[v] || i < 0 || i >= (int)gutil_strv_length(sv[v])) continue;
            s = sv[v][i];
            begin("find", v); str("s", s);
            ev_int("first", gutil_strv_find(sv[v], s)); ev_int("last", gutil_strv_find_last(sv[v], s));
            ev_bool("has", gutil_strv_contains(sv[v], s)); finish(v);
        } else if (vf_is("bsearch")) {
            char* s = word(2, arg[0]); int asc = vf_i(3);
            GStrV* p;
            /* has to be sorted */
            for (p = sv[v]; p && p[0] && p[1]; p++) { int c = strcmp(p[0], p[1]); if (asc ? c > 0 : c < 0) break; }
            if (p && p[0] && p[1]) continue;
            r = gutil_strv_bsearch(sv[v], s, asc);
            begin("bsearch", v); str("s", s); ev_int("r", r); finish(v);
        } else { fprintf(stderr, "bad op %s\n", vf_argv[0]); _exit(98); }
    }
    for (v = 1; v <= NV; v++) drop(v);
}

int main(int argc, char** argv)
{
    gutil_log_default.level = GLOG_LEVEL_NONE;
    return vf_main(argc, argv);
}
