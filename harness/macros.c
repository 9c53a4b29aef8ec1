/* Driver for the macros of gutil_log.h, built once per configuration:
 * VF_MAX (GLOG_LEVEL_MAX, -1 if not given), VF_ASSERT (GLOG_LEVEL_ASSERT, -1 if not given),
 * VF_MOD (0 no module, 1 a module, 2 a module with a parent) */
#include "common.h"

#if VF_MOD == 0
GLOG_MODULE_DEFINE_(vf_mod, "one");
GLOG_MODULE_DEFINE_(vf_parent, "two");
#else
GLOG_MODULE_DEFINE_(vf_parent, "two");
#  if VF_MOD == 1
GLOG_MODULE_DEFINE("one");
#  else
GLOG_MODULE_DEFINE2("one", vf_parent);
#  endif
#endif
static GLogModule* mod[3] = { &gutil_log_default, &vf_mod, &vf_parent };
#define MAXM 2

static int index_of(const GLogModule* m)
{
    int i;
    for (i = 0; i <= MAXM; i++) if (mod[i] == m) return i;
    return m ? -5 : -1;
}
typedef struct { int m; char* name; int lvl; char* text; } Out;
static GArray* outs;
static void my_func2(const GLogModule* m, int level, const char* format, va_list va)
{
    Out o = { index_of(m), g_strdup(m ? m->name : NULL), level, g_strdup_vprintf(format, va) };
    g_array_append_val(outs, o);
}
static void ev_outs(void)
{
    guint i;
    ev_open("d", "[");
    for (i = 0; i < outs->len; i++) {
        Out* o = &g_array_index(outs, Out, i);
        ev_open(NULL, "{"); ev_str("via", "func2"); ev_int("m", o->m); ev_str("name", o->name); ev_int("lvl", o->lvl); ev_str("text", o->text); ev_close("}");
        g_free(o->name); g_free(o->text);
    }
    ev_close("]");
    g_array_set_size(outs, 0);
}
static void begin(const char* op) { ev_begin("op"); ev_str("op", op); }

/* how many times the arguments have been evaluated */
static int evals, evals2;
static char* text; static int num, rnum;
static const char* arg(void) { evals++; return text; }
static int argn(void) { evals2++; return num; }
static int lhs(void) { evals++; return num; }
static int rhs(void) { evals2++; return rnum; }
static guint8 data[1024]; static int ndata;
static const void* argp(void) { evals++; return data; }
static gsize argz(void) { evals2++; return ndata; }
static GBytes* bytes;
static GBytes* argb(void) { evals++; return bytes; }

static const char* fn;
static void message(int lvl, int form)
{
    fn = __FUNCTION__;
    /* they have to be statements */
    switch (form) {
    case 0:
        if (lvl == 1) GERR("<%s|%d>", arg(), argn());
        else if (lvl == 2) GWARN("<%s|%d>", arg(), argn());
        else if (lvl == 3) GINFO("<%s|%d>", arg(), argn());
        else if (lvl == 4) GDEBUG("<%s|%d>", arg(), argn());
        else if (lvl == 5) GVERBOSE("<%s|%d>", arg(), argn());
        break;
    case 1:
        if (lvl == 1) GERR("plain");
        else if (lvl == 2) GWARN("plain");
        else if (lvl == 3) GINFO("plain");
        else if (lvl == 4) GDEBUG("plain");
        else if (lvl == 5) GVERBOSE("plain");
        break;
    case 2:
        if (lvl == 1) GERR_("<%s|%d>", arg(), argn());
        else if (lvl == 2) GWARN_("<%s|%d>", arg(), argn());
        else if (lvl == 3) GINFO_("<%s|%d>", arg(), argn());
        else if (lvl == 4) GDEBUG_("<%s|%d>", arg(), argn());
        else if (lvl == 5) GVERBOSE_("<%s|%d>", arg(), argn());
        break;
    case 3:
        if (lvl == 1) GERR_("plain");
        else if (lvl == 2) GWARN_("plain");
        else if (lvl == 3) GINFO_("plain");
        else if (lvl == 4) GDEBUG_("plain");
        else if (lvl == 5) GVERBOSE_("plain");
        break;
    }
}

static int line;
static const char *expr1, *expr2;
static void verify(int form)
{
#define X(e1, e2) line = __LINE__, expr1 = e1, expr2 = e2
    switch (form) {
    case 0: X("lhs() > 0 || 0", ""); GASSERT(lhs() > 0 || 0); break;
    case 1: X("lhs() > 0 || 0", ""); GVERIFY(lhs() > 0 || 0); break;
    case 2: X("lhs() > 1", ""); GVERIFY_FALSE(lhs() > 1); break;
    case 3: X("lhs() | 4", "rhs() | 4"); GVERIFY_EQ(lhs() | 4, rhs() | 4); break;
    case 4: X("lhs() | 4", "rhs() | 4"); GVERIFY_NE(lhs() | 4, rhs() | 4); break;
    case 5: X("lhs() | 4", "rhs() | 4"); GVERIFY_GE(lhs() | 4, rhs() | 4); break;
    case 6: X("lhs() | 4", "rhs() | 4"); GVERIFY_GT(lhs() | 4, rhs() | 4); break;
    case 7: X("lhs() | 4", "rhs() | 4"); GVERIFY_LE(lhs() | 4, rhs() | 4); break;
    case 8: X("lhs() | 4", "rhs() | 4"); GVERIFY_LT(lhs() | 4, rhs() | 4); break;
    }
}

typedef struct { int m; char* name; int parent, max, level, flags; gboolean hook; } Mod;
static Mod snap[MAXM + 1];

static void ev_cfg(void)
{
    static const int any[] = { GUTIL_LOG_ANY, GUTIL_LOG_ERR, GUTIL_LOG_WARN, GUTIL_LOG_INFO, GUTIL_LOG_DEBUG, GUTIL_LOG_VERBOSE, GUTIL_LOG_ASSERT };
    static const int lvl[] = { GLOG_LEVEL_ALWAYS, GLOG_LEVEL_INHERIT, GLOG_LEVEL_NONE, GLOG_LEVEL_ERR, GLOG_LEVEL_WARN, GLOG_LEVEL_INFO, GLOG_LEVEL_DEBUG, GLOG_LEVEL_VERBOSE };
    int i;
    begin("cfg");
    ev_int("max", VF_MAX); ev_int("assert", VF_ASSERT); ev_int("mod", VF_MOD);
#ifdef DEBUG
    ev_bool("debug", 1);
#else
    ev_bool("debug", 0);
#endif
    ev_open("any", "["); for (i = 0; i < G_N_ELEMENTS(any); i++) ev_bool(NULL, any[i]); ev_close("]");
    ev_open("levels", "["); for (i = 0; i < G_N_ELEMENTS(lvl); i++) ev_int(NULL, lvl[i]); ev_close("]");
    ev_int("dflt", GLOG_LEVEL_DEFAULT);
    ev_int("cur", index_of(GLOG_MODULE_CURRENT));
    ev_open("mods", "[");
    for (i = 1; i <= MAXM; i++) {
        Mod* m = snap + i;
        ev_open(NULL, "{"); ev_str("name", m->name); ev_int("parent", m->parent); ev_int("max", m->max); ev_int("level", m->level); ev_int("flags", m->flags); ev_bool("hook", m->hook); ev_close("}");
    }
    ev_close("]");
    ev_end();
}

static void vf_scenario(void)
{
    int i;
    for (i = 0; i <= MAXM; i++) {
        mod[i]->level = i ? GLOG_LEVEL_INHERIT : 3; mod[i]->flags = 0;
    }
    gutil_log_default.name = NULL;
    gutil_log_func2 = my_func2;
    ev_cfg();
    while (vf_next()) {
        const int m = vf_i(1);
        evals = evals2 = 0;
        if (vf_is("level")) { mod[m]->level = vf_i(2); begin("level"); ev_int("m", m); ev_int("v", vf_i(2)); ev_end(); }
        else if (vf_is("off")) { mod[m]->flags = vf_i(2) ? GLOG_FLAG_DISABLE : 0; begin("off"); ev_int("m", m); ev_bool("v", vf_i(2)); ev_end(); }
        else if (vf_is("msg")) {
            /* msg level form number text */
            static unsigned char tmp[4096]; int n;
            num = vf_i(3); n = vf_hexbytes(vf_s(4), tmp); tmp[n] = 0; text = (char*)tmp;
            message(m, vf_i(2));
            begin("msg"); ev_int("lvl", m); ev_int("form", vf_i(2)); ev_int("n", num); ev_str("text", text); ev_str("fn", fn);
            ev_int("evals", evals); ev_int("evals2", evals2); ev_outs(); ev_end();
        } else if (vf_is("dump")) {
            /* dump form bytes */
            ndata = vf_hexbytes(vf_s(2), data);
            bytes = (m == 2) ? NULL : g_bytes_new_static(data, ndata);
            if (m == 0) GDEBUG_DUMP(argp(), argz()); else GDEBUG_DUMP_BYTES(argb());
            if (bytes) g_bytes_unref(bytes);
            begin("dump"); ev_int("form", m); ev_bytes("b", data, m == 2 ? 0 : ndata); ev_int("evals", evals); ev_int("evals2", evals2); ev_outs(); ev_end();
        } else if (vf_is("verify")) {
            /* verify form left right */
            num = vf_i(2); rnum = vf_i(3);
            verify(m);
            begin("verify"); ev_int("form", m); ev_int("a", m < 3 ? num : (num | 4)); ev_int("b", rnum | 4);
            ev_int("line", line); ev_str("file", __FILE__); ev_str("e1", expr1); ev_str("e2", expr2);
            ev_int("evals", evals); ev_int("evals2", evals2); ev_outs(); ev_end();
        } else if (vf_is("enabled")) {
            begin("enabled"); ev_open("r", "["); for (i = -3; i <= 6; i++) ev_bool(NULL, GLOG_ENABLED(i)); ev_close("]"); ev_end();
        } else if (vf_is("errmsg")) {
            GError e = { 0, 0, "what went wrong" }; GError* p = &e; const char* r;
            if (m == 0) p = NULL;
            if (m == 1) e.message = NULL;
            if (m == 3) e.message = "";
            r = GERRMSG(p);
            begin("errmsg"); ev_int("k", m); ev_str("r", r); ev_end();
        } else { fprintf(stderr, "bad op %s\n", vf_argv[0]); _exit(98); }
    }
}

int main(int argc, char** argv)
{
    int i;
    for (i = 0; i <= MAXM; i++) {
        snap[i].name = g_strdup(mod[i]->name); snap[i].parent = index_of(mod[i]->parent); snap[i].max = mod[i]->max_level;
        snap[i].level = mod[i]->level; snap[i].flags = mod[i]->flags; snap[i].hook = mod[i]->log_proc != NULL;
    }
    outs = g_array_new(FALSE, FALSE, sizeof(Out));
    return vf_main(argc, argv);
}
