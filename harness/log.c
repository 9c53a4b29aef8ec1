/* Driver for gutil_log.h */
#include "common.h"
#include <gutil_misc.h>
#include <syslog.h>
#include <sys/wait.h>
#include <time.h>
#include <setjmp.h>
#include <sys/mman.h>
#ifndef MAXM
#define MAXM 4
#endif

GLogModule vf_mod1 = { NULL, NULL, NULL, GLOG_LEVEL_MAX, GLOG_LEVEL_INHERIT, 0, 0 };
static GLogModule vf_mod[MAXM + 1];
static GLogModule* mod[MAXM + 1] = { &gutil_log_default, &vf_mod1 };
#undef GLOG_MODULE_CURRENT
#define GLOG_MODULE_CURRENT (&vf_mod1)

void gutil_log_assert(const GLogModule*, int, const char*, const char*, int);

/* ---- what arrives ---- */
typedef struct { const char* via; int m; char* name; int lvl; char* text; } Out;
static GArray* outs;
static int probing, nprobe;
static const char* via_probe;
static void out(const char* via, int m, const char* name, int lvl, char* text)
{
    Out o = { via, m, g_strdup(name), lvl, text };
    if (probing) { nprobe++; via_probe = via; g_free(o.name); g_free(text); return; }
    g_array_append_val(outs, o);
}
static int index_of(const GLogModule* m)
{
    int i;
    for (i = 0; i <= MAXM; i++) if (mod[i] == m) return i;
    return -5;
}
static void my_func(const char* name, int level, const char* format, va_list va)
{
    out("func", -1, name, level, g_strdup_vprintf(format, va));
}
static void my_func2(const GLogModule* m, int level, const char* format, va_list va)
{
    out("func2", index_of(m), m ? m->name : NULL, level, g_strdup_vprintf(format, va));
}
static void my_hook(const GLogModule* m, int level, const char* format, va_list va)
{
    out("hook", index_of(m), m ? m->name : NULL, level, g_strdup_vprintf(format, va));
}
static jmp_buf huge_jmp; static int huge_left; static GBytes* huge_bytes;
static void first_lines(const GLogModule* m, int level, const char* format, va_list va)
{
    my_func2(m, level, format, va);
    if (!--huge_left) longjmp(huge_jmp, 1);
}
/* stand-ins */
void openlog(const char* ident, int opt, int fac) {}
void closelog(void) {}
void vsyslog(int prio, const char* format, va_list va) { out("syslog", -1, NULL, prio, g_strdup_vprintf(format, va)); }
void syslog(int prio, const char* format, ...) { va_list va; va_start(va, format); vsyslog(prio, format, va); va_end(va); }
void __vsyslog_chk(int prio, int flag, const char* format, va_list va) { vsyslog(prio, format, va); }
void __syslog_chk(int prio, int flag, const char* format, ...) { va_list va; va_start(va, format); vsyslog(prio, format, va); va_end(va); }
void g_logv(const char* dom, GLogLevelFlags flags, const char* format, va_list va) { out("glib", -1, dom, flags, g_strdup_vprintf(format, va)); }
void g_log(const char* dom, GLogLevelFlags flags, const char* format, ...) { va_list va; va_start(va, format); g_logv(dom, flags, format, va); va_end(va); }
time_t time(time_t* t) { if (t) *t = 1234567890; return 1234567890; }

static GString* cap_out; static GString* cap_err;
static GMutex cap_lock;
static ssize_t cap(void* cookie, const char* b, size_t n)
{
    g_mutex_lock(&cap_lock);
    g_string_append_len(cookie, b, n);
    g_mutex_unlock(&cap_lock);
    return n;
}
static FILE *f_out, *f_err, *r_out, *r_err;
static void enter(void) { r_out = stdout; r_err = stderr; stdout = f_out; stderr = f_err; }
static void leave(void)
{
    stdout = r_out; stderr = r_err;
    fflush(f_out); fflush(f_err);
    if (probing) {
        nprobe += (cap_out->len > 0) + (cap_err->len > 0);
        if (cap_out->len) via_probe = "stdout";
        if (cap_err->len) via_probe = "stderr";
    } else {
        if (cap_out->len) out("stdout", -1, NULL, 0, g_strdup(cap_out->str));
        if (cap_err->len) out("stderr", -1, NULL, 0, g_strdup(cap_err->str));
    }
    g_string_set_size(cap_out, 0); g_string_set_size(cap_err, 0);
}
static void split(GString* g, const char* via)
{
    char* s;
    for (s = g->str; *s; ) {
        char* e = strchr(s, '\n');
        gsize n = e ? (e - s + 1) : strlen(s);
        out(via, -1, NULL, 0, g_strndup(s, n));
        s += n;
    }
    g_string_set_size(g, 0);
}
/* every line is a message */
static void lines_out(void)
{
    stdout = r_out; stderr = r_err;
    fflush(f_out); fflush(f_err);
    split(cap_out, "stdout"); split(cap_err, "stderr");
}
static void ev_outs(void)
{
    guint i;
    ev_open("d", "[");
    for (i = 0; i < outs->len; i++) {
        Out* o = &g_array_index(outs, Out, i);
        ev_open(NULL, "{"); ev_str("via", o->via); ev_int("m", o->m); ev_str("name", o->name); ev_int("lvl", o->lvl); ev_str("text", o->text); ev_close("}");
        g_free(o->name); g_free(o->text);
    }
    ev_close("]");
    g_array_set_size(outs, 0);
}

static void begin(const char* op) { ev_begin("op"); ev_str("op", op); }
/* hexadecimal, "-" or NULL */
static char* str(int i)
{
    static unsigned char tmp[1 << 20]; int n;
    if (!strcmp(vf_s(i), "NULL")) return NULL;
    n = vf_hexbytes(vf_s(i), tmp); tmp[n] = 0;
    return g_strdup((char*)tmp);
}
static void logva(const GLogModule* m, int lvl, const char* format, ...)
{
    va_list va;
    va_start(va, format); gutil_logv(m, lvl, format, va); va_end(va);
}
static GLogProc2 standard2(const char* f)
{
    return !strcmp(f, "stdout") ? gutil_log_stdout2 : !strcmp(f, "stderr") ? gutil_log_stderr2 :
        !strcmp(f, "syslog") ? gutil_log_syslog2 : !strcmp(f, "glib") ? gutil_log_glib2 : NULL;
}
#define THE(m) ((m) < 0 ? NULL : mod[m])
static void levels(void)
{
    int i;
    ev_open("lv", "["); for (i = 0; i <= MAXM; i++) ev_int(NULL, mod[i]->level); ev_close("]");
}
typedef struct { int m, lvl, n, id; } Th;
static gpointer thread(gpointer p)
{
    Th* t = p; int i;
    for (i = 0; i < t->n; i++) gutil_log(THE(t->m), t->lvl, "%d/%d %s", t->id, i, "this is what it says");
    return NULL;
}
static char* fnames[MAXM + 1];
static int nm;

static void probe(void)
{
    int m, l; const char* via = "-"; GString* s = g_string_new(NULL);
    begin("probe");
    ev_open("en", "[");
    for (m = -1; m <= nm; m++) { g_string_set_size(s, 0); for (l = -3; l <= 6; l++) g_string_append_c(s, gutil_log_enabled(THE(m), l) ? 'e' : '.'); ev_str(NULL, s->str); }
    ev_close("]");
    probing = 1;
    ev_open("n", "[");
    for (m = -1; m <= nm; m++) {
        g_string_set_size(s, 0);
        for (l = -3; l <= 6; l++) {
            nprobe = 0; enter(); gutil_log(THE(m), l, "%s", "probe"); leave();
            g_string_append_c(s, '0' + MIN(nprobe, 9));
        }
        ev_str(NULL, s->str);
    }
    ev_close("]");
    ev_open("via", "[");
    for (m = -1; m <= nm; m++) { via_probe = "-"; enter(); gutil_log(THE(m), GLOG_LEVEL_ALWAYS, "%s", "probe"); leave(); ev_str(NULL, via_probe); }
    ev_close("]");
    probing = 0;
    ev_end();
    g_string_free(s, TRUE);
}

static void vf_scenario(void)
{
    int i, k, autoprobe = 0;
    nm = 2;
    for (i = 0; i <= MAXM; i++) {
        mod[i]->name = NULL; mod[i]->parent = NULL; mod[i]->log_proc = NULL; mod[i]->level = i ? GLOG_LEVEL_INHERIT : 3; mod[i]->flags = 0;
        fnames[i] = i ? g_strdup_printf("m%d", i) : NULL;
        mod[i]->name = fnames[i];
    }
    gutil_log_func = my_func;
    static GLogProc2 def; if (!def) def = gutil_log_func2;
    gutil_log_func2 = def;
    gutil_log_timestamp = FALSE; gutil_log_tid = FALSE;
    gutil_log_set_timestamp_format(NULL);
    while (vf_next()) {
        const int m = vf_i(1);
        if (vf_is("probe")) probe();
        else if (vf_is("autoprobe")) autoprobe = 1;
        else if (vf_is("modules")) nm = CLAMP(m, 0, MAXM);
        else if (vf_is("level")) { mod[m]->level = vf_i(2); begin("level"); ev_int("m", m); ev_int("v", vf_i(2)); ev_end(); }
        else if (vf_is("parent")) { k = vf_i(2); mod[m]->parent = THE(k); begin("parent"); ev_int("m", m); ev_int("v", k); ev_end(); }
        else if (vf_is("off") || vf_is("hide")) {
            const int f = vf_is("off") ? GLOG_FLAG_DISABLE : GLOG_FLAG_HIDE_NAME;
            mod[m]->flags = vf_i(2) ? (mod[m]->flags | f) : (mod[m]->flags & ~f);
            begin(f == GLOG_FLAG_DISABLE ? "off" : "hide"); ev_int("m", m); ev_bool("v", vf_i(2)); ev_end();
        } else if (vf_is("hook")) {
            const char* f = vf_s(2);
            if (!strcmp(f, "0")) f = "none"; else if (!strcmp(f, "1")) f = "custom";
            mod[m]->log_proc = !strcmp(f, "custom") ? my_hook : standard2(f); begin("hook"); ev_int("m", m); ev_str("v", f); ev_end(); }
        else if (vf_is("name")) {
            g_free(fnames[m]); mod[m]->name = fnames[m] = str(2);
            begin("name"); ev_int("m", m); ev_str("v", fnames[m]); ev_end();
        } else if (vf_is("func")) {
            const char* f = vf_s(1);
            gutil_log_func = !strcmp(f, "custom") ? my_func : !strcmp(f, "stdout") ? gutil_log_stdout : !strcmp(f, "stderr") ? gutil_log_stderr :
                !strcmp(f, "syslog") ? gutil_log_syslog : !strcmp(f, "glib") ? gutil_log_glib : NULL;
            begin("func"); ev_str("v", f); ev_end();
        } else if (vf_is("func2")) {
            const char* f = vf_s(1);
            gutil_log_func2 = !strcmp(f, "custom") ? my_func2 : !strcmp(f, "default") ? def : standard2(f);
            begin("func2"); ev_str("v", f); ev_end();
        } else if (vf_is("stamp")) { gutil_log_timestamp = m; begin("stamp"); ev_bool("v", m); ev_end(); }
        else if (vf_is("tid")) { gutil_log_tid = m; begin("tid"); ev_bool("v", m); ev_end(); }
        else if (vf_is("fmt")) {
            char* f = str(1);
            gutil_log_set_timestamp_format(f);
            begin("fmt"); ev_str("v", f); ev_end();
            if (f) memset(f, 'x', strlen(f));
            g_free(f);
        } else if (vf_is("log")) {
            /* log m level variant number text */
            const int lvl = vf_i(2), var = vf_i(3), n = vf_i(4); char* text = str(5);
            const GLogModule* mm = THE(m); char* copy = g_strdup(text);
            enter();
            switch (var) {
            case 0: gutil_log(mm, lvl, "%s", text); break;
            case 1: gutil_log(mm, lvl, "<%d|%s|%c|%5.1f>", n, text, 'z', 1.5); break;
            case 2: gutil_log(mm, lvl, text, 0); break;
            case 3: gutil_log_assert(mm, lvl, text, "file.c", n); break;
            case 4: logva(mm, lvl, "%s%s", text, "."); break;
            case 5: switch (lvl) {
                case 1: GERR("%s", text); break;
                case 2: GWARN("%s", text); break;
                case 3: GINFO("%s", text); break;
                case 4: GDEBUG("%s", text); break;
                case 5: GVERBOSE("%s", text); break;
                } break;
            case 6: switch (lvl) {
                case 1: GERR_("%s", text); break;
                case 2: GWARN_("%s", text); break;
                case 3: GINFO_("%s", text); break;
                case 4: GDEBUG_("%s", text); break;
                case 5: GVERBOSE_("%s", text); break;
                } break;
            }
            leave();
            begin("log"); ev_int("m", var >= 5 ? 1 : m); ev_int("lvl", lvl); ev_int("var", var); ev_int("n", n); ev_str("text", text);
            ev_int("max", var >= 5 ? GLOG_LEVEL_MAX : 100); ev_str("fn", __FUNCTION__);
            ev_bool("en", gutil_log_enabled(var >= 5 ? &vf_mod1 : mm, lvl)); ev_bool("same", !strcmp(copy, text)); ev_int("tid", getpid()); ev_outs(); ev_end();
            g_free(text); g_free(copy);
        } else if (vf_is("dump")) {
            /* dump m level variant prefix bytes */
            static unsigned char tmp[1 << 19]; int n = vf_hexbytes(vf_s(5), tmp); const int lvl = vf_i(2), var = vf_i(3);
            char* prefix = str(4); void* data = malloc(n); GBytes* b;
            memcpy(data, tmp, n);
            b = g_bytes_new_static(data, n);
            enter();
            if (var == 0) gutil_log_dump(THE(m), lvl, prefix, data, n);
            else if (var == 1) gutil_log_dump_bytes(THE(m), lvl, prefix, b);
            else if (var == 2) gutil_log_dump_bytes(THE(m), lvl, prefix, NULL);
            else if (lvl == 4) { if (var == 3) GDEBUG_DUMP(data, n); else GDEBUG_DUMP_BYTES(b); }
            lines_out();
            begin("dump"); ev_int("m", var >= 3 ? 1 : m); ev_int("lvl", lvl); ev_str("prefix", var >= 3 ? NULL : prefix);
            ev_bytes("b", data, (var == 2 || (var >= 3 && lvl != 4)) ? 0 : n); ev_int("tid", getpid()); ev_outs(); ev_end();
            g_bytes_unref(b); free(data); g_free(prefix);
        } else if (vf_is("huge")) {
            /* More than fits into 32 bits, only the first lines are of interest */
            static guint8* map;
            const gsize size = (((gsize)1) << 32) + vf_i(2);
            GLogProc2 saved = gutil_log_func2;
            if (!map) map = mmap(NULL, (((gsize)1) << 32) + 65536, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (map == MAP_FAILED) { fprintf(stderr, "mmap\n"); _exit(98); }
            gutil_log_func2 = first_lines;
            huge_left = 3;
            if (!setjmp(huge_jmp)) {
                if (m) { GBytes* b = huge_bytes ? huge_bytes : (huge_bytes = g_bytes_new_static(map, (((gsize)1) << 32) + 16)); gutil_log_dump_bytes(NULL, GLOG_LEVEL_ALWAYS, NULL, b); }
                else gutil_log_dump(NULL, GLOG_LEVEL_ALWAYS, NULL, map, size);
            }
            gutil_log_func2 = saved;
            begin("huge"); ev_outs(); ev_end();
        } else if (vf_is("threads")) {
            Th th[4]; GThread* t[4]; const int n = vf_i(4), cnt = CLAMP(vf_i(3), 1, 4);
            enter();
            for (k = 0; k < cnt; k++) { th[k].m = m; th[k].lvl = vf_i(2); th[k].n = n; th[k].id = k + 1; t[k] = g_thread_new("log", thread, th + k); }
            for (k = 0; k < cnt; k++) g_thread_join(t[k]);
            lines_out();
            begin("threads"); ev_int("m", m); ev_int("lvl", vf_i(2)); ev_int("cnt", cnt); ev_int("n", n); ev_outs(); ev_end();
        } else if (vf_is("option")) {
            char* o = str(1); const int n = vf_i(2); GError* err = NULL; gboolean r, quiet = vf_pos & 1; char* copy = g_strdup(o);
            r = gutil_log_parse_option(o, mod + 1, n, quiet ? NULL : &err);
            begin("option"); ev_str("o", o); ev_int("n", n); ev_bool("r", r); ev_bool("quiet", quiet); ev_bool("err", err != NULL);
            ev_bool("msg", err && err->domain == G_OPTION_ERROR && err->code == G_OPTION_ERROR_BAD_VALUE && err->message && err->message[0]);
            ev_bool("same", !strcmp(copy, o)); levels(); ev_end();
            g_clear_error(&err); g_free(o); g_free(copy);
        } else if (vf_is("describe")) {
            char* d; int l, n = vf_i(1);
            d = gutil_log_description(n < 0 ? NULL : mod + 1, n);
            begin("describe"); ev_int("n", n); ev_int("dflt", GLOG_LEVEL_DEFAULT); ev_open("d", "[");
            { char** v = g_strsplit(d, "\n", -1); int i; for (i = 0; v[i]; i++) ev_str(NULL, v[i]); g_strfreev(v); }
            ev_close("]"); ev_end();
            g_free(d);
        } else if (vf_is("type")) {
            char* t = str(1); char* n = str(2); gboolean r;
            r = gutil_log_set_type(t, n);
            begin("type"); ev_str("t", t); ev_str("name", n); ev_bool("r", r); ev_str("now", gutil_log_get_type());
            ev_str("dn", gutil_log_default.name); levels(); ev_end();
            /* it's a pointer */
            if (n && gutil_log_default.name == n) { g_free(fnames[0]); fnames[0] = n; } else g_free(n);
            g_free(t);
        } else if (vf_is("env")) {
            /* env variable value in another process */
            char* v = str(1); static const char* var[] = {"", "GUTIL_LOG_DEFAULT_LEVEL", "GUTIL_LOG_TIMESTAMP", "GUTIL_LOG_TID"};
            int p[2], level = -100, stamp = -100, tid = -100, st; char b[100]; ssize_t n; pid_t pid;
            if (pipe(p)) _exit(98);
            pid = fork();
            if (!pid) {
                char* args[] = {"log", "--env", NULL};
                dup2(p[1], 1);
                setenv(var[vf_i(2)], v, 1);
                execv("/proc/self/exe", args);
                _exit(97);
            }
            close(p[1]);
            n = read(p[0], b, sizeof(b) - 1);
            close(p[0]); waitpid(pid, &st, 0);
            b[n > 0 ? n : 0] = 0;
            sscanf(b, "%d %d %d", &level, &stamp, &tid);
            begin("env"); ev_str("v", v); ev_int("k", vf_i(2)); ev_int("level", level); ev_int("stamp", stamp); ev_int("tid", tid); ev_int("dflt", GLOG_LEVEL_DEFAULT); ev_end();
            g_free(v);
        } else { fprintf(stderr, "bad op %s\n", vf_argv[0]); _exit(98); }
        if (autoprobe && !vf_is("autoprobe")) probe();
    }
    for (i = 0; i <= MAXM; i++) { mod[i]->name = NULL; g_free(fnames[i]); }
    gutil_log_set_timestamp_format(NULL);
    gutil_log_func = my_func;
    gutil_log_default.level = 0;
}

int main(int argc, char** argv)
{
    if (argc > 1 && !strcmp(argv[1], "--env")) {
        char b[100];
        snprintf(b, sizeof(b), "%d %d %d\n", gutil_log_default.level, gutil_log_timestamp, gutil_log_tid);
        if (write(1, b, strlen(b)) < 0) return 1;
        return 0;
    }
    cookie_io_functions_t fn = { .write = cap };
    int i;
    for (i = 2; i <= MAXM; i++) mod[i] = vf_mod + i;
    setenv("TZ", "UTC", 1);
    unsetenv("GUTIL_LOG_DEFAULT_LEVEL");
    cap_out = g_string_new(NULL); cap_err = g_string_new(NULL);
    f_out = fopencookie(cap_out, "w", fn); f_err = fopencookie(cap_err, "w", fn);
    setvbuf(f_err, NULL, _IONBF, 0);
    outs = g_array_new(FALSE, FALSE, sizeof(Out));
    return vf_main(argc, argv);
}
