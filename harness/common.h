/*
 * Common part of the trace-recording drivers.
 *
 * A driver is an interpreter of a line based script:
 *
 *   scn <name>          starts a scenario
 *   <op> <args...>      an operation of the component
 *   cbret               returns from the library callback we are in
 *
 * Whenever the client has control (at top level or inside a callback made
 * by the library) the driver takes the next command. Whatever happens at
 * the API is written to the trace, one JSON object per line. The whole script
 * is executed three times in the same process: the last pass leaves the
 * trace, the last two provide the heap balance of each scenario.
 */
#ifndef VF_COMMON_H
#define VF_COMMON_H

#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <glib.h>
#include <glib-object.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <gutil_log.h>

size_t __sanitizer_get_current_allocated_bytes(void);
const char* __asan_default_options(void);
const char* __asan_default_options(void)
{
    return "detect_leaks=0:abort_on_error=0:exitcode=99:"
        "allocator_may_return_null=0:hard_rss_limit_mb=6000:"
        "max_allocation_size_mb=3000:handle_abort=1:"
        "detect_stack_use_after_return=1:strict_memcmp=0"
#if !DEBUG
        /* Freed memory is reused at once, an address may come back */
        ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0"
#endif
        ;
}

/* ---- script ---- */

#define VF_MAXARG 64
static char* vf_buf;            /* script text */
static char** vf_lines;
static int vf_nlines, vf_pos;
static char vf_line[1 << 20];
static char* vf_argv[VF_MAXARG];
static int vf_argc;
static int vf_depth;            /* nesting of callbacks */

static int vf_peek_scn(void)
{
    return vf_pos >= vf_nlines || !strncmp(vf_lines[vf_pos], "scn ", 4);
}

/* Takes the next command of the current scenario */
static int vf_next(void)
{
    char* s;
    if (vf_peek_scn()) return 0;
    strcpy(vf_line, vf_lines[vf_pos++]);
    vf_argc = 0;
    for (s = strtok(vf_line, " "); s && vf_argc < VF_MAXARG;
         s = strtok(NULL, " ")) vf_argv[vf_argc++] = s;
    return vf_argc > 0 ? 1 : vf_next();
}

static const char* vf_s(int i) { return i < vf_argc ? vf_argv[i] : ""; }
static int vf_i(int i) { return i < vf_argc ? (int)strtoll(vf_argv[i],0,0) : 0; }
static gint64 vf_ll(int i)
{
    if (i >= vf_argc) return 0;
    return vf_argv[i][0] == '-' ? (gint64)strtoll(vf_argv[i],0,0) :
        (gint64)strtoull(vf_argv[i],0,0);
}
static int vf_is(const char* op) { return !strcmp(vf_argv[0], op); }

/* ---- trace ---- */

static int vf_fd = -1;
static char vf_out[1 << 23];
static size_t vf_len;
static int vf_comma;

static void vf_raw(const char* s)
{
    size_t n = strlen(s);
    if (vf_len + n + 16 > sizeof(vf_out)) { fprintf(stderr, "trace line\n"); _exit(98); }
    memcpy(vf_out + vf_len, s, n);
    vf_len += n;
}
static void vf_f(const char* f, ...)
{
    static char tmp[4096];
    va_list va;
    va_start(va, f);
    vsnprintf(tmp, sizeof(tmp), f, va);
    va_end(va);
    vf_raw(tmp);
}
static void vf_str_raw(const char* s)
{
    if (!s) s = "<null>";
    vf_raw("\"");
    for (; *s; s++) {
        char c[8];
        unsigned char u = (unsigned char)*s;
        if (u == '"' || u == '\\') { c[0] = '\\'; c[1] = u; c[2] = 0; }
        else if (u < 0x20 || u >= 0x7f) snprintf(c, sizeof(c), "\\u%04x", u);
        else { c[0] = u; c[1] = 0; }
        vf_raw(c);
    }
    vf_raw("\"");
}
static void vf_k(const char* k)
{
    if (vf_comma) vf_raw(",");
    vf_comma = 1;
    if (k) { vf_raw("\""); vf_raw(k); vf_raw("\":"); }
}
static void ev_int(const char* k, gint64 v) { vf_k(k); vf_f("%lld", (long long)v); }
static void ev_str(const char* k, const char* s) { vf_k(k); vf_str_raw(s); }
static void ev_bool(const char* k, int v) { vf_k(k); vf_raw(v ? "true" : "false"); }
static void ev_open(const char* k, const char* b) { vf_k(k); vf_raw(b); vf_comma = 0; }
static void ev_close(const char* b) { vf_raw(b); vf_comma = 1; }
static void ev_begin(const char* e)
{
    vf_len = 0; vf_comma = 0;
    vf_raw("{"); ev_str("e", e);
}
static void ev_end(void)
{
    size_t off = 0;
    vf_raw("}\n");
    while (off < vf_len) {
        ssize_t n = write(vf_fd, vf_out + off, vf_len - off);
        if (n <= 0) { fprintf(stderr, "trace write\n"); _exit(98); }
        off += n;
    }
    vf_len = 0;
}
/* bytes as an array of numbers */
static void ev_bytes(const char* k, const void* p, size_t n)
{
    const unsigned char* b = p; size_t i;
    ev_open(k, "[");
    for (i = 0; i < n; i++) ev_int(NULL, b[i]);
    ev_close("]");
}
/* 64-bit value as four 16-bit limbs, least significant first */
static void ev_u64(const char* k, guint64 v)
{
    int i;
    ev_open(k, "[");
    for (i = 0; i < 4; i++) { ev_int(NULL, v & 0xffff); v >>= 16; }
    ev_close("]");
}

/* GLib warnings and criticals are something no specification allows */
static int vf_glog_expected;
static void vf_glog(const gchar* dom, GLogLevelFlags lvl, const gchar* msg, gpointer p)
{
    if (lvl & (G_LOG_LEVEL_ERROR|G_LOG_LEVEL_CRITICAL|G_LOG_LEVEL_WARNING)) {
        static char save[1 << 16]; size_t l = vf_len; int c = vf_comma;
        if (l < sizeof(save)) memcpy(save, vf_out, l);
        ev_begin("glib"); ev_str("dom", dom); ev_str("msg", msg); ev_end();
        if (l < sizeof(save)) { memcpy(vf_out, save, l); vf_len = l; vf_comma = c; }
        fprintf(stderr, "glib: %s: %s\n", dom ? dom : "", msg);
    }
}

/* Assertions of the debug build: linked with --wrap=gutil_log_assert they are events too */
void __wrap_gutil_log_assert(const void* m, int level, const char* expr, const char* file, int line);
void __wrap_gutil_log_assert(const void* m, int level, const char* expr, const char* file, int line)
{
    static char save[1 << 16];
    const size_t l = vf_len;
    const int c = vf_comma;
    const char* f = strrchr(file, '/');

    (void)m; (void)level; (void)line;
    if (l < sizeof(save)) {
        memcpy(save, vf_out, l);
        ev_begin("assert"); ev_str("what", expr); ev_str("file", f ? f + 1 : file); ev_end();
        memcpy(vf_out, save, l); vf_len = l; vf_comma = c;
    }
}

static gint64 vf_hex64(const char* s) { return (gint64)g_ascii_strtoull(s, NULL, 16); }
static int vf_hexbytes(const char* s, unsigned char* out)
{
    int n = 0;
    if (*s == '-') return 0;  /* "-" means empty */
    for (; s[0] && s[1]; s += 2) {
        int h = g_ascii_xdigit_value(s[0]), l = g_ascii_xdigit_value(s[1]);
        out[n++] = (h << 4) | l;
    }
    return n;
}

static void vf_scenario(void);    /* provided by the driver */
static void (*vf_end_hook)(void); /* adds fields to the "end" event */

static int vf_main(int argc, char** argv)
{
    FILE* f; long sz; int pass, npass = 3, maxscn; char* s; long* delta;
    const char* np = getenv("VF_PASSES");

    if (argc < 3) { fprintf(stderr, "usage: driver SCRIPT TRACE\n"); return 98; }
    if (np) npass = atoi(np);
    f = fopen(argv[1], "r");
    if (!f) { perror(argv[1]); return 98; }
    fseek(f, 0, SEEK_END); sz = ftell(f); rewind(f);
    vf_buf = malloc(sz + 1);
    sz = fread(vf_buf, 1, sz, f); vf_buf[sz] = 0; fclose(f);
    vf_lines = calloc(sz + 2, sizeof(char*));
    for (s = vf_buf; *s; ) {
        char* e = strchr(s, '\n');
        if (e) *e = 0;
        if (*s && *s != '#') vf_lines[vf_nlines++] = s;
        if (!e) break;
        s = e + 1;
    }
    maxscn = vf_nlines + 1;
    delta = calloc(maxscn, sizeof(long));
    vf_fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
    if (vf_fd < 0) { perror(argv[2]); return 98; }
    g_log_set_default_handler(vf_glog, NULL);
    for (pass = 0; pass < npass; pass++) {
        int n = 0;
        if (ftruncate(vf_fd, 0) || lseek(vf_fd, 0, SEEK_SET)) return 98;
        vf_pos = 0;
        while (vf_pos < vf_nlines) {
            size_t h0; long d; char name[64];
            if (strncmp(vf_lines[vf_pos], "scn ", 4)) { vf_pos++; continue; }
            snprintf(name, sizeof(name), "%s", vf_lines[vf_pos++] + 4);
            ev_begin("scn"); ev_str("name", name); ev_end();
            alarm(30);
            h0 = __sanitizer_get_current_allocated_bytes();
            vf_depth = 0;
            vf_scenario();
            d = (long)__sanitizer_get_current_allocated_bytes() - (long)h0;
            while (!vf_peek_scn()) vf_pos++;
            if (pass == 1) delta[n] = d;
            ev_begin("end");
            /* only what grows every time counts */
            ev_int("leak", (pass == npass - 1 && pass > 0 && d > 0 && delta[n] > 0) ?
                (pass == 1 ? 0 : MIN(d, delta[n])) : 0);
            if (vf_end_hook) vf_end_hook();
            ev_end();
            n++;
        }
    }
    alarm(0);
    close(vf_fd);
    return 0;
}

#endif
