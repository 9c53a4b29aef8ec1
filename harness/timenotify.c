/* Driver for gutil_timenotify.h. The timer is replaced because nothing here may
 * set the system time. */
#include "common.h"
#include <gutil_timenotify.h>
#include <sys/timerfd.h>
#include <sys/syscall.h>
#include <time.h>
#include <fcntl.h>

#ifndef NH
#define NH 8
#endif
static GUtilTimeNotify* tn;
static int refs, bz, wfd = -1, hup, fd_ = -1, last = -1, armed, pend, fail_create, fail_settime, active;
static gulong hid[NH + 1];

static void sys(const char* c) { ev_begin("sys"); ev_str("c", c); }
int timerfd_create(int clock, int flags)
{
    int fd = -1;
    if (fail_create) fail_create = 0;
    else {
        /* A pipe looks about the same, and can be broken */
        int p[2];
        if (syscall(SYS_pipe2, p, O_NONBLOCK)) _exit(98);
        fd = p[0];
        wfd = p[1];
    }
    hup = 0;
    if (fd >= 0) fd_ = fd;
    armed = pend = 0;
    sys("create"); ev_bool("ok", fd >= 0); ev_bool("realtime", clock == CLOCK_REALTIME); ev_end();
    if (fd < 0) errno = EMFILE;
    return fd;
}
int timerfd_settime(int fd, int flags, const struct itimerspec* t, struct itimerspec* old)
{
    /* The real one knows what's valid */
    int rfd = syscall(SYS_timerfd_create, CLOCK_REALTIME, 0);
    int fault = fail_settime, ok = fd == fd_ && !syscall(SYS_timerfd_settime, rfd, flags, t, NULL) && !fault;
    syscall(SYS_close, rfd);
    fail_settime = 0;
    if (ok) armed = (flags & TFD_TIMER_ABSTIME) && (flags & 2) && t->it_value.tv_sec > 0;
    sys("arm"); ev_bool("abs", (flags & TFD_TIMER_ABSTIME) != 0); ev_bool("cancel", (flags & 2) != 0);
    ev_bool("far", t->it_value.tv_sec > time(NULL) + 10LL * 366 * 24 * 3600); ev_bool("ok", ok); ev_bool("fault", fault); ev_end();
    if (!ok) { errno = EINVAL; return -1; }
    return 0;
}
ssize_t read(int fd, void* buf, size_t size)
{
    if (active && fd == fd_ && fd >= 0) {
        guint64 x;
        ssize_t n = syscall(SYS_read, fd, &x, sizeof(x));
        sys("read"); ev_end();
        pend = 0;
        errno = n == sizeof(x) ? ECANCELED : EAGAIN;
        return -1;
    }
    return syscall(SYS_read, fd, buf, size);
}
int close(int fd)
{
    if (active && fd >= 0 && (fd == fd_ || fd == last)) {
        sys("close"); ev_end();
        last = fd;
        fd_ = -1; armed = pend = 0;
        if (!hup) syscall(SYS_close, wfd);
        hup = 0;
    }
    return syscall(SYS_close, fd);
}

static void commands(int nested);
static void begin(const char* op) { ev_begin("op"); ev_str("op", op); }
static void done(void) { if (!vf_depth) { ev_begin("done"); ev_end(); } }
/* One of the handlers has no argument */
#define ARG(h) GINT_TO_POINTER((h) == 2 ? 0 : (h))
#define UNARG(p) ((p) ? GPOINTER_TO_INT(p) : 2)
static void handler(GUtilTimeNotify* self, void* arg)
{
    ev_begin("call"); ev_int("h", UNARG(arg)); ev_bool("self", self == tn); ev_end();
    vf_depth++;
    commands(1);
    vf_depth--;
    ev_begin("ret"); ev_end();
}
static void unref(void)
{
    begin("unref"); ev_end();
    if (!--refs) { memset(hid, 0, sizeof(hid)); bz = vf_depth; }
    gutil_time_notify_unref(tn);
    done();
}
static void commands(int nested)
{
    while (vf_next()) {
        int h = vf_i(1);
        if (vf_is("ret")) { if (nested) return; }
        else if (vf_is("pump")) {
            int n = 0;
            if (vf_depth) continue;
            ev_begin("pump"); ev_end();
            while (n++ < 1000 && g_main_context_iteration(NULL, FALSE));
            ev_begin("pumped"); ev_end();
            bz = 0;
            done();
        } else if (vf_is("fail")) {
            if (refs) continue;
            if (!strcmp(vf_s(1), "create")) fail_create = 1; else fail_settime = 1;
        } else if (vf_is("change")) {
            guint64 one = 1;
            begin("change"); ev_end();
            if (fd_ >= 0 && armed && !pend && !hup) { pend = 1; if (syscall(SYS_write, wfd, &one, sizeof(one)) != sizeof(one)) _exit(98); }
            done();
        } else if (vf_is("hup")) {
            if (fd_ < 0 || hup) continue;
            begin("hup"); ev_end();
            syscall(SYS_close, wfd);
            hup = 1;
            done();
        } else if (vf_is("new")) {
            GUtilTimeNotify* p;
            if (bz) continue;
            p = gutil_time_notify_new();
            begin("new"); ev_bool("r", p != NULL); ev_bool("same", p == tn); ev_end();
            tn = p;
            refs++;
            done();
        } else if (vf_is("null")) {
            int ok;
            gutil_time_notify_unref(NULL);
            gutil_time_notify_remove_handler(NULL, 1);
            ok = !gutil_time_notify_ref(NULL) && !gutil_time_notify_add_handler(NULL, handler, NULL);
            if (refs) { gutil_time_notify_remove_handler(tn, 0); ok = ok && !gutil_time_notify_add_handler(tn, NULL, NULL); }
            begin("null"); ev_bool("r", ok); ev_end(); done();
        } else if (!vf_is("ref") && !vf_is("unref") && !vf_is("addh") && !vf_is("rmh")) {
            fprintf(stderr, "bad op %s\n", vf_argv[0]); _exit(98);
        } else if (!refs) {
            continue;
        } else if (vf_is("ref")) {
            int r = gutil_time_notify_ref(tn) == tn;
            refs++;
            begin("ref"); ev_bool("r", r); ev_end(); done();
        } else if (vf_is("unref")) {
            unref();
        } else if (h < 1 || h > NH) {
            continue;
        } else if (vf_is("addh")) {
            if (hid[h]) continue;
            hid[h] = gutil_time_notify_add_handler(tn, handler, ARG(h));
            begin("addh"); ev_int("h", h); ev_bool("r", hid[h] != 0); ev_end(); done();
        } else {
            gulong id = hid[h];
            if (!id) continue;
            hid[h] = 0;
            begin("rmh"); ev_int("h", h); ev_end();
            gutil_time_notify_remove_handler(tn, id);
            done();
        }
    }
}

static int sources(void)
{
    GPollFD fds[64]; int timeout, prio, n;
    if (!g_main_context_acquire(NULL)) return -1;
    g_main_context_prepare(g_main_context_default(), &prio);
    n = g_main_context_query(g_main_context_default(), G_MAXINT, &timeout, fds, 64);
    g_main_context_release(NULL);
    return n;
}
static int base_sources, nsrc;
static void end_hook(void) { ev_int("sources", nsrc); }
static void vf_scenario(void)
{
    tn = NULL; refs = bz = 0; fd_ = last = -1; hup = armed = pend = fail_create = fail_settime = 0;
    memset(hid, 0, sizeof(hid));
    active = 1;
    commands(0);
    while (refs) unref();
    active = 0;
    g_main_context_iteration(NULL, FALSE);
    nsrc = sources() - base_sources;
}
int main(int argc, char** argv)
{
    gutil_log_default.level = GLOG_LEVEL_NONE;
    g_main_context_iteration(NULL, FALSE);
    base_sources = sources();
    vf_end_hook = end_hook;
    return vf_main(argc, argv);
}
