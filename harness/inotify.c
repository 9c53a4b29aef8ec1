/* Driver for gutil_inotify.h. The kernel is real, calls are recorded on the
 * way. Everything happens under VF_SCRATCH. */
#include "common.h"
#include <gutil_inotify.h>
#include <sys/inotify.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <dirent.h>
#include <poll.h>

#ifndef NW
#define NW 6
#define NH 12
#define ND 3
#endif
static GUtilInotifyWatch* wp[NW + 1];
static GUtilInotifyWatchCallback* cbp[NW + 1];
static int refs[NW + 1], bz[NW + 1], iscb[NW + 1], cbh[NW + 1];
static int hw[NH + 1];            /* watch the handler is connected to */
static gulong hid[NH + 1];
static char root[512];
static int ifd = -1, last = -1;   /* the descriptor */
static int fail_init, fail_add, fail_read, fail_poll, injected;
static char longname[256];
static int active;                /* calls are being recorded */

static const char* dpath(int d, int alt) { static char p[600]; snprintf(p, sizeof(p), "%s/%s%d", root, alt ? "link" : "d", d); return p; }
static const char* fname(const char* n) { return strcmp(n, "long") ? n : longname; }
static const char* fpath(int d, const char* n) { static char p[2][900]; static int k; k = !k; snprintf(p[k], sizeof(p[k]), "%s/d%d/%s", root, d, fname(n)); return p[k]; }
static void ev_mask(guint m)
{
    int i;
    ev_open("m", "["); for (i = 0; i < 32; i++) if (m & (1u << i)) ev_int(NULL, i); ev_close("]");
}
static void sys(const char* c) { ev_begin("sys"); ev_str("c", c); }

/* ---- system calls made by the library ---- */

static int do_init(int flags)
{
    int fd = -1;
    if (fail_init) { fail_init = 0; injected = 1; errno = EMFILE; }
    else {
        /* The limit is shared with the rest of the system, there's nothing to learn from hitting it */
        int i = 0;
        while ((fd = syscall(SYS_inotify_init1, flags)) < 0 && i++ < 3000) usleep(10000);
        if (fd < 0) injected = 1;
    }
    if (fd >= 0) ifd = fd;
    sys("init"); ev_bool("ok", fd >= 0); ev_end();
    if (fd < 0) errno = EMFILE;
    return fd;
}
int inotify_init(void) { return do_init(0); }
int inotify_init1(int flags) { return do_init(flags); }
int inotify_add_watch(int fd, const char* path, uint32_t mask)
{
    int d, found = 0, wd = -1, fault = 0, e = 0;
    for (d = 1; d <= ND; d++) if (!strcmp(path, dpath(d, 0)) || !strcmp(path, dpath(d, 1))) found = d;
    if (fail_add) { e = fail_add; fail_add = 0; fault = 1; }
    else {
        int i = 0;
        while ((wd = syscall(SYS_inotify_add_watch, fd, path, mask)) < 0 &&
            ((e = errno) == ENOSPC || e == ENOMEM) && i++ < 1000) usleep(10000);
        if (wd < 0 && (e == ENOSPC || e == ENOMEM)) fault = 1;
    }
    sys("add"); ev_int("d", found); ev_mask(mask); ev_int("wd", fd == ifd ? wd : -7); ev_bool("fault", fault); ev_end();
    errno = e;
    return wd;
}
int inotify_rm_watch(int fd, int wd)
{
    int r = syscall(SYS_inotify_rm_watch, fd, wd), e = errno;
    sys("rm"); ev_int("wd", fd == ifd ? wd : -7); ev_bool("ok", r == 0); ev_end();
    errno = e;
    return r;
}
ssize_t read(int fd, void* buf, size_t size)
{
    ssize_t n, off = 0;
    if (!active || fd != ifd) return syscall(SYS_read, fd, buf, size);
    if (fail_read) {
        int e = fail_read;
        fail_read = 0;
        if (e != EINTR) { sys("readfail"); ev_str("err", "injected"); ev_end(); }
        errno = e;
        return -1;
    }
    n = syscall(SYS_read, fd, buf, size);
    if (n >= 0) {
        sys("read"); ev_open("l", "[");
        while (off < n) {
            struct inotify_event* e = (void*)((char*)buf + off);
            ev_open(NULL, "{"); ev_int("wd", e->wd); ev_mask(e->mask); ev_int("c", (gint32)e->cookie);
            ev_str("n", e->len ? e->name : ""); ev_close("}");
            off += sizeof(*e) + e->len;
        }
        ev_close("]"); ev_end();
    } else { int e = errno; sys("readfail"); ev_str("err", e == EAGAIN ? "again" : "other"); ev_end(); errno = e; }
    return n;
}
/* GLib looks at the descriptor */
int poll(struct pollfd* fds, nfds_t n, int timeout)
{
    int r = syscall(SYS_poll, fds, n, timeout); nfds_t i;
    if (active && fail_poll && ifd >= 0) for (i = 0; i < n; i++) if (fds[i].fd == ifd) {
        if (r < 0) r = 0;
        if (!fds[i].revents) r++;
        fds[i].revents |= fail_poll;
        fail_poll = 0;
        sys("readfail"); ev_str("err", "injected"); ev_end();
        break;
    }
    return r;
}
int close(int fd)
{
    if (active && fd >= 0 && (fd == ifd || fd == last)) {
        sys("close"); ev_end();
        last = fd;
        ifd = -1;
    }
    return syscall(SYS_close, fd);
}

/* ---- the client ---- */

static void commands(int nested);
static void done(void) { if (!vf_depth) { ev_begin("done"); ev_end(); } }
/* One of the handlers has no argument */
#define ARG(h) GINT_TO_POINTER((h) == 2 ? 0 : (h))
#define UNARG(p) ((p) ? GPOINTER_TO_INT(p) : 2)
static void handler(GUtilInotifyWatch* w, guint mask, guint cookie, const char* name, void* arg)
{
    int h = UNARG(arg), i, who = -1;
    for (i = 1; i <= NW; i++) if (wp[i] == w && refs[i]) who = i;
    if (who < 0 && refs[hw[h]] && iscb[hw[h]] && !wp[hw[h]]) { who = hw[h]; wp[who] = w; }
    if (who < 0) for (i = 1; i <= NW; i++) if (wp[i] == w) who = i;
    ev_begin("call"); ev_int("w", who); ev_int("h", h); ev_mask(mask); ev_int("c", (gint32)cookie);
    /* no name and an empty name isn't the same thing */
    ev_str("n", name ? *name ? name : "<empty>" : "");
    ev_end();
    vf_depth++;
    commands(1);
    vf_depth--;
    ev_begin("ret"); ev_end();
}
static void begin(const char* op) { ev_begin("op"); ev_str("op", op); }
static void dropped(int i)
{
    int h;
    if (--refs[i]) return;
    if (vf_depth) { bz[i] = 1; return; }
    for (h = 1; h <= NH; h++) if (hw[h] == i) hw[h] = 0;
    wp[i] = NULL; cbp[i] = NULL; iscb[i] = 0;
}
static void pumped(void)
{
    int i, h;
    for (i = 1; i <= NW; i++) if (bz[i]) {
        bz[i] = 0;
        for (h = 1; h <= NH; h++) if (hw[h] == i) hw[h] = 0;
        wp[i] = NULL; cbp[i] = NULL; iscb[i] = 0;
    }
}
static void unref(int i)
{
    GUtilInotifyWatch* w = wp[i];
    begin("unref"); ev_int("w", i); ev_end();
    dropped(i);
    gutil_inotify_watch_unref(w);
    done();
}
static void cbfree(int i)
{
    GUtilInotifyWatchCallback* c = cbp[i];
    begin("cbfree"); ev_int("w", i); ev_int("h", cbh[i]); ev_end();
    cbp[i] = NULL;
    if (cbh[i]) hw[cbh[i]] = vf_depth ? hw[cbh[i]] : 0;
    dropped(i);
    gutil_inotify_watch_callback_free(c);
    done();
}
static guint mask_arg(int k)
{
    unsigned char b[64]; int i, n = vf_hexbytes(vf_s(k), b); guint m = 0;
    for (i = 0; i < n; i++) m |= 1u << b[i];
    return m;
}
static void evmask(guint m) { ev_mask(m); }
static int okd(int d) { return d >= 1 && d <= ND; }
static int okn(const char* n) { return n[0] && n[0] != '.' && strcmp(n, "<null>") && !strchr(n, '/') && strlen(n) < 64; }
static int isdir(const char* p) { struct stat st; return !lstat(p, &st) && S_ISDIR(st.st_mode); }
static int exists(const char* p) { struct stat st; return !lstat(p, &st); }
static int fsop(void)
{
    int d = vf_i(1), fd;
    const char* n = vf_s(2);
    const char* p;
    if (vf_is("mkdir") || vf_is("rmdir") || vf_is("attrself") || vf_is("moveself")) {
        char t[700], q[700];
        if (!okd(d)) return 1;
        strcpy(q, dpath(d, 0));
        if (vf_is("mkdir")) { if (mkdir(q, 0700)) return 1; }
        else if (vf_is("rmdir")) { if (rmdir(q)) return 1; }
        else if (vf_is("attrself")) { if (chmod(q, 0700)) return 1; }
        else { snprintf(t, sizeof(t), "%s.tmp", q); if (rename(q, t)) return 1; if (rename(t, q)) _exit(98); }
        begin(vf_argv[0]); ev_int("d", d); ev_end();
        done();
        return 1;
    }
    if (!(vf_is("create") || vf_is("write") || vf_is("attr") || vf_is("unlink") || vf_is("mksub") || vf_is("rmsub") || vf_is("move"))) return 0;
    if (!okd(d) || !okn(n)) return 1;
    p = fpath(d, n);
    if (vf_is("create") || vf_is("write")) {
        int c = vf_is("create");
        if (isdir(p)) return 1;
        fd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | (c ? O_CREAT | O_EXCL : 0), 0600);
        if (fd < 0) return 1;
        if (!c && syscall(SYS_write, fd, "x", 1) != 1) _exit(98);
        syscall(SYS_close, fd);
    } else if (vf_is("attr")) { if (isdir(p) || chmod(p, 0600)) return 1; }
    else if (vf_is("unlink")) { if (unlink(p)) return 1; }
    else if (vf_is("mksub")) { if (mkdir(p, 0700)) return 1; }
    else if (vf_is("rmsub")) { if (rmdir(p)) return 1; }
    else {
        int d2 = vf_i(3), dir; const char* n2 = vf_s(4); const char* q;
        if (!okd(d2) || !okn(n2)) return 1;
        q = fpath(d2, n2);
        if (exists(q)) return 1;
        dir = isdir(p);
        if (rename(p, q)) return 1;
        begin("move"); ev_int("d", d); ev_str("n", fname(n)); ev_int("d2", d2); ev_str("n2", fname(n2)); ev_bool("dir", dir); ev_end();
        done();
        return 1;
    }
    begin(vf_argv[0]); ev_int("d", d); ev_str("n", fname(n)); ev_end();
    done();
    return 1;
}

static void commands(int nested)
{
    while (vf_next()) {
        int i = vf_i(1), h = vf_i(2);
        if (vf_is("ret")) { if (nested) return; continue; }
        if (vf_is("pump")) {
            int n = 0;
            if (vf_depth) continue;
            ev_begin("pump"); ev_end();
            while (n++ < 100000 && g_main_context_iteration(NULL, FALSE));
            ev_begin("pumped"); ev_end();
            pumped();
            done();
            continue;
        }
        if (vf_is("fail")) {
            if (!strcmp(vf_s(1), "init")) fail_init = 1;
            else if (!strcmp(vf_s(1), "add")) fail_add = h ? h : EACCES;
            else if (!strcmp(vf_s(1), "poll")) fail_poll = h ? h : POLLERR;
            else if (!strcmp(vf_s(1), "read")) fail_read = h ? h : EIO;
            continue;
        }
        if (vf_is("null")) {
            int ok = !gutil_inotify_watch_new(NULL, IN_ALL_EVENTS) && !gutil_inotify_watch_ref(NULL) &&
                !gutil_inotify_watch_add_handler(NULL, handler, NULL) && !gutil_inotify_watch_callback_new(NULL, 0, handler, NULL);
            gutil_inotify_watch_unref(NULL); gutil_inotify_watch_destroy(NULL);
            gutil_inotify_watch_remove_handler(NULL, 1); gutil_inotify_watch_callback_free(NULL);
            for (i = 1; i <= NW; i++) if (wp[i] && refs[i]) {
                gutil_inotify_watch_remove_handler(wp[i], 0);
                ok = ok && !gutil_inotify_watch_add_handler(wp[i], NULL, NULL);
            }
            begin("null"); ev_bool("r", ok); ev_end(); done();
            continue;
        }
        if (fsop()) continue;
        if (i < 1 || i > NW) { if (vf_argc < 2) { fprintf(stderr, "bad op %s\n", vf_argv[0]); _exit(98); } continue; }
        if (vf_is("new")) {
            char path[600]; guint m = mask_arg(3);
            if (refs[i] || bz[i] || !okd(h)) continue;
            strcpy(path, dpath(h, vf_i(4)));
            injected = 0;
            wp[i] = gutil_inotify_watch_new(path, m);
            refs[i] = wp[i] != NULL; iscb[i] = 0;
            memset(path, 'x', strlen(path));
            begin("new"); ev_int("w", i); ev_int("d", h); evmask(m); ev_bool("r", wp[i] != NULL); ev_bool("fault", injected); ev_end();
            done();
        } else if (vf_is("cbnew")) {
            guint m = mask_arg(3); int x = vf_i(4); char path[600];
            if (refs[i] || bz[i] || !okd(h) || x < 0 || x > NH || (x && hw[x])) continue;
            injected = 0;
            strcpy(path, dpath(h, 0));
            cbp[i] = gutil_inotify_watch_callback_new(path, m, x ? handler : NULL, ARG(x));
            refs[i] = cbp[i] != NULL; wp[i] = NULL; iscb[i] = refs[i]; cbh[i] = x;
            if (x && refs[i]) { hw[x] = i; hid[x] = 0; }
            begin("cbnew"); ev_int("w", i); ev_int("d", h); evmask(m); ev_int("h", x); ev_bool("r", cbp[i] != NULL); ev_bool("fault", injected); ev_end();
            done();
        } else if (!refs[i]) {
            continue;
        } else if (vf_is("cbfree")) {
            if (cbp[i]) cbfree(i);
        } else if (!wp[i]) {
            /* the watch of a callback is known once the callback has been called */
            continue;
        } else if (cbp[i] && refs[i] < 2 && (vf_is("unref") || vf_is("destroy"))) {
            continue;
        } else if (vf_is("ref")) {
            int r = gutil_inotify_watch_ref(wp[i]) == wp[i];
            refs[i]++;
            begin("ref"); ev_int("w", i); ev_bool("r", r); ev_end(); done();
        } else if (vf_is("unref")) {
            unref(i);
        } else if (vf_is("destroy")) {
            GUtilInotifyWatch* w = wp[i];
            begin("destroy"); ev_int("w", i); ev_end();
            dropped(i);
            gutil_inotify_watch_destroy(w);
            done();
        } else if (vf_is("addh")) {
            if (h < 1 || h > NH || hw[h]) continue;
            hid[h] = gutil_inotify_watch_add_handler(wp[i], handler, ARG(h));
            hw[h] = i;
            begin("addh"); ev_int("w", i); ev_int("h", h); ev_bool("r", hid[h] != 0); ev_end(); done();
        } else if (vf_is("rmh")) {
            if (h < 1 || h > NH || hw[h] != i || !hid[h]) continue;
            hw[h] = 0;
            begin("rmh"); ev_int("w", i); ev_int("h", h); ev_end();
            gutil_inotify_watch_remove_handler(wp[i], hid[h]);
            done();
        } else { fprintf(stderr, "bad op %s\n", vf_argv[0]); _exit(98); }
    }
}

static void wipe(const char* p)
{
    /* only what this driver has created */
    DIR* dir; struct dirent* e;
    if (strncmp(p, root, strlen(root))) return;
    dir = opendir(p);
    if (!dir) return;
    while ((e = readdir(dir))) {
        char q[1200];
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        snprintf(q, sizeof(q), "%s/%s", p, e->d_name);
        if (isdir(q)) { wipe(q); rmdir(q); } else unlink(q);
    }
    closedir(dir);
}
static void prepare(void)
{
    int d, fd;
    wipe(root);
    for (d = 1; d <= ND; d++) {
        char t[64];
        mkdir(dpath(d, 0), 0700);
        snprintf(t, sizeof(t), "d%d", d);
        if (symlink(t, dpath(d, 1))) { perror("symlink"); _exit(98); }
    }
    fd = syscall(SYS_openat, AT_FDCWD, fpath(1, "f"), O_WRONLY | O_CREAT, 0600);
    syscall(SYS_close, fd);
}

static int sources(void)
{
    GPollFD fds[64]; int timeout, prio, n;
    if (!g_main_context_acquire(NULL)) return -1;
    g_main_context_prepare(g_main_context_default(), &prio);
    n = g_main_context_query(g_main_context_default(), G_MAXINT, &timeout, fds, 64);
    g_main_context_release(NULL);
    return n;
}
static int base_sources, nsrc;
static void end_hook(void) { ev_int("sources", nsrc); }

static void vf_scenario(void)
{
    int i;
    memset(wp, 0, sizeof(wp)); memset(cbp, 0, sizeof(cbp)); memset(refs, 0, sizeof(refs)); memset(bz, 0, sizeof(bz));
    memset(hw, 0, sizeof(hw)); memset(hid, 0, sizeof(hid)); memset(iscb, 0, sizeof(iscb)); memset(cbh, 0, sizeof(cbh));
    fail_init = fail_add = fail_read = fail_poll = 0;
    active = 0;
    prepare();
    ifd = last = -1;
    active = 1;
    commands(0);
    for (i = 1; i <= NW; i++) {
        if (cbp[i]) cbfree(i);
        while (refs[i]) unref(i);
    }
    g_main_context_iteration(NULL, FALSE);
    active = 0;
    nsrc = sources() - base_sources;
}

int main(int argc, char** argv)
{
    const char* s = getenv("VF_SCRATCH"); int rc;
    gutil_log_default.level = GLOG_LEVEL_NONE;
    memset(longname, 'n', 255);
    if (!s) s = ".";
    if (strlen(s) > 400) { fprintf(stderr, "no scratch directory\n"); return 98; }
    snprintf(root, sizeof(root), "%s/XXXXXX", s);
    if (!mkdtemp(root)) { perror(root); return 98; }
    g_main_context_iteration(NULL, FALSE);
    base_sources = sources();
    vf_end_hook = end_hook;
    rc = vf_main(argc, argv);
    wipe(root);
    rmdir(root);
    return rc;
}
