/*
 * Enumeration of the interleavings of programs, for those which include steps.h and have
 * setup(), may(thread, op), perform(thread, op), teardown(), hash(), emit() and bad(what)
 */
#ifndef VF_EXPLORE_H
#define VF_EXPLORE_H
/* ---- all interleavings of the given programs with at most so many preemptions ---- */

#define MAXPROG 12
#define MAXSTEPS 4000
static const char* prog[SC_MAXT][MAXPROG];
static int nprog[SC_MAXT];
static struct { int pick, en[SC_MAXT], n; } path[MAXSTEPS];
static guint64 seen[1 << 16];
static int nseen;
static int unseen(guint64 h)
{
    guint i = h & 0xffff;
    while (seen[i] && seen[i] != h) i = (i + 1) & 0xffff;
    if (seen[i] || nseen > 60000) return 0;
    seen[i] = h; nseen++;
    return 1;
}
static void explore(const char* what, int bound, int max, unsigned seed)
{
    int len = 0, runs = 0;
    memset(seen, 0, sizeof(seen)); nseen = 0;
    do {
        int pos = 0, pc[SC_MAXT] = {0}, last = 0, pre = 0, i;
        setup();
        for (;;) {
            int en[SC_MAXT], n = 0, pick, th;
            /* the one that's running goes first */
            for (i = 0; i < SC_MAXT; i++) {
                th = i ? i : last;
                if (!th || (i && th == last)) continue;
                while (!sc_thread[th].busy && pc[th] < nprog[th] && !may(th, prog[th][pc[th]])) pc[th]++;
                if (sc_thread[th].busy ? !sc_thread[th].blocked : pc[th] < nprog[th]) en[n++] = th;
            }
            if (!n || pos >= MAXSTEPS) break;
            /* a running thread is interrupted at most 'bound' times */
            if (n > 1 && en[0] == last && pre >= bound) n = 1;
            if (pos >= len) {
                path[pos].n = n; memcpy(path[pos].en, en, sizeof(en));
                if (seed) { seed = seed * 1103515245u + 12345u; path[pos].pick = (seed >> 16) % n; }
                else path[pos].pick = 0;
                len = pos + 1;
            }
            pick = path[pos].pick; if (pick >= n) pick = 0;
            th = en[pick];
            if (last && en[0] == last && th != last) pre++;
            last = th; pos++;
            if (sc_thread[th].busy) sc_step(th);
            else sc_start(th, perform, (void*)prog[th][pc[th]++]);
        }
        for (i = 1; i < SC_MAXT; i++) if (sc_thread[i].busy) { bad("deadlock"); break; }
        if (i < SC_MAXT) { emit(); vf_len = 0; fprintf(stderr, "deadlock\n"); _exit(97); }
        teardown();
        if (unseen(hash())) emit();
        if (seed) len = 0;
        else while (len > 0 && ++path[len - 1].pick >= path[len - 1].n) len--;
        runs++;
    } while ((seed || len > 0) && runs < max);
    fprintf(stderr, "%s: %d runs, %d different%s\n", what, runs, nseen, len > 0 && !seed ? " (incomplete)" : "");
}
#endif
