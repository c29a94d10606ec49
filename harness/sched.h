/* A controlled scheduler for the real library code, x86-64 only.
 *
 * The library is compiled with -fsanitize=thread, which puts a call in front of
 * every memory access; these calls come here instead of to ThreadSanitizer.
 * The threads are fibers. A fiber can be preempted in front of every access to
 * memory that more than one thread uses and at least one writes (found while
 * running: each time more is found, the exploration starts again with it), of
 * the library's own writable data, of atomic operations and of every call to
 * the threading runtime. All schedules up to a bound on the number of
 * preemptions are run, one after the other, by depth-first search. */
#ifndef SCHED_H
#define SCHED_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>

#define MAXF 72
#define STK (1 << 17)
typedef void (*ffn)(void *);
enum { F_FREE, F_RUN, F_WAIT, F_DONE };
struct team;
struct fiber {
	void *sp; char *stk; int state; ffn fn; void *arg;
	bool (*cond)(void *); void *carg;
	struct team *team; int tid; unsigned singles, loops;
	char *tls; int spin, yielded;
};
static struct fiber F[MAXF];
static int nfib, nalive, cur = -1;
static void *ctl_sp;
void verif_switch(void **save, void *to);
__asm__(".text\n.globl verif_switch\nverif_switch:\n\tpushq %rbp\n\tpushq %rbx\n\tpushq %r12\n\tpushq %r13\n\tpushq %r14\n\tpushq %r15\n"
	"\tmovq %rsp, (%rdi)\n\tmovq %rsi, %rsp\n\tpopq %r15\n\tpopq %r14\n\tpopq %r13\n\tpopq %r12\n\tpopq %rbx\n\tpopq %rbp\n\tret\n");

/* the library's writable and thread-local data */
static char dummy_bss[16] __attribute__((used, aligned(16), section("libbss"))) = {0};
static char dummy_data[16] __attribute__((used, aligned(16), section("libdata"))) = {1};
static char dummy_tls[16] __attribute__((used, aligned(16), section("libtls"))) = {1};
extern char __start_libbss[], __stop_libbss[], __start_libdata[], __stop_libdata[], __start_libtls[], __stop_libtls[];
static char *lib0; static size_t nbss, ndata, ntls;
static void lib_save(void)
{
	nbss = __stop_libbss - __start_libbss; ndata = __stop_libdata - __start_libdata; ntls = __stop_libtls - __start_libtls;
	lib0 = malloc(nbss + ndata + ntls);
	memcpy(lib0, __start_libbss, nbss); memcpy(lib0 + nbss, __start_libdata, ndata); memcpy(lib0 + nbss + ndata, __start_libtls, ntls);
}
static void lib_reset(void) { memcpy(__start_libbss, lib0, nbss); memcpy(__start_libdata, lib0 + nbss, ndata); memcpy(__start_libtls, lib0 + nbss + ndata, ntls); }

/* ---- decisions --------------------------------------------------------- */
#define MAXD 200000
static uint8_t dec[MAXD], opt[MAXD]; static int nd, fixed_d;    /* dec[0..fixed_d) is prescribed */
static int delay;       /* 1: to take another thread than the first when one blocks or ends counts, too */
static int preempt, bound = 2, on, stuck, points, steps;
static long npoints, nswitch;
int sched_last;         /* without a prescribed decision: take the last instead of the first */
static void settle(void);
static int choose(int n)
{
	if (n <= 1) return 0;
	if (nd >= MAXD) { stuck = 3; return 0; }
	int c = nd < fixed_d ? dec[nd] : sched_last ? n - 1 : 0;
	if (c >= n) { stuck = 2; c = 0; }       /* a replay that does not fit */
	dec[nd] = c; opt[nd] = n; nd++;
	return c;
}
static int backtrack(void)
{
	while (nd > 0 && dec[nd - 1] + 1 >= opt[nd - 1]) nd--;
	if (!nd) return 0;
	dec[nd - 1]++; fixed_d = nd;
	return 1;
}
static bool ready(int i)
{
	if (F[i].state == F_WAIT && F[i].cond(F[i].carg)) F[i].state = F_RUN;
	return F[i].state == F_RUN;
}
static void go(int to)
{
	settle();
	if (to == cur) return;
	int from = cur; cur = to; nswitch++;
	void **sv = from < 0 ? &ctl_sp : &F[from].sp;
	if (from >= 0) { memcpy(F[from].tls, __start_libtls, ntls); F[from].spin = 0; }
	if (to >= 0) memcpy(__start_libtls, F[to].tls, ntls);
	verif_switch(sv, to < 0 ? ctl_sp : F[to].sp);
}
/* ---- weak memory ---------------------------------------------------------
 * The library's own writable data, a word at a time: a thread that reads a word
 * without synchronization may get any value from the newest one back to the
 * newest that it knows of (per-location coherence, and nothing else, as the
 * processors with the weakest order have it). Locks, once-functions, atomic
 * operations and the threads' start make values known. A stale value stands in
 * memory from the call in front of the load to the next call. */
#define MAXW 48
#define MAXV 12
#define MAXSY 32
static int weak, stale_bound = 2, stale;
static struct wloc { uintptr_t a; int n; uint64_t v[MAXV]; } W[MAXW]; static int nW;
static uint8_t view_[MAXF][MAXW];
static struct { uintptr_t a; uint8_t v[MAXW]; } SY[MAXSY]; static int nSY;
static uint64_t w_real; static int w_pend = -1, w_fresh = -1;   /* a word that is being written; one that holds a stale value */
static void settle(void)
{
	if (w_fresh >= 0) { *(uint64_t *)W[w_fresh].a = w_real; w_fresh = -1; }
	if (w_pend >= 0) {
		struct wloc *w = &W[w_pend];
		uint64_t v = *(uint64_t *)w->a;
		if (v != w->v[w->n - 1]) {
			if (w->n == MAXV) { memmove(w->v, w->v + 1, sizeof w->v - sizeof *w->v); for (int f = 0; f < MAXF; f++) if (view_[f][w_pend]) view_[f][w_pend]--; w->n--; }
			w->v[w->n++] = v;
		}
		if (cur >= 0) view_[cur][w_pend] = w->n - 1;
		w_pend = -1;
	}
}
static void weak_reset(void) { nW = nSY = 0; w_pend = w_fresh = -1; stale = 0; memset(view_, 0, sizeof view_); }
static int choose(int n);
static void weak_access(uintptr_t a, size_t n, bool wr)
{
	if (!weak || n > 8 || (a & ~(uintptr_t)7) != ((a + n - 1) & ~(uintptr_t)7)) return;
	a &= ~(uintptr_t)7;
	int i = 0;
	while (i < nW && W[i].a != a) i++;
	if (i == nW) { if (nW == MAXW) return; W[nW].a = a; W[nW].n = 1; W[nW++].v[0] = *(uint64_t *)a; }
	if (wr) { w_pend = i; return; }
	int known = W[i].n - 1 - view_[cur][i];
	if (known > 0 && stale < stale_bound) {
		int k = choose(known + 1);
		if (k) { stale++; view_[cur][i] = W[i].n - 1 - k; w_real = *(uint64_t *)a; *(uint64_t *)a = W[i].v[view_[cur][i]]; w_fresh = i; return; }
	}
	view_[cur][i] = W[i].n - 1;
}
static uint8_t *sync_at(const volatile void *p)
{
	for (int i = 0; i < nSY; i++) if (SY[i].a == (uintptr_t)p) return SY[i].v;
	if (nSY == MAXSY) return SY[0].v;
	SY[nSY].a = (uintptr_t)p; memset(SY[nSY].v, 0, MAXW);
	return SY[nSY++].v;
}
static void acquire(const volatile void *p) { if (!weak || cur < 0) return; uint8_t *s = sync_at(p); for (int i = 0; i < MAXW; i++) if (s[i] > view_[cur][i]) view_[cur][i] = s[i]; }
static void release(const volatile void *p) { settle(); if (!weak || cur < 0) return; uint8_t *s = sync_at(p); for (int i = 0; i < MAXW; i++) if (view_[cur][i] > s[i]) s[i] = view_[cur][i]; }
static void leave(void);
/* the present fiber cannot go on, or has ended */
static void leave(void)
{
	int c[MAXF], n = 0, alive = 0;
	for (int i = 0; i < nfib; i++) { if (F[i].state == F_RUN || F[i].state == F_WAIT) alive++; if (F[i].state != F_FREE && F[i].state != F_DONE && ready(i)) c[n++] = i; }
	if (!n) { if (alive) stuck = 1; go(-1); return; }
	if (delay) { int k = preempt >= bound ? (sched_last ? n - 1 : 0) : choose(n); if (k && !sched_last) preempt++; go(c[k]); return; }
	go(c[choose(n)]);
}
static void point(void)
{
	settle();
	if (!on || cur < 0) return;
	points++; npoints++;
	if (++steps > 4000000) { stuck = 4; go(-1); }
	int c[MAXF], n = 0;
	bool spinning = ++F[cur].spin > 20000;
	if (preempt >= bound && !spinning) return;
	for (int i = 0; i < nfib; i++) if (i != cur && F[i].state != F_FREE && F[i].state != F_DONE && ready(i)) c[n++] = i;
	if (!n) return;
	if (spinning) { F[cur].spin = 0; go(c[choose(n)]); return; }
	int k = choose(n + 1);
	if (k) { preempt++; go(c[k - 1]); }
}
static void wait_for(bool (*cond)(void *), void *arg)
{
	point();
	while (!cond(arg)) {
		F[cur].cond = cond; F[cur].carg = arg; F[cur].state = F_WAIT;
		leave();
	}
}
static void fiber_main(void)
{
	struct fiber *f = &F[cur];
	f->fn(f->arg);
	F[cur].state = F_DONE; nalive--;
	leave();
	abort();
}
static int spawn(ffn fn, void *arg)
{
	int i = nfib++;
	nalive++;
	if (i >= MAXF) abort();
	if (!F[i].stk) F[i].stk = aligned_alloc(4096, STK), F[i].tls = malloc(ntls + 1);
	F[i].state = F_RUN; F[i].fn = fn; F[i].arg = arg; F[i].team = NULL; F[i].tid = 0; F[i].singles = F[i].loops = 0; F[i].spin = 0;
	memcpy(F[i].tls, lib0 + nbss + ndata, ntls);
	void **sp = (void **)(F[i].stk + STK - 64);
	*--sp = NULL; *--sp = (void *)fiber_main;
	for (int k = 0; k < 6; k++) *--sp = NULL;
	F[i].sp = sp;
	return i;
}

/* ---- shared memory ------------------------------------------------------ */
struct gr { uintptr_t g; uint64_t mask; uint32_t epoch; bool w; };
#define GRN (1 << 16)
static struct gr gtab[GRN]; static uint32_t epoch; static unsigned gused;
static uintptr_t sh[4096]; static int nsh, grown; static uintptr_t shtab[8192];
static bool is_shared(uintptr_t g) { for (unsigned i = (g * 0x9E3779B97F4A7C15ull) >> 51; shtab[i]; i = (i + 1) & 8191) if (shtab[i] == g) return true; return false; }
static void add_shared(uintptr_t g)
{
	if (nsh >= 4000) { stuck = 5; return; }
	unsigned i = (g * 0x9E3779B97F4A7C15ull) >> 51;
	while (shtab[i]) i = (i + 1) & 8191;
	shtab[i] = g; sh[nsh++] = g; grown = 1;
	if (getenv("VERIF_SHOW")) fprintf(stderr, "shared %#lx (stack of %ld)\n", (long)g << 3, ({ long k = -1; for (int f = 0; f < nfib; f++) if ((char *)(g << 3) >= F[f].stk && (char *)(g << 3) < F[f].stk + STK) k = f; k; }));
}
static void forget(void) { epoch++; gused = 0; }
/* fibers that have been waited for: what they did counts as the present one's */
static void joined(uint64_t done)
{
	if (nalive < 2) { forget(); return; }
	for (unsigned i = 0; i < GRN; i++) if (gtab[i].epoch == epoch && (gtab[i].mask & done)) gtab[i].mask = (gtab[i].mask & ~done) | 1ull << (cur & 63);
}
static void access1(uintptr_t a, bool w)
{
	uintptr_t g = a >> 3;
	if (is_shared(g)) { point(); return; }
	unsigned i = (g * 0x9E3779B97F4A7C15ull) >> 48;
	while (gtab[i].epoch == epoch && gtab[i].g != g) i = (i + 1) & (GRN - 1);
	if (gtab[i].epoch != epoch) {
		if (gused > GRN * 3 / 4) return;
		gused++; gtab[i].epoch = epoch; gtab[i].g = g; gtab[i].mask = 0; gtab[i].w = false;
	}
	gtab[i].mask |= 1ull << (cur & 63); gtab[i].w |= w;
	if (gtab[i].w && (gtab[i].mask & (gtab[i].mask - 1))) add_shared(g);
}
static void mem(const void *p, size_t n, bool w)
{
	settle();
	if (!on || nalive < 2 || cur < 0 || !n) return;
	uintptr_t a = (uintptr_t)p;
	if (a >= (uintptr_t)__start_libtls && a < (uintptr_t)__stop_libtls) return;
	if ((a >= (uintptr_t)__start_libbss && a < (uintptr_t)__stop_libbss) || (a >= (uintptr_t)__start_libdata && a < (uintptr_t)__stop_libdata)) { point(); weak_access(a, n, w); return; }
	for (uintptr_t b = a & ~(uintptr_t)7; b < a + n; b += 8) access1(b, w);
}

/* ---- what -fsanitize=thread calls ---------------------------------------- */
#define RW(n) \
void __tsan_read##n(void *p) { mem(p, n, false); } void __tsan_write##n(void *p) { mem(p, n, true); } \
void __tsan_unaligned_read##n(void *p) { mem(p, n, false); } void __tsan_unaligned_write##n(void *p) { mem(p, n, true); } \
void __tsan_volatile_read##n(void *p) { mem(p, n, false); } void __tsan_volatile_write##n(void *p) { mem(p, n, true); } \
void __tsan_unaligned_volatile_read##n(void *p) { mem(p, n, false); } void __tsan_unaligned_volatile_write##n(void *p) { mem(p, n, true); } \
void __tsan_read_write##n(void *p) { mem(p, n, true); } void __tsan_unaligned_read_write##n(void *p) { mem(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { mem(p, n, false); }
void __tsan_write_range(void *p, size_t n) { mem(p, n, true); }
void __tsan_func_entry(void *p) { settle(); } void __tsan_func_exit(void) { settle(); } void __tsan_init(void) {}
void __tsan_vptr_update(void **p, void *q) {} void __tsan_vptr_read(void **p) {}
static int the_fence;
#define ACQ(m, a) do { if ((m) != __ATOMIC_RELAXED && (m) != __ATOMIC_RELEASE) acquire((const volatile void *)(a)); } while (0)
#define REL(m, a) do { if ((m) == __ATOMIC_RELEASE || (m) >= __ATOMIC_ACQ_REL) release((const volatile void *)(a)); } while (0)
void __tsan_atomic_thread_fence(int m) { point(); acquire(&the_fence); release(&the_fence); } void __tsan_atomic_signal_fence(int m) {}
#define AT(n, T) \
T __tsan_atomic##n##_load(const volatile T *a, int m) { point(); ACQ(m, a); return *a; } \
void __tsan_atomic##n##_store(volatile T *a, T v, int m) { point(); REL(m, a); *a = v; } \
T __tsan_atomic##n##_exchange(volatile T *a, T v, int m) { point(); ACQ(m, a); REL(m, a); T o = *a; *a = v; return o; } \
T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int m) { point(); ACQ(m, a); REL(m, a); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int m) { point(); ACQ(m, a); REL(m, a); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int m) { point(); ACQ(m, a); REL(m, a); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int m) { point(); ACQ(m, a); REL(m, a); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int m) { point(); ACQ(m, a); REL(m, a); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int m) { point(); ACQ(m, a); REL(m, a); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *e, T v, int m, int f) { point(); ACQ(m, a); if (*a == *e) { REL(m, a); *a = v; return 1; } *e = *a; return 0; } \
int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *e, T v, int m, int f) { point(); ACQ(m, a); if (*a == *e) { REL(m, a); *a = v; return 1; } *e = *a; return 0; } \
T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T e, T v, int m, int f) { point(); ACQ(m, a); T o = *a; if (o == e) { REL(m, a); *a = v; } return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

/* ---- the C library and threading functions that a library could use ------- */
void *verif_memcpy(void *d, const void *s, size_t n) { mem(s, n, false); mem(d, n, true); return memcpy(d, s, n); }
void *verif_memmove(void *d, const void *s, size_t n) { mem(s, n, false); mem(d, n, true); return memmove(d, s, n); }
void *verif_memset(void *d, int c, size_t n) { mem(d, n, true); return memset(d, c, n); }
void *verif___memcpy_chk(void *d, const void *s, size_t n, size_t k) { return verif_memcpy(d, s, n); }
static char heap[1 << 22]; static size_t heapn;
void *verif_malloc(size_t n) { heapn = (heapn + 63) & ~(size_t)63; if (heapn + n + 16 > sizeof heap) return NULL; *(size_t *)(heap + heapn) = n; void *p = heap + heapn + 16; heapn += n + 16; return p; }
void *verif_calloc(size_t a, size_t b) { void *p = verif_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void verif_free(void *p) {}
void *verif_realloc(void *p, size_t n) { void *q = verif_malloc(n); if (q && p) { size_t o = *(size_t *)((char *)p - 16); memcpy(q, p, o < n ? o : n); } return q; }
static bool c_zero(void *p) { return *(int *)p == 0; }
static bool c_notone(void *p) { return *(int *)p != 1; }
int verif_pthread_mutex_init(int *m, void *a) { *m = 0; return 0; }
int verif_pthread_mutex_destroy(int *m) { return 0; }
int verif_pthread_mutex_lock(int *m) { wait_for(c_zero, m); acquire(m); *m = 1; return 0; }
int verif_pthread_mutex_trylock(int *m) { point(); if (*m) return 16; acquire(m); *m = 1; return 0; }
int verif_pthread_mutex_unlock(int *m) { point(); release(m); *m = 0; return 0; }
int verif_pthread_spin_lock(int *m) { wait_for(c_zero, m); acquire(m); *m = 1; return 0; }
int verif_pthread_spin_unlock(int *m) { point(); release(m); *m = 0; return 0; }
int verif_pthread_once(int *o, void (*f)(void)) { wait_for(c_notone, o); if (*o == 0) { *o = 1; f(); release(o); *o = 2; } acquire(o); return 0; }
void verif_call_once(int *o, void (*f)(void)) { verif_pthread_once(o, f); }
int verif_mtx_init(int *m, int t) { *m = 0; return 0; }
int verif_mtx_lock(int *m) { return verif_pthread_mutex_lock(m); }
int verif_mtx_unlock(int *m) { return verif_pthread_mutex_unlock(m); }
int verif_sched_yield(void) { if (cur >= 0 && on) { F[cur].spin = 1 << 20; point(); } return 0; }

int verif_thrd_yield(void) { return verif_sched_yield(); }
/* ---- running ------------------------------------------------------------ */
static const char *stuck_why(void)
{
	return stuck == 1 ? "the threads wait for each other" : stuck == 2 ? "the schedule does not fit" : stuck == 4 ? "the threads do not end" : "too long";
}
/* Runs the fibers that have been spawned until all have ended. */
static void run_all(void)
{
	weak_reset();
	preempt = 0; points = 0; steps = 0; on = 1;
	int c[MAXF], n = 0;
	for (int i = 0; i < nfib; i++) c[n++] = i;
	if (delay) go(c[sched_last ? n - 1 : 0]); else go(c[choose(n)]);
	settle();
	on = 0;
}
static void sched_str(char *b, size_t n)
{
	size_t k = 0; int last = nd;
	while (last > 0 && !dec[last - 1]) last--;
	if (!last) { strcpy(b, "-"); return; }
	for (int i = 0; i < last && k + 12 < n; ) {
		int j = i; while (j < last && !dec[j]) j++;
		if (j > i) { k += snprintf(b + k, n - k, "%dz", j - i); i = j; if (i < last) { k += snprintf(b + k, n - k, "%d.", dec[i]); i++; } }
		else { k += snprintf(b + k, n - k, "%d.", dec[i]); i++; }
	}
}
static void sched_parse(const char *s)
{
	fixed_d = 0;
	if (*s == '-') return;
	while (*s) {
		long v = strtol(s, (char **)&s, 10);
		if (*s == 'z') { while (v--) dec[fixed_d++] = 0; } else dec[fixed_d++] = v;
		s++;
	}
}
#endif
