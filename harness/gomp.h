/* The part of the OpenMP runtime that a library could need, on the fibers of
 * sched.h. The number of threads in a team is up to the harness. */
#ifndef GOMP_H
#define GOMP_H
#include "sched.h"
struct team { int size, arrived, left; unsigned gen, singles, loops; long next, end, incr; unsigned sect, nsect; void *copy; int up; struct team *parent; };
static struct team teams[256]; static int nteams;
static int team_size = 3, team_max = 3, team_inner = 1;   /* threads granted, omp_get_max_threads(), threads granted in nested regions */
static int lock_atomic, lock_critical, regions;
static bool c_free(void *p) { return *(int *)p == 0; }
static bool c_gen(void *p) { struct { struct team *t; unsigned g; } *x = p; return x->t->gen != x->g; }
static bool c_left(void *p) { return ((struct team *)p)->left == 0; }
struct member { ffn fn; void *data; struct team *t; int tid; };
static void barrier(struct team *t)
{
	if (!t || t->size == 1) return;
	point();
	if (++t->arrived == t->size) { t->arrived = 0; t->gen++; return; }
	struct { struct team *t; unsigned g; } x = { t, t->gen };
	if (c_gen(&x)) return;
	F[cur].cond = c_gen; F[cur].carg = &x; F[cur].state = F_WAIT;
	leave();
}
static struct member members[512]; static int nmembers;
static void member_main(void *p)
{
	struct member *m = p;
	F[cur].team = m->t; F[cur].tid = m->tid;
	m->fn(m->data);
	point();
	m->t->left--;
}
static void parallel(ffn fn, void *data, unsigned want, long start, long end, long incr, unsigned nsect)
{
	struct team *outer = F[cur].team; int otid = F[cur].tid; unsigned os = F[cur].singles, ol = F[cur].loops;
	int n = outer && outer->up ? team_inner : team_size;
	if (nteams >= 256) abort();
	struct team *t = &teams[nteams++];
	if (want && (int)want < n) n = want;
	memset(t, 0, sizeof *t);
	t->size = n; t->left = n - 1; t->next = start; t->end = end; t->incr = incr; t->nsect = nsect; t->up = 1; t->parent = outer;
	if (nsect || incr) t->loops = 1;
	regions++;
	if (nalive < 2) forget();
	uint64_t mine = 0;
	for (int i = 1; i < n; i++) {
		struct member *m = &members[nmembers++];
		*m = (struct member){ fn, data, t, i };
		int f = spawn(member_main, m);
		mine |= 1ull << (f & 63);
		F[f].team = t; F[f].tid = i; F[f].loops = t->loops;
	}
	F[cur].team = t; F[cur].tid = 0; F[cur].singles = 0; F[cur].loops = t->loops;
	fn(data);
	wait_for(c_left, t);
	if (on && n > 1) joined(mine);
	F[cur].team = outer; F[cur].tid = otid; F[cur].singles = os; F[cur].loops = ol;
}
void GOMP_parallel(ffn fn, void *data, unsigned want, unsigned flags) { parallel(fn, data, want, 0, 0, 0, 0); }
void GOMP_barrier(void) { barrier(F[cur].team); }
bool GOMP_single_start(void)
{
	struct team *t = F[cur].team;
	if (!t) return true;
	point();
	return F[cur].singles++ == t->singles ? (t->singles++, true) : false;
}
static bool c_copy(void *p) { return ((struct team *)p)->copy != NULL; }
void *GOMP_single_copy_start(void)
{
	struct team *t = F[cur].team;
	if (GOMP_single_start()) { if (t) t->copy = NULL; return NULL; }
	wait_for(c_copy, t);
	void *r = t->copy;
	barrier(t);
	return r;
}
void GOMP_single_copy_end(void *p) { struct team *t = F[cur].team; if (!t || t->size == 1) return; t->copy = p; barrier(t); }
void GOMP_atomic_start(void) { wait_for(c_free, &lock_atomic); lock_atomic = 1; }
void GOMP_atomic_end(void) { lock_atomic = 0; point(); }
void GOMP_critical_start(void) { wait_for(c_free, &lock_critical); lock_critical = 1; }
void GOMP_critical_end(void) { lock_critical = 0; point(); }
void GOMP_critical_name_start(int *l) { wait_for(c_free, l); *l = 1; }
void GOMP_critical_name_end(int *l) { *l = 0; point(); }
/* loops with a shared counter */
static bool loop_next(long *s, long *e, long chunk)
{
	struct team *t = F[cur].team; long c = chunk < 1 ? 1 : chunk;
	point();
	if (t->incr > 0 ? t->next >= t->end : t->next <= t->end) return false;
	*s = t->next;
	long n = t->next + c * t->incr;
	if (t->incr > 0 ? n > t->end : n < t->end) n = t->end;
	*e = t->next = n;
	return true;
}
static bool loop_start(long a, long b, long i, long c, long *s, long *e)
{
	static struct team solo[MAXF];
	struct team *t = F[cur].team;
	if (!t) { t = F[cur].team = &solo[cur]; memset(t, 0, sizeof *t); t->size = 1; }
	point();
	if (F[cur].loops++ == t->loops) { t->loops++; t->next = a; t->end = b; t->incr = i; t->sect = c; }
	return loop_next(s, e, c);
}
#define LOOP(k) \
bool GOMP_loop_##k##_start(long a, long b, long i, long c, long *s, long *e) { return loop_start(a, b, i, c, s, e); } \
bool GOMP_loop_##k##_next(long *s, long *e) { return loop_next(s, e, F[cur].team->sect); } \
void GOMP_parallel_loop_##k(ffn fn, void *d, unsigned n, long a, long b, long i, long c, unsigned f) { parallel(fn, d, n, a, b, i, 0); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static)
bool GOMP_loop_runtime_start(long a, long b, long i, long *s, long *e) { return loop_start(a, b, i, 1, s, e); }
bool GOMP_loop_runtime_next(long *s, long *e) { return loop_next(s, e, 1); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long *s, long *e) { return loop_start(a, b, i, 1, s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *s, long *e) { return loop_next(s, e, 1); }
void GOMP_loop_end(void) { barrier(F[cur].team); }
void GOMP_loop_end_nowait(void) { }
void GOMP_parallel_sections(ffn fn, void *d, unsigned n, unsigned k, unsigned f) { parallel(fn, d, n, 1, k + 1, 1, k); }
unsigned GOMP_sections_next(void) { long s, e; return loop_next(&s, &e, 1) ? s : 0; }
unsigned GOMP_sections_start(unsigned k) { long s, e; return loop_start(1, k + 1, 1, 1, &s, &e) ? s : 0; }
void GOMP_sections_end(void) { barrier(F[cur].team); }
void GOMP_sections_end_nowait(void) { }
int omp_get_num_threads(void) { return F[cur].team ? F[cur].team->size : 1; }
int omp_get_thread_num(void) { return F[cur].tid; }
int omp_get_max_threads(void) { return team_max; }
int omp_get_num_procs(void) { return team_max; }
int omp_get_thread_limit(void) { return team_max; }
int omp_in_parallel(void) { struct team *t = F[cur].team; for (; t; t = t->parent) if (t->size > 1) return 1; return 0; }
int omp_get_level(void) { int n = 0; for (struct team *t = F[cur].team; t; t = t->parent) n++; return n; }
int omp_get_active_level(void) { int n = 0; for (struct team *t = F[cur].team; t; t = t->parent) n += t->size > 1; return n; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int d) {}
void omp_set_num_threads(int n) {}
int omp_get_nested(void) { return 0; }
static void gomp_reset(void) { nteams = nmembers = 0; lock_atomic = lock_critical = 0; regions = 0; }
#endif
