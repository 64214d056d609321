/* Deterministic simulator, preloaded into the process under test.
 *
 * Everything the program can observe of the outside world goes through the
 * libc symbols defined here: files below /sim (an in-memory disk whose every
 * mutation is logged), record locks, clocks, sleeping, futexes, thread
 * creation and joining, stdin/stdout/stderr, randomness and memory
 * allocation. Exactly one simulated thread runs at any time (it holds "the
 * token"); every hand-over happens inside an intercepted call and is decided
 * by a PRNG or by an explicit list, so one configuration is one execution.
 */
#define _GNU_SOURCE
#define syscall libc_syscall_decl
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/auxv.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#undef syscall
#include <sys/random.h>
#include <linux/futex.h>
#include "sim.h"

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

/* ------------------------------------------------------------------ raw */
static inline long raw6(long n, long a, long b, long c, long d, long e, long f)
{
	long r;
	register long r10 __asm__("r10") = d;
	register long r8 __asm__("r8") = e;
	register long r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c),
		"r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return r;
}
static long raw_ret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
static void raw_exit(int code) { for (;;) raw6(SYS_exit_group, code, 0, 0, 0, 0, 0); }
static void raw_msg(const char *s) { raw6(SYS_write, 2, (long)s, (long)strlen(s), 0, 0, 0); }

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

/* --------------------------------------------------------------- state */
struct fault { u32 cls, kind; u64 index, arg, count; };
struct gameop { u32 kind, nrow; u64 at, hold; const u8 *path; u32 pathlen; const u8 *rows; u32 tries; u64 retry; };
struct inchunk { u64 delay; u32 kind, len; const u8 *data; };

#define MAXT 24
enum { T_FREE, T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_DONE };
struct thr {
	int id, state;
	void *addr;          /* futex address */
	u64 deadline;        /* virtual, ~0 = none */
	int timed_out, woken;
	volatile int token;  /* real hand-over word */
	pthread_t pt;
	void *(*fn)(void *); void *arg; void *ret;
	int is_game;
	int join_target;
	u64 prio;            /* priority scheduling */
	int held; u64 owe;   /* mutexes held; stall due once they are released */
};

#define MAXN 64
struct node {
	int used, isdir, linked;
	char path[200];
	u8 *data; u64 size, cap;
	int refs; u32 id, mode; u64 ino; int pinned;
};
#define MAXFD 256
#define FDBASE 700
struct sfd { int used, node, flags, kind; u64 off; }; /* kind 0 file, 1 urandom */

static struct {
	u64 seed, hash_seed, vtime, mono_base, real_base;
	u64 rng, hrng, lrng;
	u32 preempt_ppm; int explicit_sched;
	const u8 *sw; u32 nsw, swpos;
	u64 next_preempt;
	u64 step_ns, lat_ns, sync_ns;
	u64 max_steps, max_vtime, capacity, used_bytes, heap;
	struct fault f[32]; u32 nf; u64 next_idx[OPC_N];
	struct inchunk in[16]; u32 nin, inpos; u32 inoff;
	struct gameop g[12]; u32 ng;
	struct node n[MAXN]; u32 next_fid;
	struct sfd fd[MAXFD];
	struct thr t[MAXT]; int nt; int cur;
	u64 min_deadline;
	int main_started, game_tid, malloc_yield;
	u32 pct, resched;    /* priority scheduling; a thread became runnable */
	u64 low_prio;
	u32 fine;            /* program edges yield for their first hits */
	u32 nguard;
} S;
static struct sim_hdr *H;       /* NULL until initialised */
static u8 *SHM;
static __thread struct thr *me __attribute__((tls_model("initial-exec")));
static __thread int in_sim __attribute__((tls_model("initial-exec")));
static pthread_key_t done_key;

static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join)(pthread_t, void **);
static int (*real_mutex_trylock)(pthread_mutex_t *);
static int (*real_mutex_lock)(pthread_mutex_t *);
static void (*real_exit)(int);

static u64 exe_base; /* load address of the program */
static inline int active(void) { return H && me && !in_sim; }

static inline u64 mix(u64 x)
{
	x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27;
	x *= 0x94d049bb133111ebULL; return x ^ (x >> 31);
}
static u64 rnd(void) { S.rng += 0x9e3779b97f4a7c15ULL; return mix(S.rng); }
static u64 lrnd(void) { S.lrng += 0x9e3779b97f4a7c15ULL; return mix(S.lrng); } /* latencies: own stream */
static u64 hrnd(void) { S.hrng += 0x9e3779b97f4a7c15ULL; return mix(S.hrng); }
static inline void ev(u64 a, u64 b, u64 c)
{
	H->ev_hash = mix(H->ev_hash * 31 + a + (b << 20) + c * 0x9e3779b97f4a7c15ULL);
}
static u64 fnv(const u8 *p, u64 n)
{
	u64 h = 0xcbf29ce484222325ULL;
	while (n >= 8) { u64 w; memcpy(&w, p, 8); h = (h ^ w) * 0x100000001b3ULL; h ^= h >> 29; p += 8; n -= 8; }
	while (n--) h = (h ^ *p++) * 0x100000001b3ULL;
	return mix(h);
}

static void finish(u32 verdict, u32 code)
{
	u32 alive = 0;
	for (int i = 0; i < S.nt; i++)
		if (!S.t[i].is_game && i != S.cur && S.t[i].state != T_DONE) alive++;
	H->verdict = verdict; H->exit_code = code; H->threads_alive = alive;
	H->vtime = S.vtime;
}

static struct sim_rec *rec(u32 type, u32 a, u64 b, u64 c, const void *data, u64 len)
{
	u64 pad = (len + 7) & ~7ULL;
	u64 off = H->log_off + H->log_len;
	if (off + sizeof(struct sim_rec) + pad > SIM_SHM_SIZE) {
		finish(5, 99); raw_exit(99);
	}
	struct sim_rec *r = (struct sim_rec *)(SHM + off);
	r->type = type; r->len = (u32)len; r->step = H->steps; r->vtime = S.vtime;
	r->tid = me ? (u32)me->id : 999; r->a = a; r->b = b; r->c = c;
	if (len) memcpy(r + 1, data, len);
	H->log_len += sizeof *r + pad;
	return r;
}

static void sim_crash(u32 why)
{
	rec(R_CRASH, why, H->steps, 0, 0, 0);
	finish(2, 96);
	raw_exit(96);
}

/* ------------------------------------------------------------ scheduling */
static void futex_wait_real(volatile int *w)
{
	while (!__atomic_load_n(w, __ATOMIC_ACQUIRE))
		raw6(SYS_futex, (long)w, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
}
static void futex_wake_real(volatile int *w)
{
	__atomic_store_n(w, 1, __ATOMIC_RELEASE);
	raw6(SYS_futex, (long)w, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}

static void set_next_preempt(void)
{
	if (S.explicit_sched) {
		S.next_preempt = ~0ULL;
		if (S.swpos < S.nsw) memcpy(&S.next_preempt, S.sw + 16 * S.swpos, 8);
		return;
	}
	if (!S.preempt_ppm) { S.next_preempt = ~0ULL; return; }
	u64 mean = 1000000 / S.preempt_ppm;
	if (mean < 1) mean = 1;
	S.next_preempt = H->steps + 1 + rnd() % (2 * mean);
}

static void recompute_deadline(void)
{
	S.min_deadline = ~0ULL;
	for (int i = 0; i < S.nt; i++) {
		struct thr *t = &S.t[i];
		if ((t->state == T_FUTEX || t->state == T_SLEEP) && t->deadline < S.min_deadline)
			S.min_deadline = t->deadline;
	}
}
static void wake_expired(void)
{
	if (S.vtime < S.min_deadline) return;
	for (int i = 0; i < S.nt; i++) {
		struct thr *t = &S.t[i];
		if ((t->state == T_FUTEX || t->state == T_SLEEP) && t->deadline <= S.vtime) {
			S.resched = 1;
			t->timed_out = 1; t->state = T_RUN; t->addr = 0; t->deadline = ~0ULL;
		}
	}
	recompute_deadline();
}

/* Give the token to t; returns when this thread has it again (unless done). */
static void hand_to(struct thr *t, int preempt, int dying)
{
	struct thr *self = me;
	if (t == self) return;
	u64 tgt = (u64)t->id;
	H->switches++;
	if (preempt) H->preempts++;
	H->sched_hash = mix(H->sched_hash * 31 + H->steps * 64 + tgt);
	rec(R_SWITCH, preempt, H->steps, tgt, 0, 0);
	S.cur = t->id;
	if (!dying) __atomic_store_n(&self->token, 0, __ATOMIC_RELAXED);
	futex_wake_real(&t->token);
	if (!dying) futex_wait_real(&self->token);
}

static int choose(int exclude)
{
	int c[MAXT], n = 0;
	for (int i = 0; i < S.nt; i++)
		if (S.t[i].state == T_RUN && i != exclude) c[n++] = i;
	if (!n) return -1;
	if (n == 1) return c[0];
	if (S.explicit_sched) {
		for (u32 k = 0; k < S.nsw; k++) {
			u64 st, tg; memcpy(&st, S.sw + 16 * k, 8); memcpy(&tg, S.sw + 16 * k + 8, 8);
			if (st == H->steps) for (int i = 0; i < n; i++) if ((u64)c[i] == tg) return c[i];
		}
		return c[0];
	}
	if (S.pct) {
		int b = c[0];
		for (int i = 1; i < n; i++) if (S.t[c[i]].prio > S.t[b].prio) b = c[i];
		return b;
	}
	return c[rnd() % (u64)n];
}

/* The calling thread cannot go on: run somebody else until it is runnable. */
static void block_self(int dying)
{
	struct thr *self = me;
	for (;;) {
		wake_expired();
		if (!dying && self->state == T_RUN && S.cur == self->id) {
			/* became runnable by the clock; others may be runnable too */
			int n = 0;
			for (int i = 0; i < S.nt; i++) n += S.t[i].state == T_RUN;
			if (n == 1) return;
		}
		int c = choose(-1);
		if (c >= 0) {
			if (&S.t[c] == self) return;
			hand_to(&S.t[c], 0, dying);
			if (dying) return;
			return; /* we only get the token back when runnable */
		}
		if (S.min_deadline == ~0ULL) {
			finish(3, 97); rec(R_EXIT, 97, 0, 0, 0, 0); raw_exit(97);
		}
		if (S.min_deadline > S.vtime) S.vtime = S.min_deadline;
		if (S.vtime > S.max_vtime) {
			finish(4, 98); rec(R_EXIT, 98, 1, 0, 0, 0); raw_exit(98);
		}
	}
}

static void sim_sleep_until(u64 when)
{
	struct thr *self = me;
	/* Fast path: nobody else can run before. */
	if (when < S.min_deadline) {
		int n = 0;
		for (int i = 0; i < S.nt; i++) n += S.t[i].state == T_RUN;
		if (n == 1) { if (when > S.vtime) S.vtime = when; goto out; }
	}
	self->state = T_SLEEP; self->deadline = when; self->timed_out = 0;
	recompute_deadline();
	block_self(0);
out:
	if (S.vtime > S.max_vtime) { finish(4, 98); rec(R_EXIT, 98, 1, 0, 0, 0); raw_exit(98); }
}

static struct fault *fault_for(u32 cls, u64 idx)
{
	if (idx < S.next_idx[cls]) return 0;
	struct fault *hit = 0;
	u64 nxt = ~0ULL;
	for (u32 i = 0; i < S.nf; i++) {
		struct fault *f = &S.f[i];
		if (f->cls != cls) continue;
		if (idx >= f->index && idx - f->index < f->count) { hit = f; if (idx + 1 < nxt) nxt = idx + 1; }
		else if (f->index > idx && f->index < nxt) nxt = f->index;
	}
	S.next_idx[cls] = nxt;
	if (hit && me && me->is_game && hit->kind != FK_CRASH && hit->kind != FK_CRASH_AFTER
		&& hit->kind != FK_STALL) hit = 0;
	if (hit) {
		u32 i = (u32)(hit - S.f);
		if (H->fired[i]++ < 8) rec(R_FAULT, i, hit->kind, idx, 0, 0);
	}
	return hit;
}

static void step_slow(void)
{
	if (H->steps >= S.max_steps) { finish(4, 98); rec(R_EXIT, 98, 2, 0, 0, 0); raw_exit(98); }
	struct fault *f = fault_for(OPC_STEP, H->steps);
	if (f) {
		if (f->kind == FK_CRASH || f->kind == FK_CRASH_AFTER) sim_crash(1);
		if (f->kind == FK_STALL) S.vtime += f->arg; /* whole machine suspended */
	}
	if (H->steps >= S.next_preempt) {
		if (S.explicit_sched) {
			while (S.swpos < S.nsw) {
				u64 st, tg; memcpy(&st, S.sw + 16 * S.swpos, 8); memcpy(&tg, S.sw + 16 * S.swpos + 8, 8);
				if (st > H->steps) break;
				S.swpos++;
				if (st == H->steps && tg < (u64)S.nt && S.t[tg].state == T_RUN && &S.t[tg] != me) {
					set_next_preempt();
					hand_to(&S.t[tg], 1, 0);
					return;
				}
			}
			set_next_preempt();
		} else {
			set_next_preempt();
			wake_expired();
			if (S.pct) me->prio = --S.low_prio;
			int c = choose(me->id);
			if (c >= 0) hand_to(&S.t[c], 1, 0);
		}
	} else if (S.pct && S.resched && !S.explicit_sched) {
		S.resched = 0;
		int c = choose(me->id);
		if (c >= 0 && S.t[c].prio > me->prio) hand_to(&S.t[c], 1, 0);
	}
}
static inline int due(void)
{
	return H->steps >= S.next_preempt || H->steps >= S.next_idx[OPC_STEP] || H->steps >= S.max_steps || (S.pct && S.resched);
}

static inline void step(u32 cls, u64 info)
{
	H->steps++;
	S.vtime += S.step_ns;
	ev(cls, info, (u64)me->id);
	if (S.vtime >= S.min_deadline) wake_expired();
	if (due()) step_slow();
}

/* Start of an operation: counts it, lets time pass, maybe switches threads,
 * returns the fault that hits it (crash-before is handled here). */
static struct fault *op_begin(u32 cls, u64 info, u64 lat)
{
	step(cls, info);
	u64 idx = H->counts[cls]++;
	struct fault *f = fault_for(cls, idx), *g = 0, *m = 0;
	if (cls >= OPC_OPEN && cls <= OPC_LOCK) {
		u64 d = H->counts[OPC_DISK]++;
		g = fault_for(OPC_DISK, d);
		if (cls == OPC_WRITE || cls == OPC_TRUNC || cls == OPC_SYNC || cls == OPC_UNLINK)
			m = fault_for(OPC_MUT, H->counts[OPC_MUT]++);
	}
	if (!f) f = g ? g : m;
	if (f && f->kind == FK_CRASH) sim_crash(2);
	if (f && f->kind == FK_STALL) {
		/* the second client lives in the same process: it must not be kept
		 * waiting by mutexes which separate processes do not share */
		if (cls == OPC_LOCK && me->held > 0) me->owe += f->arg; else lat += f->arg;
	}
	if (lat) sim_sleep_until(S.vtime + lat + lrnd() % (lat / 2 + 1));
	return f;
}
static void op_end(struct fault *f)
{
	if (f && f->kind == FK_CRASH_AFTER) sim_crash(3);
}

/* --------------------------------------------------------------- memory */
static void *pg_alloc(u64 n)
{
	long r = raw6(SYS_mmap, 0, (long)((n + 4095) & ~4095ULL), PROT_READ | PROT_WRITE,
		MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (r < 0 && r > -4096) { raw_msg("sim: out of memory\n"); raw_exit(95); }
	return (void *)r;
}

/* ------------------------------------------------------------ init blob */
static const u8 *ip;
static u64 g64(void) { u64 v; memcpy(&v, ip, 8); ip += 8; return v; }
static const u8 *gbytes(u64 *n) { *n = g64(); const u8 *p = ip; ip += (*n + 7) & ~7ULL; return p; }

static void node_reserve(struct node *n, u64 cap)
{
	if (cap <= n->cap) return;
	if (n->pinned) { raw_msg("sim: mapped file grows\n"); raw_exit(95); }
	u64 nc = n->cap ? n->cap : 65536;
	while (nc < cap) nc *= 2;
	u8 *p = pg_alloc(nc);
	if (n->size) memcpy(p, n->data, n->size);
	if (n->data) raw6(SYS_munmap, (long)n->data, (long)n->cap, 0, 0, 0, 0);
	n->data = p; n->cap = nc;
}

static int node_new(const char *path, int isdir)
{
	for (int i = 0; i < MAXN; i++) if (!S.n[i].used) {
		struct node *n = &S.n[i];
		memset(n, 0, sizeof *n);
		n->used = 1; n->isdir = isdir; n->linked = 1; n->id = S.next_fid++;
		n->ino = 1000 + n->id; n->mode = isdir ? 0755 : 0644;
		strncpy(n->path, path, sizeof n->path - 1);
		return i;
	}
	raw_msg("sim: out of nodes\n"); raw_exit(95);
	return -1;
}

static void *game_main(void *);
static void thr_done_dtor(void *);

__attribute__((constructor(101))) static void sim_init(void)
{
	const char *fds = getenv("SIM_FD");
	if (!fds) return;
	real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
	real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
	real_mutex_trylock = dlsym(RTLD_NEXT, "pthread_mutex_trylock");
	real_mutex_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
	real_exit = dlsym(RTLD_NEXT, "exit");
	int fd = atoi(fds);
	exe_base = getauxval(AT_PHDR) & ~0xfffULL;
	/* safety net against real (not simulated) hangs and memory use */
	struct rlimit rl = { 20, 21 };
	raw6(SYS_setrlimit, RLIMIT_CPU, (long)&rl, 0, 0, 0, 0);
	rl.rlim_cur = rl.rlim_max = 2ULL << 30;
	raw6(SYS_setrlimit, RLIMIT_AS, (long)&rl, 0, 0, 0, 0);
	rl.rlim_cur = rl.rlim_max = 0;
	raw6(SYS_setrlimit, RLIMIT_CORE, (long)&rl, 0, 0, 0, 0);
	raw6(SYS_alarm, 120, 0, 0, 0, 0, 0);
	long m = raw6(SYS_mmap, 0, SIM_SHM_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if (m < 0 && m > -4096) { raw_msg("sim: mmap failed\n"); raw_exit(95); }
	SHM = (u8 *)m;
	struct sim_hdr *h = (struct sim_hdr *)SHM;
	if (h->magic != SIM_MAGIC) { raw_msg("sim: bad magic\n"); raw_exit(95); }
	ip = SHM + SIM_IN_OFF;
	S.seed = g64(); S.hash_seed = g64();
	S.preempt_ppm = (u32)g64(); S.explicit_sched = (int)g64();
	S.step_ns = g64(); S.lat_ns = g64(); S.sync_ns = g64();
	S.mono_base = g64(); S.real_base = g64();
	S.max_steps = g64(); S.max_vtime = g64(); S.capacity = g64(); S.malloc_yield = (int)g64(); S.pct = (u32)g64(); S.fine = (u32)g64(); S.heap = g64();
	u64 n;
	S.sw = gbytes(&n); S.nsw = (u32)(n / 16);
	S.nf = (u32)g64();
	for (u32 i = 0; i < S.nf; i++) {
		struct fault *f = &S.f[i];
		f->cls = (u32)g64(); f->kind = (u32)g64(); f->index = g64(); f->arg = g64(); f->count = g64();
	}
	S.nin = (u32)g64();
	for (u32 i = 0; i < S.nin; i++) {
		S.in[i].delay = g64(); S.in[i].kind = (u32)g64();
		S.in[i].data = gbytes(&n); S.in[i].len = (u32)n;
	}
	S.ng = (u32)g64();
	for (u32 i = 0; i < S.ng; i++) {
		struct gameop *g = &S.g[i];
		g->kind = (u32)g64(); g->at = g64(); g->hold = g64(); g->tries = (u32)g64(); g->retry = g64();
		g->path = gbytes(&n); g->pathlen = (u32)n;
		g->nrow = (u32)g64(); g->rows = ip;
		for (u32 k = 0; k < g->nrow; k++) { g64(); g64(); gbytes(&n); }
	}
	u64 nn = g64();
	for (u64 i = 0; i < nn; i++) {
		u64 isdir = g64();
		const u8 *p = gbytes(&n);
		char path[200]; memset(path, 0, sizeof path); memcpy(path, p, n < 199 ? n : 199);
		int k = node_new(path, (int)isdir);
		S.n[k].mode = (u32)g64();
		const u8 *d = gbytes(&n);
		node_reserve(&S.n[k], n + 1);
		memcpy(S.n[k].data, d, n); S.n[k].size = n;
		S.used_bytes += n;
	}
	S.rng = mix(S.seed ^ 0x1234567); S.lrng = mix(S.seed ^ 0x7777); S.hrng = mix(S.hash_seed ^ 0xabcdef);
	S.min_deadline = ~0ULL; S.game_tid = -1;
	for (int i = 0; i < OPC_N; i++) {
		S.next_idx[i] = ~0ULL;
		for (u32 k = 0; k < S.nf; k++)
			if (S.f[k].cls == (u32)i && S.f[k].index < S.next_idx[i]) S.next_idx[i] = S.f[k].index;
	}
	pthread_key_create(&done_key, thr_done_dtor);
	struct thr *t = &S.t[0];
	t->id = 0; t->state = T_RUN; t->token = 1; t->deadline = ~0ULL; t->pt = pthread_self();
	S.low_prio = 1ULL << 40; t->prio = S.low_prio + (rnd() >> 24);
	S.nt = 1; S.cur = 0;
	me = t;
	h->verdict = 0; h->log_len = 0;
	in_sim = 1; /* stay passive until main() */
	H = h;
	set_next_preempt();
}

/* ---------------------------------------------------------- threads */
static void thr_done_dtor(void *p)
{
	struct thr *t = p;
	if (!H || !t) return;
	in_sim = 1;
	t->state = T_DONE;
	rec(R_THREAD, 2, (u64)t->id, 0, 0, 0);
	for (int i = 0; i < S.nt; i++)
		if (S.t[i].state == T_JOIN && S.t[i].join_target == t->id) S.t[i].state = T_RUN;
	block_self(1);
}

static void *trampoline(void *p)
{
	struct thr *t = p;
	me = t; in_sim = 0;
	futex_wait_real(&t->token);
	pthread_setspecific(done_key, t);
	return t->fn(t->arg);
}

int pthread_create(pthread_t *pt, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
	if (!real_pthread_create) real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
	if (!active()) return real_pthread_create(pt, attr, fn, arg);
	struct fault *f = op_begin(OPC_THREAD, 0, 0);
	if (f && f->kind == FK_ERR) return (int)f->arg;
	int slot = -1;
	in_sim = 1;
	if (S.nt < MAXT) slot = S.nt;
	if (slot < 0) { in_sim = 0; return EAGAIN; }
	struct thr *t = &S.t[slot];
	memset(t, 0, sizeof *t);
	t->id = slot; t->state = T_RUN; t->deadline = ~0ULL; t->fn = fn; t->arg = arg;
	t->prio = S.low_prio + (rnd() >> 24); S.resched = 1;
	int r = real_pthread_create(&t->pt, attr, trampoline, t);
	if (r == 0) {
		*pt = t->pt; S.nt++;
		rec(R_THREAD, 1, (u64)slot, 0, 0, 0);
	}
	in_sim = 0;
	if (r == 0) step(OPC_THREAD, 1);
	return r;
}

int pthread_join(pthread_t pt, void **ret)
{
	if (active()) {
		step(OPC_THREAD, 2);
		for (int i = 0; i < S.nt; i++)
			if (pthread_equal(S.t[i].pt, pt) && &S.t[i] != me) {
				if (S.t[i].state != T_DONE) {
					me->state = T_JOIN; me->join_target = i;
					block_self(0);
				}
				break;
			}
		in_sim = 1;
		int r = real_pthread_join(pt, ret);
		in_sim = 0;
		return r;
	}
	return real_pthread_join(pt, ret);
}

int pthread_mutex_lock(pthread_mutex_t *m)
{
	if (!active()) {
		if (!real_mutex_lock) real_mutex_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
		return real_mutex_lock(m);
	}
	for (;;) {
		int r = real_mutex_trylock(m);
		if (r != EBUSY) { if (!r) me->held++; return r; }
		/* held by a thread that was switched out inside the critical section */
		step(OPC_FUTEX, 7);
		int c = choose(me->id);
		if (c >= 0) hand_to(&S.t[c], 0, 0);
		else sim_sleep_until(S.vtime + 1000);
	}
}

int pthread_mutex_trylock(pthread_mutex_t *m)
{
	if (!real_mutex_trylock) real_mutex_trylock = dlsym(RTLD_NEXT, "pthread_mutex_trylock");
	int r = real_mutex_trylock(m);
	if (!r && active()) me->held++;
	return r;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
	static int (*real)(pthread_mutex_t *);
	if (!real) real = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
	int r = real(m);
	if (active() && me->held > 0 && --me->held == 0 && me->owe) {
		u64 d = me->owe;
		me->owe = 0;
		in_sim = 1;
		sim_sleep_until(S.vtime + d);
		in_sim = 0;
	}
	return r;
}

int sched_yield(void)
{
	if (!active()) return (int)raw_ret(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
	step(OPC_FUTEX, 9);
	int c = choose(me->id);
	if (c >= 0) hand_to(&S.t[c], 0, 0);
	else sim_sleep_until(S.vtime + 1000);
	return 0;
}

static long sim_futex(u32 *addr, int op, u32 val, const struct timespec *ts, u32 val3)
{
	int cmd = op & 127;
	(void)val3;
	if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
		step(OPC_FUTEX, (u64)cmd);
		struct fault *f = fault_for(OPC_FUTEX, H->counts[OPC_FUTEX]++);
		if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
		u64 dl = ~0ULL;
		if (ts) {
			u64 t = (u64)ts->tv_sec * 1000000000ULL + (u64)ts->tv_nsec;
			if (cmd == FUTEX_WAIT) dl = S.vtime + t;
			else {
				u64 base = (op & FUTEX_CLOCK_REALTIME) ? S.real_base : S.mono_base;
				dl = t > base ? t - base : 0;
			}
			if (dl <= S.vtime) { errno = ETIMEDOUT; return -1; }
		}
		if (f && f->kind == FK_SPURIOUS) return 0;
		me->state = T_FUTEX; me->addr = addr; me->deadline = dl;
		me->timed_out = 0; me->woken = 0;
		if (dl < S.min_deadline) S.min_deadline = dl;
		block_self(0);
		if (me->woken) return 0;
		errno = ETIMEDOUT; return -1;
	}
	if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
		int n = 0;
		for (int i = 0; i < S.nt && n < (int)val; i++) {
			struct thr *t = &S.t[i];
			if (t->state == T_FUTEX && t->addr == addr) {
				S.resched = 1; t->state = T_RUN; t->woken = 1; t->addr = 0; t->deadline = ~0ULL; n++;
			}
		}
		if (n) recompute_deadline();
		step(OPC_FUTEX, (u64)cmd);
		return n;
	}
	errno = ENOSYS; return -1;
}

/* variadic in libc; all arguments are integer class, so fixed registers work */
struct sfd;
static struct sfd *getfd(int);
long syscall(long n, long a, long b, long c, long d, long e, long f)
{
	if (active()) {
		if (n == SYS_futex) return sim_futex((u32 *)a, (int)b, (u32)c, (const struct timespec *)d, (u32)f);
		if (n == SYS_gettid) return 40000 + me->id;
		if (n == SYS_getrandom) return getrandom((void *)a, (size_t)b, (unsigned)c);
		/* in-kernel copies between files: callers fall back to read and write */
		if ((n == SYS_copy_file_range || n == SYS_sendfile || n == SYS_splice) && (getfd((int)a) || getfd((int)(n == SYS_sendfile ? b : c)))) { errno = EINVAL; return -1; }
	} else if (H && n == SYS_gettid) return 40000 + (me ? me->id : 99);
	return raw_ret(raw6(n, a, b, c, d, e, f));
}

pid_t gettid(void)
{
	if (H && me) return 40000 + me->id;
	return (pid_t)raw6(SYS_gettid, 0, 0, 0, 0, 0, 0);
}
pid_t getpid(void)
{
	if (H) return 40000 + (pid_t)(S.hash_seed % 9973);
	return (pid_t)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0);
}

/* ---------------------------------------------------------- main / exit */
static int (*user_main)(int, char **, char **);

static void sim_exit(int code)
{
	/* a thread can be held up on its way out while the others go on */
	if (active()) op_begin(OPC_THREAD, 3, 0);
	/* Let the second client finish, unless threads of the program are still
	 * running (they would be killed together with the process). */
	if (S.game_tid >= 0 && S.t[S.game_tid].state != T_DONE) {
		int others = 0;
		for (int i = 1; i < S.nt; i++)
			if (!S.t[i].is_game && S.t[i].state != T_DONE) others++;
		rec(R_EXIT, (u32)code, 7, (u64)others, 0, 0);
		if (!others) {
			me->state = T_JOIN; me->join_target = S.game_tid;
			block_self(0);
		}
	}
	finish(1, (u32)code);
	rec(R_EXIT, (u32)code, 0, H->threads_alive, 0, 0);
	raw_exit(code);
}

static int sim_main(int argc, char **argv, char **envp)
{
	if (H) {
		in_sim = 1;
		if (S.ng) {
			struct thr *t = &S.t[S.nt];
			memset(t, 0, sizeof *t);
			t->id = S.nt; t->state = T_RUN; t->deadline = ~0ULL;
			t->fn = game_main; t->is_game = 1; t->prio = S.low_prio + (rnd() >> 24);
			if (real_pthread_create(&t->pt, 0, trampoline, t) == 0) { S.game_tid = S.nt; S.nt++; }
		}
		S.main_started = 1;
		in_sim = 0;
	}
	int r = user_main(argc, argv, envp);
	if (H) { in_sim = 0; sim_exit(r); }
	return r;
}

int __libc_start_main(int (*mainf)(int, char **, char **), int argc, char **argv,
	void (*init)(void), void (*fini)(void), void (*rtld_fini)(void), void *stack_end)
{
	int (*real)(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *) =
		dlsym(RTLD_NEXT, "__libc_start_main");
	user_main = mainf;
	return real(sim_main, argc, argv, init, fini, rtld_fini, stack_end);
}

void exit(int code)
{
	if (H && S.main_started) { in_sim = 0; sim_exit(code); }
	if (!real_exit) real_exit = dlsym(RTLD_NEXT, "exit");
	real_exit(code);
	__builtin_unreachable();
}

/* ---------------------------------------------------------------- clock */
static void to_ts(u64 t, struct timespec *ts) { ts->tv_sec = (time_t)(t / 1000000000ULL); ts->tv_nsec = (long)(t % 1000000000ULL); }

int clock_gettime(clockid_t c, struct timespec *ts)
{
	if (!H || !me) return (int)raw_ret(raw6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0));
	if (active()) step(OPC_STAT, 77);
	to_ts(S.vtime + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? S.real_base : S.mono_base), ts);
	return 0;
}
int gettimeofday(struct timeval *tv, void *tz)
{
	(void)tz;
	if (!H || !me) return (int)raw_ret(raw6(SYS_gettimeofday, (long)tv, 0, 0, 0, 0, 0));
	u64 t = S.vtime + S.real_base;
	tv->tv_sec = (time_t)(t / 1000000000ULL); tv->tv_usec = (long)(t % 1000000000ULL / 1000);
	return 0;
}
time_t time(time_t *p)
{
	if (!H || !me) { time_t r = (time_t)raw6(SYS_time, 0, 0, 0, 0, 0, 0); if (p) *p = r; return r; }
	time_t r = (time_t)((S.vtime + S.real_base) / 1000000000ULL);
	if (p) *p = r;
	return r;
}
int nanosleep(const struct timespec *rq, struct timespec *rm)
{
	(void)rm;
	if (!active()) return (int)raw_ret(raw6(SYS_nanosleep, (long)rq, (long)rm, 0, 0, 0, 0));
	step(OPC_FUTEX, 11);
	sim_sleep_until(S.vtime + (u64)rq->tv_sec * 1000000000ULL + (u64)rq->tv_nsec);
	return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *rq, struct timespec *rm)
{
	if (!active()) { long r = raw6(SYS_clock_nanosleep, c, flags, (long)rq, (long)rm, 0, 0); return (int)-r; }
	step(OPC_FUTEX, 12);
	u64 t = (u64)rq->tv_sec * 1000000000ULL + (u64)rq->tv_nsec;
	u64 when = S.vtime + t;
	if (flags & TIMER_ABSTIME) { u64 b = c == CLOCK_REALTIME ? S.real_base : S.mono_base; when = t > b ? t - b : 0; }
	if (when > S.vtime) sim_sleep_until(when);
	return 0;
}
int usleep(useconds_t us) { struct timespec t = { us / 1000000, (us % 1000000) * 1000L }; return nanosleep(&t, 0); }
unsigned sleep(unsigned s) { struct timespec t = { s, 0 }; nanosleep(&t, 0); return 0; }

/* ----------------------------------------------------------- randomness */
ssize_t getrandom(void *buf, size_t n, unsigned flags)
{
	if (!H || !me) return raw_ret(raw6(SYS_getrandom, (long)buf, (long)n, flags, 0, 0, 0));
	u8 *p = buf;
	for (size_t i = 0; i < n; i++) p[i] = (u8)hrnd();
	if (active()) ev(901, n, 0);
	return (ssize_t)n;
}

/* --------------------------------------------------------------- malloc */

static inline int malloc_point(size_t n, void *site)
{
	u64 idx = H->counts[OPC_MALLOC]++;
	if (S.malloc_yield) {
		H->steps++; S.vtime += 20;
		if (due()) step_slow();
	}
	if (n > H->max_alloc) H->max_alloc = n;
	H->sum_alloc += n;
	if (idx >= S.next_idx[OPC_MALLOC]) {
		struct fault *f = fault_for(OPC_MALLOC, idx);
		if (f && f->kind == FK_ERR && !me->is_game) { rec(R_OOM, 0, n, (u64)site - exe_base, 0, 0); return 1; }
		if (f && (f->kind == FK_CRASH || f->kind == FK_CRASH_AFTER)) sim_crash(4);
	}
	return 0;
}
static long live; /* heap bytes in use, the simulator's own few included */
extern void __libc_free(void *);
extern size_t malloc_usable_size(void *);
static inline int over(size_t n, size_t old, void *site)
{
	if (!S.heap || me->is_game || live < 0 || (u64)live + n <= S.heap + old) return 0;
	rec(R_OOM, 1, n, (u64)site - exe_base, 0, 0);
	return 1;
}
static inline void *got(void *p)
{
	if (p && !(me && me->is_game)) { live += (long)malloc_usable_size(p); if (active() && live > (long)H->max_live) H->max_live = (u64)live; }
	return p;
}
void free(void *p)
{
	if (p && !(me && me->is_game)) live -= (long)malloc_usable_size(p);
	__libc_free(p);
}
void *malloc(size_t n)
{
	void *at = __builtin_return_address(0);
	if (active() && (malloc_point(n, at) || over(n, 0, at))) { errno = ENOMEM; return 0; }
	return got(__libc_malloc(n));
}
void *calloc(size_t a, size_t b)
{
	void *at = __builtin_return_address(0);
	if (active() && (malloc_point(a * b, at) || over(a * b, 0, at))) { errno = ENOMEM; return 0; }
	return got(__libc_calloc(a, b));
}
void *realloc(void *p, size_t n)
{
	void *at = __builtin_return_address(0);
	size_t old = p ? malloc_usable_size(p) : 0;
	if (active() && (malloc_point(n, at) || over(n, old, at))) { errno = ENOMEM; return 0; }
	void *q = __libc_realloc(p, n);
	if (old && (q || !n) && !(me && me->is_game)) live -= (long)old;
	return got(q);
}
int posix_memalign(void **out, size_t al, size_t n)
{
	void *at = __builtin_return_address(0);
	if (active() && (malloc_point(n, at) || over(n, 0, at))) return ENOMEM;
	void *p = got(__libc_memalign(al, n));
	if (!p) return ENOMEM;
	*out = p; return 0;
}
void *aligned_alloc(size_t al, size_t n)
{
	void *at = __builtin_return_address(0);
	if (active() && (malloc_point(n, at) || over(n, 0, at))) { errno = ENOMEM; return 0; }
	return got(__libc_memalign(al, n));
}

/* ----------------------------------------------------------------- disk */
static int is_sim(const char *p) { return p && strncmp(p, "/sim", 4) == 0 && (p[4] == '/' || p[4] == 0); }

static void norm(const char *p, char *out) /* strip duplicate and trailing slashes and "." */
{
	u64 o = 0;
	while (*p && o < 198) {
		if (*p == '/') {
			while (*p == '/') p++;
			if (p[0] == '.' && (p[1] == '/' || p[1] == 0)) { p++; continue; }
			if (!*p) break;
			if (p[0] == '.' && p[1] == '.' && (p[2] == '/' || p[2] == 0)) {
				while (o > 0 && out[o - 1] != '/') o--;
				if (o > 0) o--;
				p += 2; continue;
			}
			out[o++] = '/';
		} else out[o++] = *p++;
	}
	out[o] = 0;
}

static int find(const char *path)
{
	char b[200]; norm(path, b);
	for (int i = 0; i < MAXN; i++)
		if (S.n[i].used && S.n[i].linked && !strcmp(S.n[i].path, b)) return i;
	return -1;
}
static int parent_of(const char *path)
{
	char b[200]; norm(path, b);
	char *s = strrchr(b, '/');
	if (!s || s == b) return -1;
	*s = 0;
	int k = find(b);
	return k >= 0 && S.n[k].isdir ? k : -1;
}
static void node_put(int k)
{
	struct node *n = &S.n[k];
	if (--n->refs <= 0 && !n->linked) {
		if (n->data) raw6(SYS_munmap, (long)n->data, (long)n->cap, 0, 0, 0, 0);
		S.used_bytes -= n->size;
		n->used = 0; n->data = 0; n->cap = 0;
	}
}
static struct sfd *getfd(int fd)
{
	if (!H || fd < FDBASE || fd >= FDBASE + MAXFD) return 0;
	struct sfd *s = &S.fd[fd - FDBASE];
	return s->used ? s : 0;
}
static int newfd(int node, int flags, int kind)
{
	for (int i = 0; i < MAXFD; i++) if (!S.fd[i].used) {
		S.fd[i].used = 1; S.fd[i].node = node; S.fd[i].flags = flags; S.fd[i].off = 0; S.fd[i].kind = kind;
		if (kind == 0) S.n[node].refs++;
		return FDBASE + i;
	}
	errno = EMFILE; return -1;
}

static int sim_open(const char *path, int flags, int mode)
{
	char b[200]; norm(path, b);
	struct fault *f = op_begin(OPC_OPEN, fnv((u8 *)b, strlen(b)) >> 40 ^ (u64)flags, S.lat_ns);
	if (f && f->kind == FK_ERR) { errno = (int)f->arg; return -1; }
	int k = find(b), r;
	if (k >= 0 && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
	if (k < 0) {
		if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
		int d = parent_of(b);
		if (d < 0) { errno = ENOENT; return -1; }
		if (!(S.n[d].mode & 0200)) { errno = EACCES; return -1; }
		k = node_new(b, 0);
		S.n[k].mode = (u32)mode & 07777;
		rec(R_CREATE, S.n[k].id, me->is_game, 0, b, strlen(b));
	}
	if (S.n[k].isdir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
	if (!S.n[k].isdir && (flags & O_ACCMODE) != O_RDONLY && !(S.n[k].mode & 0200)) { errno = EACCES; return -1; }
	if (!S.n[k].isdir && (flags & O_ACCMODE) != O_WRONLY && !(S.n[k].mode & 0400)) { errno = EACCES; return -1; }
	if (flags & O_TRUNC) {
		S.used_bytes -= S.n[k].size; S.n[k].size = 0;
		rec(R_TRUNC, S.n[k].id, 0, (u64)me->is_game, 0, 0);
	}
	r = newfd(k, flags, 0);
	rec(R_OPEN, S.n[k].id, (u64)(unsigned)flags, (u64)me->is_game, b, strlen(b));
	op_end(f);
	if (f && f->kind == FK_ERR_AFTER) { /* opened but reported as failed */ S.fd[r - FDBASE].used = 0; node_put(k); errno = (int)f->arg; return -1; }
	return r;
}

static int open_common(const char *path, int flags, int mode)
{
	if (active()) {
		if (is_sim(path)) return sim_open(path, flags, mode);
		if (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")) { ev(900, 0, 0); return newfd(0, flags, 1); }
		if ((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT)) {
			rec(R_STRAY, 1, (u64)flags, 0, path, strlen(path));
			errno = EACCES; return -1;
		}
	}
	return (int)raw_ret(raw6(SYS_openat, AT_FDCWD, (long)path, flags, mode, 0, 0));
}
#define VMODE(flags) int mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { VMODE(flags) return open_common(p, flags, mode); }
int open64(const char *p, int flags, ...) { VMODE(flags) return open_common(p, flags, mode); }
int creat(const char *p, mode_t m) { return open_common(p, O_CREAT | O_WRONLY | O_TRUNC, (int)m); }
int openat(int d, const char *p, int flags, ...)
{
	VMODE(flags)
	if (p[0] == '/' || d == AT_FDCWD) return open_common(p, flags, mode);
	return (int)raw_ret(raw6(SYS_openat, d, (long)p, flags, mode, 0, 0));
}
int openat64(int d, const char *p, int flags, ...)
{
	VMODE(flags)
	if (p[0] == '/' || d == AT_FDCWD) return open_common(p, flags, mode);
	return (int)raw_ret(raw6(SYS_openat, d, (long)p, flags, mode, 0, 0));
}

int close(int fd)
{
	struct sfd *s = getfd(fd);
	if (!s) return (int)raw_ret(raw6(SYS_close, fd, 0, 0, 0, 0, 0));
	if (active()) step(OPC_STAT, 5);
	s->used = 0;
	if (s->kind == 0) { rec(R_CLOSE, S.n[s->node].id, 0, 0, 0, 0); node_put(s->node); }
	return 0;
}

static int is_main_file(const char *p)
{
	u64 n = strlen(p);
	return n > 7 && !strcmp(p + n - 7, ".sqlite");
}

static ssize_t sim_pread(struct sfd *s, void *buf, size_t len, u64 off)
{
	if (s->kind == 1) { for (size_t i = 0; i < len; i++) ((u8 *)buf)[i] = (u8)hrnd(); return (ssize_t)len; }
	struct node *n = &S.n[s->node];
	if (n->isdir) { errno = EISDIR; return -1; }
	struct fault *f = active() ? op_begin(OPC_READ, n->id + (off << 8), S.lat_ns / 4) : 0;
	if (f && f->kind == FK_ERR) { errno = (int)f->arg; return -1; }
	if ((s->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
	u64 got = off >= n->size ? 0 : n->size - off;
	if (got > len) got = len;
	if (f && f->kind == FK_SHORT && got > 1) { got = got * f->arg / 1000; if (!got) got = 1; }
	memcpy(buf, n->data + off, got);
	/* a b-tree page comes back unrecognisable (page 1 has its header elsewhere) */
	if (f && f->kind == FK_GARBLE && off && got >= 512 && is_main_file(n->path)
		&& (((u8 *)buf)[0] == 2 || ((u8 *)buf)[0] == 5 || ((u8 *)buf)[0] == 10 || ((u8 *)buf)[0] == 13))
		((u8 *)buf)[0] = 0xee;
	if (H) ev(902, off, got);
	op_end(f);
	if (f && f->kind == FK_ERR_AFTER) { errno = (int)f->arg; return -1; }
	return (ssize_t)got;
}

static ssize_t sim_pwrite(struct sfd *s, const void *buf, size_t len, u64 off)
{
	struct node *n = &S.n[s->node];
	struct fault *f = active() ? op_begin(OPC_WRITE, n->id + (off << 8), S.lat_ns) : 0;
	if ((s->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
	if (f && f->kind == FK_ERR) { errno = (int)f->arg; return -1; }
	int crash = 0;
	if (f && f->kind == FK_SHORT && len > 1) { len = len * f->arg / 1000; if (!len) len = 1; }
	if (f && f->kind == FK_TORN_CRASH) { len = len * f->arg / 1000; crash = 1; }
	if (off + len > n->size) {
		u64 grow = off + len - n->size;
		if (S.used_bytes + grow > S.capacity && !me->is_game) {
			u64 room = S.capacity > S.used_bytes ? S.capacity - S.used_bytes : 0;
			u64 start = off > n->size ? off - n->size : 0;
			H->fired[31]++;
			if (off > n->size ? room <= start : (room == 0 && off >= n->size)) { errno = ENOSPC; return -1; }
			len = n->size + room - off; /* short write up to the last free byte */
			if (len == 0) { errno = ENOSPC; return -1; }
			grow = off + len - n->size;
		}
		node_reserve(n, off + len);
		if (off > n->size) memset(n->data + n->size, 0, off - n->size);
		S.used_bytes += grow;
		n->size = off + len;
	}
	memcpy(n->data + off, buf, len);
	rec(R_WRITE, n->id, off, (u64)(me ? me->is_game : 0), buf, len);
	ev(903, off, fnv(buf, len));
	if (crash) sim_crash(5);
	op_end(f);
	if (f && f->kind == FK_ERR_AFTER) { errno = (int)f->arg; return -1; }
	return (ssize_t)len;
}

/* terminal */
static ssize_t sim_out(int fd, const void *buf, size_t len)
{
	struct fault *f = op_begin(OPC_STDOUT, (u64)fd, 0);
	if (f && f->kind == FK_ERR) { errno = (int)f->arg; return -1; }
	if (f && f->kind == FK_SHORT && len > 1) { len = len * f->arg / 1000; if (!len) len = 1; }
	rec(R_OUT, (u32)fd, 0, 0, buf, len);
	ev(904, (u64)fd, fnv(buf, len));
	op_end(f);
	return (ssize_t)len;
}
static ssize_t sim_in(void *buf, size_t len)
{
	rec(R_INREQ, 0, 0, 0, 0, 0);
	struct fault *f = op_begin(OPC_STDIN, 0, 0);
	if (f && f->kind == FK_ERR) { errno = (int)f->arg; return -1; }
	if (S.inpos >= S.nin) { rec(R_IN, 0, 0, 0, 0, 0); return 0; }
	struct inchunk *c = &S.in[S.inpos];
	if (S.inoff == 0 && c->delay) sim_sleep_until(S.vtime + c->delay);
	if (c->kind == 1) { S.inpos++; rec(R_IN, 1, c->len, 0, 0, 0); errno = (int)(c->len ? c->data[0] : EIO); return -1; }
	u64 n = c->len - S.inoff;
	if (n > len) n = len;
	memcpy(buf, c->data + S.inoff, n);
	rec(R_IN, 2, 0, 0, buf, n);
	S.inoff += (u32)n;
	if (S.inoff >= c->len) { S.inpos++; S.inoff = 0; }
	op_end(f);
	return (ssize_t)n;
}

ssize_t read(int fd, void *buf, size_t len)
{
	struct sfd *s = getfd(fd);
	if (s) { ssize_t r = sim_pread(s, buf, len, s->off); if (r > 0) s->off += (u64)r; return r; }
	if (fd == 0 && active()) return sim_in(buf, len);
	return raw_ret(raw6(SYS_read, fd, (long)buf, (long)len, 0, 0, 0));
}
ssize_t write(int fd, const void *buf, size_t len)
{
	struct sfd *s = getfd(fd);
	if (s) {
		u64 off = s->flags & O_APPEND ? S.n[s->node].size : s->off;
		ssize_t r = sim_pwrite(s, buf, len, off);
		if (r > 0) s->off = off + (u64)r;
		return r;
	}
	if ((fd == 1 || fd == 2) && active()) return sim_out(fd, buf, len);
	return raw_ret(raw6(SYS_write, fd, (long)buf, (long)len, 0, 0, 0));
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
	if (getfd(fd) || ((fd == 1 || fd == 2) && active())) {
		ssize_t tot = 0;
		for (int i = 0; i < n; i++) {
			if (!v[i].iov_len) continue;
			ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
			if (r < 0) return tot ? tot : r;
			tot += r;
			if ((size_t)r < v[i].iov_len) break;
		}
		return tot;
	}
	return raw_ret(raw6(SYS_writev, fd, (long)v, n, 0, 0, 0));
}
ssize_t pread64(int fd, void *buf, size_t len, off_t off)
{
	struct sfd *s = getfd(fd);
	if (s) return sim_pread(s, buf, len, (u64)off);
	return raw_ret(raw6(SYS_pread64, fd, (long)buf, (long)len, off, 0, 0));
}
ssize_t pread(int fd, void *buf, size_t len, off_t off) { return pread64(fd, buf, len, off); }
ssize_t pwrite64(int fd, const void *buf, size_t len, off_t off)
{
	struct sfd *s = getfd(fd);
	if (s) return sim_pwrite(s, buf, len, (u64)off);
	return raw_ret(raw6(SYS_pwrite64, fd, (long)buf, (long)len, off, 0, 0));
}
ssize_t pwrite(int fd, const void *buf, size_t len, off_t off) { return pwrite64(fd, buf, len, off); }

off_t lseek64(int fd, off_t off, int wh)
{
	struct sfd *s = getfd(fd);
	if (!s) return raw_ret(raw6(SYS_lseek, fd, off, wh, 0, 0, 0));
	s->off = (u64)(wh == SEEK_SET ? off : wh == SEEK_CUR ? (off_t)s->off + off : (off_t)S.n[s->node].size + off);
	return (off_t)s->off;
}
off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }

int ftruncate64(int fd, off_t len)
{
	struct sfd *s = getfd(fd);
	if (!s) return (int)raw_ret(raw6(SYS_ftruncate, fd, len, 0, 0, 0, 0));
	struct node *n = &S.n[s->node];
	struct fault *f = active() ? op_begin(OPC_TRUNC, n->id + ((u64)len << 8), S.lat_ns) : 0;
	if (f && f->kind == FK_ERR) { errno = (int)f->arg; return -1; }
	if ((s->flags & O_ACCMODE) == O_RDONLY) { errno = EINVAL; return -1; }
	if ((u64)len > n->size) {
		node_reserve(n, (u64)len);
		memset(n->data + n->size, 0, (u64)len - n->size);
	}
	S.used_bytes += (u64)len - n->size;
	n->size = (u64)len;
	rec(R_TRUNC, n->id, (u64)len, (u64)(me ? me->is_game : 0), 0, 0);
	op_end(f);
	if (f && f->kind == FK_ERR_AFTER) { errno = (int)f->arg; return -1; }
	return 0;
}
int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }

static int sim_sync(int fd, long nr)
{
	struct sfd *s = getfd(fd);
	if (!s) return (int)raw_ret(raw6(nr, fd, 0, 0, 0, 0, 0));
	struct node *n = &S.n[s->node];
	struct fault *f = active() ? op_begin(OPC_SYNC, n->id, S.sync_ns) : 0;
	if (f && f->kind == FK_ERR) { errno = (int)f->arg; return -1; }
	rec(n->isdir ? R_DSYNC : R_FSYNC, n->id, 0, 0, 0, 0);
	op_end(f);
	if (f && f->kind == FK_ERR_AFTER) { errno = (int)f->arg; return -1; }
	return 0;
}
int fsync(int fd) { return sim_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return sim_sync(fd, SYS_fdatasync); }

int unlink(const char *p)
{
	if (!active()) return (int)raw_ret(raw6(SYS_unlink, (long)p, 0, 0, 0, 0, 0));
	if (!is_sim(p)) { rec(R_STRAY, 2, 0, 0, p, strlen(p)); errno = EACCES; return -1; }
	struct fault *f = op_begin(OPC_UNLINK, 0, S.lat_ns);
	if (f && f->kind == FK_ERR) { errno = (int)f->arg; return -1; }
	int k = find(p);
	if (k < 0) { errno = ENOENT; return -1; }
	if (S.n[k].isdir) { errno = EISDIR; return -1; }
	int d = parent_of(p);
	if (d >= 0 && !(S.n[d].mode & 0200)) { errno = EACCES; return -1; }
	rec(R_UNLINK, S.n[k].id, (u64)me->is_game, 0, S.n[k].path, strlen(S.n[k].path));
	S.n[k].linked = 0; S.n[k].refs++; node_put(k);
	op_end(f);
	if (f && f->kind == FK_ERR_AFTER) { errno = (int)f->arg; return -1; }
	return 0;
}
int unlinkat(int d, const char *p, int flags)
{
	if (!active() || (p[0] != '/' && d != AT_FDCWD)) return (int)raw_ret(raw6(SYS_unlinkat, d, (long)p, flags, 0, 0, 0));
	return unlink(p);
}
int remove(const char *p) { return unlink(p); }
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f)
{
	if (active() && (getfd(a) || getfd(b))) { errno = EINVAL; return -1; }
	return raw_ret(raw6(SYS_copy_file_range, a, (long)x, b, (long)y, (long)n, (long)f));
}
ssize_t sendfile64(int o, int i, off64_t *x, size_t n)
{
	if (active() && (getfd(o) || getfd(i))) { errno = EINVAL; return -1; }
	return raw_ret(raw6(SYS_sendfile, o, i, (long)x, (long)n, 0, 0));
}
ssize_t sendfile(int o, int i, off_t *x, size_t n) { return sendfile64(o, i, (off64_t *)x, n); }
static void node_chmod(int k, mode_t m)
{
	if (S.n[k].mode == (m & 07777)) return;
	S.n[k].mode = m & 07777;
	rec(R_CHMOD, S.n[k].id, m & 07777, (u64)me->is_game, S.n[k].path, strlen(S.n[k].path));
}
int chmod(const char *p, mode_t m)
{
	if (!active()) return (int)raw_ret(raw6(SYS_chmod, (long)p, (long)m, 0, 0, 0, 0));
	if (!is_sim(p)) { rec(R_STRAY, 6, 0, 0, p, strlen(p)); errno = EACCES; return -1; }
	int k = find(p);
	if (k < 0) { errno = ENOENT; return -1; }
	node_chmod(k, m);
	return 0;
}
char *realpath(const char *restrict p, char *restrict out)
{
	static char *(*real)(const char *, char *);
	if (active() && is_sim(p)) {
		if (find(p) < 0) { errno = ENOENT; return 0; }
		if (!out) out = malloc(4096);
		if (out) norm(p, out);
		return out;
	}
	if (!real) real = dlsym(RTLD_NEXT, "realpath");
	return real(p, out);
}
int rename(const char *a, const char *b)
{
	if (!active()) return (int)raw_ret(raw6(SYS_rename, (long)a, (long)b, 0, 0, 0, 0));
	int k;
	if (!is_sim(a) || !is_sim(b) || (k = find(a)) < 0) { rec(R_STRAY, 3, 0, 0, a, strlen(a)); errno = EACCES; return -1; }
	struct fault *f = op_begin(OPC_UNLINK, 1, S.lat_ns);
	if (f && f->kind == FK_ERR) { errno = (int)f->arg; return -1; }
	int o = find(b);
	if (o >= 0) { S.n[o].linked = 0; S.n[o].refs++; node_put(o); }
	norm(b, S.n[k].path);
	rec(R_RENAME, S.n[k].id, (u64)me->is_game, 0, S.n[k].path, strlen(S.n[k].path));
	op_end(f);
	return 0;
}
int mkdir(const char *p, mode_t m)
{
	if (!active()) return (int)raw_ret(raw6(SYS_mkdir, (long)p, m, 0, 0, 0, 0));
	rec(R_STRAY, 4, 0, 0, p, strlen(p)); errno = EACCES; return -1;
}
int rmdir(const char *p)
{
	if (!active()) return (int)raw_ret(raw6(SYS_rmdir, (long)p, 0, 0, 0, 0, 0));
	rec(R_STRAY, 5, 0, 0, p, strlen(p)); errno = EACCES; return -1;
}
int fchmod(int fd, mode_t m) { if (getfd(fd)) { node_chmod(getfd(fd)->node, m); return 0; } return (int)raw_ret(raw6(SYS_fchmod, fd, m, 0, 0, 0, 0)); }
int fchown(int fd, uid_t u, gid_t g) { if (getfd(fd)) return 0; return (int)raw_ret(raw6(SYS_fchown, fd, u, g, 0, 0, 0)); }
int utime(const char *p, const void *t) { (void)p; (void)t; return 0; }

static void fill_stat(struct stat *st, int k)
{
	struct node *n = &S.n[k];
	memset(st, 0, sizeof *st);
	st->st_dev = 77; st->st_ino = n->ino; st->st_nlink = n->linked ? 1 : 0;
	st->st_mode = (n->isdir ? S_IFDIR : S_IFREG) | n->mode;
	st->st_size = (off_t)n->size; st->st_blksize = 4096; st->st_blocks = (blkcnt_t)((n->size + 511) / 512);
	st->st_uid = 1000; st->st_gid = 1000;
}
static int sim_stat(const char *p, struct stat *st)
{
	struct fault *f = op_begin(OPC_STAT, 1, 0);
	if (f && f->kind == FK_ERR) { errno = (int)f->arg; return -1; }
	int k = find(p);
	if (k < 0) { errno = ENOENT; return -1; }
	fill_stat(st, k);
	return 0;
}
int stat64(const char *p, struct stat64 *st)
{
	if (active() && is_sim(p)) return sim_stat(p, (struct stat *)st);
	return (int)raw_ret(raw6(SYS_stat, (long)p, (long)st, 0, 0, 0, 0));
}
int stat(const char *p, struct stat *st) { return stat64(p, (struct stat64 *)st); }
int lstat64(const char *p, struct stat64 *st)
{
	if (active() && is_sim(p)) return sim_stat(p, (struct stat *)st);
	return (int)raw_ret(raw6(SYS_lstat, (long)p, (long)st, 0, 0, 0, 0));
}
int lstat(const char *p, struct stat *st) { return lstat64(p, (struct stat64 *)st); }
int fstat64(int fd, struct stat64 *st)
{
	struct sfd *s = getfd(fd);
	if (!s) return (int)raw_ret(raw6(SYS_fstat, fd, (long)st, 0, 0, 0, 0));
	if (s->kind == 1) { memset(st, 0, sizeof *st); st->st_mode = S_IFCHR | 0666; return 0; }
	fill_stat((struct stat *)st, s->node);
	return 0;
}
int fstat(int fd, struct stat *st) { return fstat64(fd, (struct stat64 *)st); }
int statx(int d, const char *restrict p, int flags, unsigned mask, struct statx *restrict sx)
{
	struct stat st;
	const void *volatile pv = p, *volatile sv = sx; /* declared nonnull, but probed with NULL */
	if (!pv || !sv) { errno = EFAULT; return -1; }
	struct sfd *s = !*p ? getfd(d) : 0;
	if (active() && is_sim(p)) { if (sim_stat(p, &st)) return -1; }
	else if (s && s->kind == 0) fill_stat(&st, s->node);
	else return (int)raw_ret(raw6(SYS_statx, d, (long)p, flags, mask, (long)sx, 0));
	memset(sx, 0, sizeof *sx);
	sx->stx_mask = STATX_BASIC_STATS; sx->stx_blksize = 4096; sx->stx_nlink = (u32)st.st_nlink;
	sx->stx_uid = st.st_uid; sx->stx_gid = st.st_gid; sx->stx_mode = (uint16_t)st.st_mode;
	sx->stx_ino = st.st_ino; sx->stx_size = (u64)st.st_size; sx->stx_blocks = (u64)st.st_blocks;
	sx->stx_dev_minor = 77;
	return 0;
}
int access(const char *p, int m)
{
	if (!active() || !is_sim(p)) return (int)raw_ret(raw6(SYS_access, (long)p, m, 0, 0, 0, 0));
	struct fault *f = op_begin(OPC_STAT, 2, 0);
	if (f && f->kind == FK_ERR) { errno = (int)f->arg; return -1; }
	int k = find(p);
	if (k < 0) { errno = ENOENT; return -1; }
	if ((m & W_OK) && !(S.n[k].mode & 0200)) { errno = EACCES; return -1; }
	return 0;
}
ssize_t readlink(const char *restrict p, char *restrict b, size_t n)
{
	if (active() && is_sim(p)) { errno = EINVAL; return -1; }
	return raw_ret(raw6(SYS_readlink, (long)p, (long)b, (long)n, 0, 0, 0));
}
uid_t geteuid(void) { return H ? 1000 : (uid_t)raw6(SYS_geteuid, 0, 0, 0, 0, 0, 0); }

static int fcntl_common(int fd, int cmd, long arg)
{
	struct sfd *s = getfd(fd);
	if (!s) return (int)raw_ret(raw6(SYS_fcntl, fd, cmd, arg, 0, 0, 0));
	if (cmd == F_GETFD) return FD_CLOEXEC;
	if (cmd == F_SETFD) return 0;
	if (cmd == F_GETFL) return s->flags;
	if (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK) {
		struct flock *l = (struct flock *)arg;
		struct fault *f = active() ? op_begin(OPC_LOCK, (u64)cmd + ((u64)l->l_type << 8) + ((u64)l->l_start << 12), 0) : 0;
		if (cmd == F_GETLK) {
			if (f && f->kind == FK_ERR) { l->l_pid = 555; return 0; } /* somebody else holds it */
			l->l_type = F_UNLCK; return 0;
		}
		if (f && f->kind == FK_ERR && l->l_type != F_UNLCK) { errno = (int)f->arg; return -1; }
		if (l->l_type == F_WRLCK && (s->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
		if (H) rec(R_LOCK, S.n[s->node].id, (u64)l->l_type, (u64)l->l_start, 0, 0);
		op_end(f);
		return 0;
	}
	errno = EINVAL; return -1;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl_common(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl_common(fd, cmd, a); }

void *mmap64(void *a, size_t n, int prot, int flags, int fd, off_t off)
{
	struct sfd *s = getfd(fd);
	if (s) {
		/* only the shared-memory index of a write-ahead log is ever mapped */
		struct node *k = &S.n[s->node];
		u64 l = strlen(k->path);
		if (l < 4 || strcmp(k->path + l - 4, "-shm") || (u64)off + n > (4u << 20)) { errno = ENODEV; return MAP_FAILED; }
		node_reserve(k, 4u << 20);
		k->pinned = 1;
		return k->data + off;
	}
	return (void *)raw_ret(raw6(SYS_mmap, (long)a, (long)n, prot, flags, fd, off));
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) { return mmap64(a, n, prot, flags, fd, off); }
int munmap(void *a, size_t n)
{
	if (H) for (int i = 0; i < MAXN; i++)
		if (S.n[i].used && S.n[i].pinned && (u8 *)a >= S.n[i].data && (u8 *)a < S.n[i].data + S.n[i].cap) return 0;
	return (int)raw_ret(raw6(SYS_munmap, (long)a, (long)n, 0, 0, 0, 0));
}
/* the machine's processors and terminal differ from user to user */
int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set)
{
	if (!H) return (int)raw_ret(raw6(SYS_sched_getaffinity, pid, (long)n, (long)set, 0, 0, 0)) < 0 ? -1 : 0;
	memset(set, 0, n);
	for (u64 i = 0; i <= mix(S.hash_seed) % 16 && i < n * 8; i++) ((u8 *)set)[i / 8] |= (u8)(1 << i % 8);
	return 0;
}
long sysconf(int name)
{
	static long (*real)(int);
	if (H && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return (long)(1 + mix(S.hash_seed) % 16);
	if (!real) real = dlsym(RTLD_NEXT, "sysconf");
	return real(name);
}
int isatty(int fd)
{
	if (H && fd >= 0 && fd <= 1 && mix(S.hash_seed) & 64) return 1;
	errno = ENOTTY; return 0;
}

/* -------------------------------------------------- the second client --- */
/* A second SQLite connection driven by the simulation: reads the whole table
 * in one transaction or replaces/deletes rows in one transaction. */
typedef struct sqlite3 sqlite3;
typedef struct sqlite3_stmt sqlite3_stmt;
static int (*q_open)(const char *, sqlite3 **, int, const char *);
static int (*q_exec)(sqlite3 *, const char *, void *, void *, void *);
static int (*q_prep)(sqlite3 *, const char *, int, sqlite3_stmt **, void *);
static int (*q_step)(sqlite3_stmt *);
static int (*q_reset)(sqlite3_stmt *);
static int (*q_fin)(sqlite3_stmt *);
static int (*q_close)(sqlite3 *);
static int (*q_bindi)(sqlite3_stmt *, int, long long);
static int (*q_bindb)(sqlite3_stmt *, int, const void *, int, void *);
static long long (*q_coli)(sqlite3_stmt *, int);
static const void *(*q_colb)(sqlite3_stmt *, int);
static int (*q_cbytes)(sqlite3_stmt *, int);

static void game_wait(u64 ns) { if (ns) sim_sleep_until(S.vtime + ns); }

static void *game_main(void *unused)
{
	(void)unused;
	in_sim = 1;
	q_open = dlsym(RTLD_DEFAULT, "sqlite3_open_v2"); q_exec = dlsym(RTLD_DEFAULT, "sqlite3_exec");
	q_prep = dlsym(RTLD_DEFAULT, "sqlite3_prepare_v2"); q_step = dlsym(RTLD_DEFAULT, "sqlite3_step");
	q_reset = dlsym(RTLD_DEFAULT, "sqlite3_reset"); q_fin = dlsym(RTLD_DEFAULT, "sqlite3_finalize");
	q_close = dlsym(RTLD_DEFAULT, "sqlite3_close"); q_bindi = dlsym(RTLD_DEFAULT, "sqlite3_bind_int64");
	q_bindb = dlsym(RTLD_DEFAULT, "sqlite3_bind_blob"); q_coli = dlsym(RTLD_DEFAULT, "sqlite3_column_int64");
	q_colb = dlsym(RTLD_DEFAULT, "sqlite3_column_blob"); q_cbytes = dlsym(RTLD_DEFAULT, "sqlite3_column_bytes");
	in_sim = 0;
	if (!q_open) { rec(R_GAME, 99, 0, 0, 0, 0); return 0; }
	for (u32 i = 0; i < S.ng; i++) {
		struct gameop *g = &S.g[i];
		if (g->at > S.vtime) sim_sleep_until(g->at);
		char path[200]; memset(path, 0, sizeof path);
		memcpy(path, g->path, g->pathlen < 199 ? g->pathlen : 199);
		int rc = 0; u32 tries = 0;
		rec(R_GAME, 1, i, 0, 0, 0);
		do {
			sqlite3 *db = 0; sqlite3_stmt *st = 0;
			static u8 rowbuf[1 << 20]; u64 rl = 0;
			rc = q_open(path, &db, 2 /*READWRITE*/, 0);
			if (!rc) rc = q_exec(db, g->kind == 1 ? "BEGIN IMMEDIATE" : "BEGIN", 0, 0, 0);
			if (!rc && g->kind != 1) {
				rc = q_prep(db, "SELECT pos, data FROM blocks ORDER BY pos", -1, &st, 0);
				while (!rc) {
					int s = q_step(st);
					if (s == 100) {
						u64 v[3]; v[0] = (u64)q_coli(st, 0); v[2] = (u64)q_cbytes(st, 1);
						v[1] = fnv(q_colb(st, 1), v[2]);
						if (rl + 24 <= sizeof rowbuf) { memcpy(rowbuf + rl, v, 24); rl += 24; }
						continue;
					}
					rc = s == 101 ? 0 : s;
					break;
				}
				if (st) q_fin(st);
				if (!rc) game_wait(g->hold);
				if (!rc && g->kind == 0) rc = q_exec(db, "COMMIT", 0, 0, 0);
				if (!rc && g->kind == 0) rec(R_GAME, 2, i, tries, rowbuf, rl);
				st = 0;
			}
			/* kind 2: what another MapEditr does, reading first and writing later */
			if (!rc && g->kind != 0) {
				rc = q_prep(db, "INSERT OR REPLACE INTO blocks (pos, data) VALUES (?, ?)", -1, &st, 0);
				sqlite3_stmt *del = 0;
				if (!rc) rc = q_prep(db, "DELETE FROM blocks WHERE pos = ?", -1, &del, 0);
				const u8 *p = g->rows;
				for (u32 k = 0; k < g->nrow && !rc; k++) {
					u64 key, isdel, n;
					memcpy(&key, p, 8); memcpy(&isdel, p + 8, 8); memcpy(&n, p + 16, 8);
					const u8 *d = p + 24;
					p = d + ((n + 7) & ~7ULL);
					sqlite3_stmt *u = isdel ? del : st;
					q_bindi(u, 1, (long long)key);
					if (!isdel) q_bindb(u, 2, d, (int)n, 0);
					int s = q_step(u);
					if (s != 101) rc = s;
					q_reset(u);
					if (!rc && g->hold) game_wait(g->hold / (g->nrow ? g->nrow : 1));
				}
				if (st) q_fin(st);
				if (del) q_fin(del);
				if (!rc) {
					rc = q_exec(db, "COMMIT", 0, 0, 0);
					/* a game retries its commit for a while */
					for (int z = 0; z < 20 && (rc & 255) == 5; z++) {
						game_wait(g->retry + 1000);
						rc = q_exec(db, "COMMIT", 0, 0, 0);
					}
				}
				if (!rc && g->kind == 2) rec(R_GAME, 5, i, tries, rowbuf, rl);
				if (!rc && g->kind == 1) rec(R_GAME, 3, i, tries, 0, 0);
			}
			if (rc) { if (db) q_exec(db, "ROLLBACK", 0, 0, 0); rec(R_GAME, 4, i, (u64)rc, 0, 0); }
			if (db) q_close(db);
			if (rc) game_wait(g->retry);
		} while (rc && ++tries < g->tries);
	}
	return 0;
}

/* ------------------------------------------- edges of the program itself */
/* The program is also built with an edge callback: the first hits of every
 * edge are places where the scheduler may switch threads. */
static u8 hits[32768];
void __sanitizer_cov_trace_pc_guard_init(u32 *start, u32 *stop)
{
	for (u32 *g = start; g < stop; g++) if (!*g) *g = ++S.nguard;
}
void __sanitizer_cov_trace_pc_guard(u32 *g)
{
	u32 k = *g;
	if (!H || !me || in_sim || k >= sizeof hits || !S.main_started) return;
	if (hits[k] >= S.fine) return;
	if (!hits[k]++) SHM[SIM_EDGES + k / 8] |= (u8)(1u << (k & 7));
	if (me->is_game) return;
	H->steps++; S.vtime += 5;
	if (due()) step_slow();
}
