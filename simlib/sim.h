/* Layout shared between the preloaded simulator (sim.c) and the runner
 * (runner/src/exec.rs). All fields little-endian, naturally aligned. */
#ifndef SIM_H
#define SIM_H
#include <stdint.h>

#define SIM_EDGES    4096ULL            /* bitmap of program edges reached */
#define SIM_MAGIC 0x4d41504544534d31ULL
#define SIM_SHM_SIZE (192ULL << 20)
#define SIM_IN_OFF   8192ULL            /* input blob follows the header pages */

enum { /* operation classes; every class has its own running index */
	OPC_STEP = 0, OPC_OPEN, OPC_READ, OPC_WRITE, OPC_TRUNC, OPC_SYNC,
	OPC_UNLINK, OPC_LOCK, OPC_MALLOC, OPC_STDIN, OPC_STDOUT, OPC_STAT,
	OPC_THREAD, OPC_FUTEX, OPC_DISK /* index over all disk operations */,
	OPC_MUT /* index over all mutating disk operations */, OPC_N = 16
};

enum { /* fault kinds */
	FK_ERR = 1,       /* fail with errno=arg, no effect */
	FK_ERR_AFTER = 2, /* take effect, then fail with errno=arg */
	FK_SHORT = 3,     /* transfer only part (arg per mille of the length) */
	FK_CRASH = 4,     /* process dies before the operation */
	FK_CRASH_AFTER = 5, /* process dies right after the operation */
	FK_STALL = 6,     /* operation takes arg extra nanoseconds */
	FK_SPURIOUS = 7,  /* futex wait returns without a wake */
	FK_TORN_CRASH = 8, /* arg per mille of a write reach the disk, then the process dies */
	FK_GARBLE = 9     /* a b-tree page is read as garbage */
};

struct sim_hdr { /* first page of the shared file; outputs unless noted */
	uint64_t magic;       /* in */
	uint64_t in_len;      /* in: length of the input blob */
	uint64_t log_off;     /* in: where the log starts */
	uint64_t log_len;     /* bytes of log written */
	uint64_t steps;
	uint64_t vtime;
	uint64_t ev_hash;     /* hash over every intercepted event */
	uint64_t sched_hash;  /* hash over every thread switch */
	uint64_t switches;
	uint64_t preempts;
	uint64_t counts[OPC_N];
	uint64_t fired[32];   /* per fault slot: how often it fired */
	uint32_t verdict;     /* 0 running/killed, 1 exit, 2 crash, 3 deadlock, 4 limit, 5 log full, 6 harness */
	uint32_t exit_code;
	uint32_t threads_alive; /* simulated threads not finished at exit */
	uint32_t seams;       /* unused */
	uint64_t max_alloc;   /* largest single allocation request */
	uint64_t sum_alloc;
	uint64_t max_live;    /* most heap bytes in use at a time */
};

enum { /* log record types */
	R_WRITE = 1, R_TRUNC, R_CREATE, R_UNLINK, R_FSYNC, R_DSYNC, R_OUT, R_IN,
	R_OPEN, R_FAULT, R_SWITCH, R_CRASH, R_EXIT, R_THREAD, R_GAME, R_STRAY,
	R_LOCK, R_PANICMARK, R_RENAME, R_INREQ, R_CLOSE, R_OOM, R_CHMOD
};

struct sim_rec {
	uint32_t type, len;   /* len: payload bytes (padded to 8) */
	uint64_t step, vtime;
	uint32_t tid, a;
	uint64_t b, c;
};
#endif
