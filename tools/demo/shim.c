/* Faults for the demonstrations: DIE_AT_WRITE=n ends the process at the n-th pwrite to a
 * file whose name ends in DIE_FILE; FAIL_READ=n fails the n-th pread of DIE_FILE with EIO.
 * READ_MS=n makes each pread of DIE_FILE take n ms; WRITE_MS=n each write to the terminal. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/types.h>
static int is(int fd) {
	const char *f = getenv("DIE_FILE"); char p[64], b[4096]; ssize_t n;
	if (!f) return 0;
	snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
	n = readlink(p, b, sizeof b - 1); if (n < 0) return 0; b[n] = 0;
	size_t l = strlen(f); return (size_t)n >= l && !strcmp(b + n - l, f);
}
static long num(const char *k) { const char *v = getenv(k); return v ? atol(v) : -1; }
static long nw, nr, ns;
static ssize_t wr(int fd, const void *b, size_t n, off_t o, const char *s) {
	ssize_t (*f)(int, const void *, size_t, off_t) = dlsym(RTLD_NEXT, s);
	if (is(fd)) {
		nw++;
		if (nw == num("DIE_AT_WRITE")) _exit(137);
		if (nw == num("FAIL_WRITE")) { errno = ENOSPC; return -1; }
	}
	return f(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return wr(fd, b, n, o, "pwrite"); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return wr(fd, b, n, o, "pwrite64"); }
static ssize_t rd(int fd, void *b, size_t n, off_t o, const char *s) {
	ssize_t (*f)(int, void *, size_t, off_t) = dlsym(RTLD_NEXT, s);
	if (is(fd)) { nr++; if (num("READ_MS") > 0) usleep(num("READ_MS") * 1000); if (nr == num("FAIL_READ")) { errno = num("FAIL_ERRNO") > 0 ? (int)num("FAIL_ERRNO") : EIO; return -1; } }
	return f(fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return rd(fd, b, n, o, "pread"); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return rd(fd, b, n, o, "pread64"); }
static int sy(int fd, const char *s) {
	int (*f)(int) = dlsym(RTLD_NEXT, s);
	if (is(fd)) { ns++; if (ns == num("FAIL_SYNC")) { errno = EIO; return -1; } if (ns == num("DIE_AT_SYNC")) _exit(137); }
	return f(fd);
}
int fsync(int fd) { return sy(fd, "fsync"); }
int fdatasync(int fd) { return sy(fd, "fdatasync"); }
ssize_t write(int fd, const void *b, size_t n) {
	ssize_t (*f)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
	if (fd == 1 && num("WRITE_MS") > 0) usleep(num("WRITE_MS") * 1000);
	return f(fd, b, n);
}
