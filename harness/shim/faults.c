// LD_PRELOAD shim: makes the n-th read, write or seek on one file of the program under test fail,
// come out short, or be interrupted.
//   OVF_FILE  path of the file, or "-" for the standard output
//   OVF_OP    read | write | seek
//   OVF_NTH   0-based index of the first operation that is hit
//   OVF_MODE  sticky | once | short | intr
//   OVF_ERRNO error number for sticky and once
//   OVF_LOG   file that gets "hit" once an operation was hit, and the number of operations at exit
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static long count, nth = -1;
static int hits;

static int is_target(int fd) {
	const char *f = getenv("OVF_FILE");
	struct stat a, b;
	if (!f)
		return 0;
	if (!strcmp(f, "-"))
		return fd == 1;
	if (fd <= 2 || fstat(fd, &a) || stat(f, &b))
		return 0;
	return a.st_dev == b.st_dev && a.st_ino == b.st_ino;
}

static void record(void) {
	const char *l = getenv("OVF_LOG");
	static int done;
	if (hits++ || done || !l)
		return;
	done = 1;
	int e = errno, fd = open(l, O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd >= 0) {
		static ssize_t (*w)(int, const void *, size_t);
		w = (ssize_t(*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
		w(fd, "hit", 3);
		close(fd);
	}
	errno = e;
}

// 0: go on; -1: fail with errno set; 1: short
static int decide(const char *op, int fd) {
	const char *o = getenv("OVF_OP"), *m = getenv("OVF_MODE"), *n = getenv("OVF_NTH"), *e = getenv("OVF_ERRNO");
	if (!o || !m || !n || strcmp(o, op) || !is_target(fd))
		return 0;
	nth = atol(n);
	long k = count++;
	int from_then_on = !strcmp(m, "sticky") || !strcmp(m, "short");
	if (from_then_on ? k < nth : k != nth)
		return 0;
	if (!strcmp(m, "short")) {
		record();
		return 1;
	}
	record();
	errno = !strcmp(m, "intr") ? EINTR : e ? atoi(e) : EIO;
	return -1;
}

#define NEXT(name) \
	static __typeof__(name) *next; \
	if (!next) \
		next = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

ssize_t read(int fd, void *p, size_t n) {
	NEXT(read);
	int d = decide("read", fd);
	return d < 0 ? -1 : next(fd, p, d && n > 1 ? n / 2 : n);
}
ssize_t pread(int fd, void *p, size_t n, off_t o) {
	NEXT(pread);
	int d = decide("read", fd);
	return d < 0 ? -1 : next(fd, p, d && n > 1 ? n / 2 : n, o);
}
ssize_t pread64(int fd, void *p, size_t n, off64_t o) {
	NEXT(pread64);
	int d = decide("read", fd);
	return d < 0 ? -1 : next(fd, p, d && n > 1 ? n / 2 : n, o);
}
ssize_t readv(int fd, const struct iovec *v, int n) {
	NEXT(readv);
	int d = decide("read", fd);
	return d < 0 ? -1 : next(fd, v, d && n > 1 ? n / 2 : n);
}
ssize_t write(int fd, const void *p, size_t n) {
	NEXT(write);
	int d = decide("write", fd);
	return d < 0 ? -1 : next(fd, p, d && n > 1 ? n / 2 : n);
}
ssize_t pwrite64(int fd, const void *p, size_t n, off64_t o) {
	NEXT(pwrite64);
	int d = decide("write", fd);
	return d < 0 ? -1 : next(fd, p, d && n > 1 ? n / 2 : n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
	NEXT(writev);
	int d = decide("write", fd);
	return d < 0 ? -1 : next(fd, v, d && n > 1 ? n / 2 : n);
}
off_t lseek(int fd, off_t o, int w) {
	NEXT(lseek);
	return decide("seek", fd) < 0 ? -1 : next(fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) {
	NEXT(lseek64);
	return decide("seek", fd) < 0 ? -1 : next(fd, o, w);
}

__attribute__((destructor)) static void finish(void) {
	const char *l = getenv("OVF_LOG");
	if (!l || hits)
		return;
	FILE *f = fopen(l, "w");
	if (f) {
		fprintf(f, "%ld", count);
		fclose(f);
	}
}
