/* Records, and ends the process at, chosen operations on checkpoint files.
 *   VT_OPLOG   trace to append the operations to, VT_SCN number of the scenario
 *   VT_KILL_AT kill the process instead of operation number n (from 1); VT_KILL_HALF=1: a write is half done first
 * Only operations that change files in a directory named "checkpoint" count. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int ops = 0, busy = 0;
static const char* name_of(const char* p) {
	if (!p) return 0;
	const char* d = strstr(p, "/checkpoint/");
	return d ? d + 12 : 0;
}
static const char* fd_name(int fd, char* buf, size_t n) {
	char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
	ssize_t k = readlink(l, buf, n - 1);
	if (k <= 0) return 0;
	buf[k] = 0;
	return name_of(buf);
}
/* what a file name stands for */
static void part(const char* f, char* p, int* it, int* g) {
	char tail[256]; *it = -1; *g = 0; strcpy(p, "other");
	if (sscanf(f, "checkpoint_%d.%200s", it, tail) == 2) ;
	else if (sscanf(f, "checkpointG_%d.%200s", it, tail) == 2) *g = 1;
	else return;
	if (strstr(tail, "locktest")) return; /* a passing trial of MPI-IO */
	if (!strcmp(tail, "stat")) strcpy(p, "stat");
	else if (!strncmp(tail, "data", 4)) strcpy(p, "data");
}
/* 1: the caller is to be ended after half of it */
static int op(const char* kind, const char* file, const char* to) {
	if (busy || getenv("VT_OPS_OFF")) return 0;
	busy = 1;
	const char* log = getenv("VT_OPLOG"); const char* at = getenv("VT_KILL_AT");
	ops++;
	const char* r = getenv("OMPI_COMM_WORLD_RANK"); const char* kr = getenv("VT_KILL_RANK");
	int kill_now = at && atoi(at) == ops && (!r || atoi(r) == (kr ? atoi(kr) : 0));
	int half = kill_now && getenv("VT_KILL_HALF") && !strcmp(kind, "write");
	if (log && !(kill_now && !half)) {
		char b[700];
		char p1[16], p2[16]; int i1, i2, g1, g2;
		part(file, p1, &i1, &g1); part(to ? to : "", p2, &i2, &g2);
		int k = snprintf(b, sizeof b, "{\"e\":\"Op\",\"s\":%d,\"kind\":\"%s\",\"part\":\"%s\",\"it\":%d,\"g\":%d,\"topart\":\"%s\",\"toit\":%d,\"tog\":%d}\n",
			getenv("VT_SCN") ? atoi(getenv("VT_SCN")) : 0, kind, p1, i1, g1, p2, i2, g2);
		int fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_APPEND | O_CREAT, 0644);
		if (fd >= 0) { syscall(SYS_write, fd, b, k); syscall(SYS_close, fd); }
	}
	busy = 0;
	if (kill_now && !half) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }
	return half;
}
static void end(void) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }
#define REAL(f) static __typeof__(&f) real; if (!real) real = (__typeof__(&f)) dlsym(RTLD_NEXT, #f)

static void opened(const char* p, int flags) {
	const char* n = name_of(p);
	if (n && (flags & (O_WRONLY | O_RDWR)) && ((flags & O_TRUNC) || ((flags & O_CREAT) && access(p, F_OK) != 0))) op("create", n, 0);
}
int open(const char* p, int flags, ...) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); opened(p, flags); return syscall(SYS_openat, AT_FDCWD, p, flags, m); }
int open64(const char* p, int flags, ...) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); opened(p, flags); return syscall(SYS_openat, AT_FDCWD, p, flags, m); }
int openat(int d, const char* p, int flags, ...) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); opened(p, flags); return syscall(SYS_openat, d, p, flags, m); }
FILE* fopen(const char* p, const char* m) { REAL(fopen); if (m[0] != 'r') opened(p, O_WRONLY | O_CREAT | (m[0] == 'w' ? O_TRUNC : 0)); return real(p, m); }
FILE* fopen64(const char* p, const char* m) { REAL(fopen64); if (m[0] != 'r') opened(p, O_WRONLY | O_CREAT | (m[0] == 'w' ? O_TRUNC : 0)); return real(p, m); }
static void wr(int fd, const void* b, size_t n, off_t o) {
	char buf[4096]; const char* f = fd_name(fd, buf, sizeof buf);
	if (f && op("write", f, 0)) { if (o >= 0) syscall(SYS_pwrite64, fd, b, n / 2, o); else syscall(SYS_write, fd, b, n / 2); end(); }
}
ssize_t write(int fd, const void* b, size_t n) { wr(fd, b, n, -1); return syscall(SYS_write, fd, b, n); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { wr(fd, b, n, o); return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { wr(fd, b, n, o); return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int n) { if (n > 0) wr(fd, v[0].iov_base, v[0].iov_len, -1); return syscall(SYS_writev, fd, v, n); }
ssize_t pwritev(int fd, const struct iovec* v, int n, off_t o) { REAL(pwritev); if (n > 0) wr(fd, v[0].iov_base, v[0].iov_len, o); return real(fd, v, n, o); }
ssize_t pwritev64(int fd, const struct iovec* v, int n, off64_t o) { REAL(pwritev64); if (n > 0) wr(fd, v[0].iov_base, v[0].iov_len, o); return real(fd, v, n, o); }
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) { REAL(fwrite); if (fileno(f) >= 0) wr(fileno(f), b, s * n, -1); return real(b, s, n, f); }
int rename(const char* a, const char* b) { const char* n = name_of(a); const char* m = name_of(b); if (n || m) op("rename", n ? n : "", m ? m : ""); return syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b); }
int unlink(const char* p) { const char* n = name_of(p); if (n && access(p, F_OK) == 0) op("unlink", n, 0); return syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int unlinkat(int d, const char* p, int fl) { const char* n = name_of(p); if (n && access(p, F_OK) == 0) op("unlink", n, 0); return syscall(SYS_unlinkat, d, p, fl); }
int remove(const char* p) { REAL(remove); const char* n = name_of(p); if (n && access(p, F_OK) == 0) { op("unlink", n, 0); } return real(p); }
int ftruncate(int fd, off_t n) { char buf[4096]; const char* f = fd_name(fd, buf, sizeof buf); if (f) op("truncate", f, 0); return syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off64_t n) { char buf[4096]; const char* f = fd_name(fd, buf, sizeof buf); if (f) op("truncate", f, 0); return syscall(SYS_ftruncate, fd, n); }
