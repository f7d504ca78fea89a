/* Environment shim linked into the server under test (never into /repo's own build).
 *
 * It makes the environment of the server a controlled input:
 *   - the wall clock (gettimeofday/time/clock_gettime(CLOCK_REALTIME)) is read from shared memory;
 *   - accepted sockets can get a small send buffer; socket writes can be cut short;
 *   - writes to regular files can fail (ENOSPC) from the Nth one on;
 *   - file-system mutations are numbered and the process group can be killed at the Nth;
 *   - a forked child can be held until the driver releases it.
 * system("cp a b") is carried out here, in two halves, so that a kill can land inside the copy.
 * Everything is off unless SCSHIM names a control file.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

struct ctl {
	volatile uint64_t clock_on;      /* 0  */
	volatile int64_t  sec;           /* 8  */
	volatile int64_t  usec;          /* 16: since sec, 0.. (one word, so that a change of the time is one step) */
	volatile uint64_t tod_calls;     /* 24 */
	volatile uint64_t sndbuf;        /* 32: 0 = leave */
	volatile uint64_t wcap;          /* 40: max bytes per socket write/sendfile, 0 = no cap */
	volatile uint64_t fs_ops;        /* 48: mutations counted */
	volatile uint64_t kill_at;       /* 56: kill group before executing op number kill_at (1-based) */
	volatile uint64_t fail_after;    /* 64: 0 = off; n: the nth and later regular-file writes fail */
	volatile uint64_t file_writes;   /* 72 */
	volatile uint64_t hold_child;    /* 80: forked child waits while non-zero */
	volatile uint64_t held;          /* 88: number of children that reached the hold */
	volatile uint64_t released;      /* 96: children that left */
	volatile uint64_t fs_on;         /* 104: count/kill only if non-zero */
	volatile uint64_t eagain;        /* 112: every nth socket write returns EAGAIN */
	volatile uint64_t sock_writes;   /* 120 */
	volatile uint64_t forks;         /* 128 */
	volatile uint64_t wpart;         /* 136: max bytes per regular-file write, 0 = no cap */
	volatile uint64_t flush_done;    /* 144: renames executed */
	volatile uint64_t fail_count;    /* 152: how many writes failed */
	volatile uint64_t log_on;        /* 160 */
	volatile uint64_t fail_trunc;    /* 168: ftruncate fails when non-zero */
	volatile uint64_t rcap;          /* 176: max bytes per socket read, 0 = no cap */
	volatile uint64_t ewait;         /* 184: epoll_wait returns after at most this many ms, 0 = no cap */
	volatile uint64_t fail_cp;       /* 192: copying a file stops half way */
	volatile uint64_t fail_open;     /* 200: files can not be created */
	volatile uint64_t kill_child;    /* 208: kill_at concerns a forked child only, and nobody else is killed */
	volatile uint64_t block;         /* 216: sockets (bit n: descriptor n) that take nothing */
	volatile uint64_t daemon;        /* 224: the next fork puts the server into the background; it does not sleep */
	volatile uint64_t sigs;          /* 232: after every so many calls a signal arrives (SIGCHLD or SIGALRM) */
	volatile uint64_t calls;         /* 240 */
	volatile uint64_t fail_n;        /* 248: only so many writes from the nth on fail, 0 = all */
	volatile uint64_t pid_watch;     /* 256: count renames while the file SCPID is not there */
	volatile uint64_t pid_gone;      /* 264 */
};
static struct ctl *C;
static int logfd = -1, is_child;

__attribute__((constructor)) static void shim_init(void) {
	const char *p = getenv("SCSHIM");
	if (!p) return;
	int fd = open(p, O_RDWR | O_CLOEXEC);
	if (fd < 0) return;
	void *m = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	close(fd);
	if (m != MAP_FAILED) C = (struct ctl *)m;
}

#define REAL(name) static __typeof__(&name) real_##name; \
	if (!real_##name) real_##name = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static void mut(const char *what, const char *path) {
	if (!C || !C->fs_on) return;
	uint64_t n = __sync_add_and_fetch(&C->fs_ops, 1);
	if (C->log_on) {
		if (logfd < 0) { const char *l = getenv("SCSHIM_LOG"); REAL(open); if (l) logfd = real_open(l, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600); }
		if (logfd >= 0) { dprintf(logfd, "%llu %d %s %s\n", (unsigned long long)n, (int)getpid(), what, path ? path : ""); }
	}
	if (C->kill_child) { if (C->kill_at && n == C->kill_at && is_child) { kill(getpid(), SIGKILL); for (;;) pause(); } return; }
	if (C->kill_at && n == C->kill_at) { kill(0, SIGKILL); for (;;) pause(); }
	/* once the kill point is reached nobody else in the group may go on */
	if (C->kill_at && n > C->kill_at) { for (;;) pause(); }
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
	if (C && C->clock_on) {
		int64_t u = C->usec; tv->tv_sec = C->sec + u / 1000000; tv->tv_usec = u % 1000000;
		__sync_add_and_fetch(&C->tod_calls, 1);
		return 0;
	}
	struct timespec ts;
	REAL(clock_gettime);
	real_clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
	if (C && C->clock_on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
		int64_t u = C->usec; ts->tv_sec = C->sec + u / 1000000; ts->tv_nsec = u % 1000000 * 1000;
		__sync_add_and_fetch(&C->tod_calls, 1);
		return 0;
	}
	REAL(clock_gettime);
	return real_clock_gettime(id, ts);
}
time_t time(time_t *t) {
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}

int accept4(int fd, struct sockaddr *a, socklen_t *l, int flags) {
	REAL(accept4);
	int s = real_accept4(fd, a, l, flags);
	if (s >= 0 && C && C->sndbuf) {
		int v = (int)C->sndbuf;
		setsockopt(s, SOL_SOCKET, SO_SNDBUF, &v, sizeof v);
	}
	return s;
}

/* a signal arrives when a call has just returned */
static ssize_t after(ssize_t r) {
	if (C && C->sigs && !is_child && gettid() == getpid()) {
		uint64_t k = __sync_add_and_fetch(&C->calls, 1);
		if (k % C->sigs == 0) raise(k / C->sigs % 3 ? SIGCHLD : SIGALRM);
	}
	return r;
}

static int is_sock(int fd) { struct stat st; return fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode); }
static int is_reg(int fd) { struct stat st; return fstat(fd, &st) == 0 && S_ISREG(st.st_mode); }

static size_t sock_cap(size_t n, int *again) {
	*again = 0;
	if (!C) return n;
	uint64_t k = __sync_add_and_fetch(&C->sock_writes, 1);
	if (C->eagain && k % C->eagain == 0) { *again = 1; return n; }
	if (C->wcap && n > C->wcap) return C->wcap;
	return n;
}

static int file_fail(size_t *n) {
	if (!C) return 0;
	uint64_t k = __sync_add_and_fetch(&C->file_writes, 1);
	if (C->fail_after && k >= C->fail_after && (!C->fail_n || k < C->fail_after + C->fail_n)) { __sync_add_and_fetch(&C->fail_count, 1); errno = ENOSPC; return 1; }
	if (C->wpart && *n > C->wpart) *n = C->wpart;
	return 0;
}

ssize_t write(int fd, const void *b, size_t n) {
	REAL(write);
	if (C && n > 0 && fd > 2) {
		if (is_sock(fd)) {
			if (fd < 64 && (C->block >> fd & 1)) { errno = EAGAIN; return after(-1); }
			int again; n = sock_cap(n, &again);
			if (again) { errno = EAGAIN; return after(-1); }
		} else if (is_reg(fd) && fd != logfd) {
			if (file_fail(&n)) return after(-1);
			mut("write", "");
		}
	}
	return after(real_write(fd, b, n));
}
ssize_t send(int fd, const void *b, size_t n, int flags) {
	REAL(send);
	if (C && n > 0) {
		int again; n = sock_cap(n, &again);
		if (again) { errno = EAGAIN; return after(-1); }
	}
	return after(real_send(fd, b, n, flags));
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
	REAL(pwrite);
	if (C && n > 0 && is_reg(fd)) { if (file_fail(&n)) return after(-1); mut("write", ""); }
	return after(real_pwrite(fd, b, n, o));
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
	REAL(pwrite64);
	if (C && n > 0 && is_reg(fd)) { if (file_fail(&n)) return after(-1); mut("write", ""); }
	return after(real_pwrite64(fd, b, n, o));
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
	REAL(sendfile64);
	if (C && is_sock(o)) {
		int again; n = sock_cap(n, &again);
		if (again) { errno = EAGAIN; return after(-1); }
	}
	return after(real_sendfile64(o, i, off, n));
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
	REAL(sendfile);
	if (C && is_sock(o)) {
		int again; n = sock_cap(n, &again);
		if (again) { errno = EAGAIN; return after(-1); }
	}
	return after(real_sendfile(o, i, off, n));
}
ssize_t read(int fd, void *b, size_t n) {
	REAL(read);
	if (C && C->rcap && n > C->rcap && is_sock(fd)) n = C->rcap;
	return after(real_read(fd, b, n));
}

int epoll_wait(int ep, struct epoll_event *ev, int n, int timeout) {
	REAL(epoll_wait);
	if (C && C->ewait && timeout > (int)C->ewait) timeout = (int)C->ewait;
	return (int)after(real_epoll_wait(ep, ev, n, timeout));
}

int unlink(const char *p) { REAL(unlink); mut("unlink", p); return real_unlink(p); }
int rename(const char *a, const char *b) {
	REAL(rename); mut("rename", b);
	if (C && C->pid_watch && getenv("SCPID")) {
		int e = errno;
		if (access(getenv("SCPID"), F_OK)) __sync_add_and_fetch(&C->pid_gone, 1);
		errno = e;
	}
	int r = real_rename(a, b);
	if (C && r == 0) __sync_add_and_fetch(&C->flush_done, 1);
	return r;
}
int link(const char *a, const char *b) { REAL(link); mut("link", b); return real_link(a, b); }
int ftruncate(int fd, off_t l) {
	REAL(ftruncate); mut("ftruncate", "");
	if (C && C->fail_trunc) { errno = ENOSPC; return -1; }
	return real_ftruncate(fd, l);
}
int ftruncate64(int fd, off64_t l) {
	REAL(ftruncate64); mut("ftruncate", "");
	if (C && C->fail_trunc) { errno = ENOSPC; return -1; }
	return real_ftruncate64(fd, l);
}
int open(const char *p, int flags, ...) {
	REAL(open);
	mode_t m = 0;
	if (C && C->fail_open && (flags & O_CREAT) && (flags & (O_EXCL | O_TRUNC))) { errno = ENOSPC; return -1; }
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); mut("open", p); }
	else if (flags & O_TRUNC) mut("open", p);
	return real_open(p, flags, m);
}
int open64(const char *p, int flags, ...) {
	REAL(open64);
	mode_t m = 0;
	if (C && C->fail_open && (flags & O_CREAT) && (flags & (O_EXCL | O_TRUNC))) { errno = ENOSPC; return -1; }
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); mut("open", p); }
	else if (flags & O_TRUNC) mut("open", p);
	return real_open64(p, flags, m);
}

pid_t fork(void) {
	REAL(fork);
	if (C && C->daemon) { C->daemon = 0; return real_fork(); }
	if (C) __sync_add_and_fetch(&C->forks, 1);
	pid_t r = real_fork();
	if (r == 0) is_child = 1;
	if (r == 0 && C && C->hold_child) {
		__sync_add_and_fetch(&C->held, 1);
		while (C->hold_child) usleep(200);
		__sync_add_and_fetch(&C->released, 1);
	}
	return r;
}

unsigned sleep(unsigned s) {
	REAL(sleep);
	return C ? 0 : real_sleep(s);
}

/* the words of a command as the shell would see them; -1 if it is more than that */
static int words(const char *p, char w[4][2048]) {
	int n = 0;
	for (;;) {
		while (*p == ' ') p++;
		if (!*p) return n;
		if (n == 4) return -1;
		size_t l = 0; int q = 0;
		for (; *p && (q || *p != ' '); p++) {
			if (l >= 2047) return -1;
			if (*p == '\'' && q != '"') { q = q ? 0 : '\''; continue; }
			if (*p == '"' && q != '\'') { q = q ? 0 : '"'; continue; }
			if (*p == '\\' && q != '\'') { if (q || !p[1]) return -1; p++; }
			else if (strchr("$`", *p) && q != '\'') return -1;
			else if (!q && strchr("|&;<>()*?[]#~=%!\n\t", *p)) return -1;
			w[n][l++] = *p;
		}
		if (q) return -1;
		w[n++][l] = 0;
	}
}

/* cp a b, with kill points before, in the middle and after */
int system(const char *cmd) {
	REAL(system);
	static char w[4][2048];
	int k = C ? words(cmd, w) : -1, dash = k == 4 && !strcmp(w[1], "--");
	if (k != 3 + dash || strcmp(w[0], "cp") || (!dash && (w[1][0] == '-' || w[2][0] == '-'))) return real_system(cmd);
	const char *a = w[1 + dash], *b = w[2 + dash];
	REAL(open); REAL(write); REAL(read);
	mut("cp-open", b);
	int i = real_open(a, O_RDONLY | O_CLOEXEC);
	if (i < 0) return 256;
	if (C->fail_cp && lseek(i, 0, SEEK_END) == 0) { close(i); return 256; }
	lseek(i, 0, SEEK_SET);
	int o = real_open(b, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
	if (o < 0) { close(i); return 256; }
	struct stat st; fstat(i, &st);
	off_t half = st.st_size / 2, pos = 0; int did = 0;
	static char buf[65536];
	for (;;) {
		if (!did && pos >= half) { mut("cp-half", b); did = 1; }
		if (did && C->fail_cp) break;
		/* holes stay holes */
		off_t to = did ? st.st_size : half, at = lseek(i, pos, SEEK_DATA);
		if (at < 0 || at > to) at = to;
		if (at > pos) { pos = at; if (syscall(SYS_ftruncate, o, pos)) break; lseek(o, pos, SEEK_SET); lseek(i, pos, SEEK_SET); }
		if (pos >= to) { if (did) break; continue; }
		lseek(i, pos, SEEK_SET);
		size_t want = sizeof buf;
		if ((off_t)want > to - pos) want = to - pos;
		ssize_t n = real_read(i, buf, want);
		if (n <= 0) break;
		for (ssize_t d = 0; d < n;) { ssize_t w = real_write(o, buf + d, n - d); if (w <= 0) break; d += w; }
		pos += n;
	}
	if (C->fail_cp) { close(i); close(o); return 256; }
	mut("cp-done", b);
	close(i); close(o);
	return 0;
}
