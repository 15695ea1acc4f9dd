/*
 * simos: the simulated operating system around the command line tool.
 *
 * Preloaded into the unmodified tool. Everything the tool can learn from or do
 * to its files, its standard streams and its allocator passes through here and
 * follows a plan (file descriptor SIMOS_PLAN); what happened is recorded in
 * event order (file descriptor SIMOS_LOG). Nothing real is read or written.
 *
 * Plan lines (numbers are decimal):
 *   pattern FD                 8 textures of 1 MiB; file bytes are pattern[(pos+rot) % 1 MiB] of
 *                              texture rot / 1 MiB
 *   file I SIZE ROT            virtual file I exists; its path contains "/@sim@I@"; I = 0 is standard input
 *   openerr I ERRNO N          opening it fails, N times having succeeded
 *   openintr I N               the first N times, opening it is interrupted
 *   readerr I POS ERRNO        reads at or after POS fail
 *   staterr I ERRNO            metadata queries fail
 *   statsize I SIZE            metadata queries report this size
 *   meta I FIELD V             metadata: 0 blocks, 1 block size, 2 links, 3 type and permissions, 4 inode,
 *                              5 times, 6 device, 7 owner; 8: standard input is a file, open at position V
 *   maperr I ERRNO             mapping it fails
 *   read I N KIND              next read: 0 at most N bytes, 1 EINTR
 *   chunk I N                  every read: at most N bytes
 *   mut I POS KIND VAL         before the first read at or after POS: 0 rotation becomes VAL, 1 size becomes VAL
 *   out F N KIND               next write to stream F (1, 2): 0 at most N bytes, 1 EINTR
 *   limit F N ERRNO            stream F accepts N bytes in all, then fails (ERRNO 0: accepts nothing more)
 *   kill N AFTER               die at event N, before or after carrying it out
 *   malloc N                   the Nth allocation and all later ones fail
 *   heap N                     allocations fail while they would make more than N bytes live
 *   ro I                       file I is read-only
 *   pipe I                     file I is a named pipe: what one reader took is gone
 *   alias I HEX                the path whose bytes are HEX, and no other spelling of it, is file I too
 *   fds N                      at most N virtual files open at once
 *   maps N                     at most N mappings at once
 *   events N                   bound on the number of events
 *   steps BASE OPEN READ BYTE  steps of the control flow graph allowed in all, for each open, read and byte
 *                              (counted if the tool has been instrumented by the compiler)
 *   silent                     standard input says nothing, and does not end
 *   clock SECONDS              the time of day at the start; a millisecond passes with every event
 *   cpu LEVEL                  what CPUID reports: 0 no SSE4.1, 1 no AVX, 2 everything
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/time.h>
#include <asm/prctl.h>
#include <cpuid.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>

#define FILES 160
#define FDS 1024
#define PERIOD (1u << 20)
#define TEXTURES 8
#define SCRIPT 4096
#define MAPS 256

enum {
	EV_OPEN = 1, EV_OPEN_FAIL, EV_READ, EV_READ_FAIL, EV_STAT, EV_STAT_FAIL, EV_MMAP, EV_MMAP_FAIL,
	EV_WRITE, EV_WRITE_FAIL, EV_KILL, EV_MALLOC_FAIL, EV_LIVELOCK, EV_MUTATE, EV_CLOSE, EV_UNKNOWN,
	EV_READ_EINTR, EV_WRITE_EINTR, EV_READ_SHORT, EV_WRITE_SHORT, EV_STAT_LIE, EV_NOENT, EV_CPU,
	EV_MODIFY, EV_HEAP_FULL, EV_HEAP_PEAK, EV_OPEN_EINTR, EV_STEPS, EV_STEPS_OVER, EV_WAIT
};

struct script { uint64_t n; int kind; };
struct file {
	int exists, openerr, opened, openok, openintr, staterr, maperr, rerr, lie, mutated, mut_on, mut_kind, ro, pipe;
	uint64_t size, rot, chunk, pipe_pos, rpos, statsize, mut_pos, mut_val, meta[9];
	unsigned meta_set;
	struct script *script;
	int nscript, next;
};
struct vfd { int file; uint64_t pos; int instance; }; /* file + 1 */
struct stream { struct script *script; int nscript, next; uint64_t limit, total; int limited, err; };

static struct file files[FILES];
static struct vfd vfds[FDS];
static struct stream streams[3];
static struct { char *addr; size_t len; } maps[MAPS];
static unsigned char *pattern;
static int pattern_fd = -1, log_fd = -1, ready, instances, open_now, maps_now;
static uint64_t events, kill_at, kill_after, event_limit = 1u << 30, malloc_at, mallocs;
static uint64_t heap_limit, heap_live, heap_peak;
static int fd_limit = FDS, map_limit = MAPS, alias_file;
static char alias[64];
static int counting, silent, threads;
static uint64_t steps_open, steps_read, steps_byte, granted;
static int64_t steps_left;
static uint64_t day = 1700000000, slept;

static long raw(long n, long a, long b, long c, long d, long e, long f)
{
	long r;
	register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
			 : "rcx", "r11", "memory");
	return r;
}

struct record { uint32_t type, file; uint64_t a, b, c; uint32_t instance, payload; };

static void record(int type, int file, uint64_t a, uint64_t b, uint64_t c, int instance, const void *p, uint32_t n)
{
	struct record r = { type, file, a, b, c, instance, n };
	if (log_fd < 0)
		return;
	raw(SYS_write, log_fd, (long)&r, sizeof r, 0, 0, 0);
	if (n)
		raw(SYS_write, log_fd, (long)p, n, 0, 0, 0);
}

static void die(void)
{
	record(EV_KILL, 0, events, 0, 0, 0, 0, 0);
	raw(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0, 0);
}

/* Work. */
static void credit(uint64_t opens, uint64_t reads, uint64_t bytes)
{
	uint64_t n = opens * steps_open + reads * steps_read + bytes * steps_byte;
	granted += n;
	steps_left += n;
}

void __sanitizer_cov_trace_pc_guard(uint32_t *guard)
{
	(void)guard;
	if (counting && --steps_left < 0) {
		counting = 0;
		record(EV_STEPS_OVER, 0, granted, 0, 0, 0, 0, 0);
		raw(SYS_exit_group, 66, 0, 0, 0, 0, 0);
	}
}

void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b)
{
	(void)a, (void)b;
}

/* Nothing will ever happen that the tool waits for: 1 input, 2 a lock, 3 a signal. */
static void stuck(int what)
{
	record(EV_WAIT, what, ~0ull, 0, 0, 0, 0, 0);
	raw(SYS_exit_group, 66, 0, 0, 0, 0, 0);
}

/* Called at the start of every simulated event. */
static void event(void)
{
	events++;
	if (events == kill_at && !kill_after)
		die();
	if (events > event_limit) {
		record(EV_LIVELOCK, 0, events, 0, 0, 0, 0, 0);
		raw(SYS_exit_group, 66, 0, 0, 0, 0, 0);
	}
}

static void done(void)
{
	if (events == kill_at && kill_after)
		die();
}

static void add(struct script **s, int *n, uint64_t v, int kind)
{
	if (!*s)
		*s = mmap(0, SCRIPT * sizeof **s, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (*n < SCRIPT) {
		(*s)[*n].n = v;
		(*s)[*n].kind = kind;
		++*n;
	}
}

/* A simulated CPU: CPUID traps and reports fewer features. */
#ifndef ARCH_SET_CPUID
#define ARCH_SET_CPUID 0x1012
#endif
static int cpu_level = 2;

static void on_segv(int sig, siginfo_t *si, void *context)
{
	ucontext_t *u = context;
	greg_t *r = u->uc_mcontext.gregs;
	const unsigned char *ip = (const unsigned char *)r[REG_RIP];
	(void)si;
	if (sig == SIGSEGV && si->si_code == SI_KERNEL && ip[0] == 0x0f && ip[1] == 0xa2) {
		unsigned leaf = r[REG_RAX], sub = r[REG_RCX], a, b, c, d;
		raw(SYS_arch_prctl, ARCH_SET_CPUID, 1, 0, 0, 0, 0);
		__cpuid_count(leaf, sub, a, b, c, d);
		raw(SYS_arch_prctl, ARCH_SET_CPUID, 0, 0, 0, 0, 0);
		if (leaf == 1) {
			c &= ~(1u << 28 | 1u << 12 | 1u << 29);
			if (cpu_level == 0)
				c &= ~(1u << 0 | 1u << 9 | 1u << 19 | 1u << 20);
		}
		if (leaf == 7)
			a = b = c = d = 0;
		r[REG_RAX] = a;
		r[REG_RBX] = b;
		r[REG_RCX] = c;
		r[REG_RDX] = d;
		r[REG_RIP] += 2;
		return;
	}
	signal(sig, SIG_DFL);
}

static void set_cpu(void)
{
	struct sigaction sa;
	if (cpu_level >= 2 || raw(SYS_arch_prctl, ARCH_SET_CPUID, 0, 0, 0, 0, 0))
		return;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_segv;
	sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	sigaction(SIGSEGV, &sa, 0);
	record(EV_CPU, 0, cpu_level, 0, 0, 0, 0, 0);
}

__attribute__((constructor)) static void setup(void)
{
	char *p = getenv("SIMOS_PLAN"), *l = getenv("SIMOS_LOG"), *text, *line, *save;
	off_t size;
	int fd;
	if (!p || !l)
		return;
	fd = atoi(p);
	log_fd = atoi(l);
	size = raw(SYS_lseek, fd, 0, SEEK_END, 0, 0, 0);
	text = mmap(0, size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (raw(SYS_pread64, fd, (long)text, size, 0, 0, 0) != size) {
		record(EV_UNKNOWN, 0, size, 0, 0, 0, 0, 0);
		raw(SYS_exit_group, 65, 0, 0, 0, 0, 0);
	}
	for (line = strtok_r(text, "\n", &save); line; line = strtok_r(0, "\n", &save)) {
		char w[32];
		unsigned long long v[4] = { 0, 0, 0, 0 };
		struct file *f;
		if (sscanf(line, "%31s %llu %llu %llu %llu", w, &v[0], &v[1], &v[2], &v[3]) < 2)
			continue;
		f = &files[v[0] < FILES ? v[0] : FILES - 1];
		if (!strcmp(w, "alias")) {
			char *h = strrchr(line, ' ') + 1;
			unsigned k, b;
			for (k = 0; k + 1 < sizeof alias && sscanf(h + 2 * k, "%2x", &b) == 1; k++)
				alias[k] = b;
			alias[k] = 0;
			alias_file = v[0];
		} else if (!strcmp(w, "pattern")) {
			pattern_fd = v[0];
			pattern = mmap(0, TEXTURES * PERIOD, PROT_READ, MAP_SHARED, pattern_fd, 0);
		} else if (!strcmp(w, "file")) {
			f->exists = 1;
			f->size = v[1];
			f->rot = v[2] % (TEXTURES * PERIOD);
		} else if (!strcmp(w, "openerr")) {
			f->openerr = v[1];
			f->openok = v[2] < 1000 ? v[2] : 1000;
		} else if (!strcmp(w, "openintr"))
			f->openintr = v[1] < 1000 ? v[1] : 1000;
		else if (!strcmp(w, "readerr")) {
			f->rpos = v[1];
			f->rerr = v[2];
		} else if (!strcmp(w, "staterr"))
			f->staterr = v[1];
		else if (!strcmp(w, "statsize")) {
			f->lie = 1;
			f->statsize = v[1];
		} else if (!strcmp(w, "meta") && v[1] < 9) {
			f->meta_set |= 1u << v[1];
			f->meta[v[1]] = v[2];
		} else if (!strcmp(w, "maperr"))
			f->maperr = v[1];
		else if (!strcmp(w, "read"))
			add(&f->script, &f->nscript, v[1], v[2]);
		else if (!strcmp(w, "mut")) {
			f->mut_on = 1;
			f->mut_pos = v[1];
			f->mut_kind = v[2];
			f->mut_val = v[3];
		} else if (!strcmp(w, "out") && v[0] >= 1 && v[0] <= 2)
			add(&streams[v[0]].script, &streams[v[0]].nscript, v[1], v[2]);
		else if (!strcmp(w, "limit") && v[0] >= 1 && v[0] <= 2) {
			streams[v[0]].limited = 1;
			streams[v[0]].limit = v[1];
			streams[v[0]].err = v[2];
		} else if (!strcmp(w, "kill")) {
			kill_at = v[0];
			kill_after = v[1];
		} else if (!strcmp(w, "malloc"))
			malloc_at = v[0];
		else if (!strcmp(w, "fds"))
			fd_limit = v[0];
		else if (!strcmp(w, "heap"))
			heap_limit = v[0];
		else if (!strcmp(w, "ro"))
			f->ro = 1;
		else if (!strcmp(w, "pipe"))
			f->pipe = 1;
		else if (!strcmp(w, "maps"))
			map_limit = v[0];
		else if (!strcmp(w, "cpu"))
			cpu_level = v[0];
		else if (!strcmp(w, "events"))
			event_limit = v[0];
		else if (!strcmp(w, "chunk"))
			f->chunk = v[1];
		else if (!strcmp(w, "silent"))
			silent = 1;
		else if (!strcmp(w, "clock"))
			day = v[0];
		else if (!strcmp(w, "steps")) {
			granted = steps_left = v[0];
			steps_open = v[1];
			steps_read = v[2];
			steps_byte = v[3];
		}
	}
	munmap(text, size + 4096);
	if (files[0].exists) {
		vfds[0].file = 1;
		vfds[0].instance = ++instances;
		vfds[0].pos = files[0].meta[8];
	}
	unsetenv("LD_PRELOAD");
	set_cpu();
	ready = 1;
	counting = granted > 0;
}

/* The virtual file a path names, or -1. Paths look like .../@sim@12@anything */
static int which(const char *volatile path)
{
	const char *m = path ? strstr(path, "@sim@") : 0;
	int i;
	if (ready && path && alias_file && !strcmp((const char *)path, alias))
		return alias_file;
	if (!ready || !m)
		return -1;
	i = atoi(m + 5);
	return i > 0 && i < FILES ? i : -1;
}

static int vfile(int fd)
{
	return ready && fd >= 0 && fd < FDS ? vfds[fd].file - 1 : -1;
}

/* Attempts to change anything outside the process. They are only recorded. */
enum { MOD_OPEN = 1, MOD_CREATE, MOD_TRUNCATE, MOD_WRITE, MOD_REMOVE, MOD_RENAME, MOD_MAKE, MOD_ATTRIBUTES, MOD_MAP,
       MOD_PROCESS, MOD_TALK };

static int refuse(int i, int what)
{
	record(EV_MODIFY, i < 0 ? FILES : i, what, 0, 0, 0, 0, 0);
	errno = EROFS;
	return -1;
}

#define WRITES(flags) (((flags) & O_ACCMODE) != O_RDONLY || (flags) & (O_CREAT | O_TRUNC | O_APPEND))

static int do_open(int i, int flags)
{
	int fd;
	struct file *f = &files[i];
	int fails = f->openerr && f->opened >= f->openok;
	event();
	credit(1, 0, 0);
	if (f->openintr > 0) {
		f->openintr--;
		record(EV_OPEN_EINTR, i, 0, 0, 0, 0, 0, 0);
		done();
		errno = EINTR;
		return -1;
	}
	if (WRITES(flags)) {
		record(EV_MODIFY, i, flags & O_TRUNC ? MOD_TRUNCATE : flags & O_CREAT ? MOD_CREATE : MOD_OPEN, 0, 0, 0, 0, 0);
		if (f->exists && f->ro && !fails) {
			record(EV_OPEN_FAIL, i, EACCES, 0, 0, 0, 0, 0);
			done();
			errno = EACCES;
			return -1;
		}
		if (!f->exists && flags & O_CREAT)
			f->exists = 1;
		if (flags & O_TRUNC && !fails)
			f->size = 0;
	}
	if (!f->exists || fails || open_now >= fd_limit) {
		int e = !f->exists ? ENOENT : fails ? f->openerr : EMFILE;
		record(f->exists ? EV_OPEN_FAIL : EV_NOENT, i, e, 0, heap_limit ? heap_live : 0, 0, 0, 0);
		done();
		errno = e;
		return -1;
	}
	fd = raw(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDONLY | O_CLOEXEC, 0, 0, 0);
	if (fd < 0 || fd >= FDS) {
		errno = EMFILE;
		return -1;
	}
	vfds[fd].file = i + 1;
	vfds[fd].pos = 0;
	vfds[fd].instance = ++instances;
	open_now++;
	f->opened++;
	record(EV_OPEN, i, fd, 0, heap_limit ? heap_live : 0, vfds[fd].instance, 0, 0);
	done();
	return fd;
}

#define REAL_OPEN(call)                                                                                              \
	long r = call;                                                                                                \
	if (r < 0) {                                                                                                  \
		errno = -r;                                                                                           \
		return -1;                                                                                            \
	}                                                                                                             \
	return r

int openat(int dir, const char *path, int flags, ...)
{
	va_list ap;
	int mode, i = which(path);
	va_start(ap, flags);
	mode = va_arg(ap, int);
	va_end(ap);
	if (i >= 0)
		return do_open(i, flags);
	if (ready && WRITES(flags) && strcmp(path, "/dev/null"))
		return refuse(-1, MOD_OPEN);
	REAL_OPEN(raw(SYS_openat, dir, (long)path, flags, mode, 0, 0));
}
int open(const char *path, int flags, ...)
{
	va_list ap;
	int mode;
	va_start(ap, flags);
	mode = va_arg(ap, int);
	va_end(ap);
	return openat(AT_FDCWD, path, flags, mode);
}
int open64(const char *path, int flags, ...)
{
	va_list ap;
	int mode;
	va_start(ap, flags);
	mode = va_arg(ap, int);
	va_end(ap);
	return openat(AT_FDCWD, path, flags, mode);
}
int openat64(int dir, const char *path, int flags, ...)
{
	va_list ap;
	int mode;
	va_start(ap, flags);
	mode = va_arg(ap, int);
	va_end(ap);
	return openat(dir, path, flags, mode);
}

int access(const char *path, int mode)
{
	int i = which(path);
	if (i >= 0) {
		if (files[i].exists)
			return 0;
		errno = ENOENT;
		return -1;
	}
	REAL_OPEN(raw(SYS_faccessat, AT_FDCWD, (long)path, mode, 0, 0, 0));
}

int close(int fd)
{
	if (vfile(fd) >= 0) {
		record(EV_CLOSE, vfile(fd), fd, 0, 0, vfds[fd].instance, 0, 0);
		vfds[fd].file = 0;
		if (fd)
			open_now--;
	}
	if (ready && fd == log_fd)
		return 0;
	REAL_OPEN(raw(SYS_close, fd, 0, 0, 0, 0, 0));
}

static int track_dup(int old, long r)
{
	if (r < 0) {
		errno = -r;
		return -1;
	}
	if (vfile(old) >= 0 && r < FDS) {
		vfds[r] = vfds[old];
		open_now++;
	}
	return r;
}
int dup(int fd)
{
	return track_dup(fd, raw(SYS_dup, fd, 0, 0, 0, 0, 0));
}
int fcntl(int fd, int cmd, ...)
{
	va_list ap;
	long a;
	va_start(ap, cmd);
	a = va_arg(ap, long);
	va_end(ap);
	if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)
		return track_dup(fd, raw(SYS_fcntl, fd, cmd, a, 0, 0, 0));
	REAL_OPEN(raw(SYS_fcntl, fd, cmd, a, 0, 0, 0));
}
int fcntl64(int fd, int cmd, ...)
{
	va_list ap;
	long a;
	va_start(ap, cmd);
	a = va_arg(ap, long);
	va_end(ap);
	return fcntl(fd, cmd, a);
}

static void content(struct file *f, uint64_t pos, unsigned char *to, size_t n)
{
	uint64_t o = (pos + f->rot) % PERIOD;
	while (n) {
		size_t k = PERIOD - o < n ? PERIOD - o : n;
		memcpy(to, pattern + f->rot / PERIOD * PERIOD + o, k);
		to += k;
		n -= k;
		o = 0;
	}
}

/* One read event at *pos, scattered over iov. */
static ssize_t do_read(int fd, int i, uint64_t *pos, const struct iovec *iov, int niov)
{
	struct file *f = &files[i];
	size_t want = 0, n, left;
	int k;
	uint64_t p;
	event();
	for (k = 0; k < niov; k++)
		want += iov[k].iov_len;
	if (f->mut_on && !f->mutated && *pos >= f->mut_pos) {
		f->mutated = 1;
		if (f->mut_kind == 0)
			f->rot = f->mut_val % (TEXTURES * PERIOD);
		else
			f->size = f->mut_val;
		record(EV_MUTATE, i, *pos, f->mut_kind, f->mut_val, 0, 0, 0);
	}
	n = want;
	if (f->next < f->nscript) {
		struct script s = f->script[f->next++];
		if (s.kind == 1) {
			record(EV_READ_EINTR, i, *pos, 0, 0, vfds[fd].instance, 0, 0);
			done();
			errno = EINTR;
			return -1;
		}
		if (s.n && s.n < n)
			n = s.n;
	}
	if (f->chunk && f->chunk < n)
		n = f->chunk;
	if (f->rerr && *pos >= f->rpos && want) {
		record(EV_READ_FAIL, i, *pos, f->rerr, 0, vfds[fd].instance, 0, 0);
		done();
		errno = f->rerr;
		return -1;
	}
	if (*pos >= f->size)
		n = 0;
	else if (n > f->size - *pos)
		n = f->size - *pos;
	else if (n < want)
		record(EV_READ_SHORT, i, *pos, n, want, 0, 0, 0);
	if (f->rerr && n > f->rpos - *pos)
		n = f->rpos - *pos;
	p = *pos;
	for (k = 0, left = n; left && k < niov; k++) {
		size_t m = iov[k].iov_len < left ? iov[k].iov_len : left;
		content(f, p, iov[k].iov_base, m);
		p += m;
		left -= m;
	}
	record(EV_READ, i, *pos, n, f->rot, vfds[fd].instance, 0, 0);
	credit(0, 1, n);
	*pos += n;
	done();
	return n;
}

static uint64_t *position(int fd, int i)
{
	return files[i].pipe ? &files[i].pipe_pos : &vfds[fd].pos;
}

ssize_t read(int fd, void *buf, size_t n)
{
	int i = vfile(fd);
	if (i >= 0) {
		struct iovec v = { buf, n };
		return do_read(fd, i, position(fd, i), &v, 1);
	}
	if (ready && silent && fd == 0)
		stuck(1);
	REAL_OPEN(raw(SYS_read, fd, (long)buf, n, 0, 0, 0));
}
ssize_t readv(int fd, const struct iovec *v, int n)
{
	int i = vfile(fd);
	if (i >= 0)
		return do_read(fd, i, position(fd, i), v, n);
	if (ready && silent && fd == 0)
		stuck(1);
	REAL_OPEN(raw(SYS_readv, fd, (long)v, n, 0, 0, 0));
}
ssize_t pread(int fd, void *buf, size_t n, off_t off)
{
	int i = vfile(fd);
	if (i >= 0) {
		struct iovec v = { buf, n };
		uint64_t pos = off;
		if (files[i].pipe) {
			errno = ESPIPE;
			return -1;
		}
		return do_read(fd, i, &pos, &v, 1);
	}
	REAL_OPEN(raw(SYS_pread64, fd, (long)buf, n, off, 0, 0));
}
ssize_t pread64(int fd, void *buf, size_t n, off_t off)
{
	return pread(fd, buf, n, off);
}
ssize_t __read_chk(int fd, void *buf, size_t n, size_t m)
{
	return read(fd, buf, n < m ? n : m);
}

off_t lseek(int fd, off_t off, int whence)
{
	int i = vfile(fd);
	if (i >= 0) {
		int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)vfds[fd].pos : (int64_t)files[i].size;
		if ((i == 0 && !(files[0].meta_set & 256)) || files[i].pipe) {
			errno = ESPIPE;
			return -1;
		}
		if (whence > SEEK_END || base + off < 0) {
			errno = EINVAL;
			return -1;
		}
		vfds[fd].pos = base + off;
		return vfds[fd].pos;
	}
	REAL_OPEN(raw(SYS_lseek, fd, off, whence, 0, 0, 0));
}
off_t lseek64(int fd, off_t off, int whence)
{
	return lseek(fd, off, whence);
}

/* Copies inside the kernel are not supported by simulated files, as by many
 * real ones; programs must fall back to reading and writing. */
#define NO_KERNEL_COPY(fd)                                                                                           \
	if (ready && silent && (fd) == 0)                                                                             \
		stuck(1);                                                                                             \
	if (vfile(fd) >= 0) {                                                                                         \
		errno = EINVAL;                                                                                       \
		return -1;                                                                                            \
	}
ssize_t copy_file_range(int in, off_t *a, int out, off_t *b, size_t n, unsigned fl)
{
	NO_KERNEL_COPY(in);
	REAL_OPEN(raw(SYS_copy_file_range, in, (long)a, out, (long)b, n, fl));
}
ssize_t sendfile(int out, int in, off_t *a, size_t n)
{
	NO_KERNEL_COPY(in);
	REAL_OPEN(raw(SYS_sendfile, out, in, (long)a, n, 0, 0));
}
ssize_t sendfile64(int out, int in, off_t *a, size_t n)
{
	return sendfile(out, in, a, n);
}
ssize_t splice(int in, off_t *a, int out, off_t *b, size_t n, unsigned fl)
{
	NO_KERNEL_COPY(in);
	REAL_OPEN(raw(SYS_splice, in, (long)a, out, (long)b, n, fl));
}

/* 0: filled in, otherwise an error number. */
static int do_stat(int i, uint64_t *size, int *mode)
{
	struct file *f = &files[i];
	event();
	if (!f->exists || f->staterr) {
		int e = f->exists ? f->staterr : ENOENT;
		record(EV_STAT_FAIL, i, e, 0, 0, 0, 0, 0);
		done();
		return e;
	}
	*size = f->lie ? f->statsize : f->pipe ? 0 : f->size;
	*mode = f->pipe ? S_IFIFO | 0644 : i || f->meta_set & 256 ? S_IFREG | 0644 : S_IFIFO | 0600;
	if (f->meta_set & 8 && !f->pipe)
		*mode = f->meta[3];
	if (f->ro)
		*mode &= ~0222;
	record(f->lie ? EV_STAT_LIE : EV_STAT, i, *size, 0, 0, 0, 0, 0);
	done();
	return 0;
}

static int stat_out(int i, struct stat *st)
{
	uint64_t size = 0;
	struct file *f = &files[i];
	int mode = 0, e = do_stat(i, &size, &mode);
	if (e) {
		errno = e;
		return -1;
	}
	memset(st, 0, sizeof *st);
	st->st_mode = mode;
	st->st_size = size;
	st->st_nlink = 1;
	st->st_ino = 1000 + i;
	st->st_blksize = 4096;
	st->st_blocks = (size + 511) / 512;
	if (f->meta_set & 1)
		st->st_blocks = f->meta[0];
	if (f->meta_set & 2)
		st->st_blksize = f->meta[1];
	if (f->meta_set & 4)
		st->st_nlink = f->meta[2];
	if (f->meta_set & 16)
		st->st_ino = f->meta[4];
	st->st_mtim.tv_sec = st->st_ctim.tv_sec = st->st_atim.tv_sec = f->meta[5];
	st->st_dev = f->meta[6];
	st->st_uid = st->st_gid = f->meta[7];
	return 0;
}

int fstatat(int dir, const char *path, struct stat *st, int flags)
{
	/* The header declares these pointers non-null; callers differ. */
	const char *volatile q = path;
	int i = q && !*q ? vfile(dir) : which(path);
	if (i >= 0)
		return stat_out(i, st);
	REAL_OPEN(raw(SYS_newfstatat, dir, (long)path, (long)st, flags, 0, 0));
}
int fstatat64(int dir, const char *path, struct stat64 *st, int flags)
{
	return fstatat(dir, path, (struct stat *)st, flags);
}
int stat(const char *path, struct stat *st)
{
	return fstatat(AT_FDCWD, path, st, 0);
}
int stat64(const char *path, struct stat64 *st)
{
	return fstatat(AT_FDCWD, path, (struct stat *)st, 0);
}
int lstat(const char *path, struct stat *st)
{
	return fstatat(AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW);
}
int lstat64(const char *path, struct stat64 *st)
{
	return fstatat(AT_FDCWD, path, (struct stat *)st, AT_SYMLINK_NOFOLLOW);
}
int fstat(int fd, struct stat *st)
{
	int i = vfile(fd);
	if (i >= 0)
		return stat_out(i, st);
	REAL_OPEN(raw(SYS_fstat, fd, (long)st, 0, 0, 0, 0));
}
int fstat64(int fd, struct stat64 *st)
{
	return fstat(fd, (struct stat *)st);
}
int statx(int dir, const char *path, int flags, unsigned mask, struct statx *sx)
{
	const char *volatile q = path;
	int i = q ? *q ? which(path) : vfile(dir) : -1;
	if (i >= 0) {
		struct stat st;
		if (stat_out(i, &st))
			return -1;
		memset(sx, 0, sizeof *sx);
		sx->stx_mask = STATX_BASIC_STATS;
		sx->stx_mode = st.st_mode;
		sx->stx_size = st.st_size;
		sx->stx_nlink = st.st_nlink;
		sx->stx_ino = st.st_ino;
		sx->stx_blksize = st.st_blksize;
		sx->stx_uid = sx->stx_gid = st.st_uid;
		sx->stx_dev_minor = st.st_dev;
		sx->stx_mtime.tv_sec = sx->stx_ctime.tv_sec = sx->stx_atime.tv_sec = st.st_mtim.tv_sec;
		sx->stx_blocks = st.st_blocks;
		return 0;
	}
	REAL_OPEN(raw(SYS_statx, dir, (long)path, flags, mask, (long)sx, 0));
}

/* Memory in use by the tool. */
static int heap_full(uint64_t more)
{
	if (!ready || !heap_limit || heap_live + more <= heap_limit)
		return 0;
	record(EV_HEAP_FULL, 0, heap_live, more, 0, 0, 0, 0);
	return 1;
}

static void heap_add(uint64_t n)
{
	heap_live += n;
	if (heap_live > heap_peak)
		heap_peak = heap_live;
}

static void heap_sub(uint64_t n)
{
	heap_live -= n < heap_live ? n : heap_live;
}

void *mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
	int i = flags & MAP_ANONYMOUS ? -1 : vfile(fd);
	struct file *f;
	size_t pages, k;
	char *p;
	uint64_t end;
	if (i < 0) {
		long r;
		if (flags & MAP_ANONYMOUS && heap_full(len)) {
			errno = ENOMEM;
			return MAP_FAILED;
		}
		r = raw(SYS_mmap, (long)addr, len, prot, flags, fd, off);
		if (flags & MAP_ANONYMOUS && r > 0)
			heap_add(len);
		if (r < 0 && r > -4096) {
			errno = -r;
			return MAP_FAILED;
		}
		return (void *)r;
	}
	f = &files[i];
	event();
	if (flags & MAP_SHARED && prot & PROT_WRITE) {
		record(EV_MODIFY, i, MOD_MAP, 0, 0, 0, 0, 0);
		done();
		errno = EACCES;
		return MAP_FAILED;
	}
	if (!len || f->maperr || maps_now >= map_limit || off % 4096 || f->pipe) {
		int e = !len || off % 4096 ? EINVAL : f->maperr ? f->maperr : f->pipe ? ENODEV : ENOMEM;
		record(EV_MMAP_FAIL, i, e, 0, 0, 0, 0, 0);
		done();
		errno = e;
		return MAP_FAILED;
	}
	pages = (len + 4095) / 4096 * 4096;
	/* An inaccessible page follows. */
	p = (char *)raw(SYS_mmap, 0, pages + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if ((long)p < 0 && (long)p > -4096) {
		errno = ENOMEM;
		return MAP_FAILED;
	}
	end = f->size > (uint64_t)off ? f->size - off : 0;
	if (len > (16u << 20) && (f->rot + off) % 4096 == 0) {
		/* Long files: the period again and again. */
		for (k = 0; k < pages && k < end;) {
			uint64_t o = (off + k + f->rot) % PERIOD;
			size_t m = PERIOD - o < pages - k ? PERIOD - o : pages - k;
			if ((long)raw(SYS_mmap, (long)p + k, m, PROT_READ, MAP_SHARED | MAP_FIXED, pattern_fd,
				    f->rot / PERIOD * PERIOD + o) < 0) {
				record(EV_UNKNOWN, i, k, 0, 0, 0, 0, 0);
				raw(SYS_exit_group, 65, 0, 0, 0, 0, 0);
			}
			k += m;
		}
	} else {
		size_t m = len < end ? len : end;
		raw(SYS_mprotect, (long)p, (m + 4095) / 4096 * 4096, PROT_READ | PROT_WRITE, 0, 0, 0);
		/* Pages of a mapping wholly past the end stay inaccessible. */
		if (end > len)
			m = pages < end ? pages : end;
		content(f, off, (unsigned char *)p, m);
		raw(SYS_mprotect, (long)p, (m + 4095) / 4096 * 4096, prot, 0, 0, 0);
	}
	maps_now++;
	for (k = 0; k < MAPS; k++)
		if (!maps[k].addr) {
			maps[k].addr = p;
			maps[k].len = pages + 4096;
			break;
		}
	record(EV_MMAP, i, len, off, f->rot, vfds[fd].instance, 0, 0);
	credit(0, 1, len);
	done();
	return p;
}
void *mmap64(void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
	return mmap(addr, len, prot, flags, fd, off);
}
int munmap(void *addr, size_t len)
{
	int k, own = 0;
	if (ready)
		for (k = 0; k < MAPS; k++)
			if (maps[k].addr && maps[k].addr == addr) {
				own = 1;
				len = maps[k].len;
				maps[k].addr = 0;
				maps_now--;
				break;
			}
	if (!own)
		heap_sub(len);
	REAL_OPEN(raw(SYS_munmap, (long)addr, len, 0, 0, 0, 0));
}

static ssize_t do_write(int fd, const struct iovec *iov, int niov)
{
	struct stream *s = &streams[fd];
	size_t want = 0, n, left;
	char *all;
	int k;
	event();
	for (k = 0; k < niov; k++)
		want += iov[k].iov_len;
	n = want;
	if (s->next < s->nscript) {
		struct script a = s->script[s->next++];
		if (a.kind == 1) {
			record(EV_WRITE_EINTR, fd, 0, 0, 0, 0, 0, 0);
			done();
			errno = EINTR;
			return -1;
		}
		if (a.n && a.n < n)
			n = a.n;
	}
	if (s->limited && s->total + n > s->limit)
		n = s->limit - s->total;
	if (s->limited && n == 0 && want) {
		record(EV_WRITE_FAIL, fd, s->err, 0, 0, 0, 0, 0);
		done();
		errno = s->err;
		return s->err ? -1 : 0;
	}
	if (n < want)
		record(EV_WRITE_SHORT, fd, n, want, 0, 0, 0, 0);
	all = (char *)raw(SYS_mmap, 0, n + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	for (k = 0, left = n; left && k < niov; k++) {
		size_t m = iov[k].iov_len < left ? iov[k].iov_len : left;
		memcpy(all + (n - left), iov[k].iov_base, m);
		left -= m;
	}
	record(EV_WRITE, fd, n, want, 0, 0, all, n);
	credit(0, 1, n);
	raw(SYS_munmap, (long)all, n + 1, 0, 0, 0, 0);
	s->total += n;
	done();
	return n;
}

ssize_t write(int fd, const void *buf, size_t n)
{
	if (ready && (fd == 1 || fd == 2)) {
		struct iovec v = { (void *)buf, n };
		return do_write(fd, &v, 1);
	}
	if (vfile(fd) >= 0) {
		refuse(vfile(fd), MOD_WRITE);
		errno = EBADF;
		return -1;
	}
	REAL_OPEN(raw(SYS_write, fd, (long)buf, n, 0, 0, 0));
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
	if (ready && (fd == 1 || fd == 2))
		return do_write(fd, v, n);
	if (vfile(fd) >= 0) {
		refuse(vfile(fd), MOD_WRITE);
		errno = EBADF;
		return -1;
	}
	REAL_OPEN(raw(SYS_writev, fd, (long)v, n, 0, 0, 0));
}

ssize_t pwrite(int fd, const void *buf, size_t n, off_t off)
{
	(void)buf, (void)n, (void)off;
	return refuse(vfile(fd), MOD_WRITE);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off)
{
	return pwrite(fd, buf, n, off);
}

/* Everything else that changes files. None of it is ever carried out. */
#define NEVER(decl, i, what)                                                                                         \
	int decl                                                                                                      \
	{                                                                                                             \
		return refuse(i, what);                                                                               \
	}
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wunused-parameter"
NEVER(creat(const char *p, mode_t m), which(p), MOD_CREATE)
NEVER(creat64(const char *p, mode_t m), which(p), MOD_CREATE)
NEVER(unlink(const char *p), which(p), MOD_REMOVE)
NEVER(unlinkat(int d, const char *p, int f), which(p), MOD_REMOVE)
NEVER(remove(const char *p), which(p), MOD_REMOVE)
NEVER(rmdir(const char *p), which(p), MOD_REMOVE)
NEVER(rename(const char *p, const char *q), which(p), MOD_RENAME)
NEVER(renameat(int d, const char *p, int e, const char *q), which(p), MOD_RENAME)
NEVER(renameat2(int d, const char *p, int e, const char *q, unsigned f), which(p), MOD_RENAME)
NEVER(link(const char *p, const char *q), which(p), MOD_MAKE)
NEVER(linkat(int d, const char *p, int e, const char *q, int f), which(p), MOD_MAKE)
NEVER(symlink(const char *p, const char *q), which(p), MOD_MAKE)
NEVER(symlinkat(const char *p, int d, const char *q), which(p), MOD_MAKE)
NEVER(mkdir(const char *p, mode_t m), which(p), MOD_MAKE)
NEVER(mkdirat(int d, const char *p, mode_t m), which(p), MOD_MAKE)
NEVER(mknod(const char *p, mode_t m, dev_t v), which(p), MOD_MAKE)
NEVER(mkfifo(const char *p, mode_t m), which(p), MOD_MAKE)
NEVER(truncate(const char *p, off_t n), which(p), MOD_TRUNCATE)
NEVER(truncate64(const char *p, off64_t n), which(p), MOD_TRUNCATE)
NEVER(ftruncate(int fd, off_t n), vfile(fd), MOD_TRUNCATE)
NEVER(ftruncate64(int fd, off64_t n), vfile(fd), MOD_TRUNCATE)
NEVER(fallocate(int fd, int m, off_t a, off_t n), vfile(fd), MOD_TRUNCATE)
NEVER(fallocate64(int fd, int m, off64_t a, off64_t n), vfile(fd), MOD_TRUNCATE)
NEVER(chmod(const char *p, mode_t m), which(p), MOD_ATTRIBUTES)
NEVER(fchmod(int fd, mode_t m), vfile(fd), MOD_ATTRIBUTES)
NEVER(fchmodat(int d, const char *p, mode_t m, int f), which(p), MOD_ATTRIBUTES)
NEVER(chown(const char *p, uid_t u, gid_t g), which(p), MOD_ATTRIBUTES)
NEVER(lchown(const char *p, uid_t u, gid_t g), which(p), MOD_ATTRIBUTES)
NEVER(fchown(int fd, uid_t u, gid_t g), vfile(fd), MOD_ATTRIBUTES)
NEVER(fchownat(int d, const char *p, uid_t u, gid_t g, int f), which(p), MOD_ATTRIBUTES)
NEVER(utimensat(int d, const char *p, const struct timespec t[2], int f), which(p), MOD_ATTRIBUTES)
NEVER(futimens(int fd, const struct timespec t[2]), vfile(fd), MOD_ATTRIBUTES)
NEVER(utimes(const char *p, const struct timeval t[2]), which(p), MOD_ATTRIBUTES)
NEVER(setxattr(const char *p, const char *n, const void *v, size_t s, int f), which(p), MOD_ATTRIBUTES)
NEVER(mkstemp(char *p), which(p), MOD_CREATE)
NEVER(mkstemp64(char *p), which(p), MOD_CREATE)
NEVER(mkostemp(char *p, int f), which(p), MOD_CREATE)
NEVER(removexattr(const char *p, const char *n), which(p), MOD_ATTRIBUTES)
NEVER(fremovexattr(int fd, const char *n), vfile(fd), MOD_ATTRIBUTES)
/* Nor anybody else who could. */
NEVER(system(const char *c), -1, MOD_PROCESS)
NEVER(execve(const char *p, char *const a[], char *const e[]), which(p), MOD_PROCESS)
NEVER(execv(const char *p, char *const a[]), which(p), MOD_PROCESS)
NEVER(execvp(const char *p, char *const a[]), which(p), MOD_PROCESS)
NEVER(execvpe(const char *p, char *const a[], char *const e[]), which(p), MOD_PROCESS)
pid_t fork(void)
{
	return refuse(-1, MOD_PROCESS);
}
pid_t vfork(void)
{
	return refuse(-1, MOD_PROCESS);
}
int posix_spawn(pid_t *pid, const char *p, const void *fa, const void *at, char *const a[], char *const e[])
{
	refuse(-1, MOD_PROCESS);
	return EAGAIN;
}
int posix_spawnp(pid_t *pid, const char *p, const void *fa, const void *at, char *const a[], char *const e[])
{
	refuse(-1, MOD_PROCESS);
	return EAGAIN;
}
NEVER(socket(int a, int b, int c), -1, MOD_TALK)
NEVER(socketpair(int a, int b, int c, int p[2]), -1, MOD_TALK)
NEVER(bind(int fd, const void *a, unsigned n), -1, MOD_TALK)
NEVER(connect(int fd, const void *a, unsigned n), -1, MOD_TALK)
NEVER(shm_open(const char *p, int f, mode_t m), -1, MOD_CREATE)
NEVER(kill(pid_t p, int s), -1, MOD_PROCESS)
NEVER(fsetxattr(int fd, const char *n, const void *v, size_t s, int f), vfile(fd), MOD_ATTRIBUTES)
char *mkdtemp(char *p)
{
	refuse(which(p), MOD_MAKE);
	return 0;
}
#pragma GCC diagnostic pop

/* Identity and randomness: the same in every run. */
pid_t gettid(void)
{
	return ready ? 4242 : raw(SYS_gettid, 0, 0, 0, 0, 0, 0);
}
pid_t getpid(void)
{
	return ready ? 4242 : raw(SYS_getpid, 0, 0, 0, 0, 0, 0);
}
ssize_t getrandom(void *buf, size_t n, unsigned flags)
{
	if (ready) {
		memset(buf, 0x5a, n);
		return n;
	}
	REAL_OPEN(raw(SYS_getrandom, (long)buf, n, flags, 0, 0, 0));
}
/* Time passes with events and by waiting. */
static void tell(uint64_t s, uint64_t *out_s, uint64_t *ns)
{
	uint64_t t = events * 1000000 + slept;
	*out_s = s + t / 1000000000;
	*ns = t % 1000000000;
}
int clock_gettime(clockid_t c, struct timespec *t)
{
	uint64_t s, ns;
	if (!ready) {
		REAL_OPEN(raw(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0));
	}
	tell(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? day : 1000, &s, &ns);
	t->tv_sec = s;
	t->tv_nsec = ns;
	return 0;
}
int gettimeofday(struct timeval *restrict t, void *restrict z)
{
	struct timespec s;
	(void)z;
	clock_gettime(CLOCK_REALTIME, &s);
	t->tv_sec = s.tv_sec;
	t->tv_usec = s.tv_nsec / 1000;
	return 0;
}
time_t time(time_t *t)
{
	struct timespec s;
	clock_gettime(CLOCK_REALTIME, &s);
	if (t)
		*t = s.tv_sec;
	return s.tv_sec;
}
static int pass(uint64_t ns)
{
	event();
	slept += ns;
	record(EV_WAIT, 0, ns, 0, 0, 0, 0, 0);
	done();
	return 0;
}
int nanosleep(const struct timespec *t, struct timespec *left)
{
	(void)left;
	return pass(t->tv_sec * 1000000000ull + t->tv_nsec);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *left)
{
	struct timespec now = { 0, 0 };
	int64_t d;
	(void)left;
	if (flags & TIMER_ABSTIME)
		clock_gettime(c, &now);
	d = (t->tv_sec - now.tv_sec) * 1000000000ll + t->tv_nsec - now.tv_nsec;
	return pass(d > 0 ? d : 0);
}
int usleep(useconds_t n)
{
	return pass(n * 1000ull);
}
unsigned sleep(unsigned n)
{
	return pass(n * 1000000000ull);
}
int sched_yield(void)
{
	if (!ready || threads)
		return raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
	return pass(1000);
}
int pause(void)
{
	stuck(3);
	return -1;
}
int poll(struct pollfd *p, nfds_t n, int ms)
{
	nfds_t k;
	int left = 0;
	if (!ready || ms == 0) {
		REAL_OPEN(raw(SYS_poll, (long)p, n, ms, 0, 0, 0));
	}
	event();
	for (k = 0; k < n; k++) {
		int quiet = p[k].fd < 0 || (silent && p[k].fd == 0);
		p[k].revents = quiet ? 0 : p[k].events;
		left += !quiet;
	}
	if (!left && ms < 0)
		stuck(1);
	if (!left)
		pass(ms * 1000000ull);
	done();
	return left;
}
int pthread_create(pthread_t *restrict t, const pthread_attr_t *restrict a, void *(*f)(void *), void *restrict x)
{
	int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = dlsym(RTLD_NEXT, "pthread_create");
	threads = 1;
	return real(t, a, f, x);
}

long syscall(long n, ...)
{
	va_list ap;
	long a[6];
	int k;
	va_start(ap, n);
	for (k = 0; k < 6; k++)
		a[k] = va_arg(ap, long);
	va_end(ap);
	if (ready) {
		switch (n) {
		case SYS_futex:
			/* Nobody is there to wake it. */
			if (!threads && ((a[1] & 127) == FUTEX_WAIT || (a[1] & 127) == FUTEX_WAIT_BITSET) && !a[3] &&
			    *(volatile uint32_t *)a[0] == (uint32_t)a[2])
				stuck(2);
			break;
		case SYS_gettid:
			return gettid();
		case SYS_getpid:
			return getpid();
		case SYS_getrandom:
			return getrandom((void *)a[0], a[1], a[2]);
		case SYS_statx:
			return statx(a[0], (const char *)a[1], a[2], a[3], (struct statx *)a[4]);
		case SYS_read:
			return read(a[0], (void *)a[1], a[2]);
		case SYS_write:
			return write(a[0], (const void *)a[1], a[2]);
		case SYS_openat:
			return openat(a[0], (const char *)a[1], a[2], a[3]);
		case SYS_unlink:
		case SYS_rename:
		case SYS_truncate:
			return refuse(which((const char *)a[0]), MOD_REMOVE);
		case SYS_unlinkat:
		case SYS_renameat2:
		case SYS_renameat:
			return refuse(which((const char *)a[1]), MOD_REMOVE);
		case SYS_fork:
		case SYS_vfork:
		case SYS_execve:
		case SYS_kill:
			return refuse(-1, MOD_PROCESS);
		case SYS_socket:
			return refuse(-1, MOD_TALK);
		case SYS_ftruncate:
		case SYS_fallocate:
			return refuse(vfile(a[0]), MOD_TRUNCATE);
		}
	}
	REAL_OPEN(raw(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}

/* The allocator, with failures. */
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static int no_memory(void)
{
	if (!ready || !malloc_at)
		return 0;
	if (++mallocs < malloc_at)
		return 0;
	if (mallocs == malloc_at)
		record(EV_MALLOC_FAIL, 0, mallocs, 0, 0, 0, 0, 0);
	errno = ENOMEM;
	return 1;
}
static void *counted(void *p)
{
	if (p)
		heap_add(malloc_usable_size(p));
	return p;
}
void *malloc(size_t n)
{
	return no_memory() || heap_full(n) ? 0 : counted(__libc_malloc(n));
}
void *calloc(size_t a, size_t b)
{
	return no_memory() || heap_full(a * b) ? 0 : counted(__libc_calloc(a, b));
}
void *realloc(void *p, size_t n)
{
	size_t old = p ? malloc_usable_size(p) : 0;
	void *q;
	if (no_memory() || (n > old && heap_full(n - old)))
		return 0;
	q = __libc_realloc(p, n);
	if (q || !n)
		heap_sub(old);
	return counted(q);
}
int posix_memalign(void **out, size_t a, size_t n)
{
	void *p = no_memory() || heap_full(n) ? 0 : counted(__libc_memalign(a, n));
	if (!p)
		return ENOMEM;
	*out = p;
	return 0;
}
void *aligned_alloc(size_t a, size_t n)
{
	return no_memory() || heap_full(n) ? 0 : counted(__libc_memalign(a, n));
}
void free(void *p)
{
	if (p)
		heap_sub(malloc_usable_size(p));
	__libc_free(p);
}

__attribute__((destructor)) static void finish(void)
{
	if (ready && heap_limit)
		record(EV_HEAP_PEAK, 0, heap_peak, 0, 0, 0, 0, 0);
	if (counting) {
		counting = 0;
		record(EV_STEPS, 0, granted - steps_left, granted, 0, 0, 0, 0);
	}
}
