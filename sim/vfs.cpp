// Simulated file system and clock.  While a case runs, every path the process
// opens lives here and every clock read is answered here.
#include "sim.h"
#include "core.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace sim {
bool case_active();

enum { NFILES = 64, NPLANS = 32, NH = 64, FD0 = 0x20000000 };
struct File { bool exists; char path[256]; char* data; size_t n, cap; };
struct Plan { bool used; char path[256]; IoPlan p; bool transient_done; };
struct Handle { bool used; File* f; bool rd, wr, app; size_t pos, arrived; FILE* fp; IoPlan p; Plan* plan; };
static File g_files[NFILES];
static Plan g_plans[NPLANS];
static Handle g_h[NH];
static uint64_t g_bytes_read, g_faults, g_hard;
static int64_t g_clock, g_clock0; static int g_jump_pct; static int64_t g_jump_max;

static File* lookup(const char* path, bool create) {
	if (!strncmp(path, "./", 2)) path += 2;
	for (auto& f : g_files) if (f.exists && !strcmp(f.path, path)) return &f;
	if (!create || strlen(path) >= sizeof g_files[0].path) return nullptr;
	for (auto& f : g_files) {
		bool open = false;
		for (auto& h : g_h) open |= h.used && h.f == &f;
		if (!f.exists && !open) { f.exists = true; strcpy(f.path, path); f.n = 0; return &f; }
	}
	return nullptr;
}
static void grow(File* f, size_t n) {
	if (n <= f->cap) return;
	size_t c = f->cap ? f->cap : 4096; while (c < n) c *= 2;
	f->data = (char*)realloc(f->data, c); f->cap = c;
}
void fs_reset() {
	for (auto& f : g_files) { f.exists = false; f.n = 0; }
	for (auto& h : g_h) h.used = false;
	fs_clear_plans();
	g_bytes_read = 0;
}
void fs_put(const char* path, const char* data, size_t n) {
	File* f = lookup(path, true);
	if (!f) fail("internal:vfs", "file table full");
	grow(f, n); if (n) memcpy(f->data, data, n); f->n = n;
}
bool fs_get(const char* path, const char** data, size_t* n) {
	File* f = lookup(path, false);
	if (!f) return false;
	*data = f->data; *n = f->n; return true;
}
bool fs_exists(const char* path) { return lookup(path, false) != nullptr; }
void fs_remove(const char* path) { File* f = lookup(path, false); if (f) f->exists = false; }
void fs_plan(const char* path, const IoPlan& p) {
	for (auto& q : g_plans) if (q.used && !strcmp(q.path, path)) { q.p = p; q.transient_done = false; return; }
	for (auto& q : g_plans) if (!q.used) { q.used = true; snprintf(q.path, sizeof q.path, "%s", path); q.p = p; q.transient_done = false; return; }
	fail("internal:vfs", "plan table full");
}
void fs_clear_plans() { for (auto& q : g_plans) q.used = false; g_faults = g_hard = 0; }
int fs_open_count() { int n = 0; for (auto& h : g_h) n += h.used; return n; }
uint64_t fs_bytes_read() { return g_bytes_read; }
uint64_t fs_fault_count() { return g_faults; }
uint64_t fs_hard_faults() { return g_hard; }

static void hit(const char* kind, bool hard) { fired(kind); ++g_faults; if (hard) ++g_hard; }

static Handle* handle(int fd) {
	if (fd < FD0 || fd >= FD0 + NH || !g_h[fd - FD0].used) return nullptr;
	return &g_h[fd - FD0];
}
static int vopen(const char* path, bool rd, bool wr, bool app, bool trunc, bool create, bool excl) {
	IoPlan p; Plan* plan = nullptr;
	const char* q0 = strncmp(path, "./", 2) ? path : path + 2;
	for (auto& q : g_plans) if (q.used && !strcmp(q.path, "*")) { p = q.p; plan = &q; }
	for (auto& q : g_plans) if (q.used && !strcmp(q.path, q0)) { p = q.p; plan = &q; }
	if (p.open_errno) { hit("open-error", true); note("  !open %s errno %d", path, p.open_errno); errno = p.open_errno; return -1; }
	File* f = lookup(path, false);
	if (f && excl) { errno = EEXIST; return -1; }
	if (!f && !create) { errno = ENOENT; return -1; }
	if (!f) f = lookup(path, true);
	if (!f) { errno = ENFILE; return -1; }
	if (trunc) f->n = 0;
	for (int i = 0; i < NH; ++i) if (!g_h[i].used) {
		Handle& h = g_h[i];
		h.used = true; h.f = f; h.rd = rd; h.wr = wr; h.app = app; h.pos = 0; h.fp = nullptr; h.p = p; h.plan = plan; h.arrived = 0;
		return FD0 + i;
	}
	errno = EMFILE; return -1;
}
static size_t frag(int mode, size_t n) {
	if (mode == 0 || n <= 1) return n;
	if (mode == 1) { if (draw_io(3) == 0) return n; return n - (size_t)draw_io(n); }
	uint64_t v = draw_io(8);
	return v == 0 || v >= n ? n : (size_t)v;
}
static ssize_t vread(Handle* h, void* buf, size_t n, bool intr = true) {
	if (!h->rd) { errno = EBADF; return -1; }
	if (intr && h->p.eintr && n && draw_io(100) >= (uint64_t)(100 - h->p.eintr)) { hit("interrupted-read", false); errno = EINTR; return -1; }
	size_t end = h->f->n;
	if (h->p.eof_at >= 0 && (size_t)h->p.eof_at < end) end = (size_t)h->p.eof_at;
	size_t avail = h->pos < end ? end - h->pos : 0;
	if (n > avail) {
		if (end < h->f->n && avail == 0 && n) hit("truncated-file", true);
		n = avail;
	}
	if (h->p.read_err_at >= 0 && !(h->p.read_transient && h->plan->transient_done) && h->pos + (n ? n : 1) > (size_t)h->p.read_err_at) {
		if (h->pos >= (size_t)h->p.read_err_at) {
			hit("read-error", true); note("  !read %s at %zu errno %d", h->f->path, h->pos, h->p.read_errno);
			h->plan->transient_done = true;
			errno = h->p.read_errno; return -1;
		}
		n = (size_t)h->p.read_err_at - h->pos;
	}
	size_t m = frag(h->p.read_frag, n);
	if (h->p.pipe && n) { // what has arrived; waits for the first byte
		if (h->arrived <= h->pos) h->arrived = h->pos + 1 + (draw_io(4) ? (size_t)draw_io(64) : (size_t)draw_io(8192));
		if (h->arrived - h->pos < m) m = h->arrived - h->pos;
	}
	if (m < n) hit("short-read", false);
	raw_copy(buf, h->f->data + h->pos, m);
	h->pos += m; g_bytes_read += m;
	return (ssize_t)m;
}
static ssize_t vwrite(Handle* h, const void* buf, size_t n, bool intr = true) {
	if (!h->wr) { errno = EBADF; return -1; }
	if (!n) return 0;
	if (intr && h->p.eintr && draw_io(100) >= (uint64_t)(100 - h->p.eintr)) { hit("interrupted-write", false); errno = EINTR; return -1; }
	if (h->app) h->pos = h->f->n;
	bool limit = h->p.write_err_at >= 0 && !(h->p.write_transient && h->plan->transient_done);
	if (limit && h->pos + n > (size_t)h->p.write_err_at) {
		if (h->pos >= (size_t)h->p.write_err_at) {
			hit(h->p.write_errno == ENOSPC ? "disk-full" : "write-error", true);
			note("  !write %s at %zu errno %d", h->f->path, h->pos, h->p.write_errno);
			h->plan->transient_done = true;
			errno = h->p.write_errno; return -1;
		}
		n = (size_t)h->p.write_err_at - h->pos; // accepted up to the limit: a short write first
	}
	size_t m = frag(h->p.write_frag, n);
	if (m < n) hit("short-write", false);
	grow(h->f, h->pos + m);
	if (h->pos > h->f->n) memset(h->f->data + h->f->n, 0, h->pos - h->f->n);
	raw_copy(h->f->data + h->pos, buf, m);
	h->pos += m; if (h->pos > h->f->n) h->f->n = h->pos;
	return (ssize_t)m;
}
static int64_t vseek(Handle* h, int64_t off, int whence) {
	if (h->p.pipe) { errno = ESPIPE; return -1; }
	int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)h->pos : h->p.eof_at >= 0 && h->p.eof_at < (int64_t)h->f->n ? h->p.eof_at : (int64_t)h->f->n;
	if (base + off < 0) { errno = EINVAL; return -1; }
	h->pos = (size_t)(base + off);
	return (int64_t)h->pos;
}
static int vclose(Handle* h) {
	int e = h->wr ? h->p.close_errno : 0;
	if (e) { hit("close-error", true); note("  !close %s errno %d", h->f->path, e); }
	h->used = false;
	if (e) { errno = e; return -1; }
	return 0;
}

static ssize_t ck_read(void* c, char* b, size_t n) { return vread((Handle*)c, b, n, false); }
static ssize_t ck_write(void* c, const char* b, size_t n) { // stdio treats a short count as an error, so loop
	size_t done = 0;
	while (done < n) { ssize_t r = vwrite((Handle*)c, b + done, n - done, false); if (r < 0) return done ? (ssize_t)done : 0; done += (size_t)r; }
	return (ssize_t)done;
}
static int ck_seek(void* c, off64_t* off, int w) { int64_t r = vseek((Handle*)c, *off, w); if (r < 0) return -1; *off = r; return 0; }
static int ck_close(void* c) { return vclose((Handle*)c); }

static FILE* vfopen(const char* path, const char* mode) {
	bool plus = strchr(mode, '+'), rd = mode[0] == 'r' || plus, wr = mode[0] != 'r' || plus;
	int fd = vopen(path, rd, wr, mode[0] == 'a', mode[0] == 'w', mode[0] != 'r', strchr(mode, 'x') != nullptr);
	if (fd < 0) return nullptr;
	Handle* h = &g_h[fd - FD0];
	cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
	h->fp = fopencookie(h, mode, io);
	return h->fp;
}

// --------------------------------------------------------------------- clock
int real_clock_gettime(clockid_t id, struct timespec* t) { return (int)syscall(SYS_clock_gettime, id, t); }
static int64_t vclock() {
	g_clock += 1000;
	if (g_jump_pct && draw_io(100) >= (uint64_t)(100 - g_jump_pct)) {
		int64_t j = (int64_t)draw_io((uint64_t)g_jump_max * 2 + 1) - g_jump_max;
		g_clock += j; fired("clock-jump");
	}
	return g_clock;
}
void clock_jump(int64_t ns) { g_clock += ns; fired("clock-jump"); }
int64_t clock_now() { return g_clock - g_clock0; }
void clock_reads_jump(int pct, int64_t max_ns) { g_jump_pct = pct; g_jump_max = max_ns; }
void vfs_case_begin(uint64_t h) {
	fs_reset();
	g_clock0 = g_clock = 1000000000ll * (int64_t)(1500000000 + h % 100000000);
	g_jump_pct = 0;
}
} // namespace sim

using namespace sim;
template <class F> static F next_sym(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

namespace sim { __attribute__((weak)) void io_point() {} }
extern "C" {
FILE* fopen(const char* p, const char* m) {
	if (case_active()) { io_point(); return vfopen(p, m); }
	static auto f = next_sym<FILE* (*)(const char*, const char*)>("fopen");
	return f(p, m);
}
FILE* fopen64(const char* p, const char* m) {
	if (case_active()) { io_point(); return vfopen(p, m); }
	static auto f = next_sym<FILE* (*)(const char*, const char*)>("fopen64");
	return f(p, m);
}
int fileno(FILE* fp) {
	for (int i = 0; i < NH; ++i) if (g_h[i].used && g_h[i].fp == fp) return FD0 + i;
	static auto f = next_sym<int (*)(FILE*)>("fileno");
	return f(fp);
}
ssize_t read(int fd, void* b, size_t n) {
	if (Handle* h = handle(fd)) { io_point(); return vread(h, b, n); }
	return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
	if (Handle* h = handle(fd)) { io_point(); return vwrite(h, b, n); }
	return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
	if (Handle* h = handle(fd)) {
		ssize_t t = 0;
		for (int i = 0; i < c; ++i) {
			if (!v[i].iov_len) continue;
			ssize_t r = vwrite(h, v[i].iov_base, v[i].iov_len, t == 0);
			if (r < 0) return t ? t : -1;
			t += r;
			if ((size_t)r < v[i].iov_len) break;
		}
		return t;
	}
	return syscall(SYS_writev, fd, v, c);
}
ssize_t readv(int fd, const struct iovec* v, int c) {
	if (Handle* h = handle(fd)) { for (int i = 0; i < c; ++i) if (v[i].iov_len) return vread(h, v[i].iov_base, v[i].iov_len); return 0; }
	return syscall(SYS_readv, fd, v, c);
}
off_t lseek(int fd, off_t o, int w) {
	if (Handle* h = handle(fd)) return vseek(h, o, w);
	return syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
static int vopen_flags(const char* p, int fl) {
	int acc = fl & O_ACCMODE;
	return vopen(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_APPEND, fl & O_TRUNC, fl & O_CREAT, (fl & O_CREAT) && (fl & O_EXCL));
}
int open(const char* p, int fl, ...) {
	va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a);
	if (case_active()) { io_point(); return vopen_flags(p, fl); }
	return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
int open64(const char* p, int fl, ...) {
	va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a);
	if (case_active()) { io_point(); return vopen_flags(p, fl); }
	return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
int close(int fd) {
	if (Handle* h = handle(fd)) { io_point(); return vclose(h); }
	return (int)syscall(SYS_close, fd);
}
static bool planned_pipe(const char* path) { if (!strncmp(path, "./", 2)) path += 2; bool r = false; for (auto& q : g_plans) if (q.used && !strcmp(q.path, "*")) r = q.p.pipe; for (auto& q : g_plans) if (q.used && !strcmp(q.path, path)) r = q.p.pipe; return r; }
static void fill_stat(struct stat* s, const File* f, bool pipe) { memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; s->st_size = (off_t)f->n; s->st_nlink = 1; s->st_blksize = 4096; if (pipe) { s->st_mode = S_IFIFO | 0644; s->st_size = 0; } }
int fstat(int fd, struct stat* s) {
	if (Handle* h = handle(fd)) { fill_stat(s, h->f, h->p.pipe); return 0; }
	return (int)syscall(SYS_fstat, fd, s);
}
int fstat64(int fd, struct stat64* s) { return fstat(fd, (struct stat*)s); }
int stat(const char* p, struct stat* s) {
	if (case_active()) { File* f = lookup(p, false); if (!f) { errno = ENOENT; return -1; } fill_stat(s, f, planned_pipe(p)); return 0; }
	return (int)syscall(SYS_stat, p, s);
}
int stat64(const char* p, struct stat64* s) { return stat(p, (struct stat*)s); }
int access(const char* p, int m) {
	if (case_active()) { if (lookup(p, false)) return 0; errno = ENOENT; return -1; }
	return (int)syscall(SYS_access, p, m);
}
int ioctl(int fd, unsigned long req, ...) {
	va_list a; va_start(a, req); void* arg = va_arg(a, void*); va_end(a);
	if (Handle* h = handle(fd)) {
		if (req == FIONREAD && h->p.pipe) {
			if (h->arrived < h->pos) h->arrived = h->pos;
			if (h->arrived < h->f->n && draw_io(2)) h->arrived += (size_t)draw_io(h->f->n - h->arrived + 1);
			*(int*)arg = (int)(h->arrived - h->pos); return 0;
		}
		if (req == FIONREAD) { *(int*)arg = (int)(h->pos < h->f->n ? h->f->n - h->pos : 0); return 0; }
		errno = ENOTTY; return -1;
	}
	return (int)syscall(SYS_ioctl, fd, req, arg);
}
int poll(struct pollfd* p, nfds_t n, int t) {
	if (n && handle(p[0].fd)) { for (nfds_t i = 0; i < n; ++i) p[i].revents = p[i].events; return (int)n; }
	return (int)syscall(SYS_poll, p, n, t);
}
int fsync(int fd) {
	if (Handle* h = handle(fd)) {
		io_point();
		if (h->p.fsync_errno) { hit("fsync-error", true); note("  !fsync %s errno %d", h->f->path, h->p.fsync_errno); errno = h->p.fsync_errno; return -1; }
		return 0;
	}
	return (int)syscall(SYS_fsync, fd);
}
int fdatasync(int fd) { if (handle(fd)) return fsync(fd); return (int)syscall(SYS_fdatasync, fd); }
static int rename_fault(const char* path) { if (!strncmp(path, "./", 2)) path += 2; int r = 0; for (auto& q : g_plans) if (q.used && !strcmp(q.path, "*")) r = q.p.rename_errno; for (auto& q : g_plans) if (q.used && !strcmp(q.path, path)) r = q.p.rename_errno; return r; }
int unlink(const char* p) {
	if (case_active()) { File* f = lookup(p, false); if (!f) { errno = ENOENT; return -1; } f->exists = false; return 0; }
	return (int)syscall(SYS_unlink, p);
}
int remove(const char* p) { return unlink(p); }
int rename(const char* a, const char* b) {
	if (case_active()) {
		io_point();
		if (int e = rename_fault(b)) { hit("rename-error", true); note("  !rename %s to %s errno %d", a, b, e); errno = e; return -1; }
		File* f = lookup(a, false); if (!f) { errno = ENOENT; return -1; }
		File* g = lookup(b, false); if (g && g != f) g->exists = false;
		if (!strncmp(b, "./", 2)) b += 2;
		if (strlen(b) >= sizeof f->path) { errno = ENAMETOOLONG; return -1; }
		strcpy(f->path, b); return 0;
	}
	return (int)syscall(SYS_rename, a, b);
}
int clock_gettime(clockid_t id, struct timespec* t) {
	if (case_active()) { int64_t v = vclock(); t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0; }
	return real_clock_gettime(id, t);
}
int gettimeofday(struct timeval* t, void*) {
	struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0;
}
time_t time(time_t* o) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (o) *o = s.tv_sec; return s.tv_sec; }
clock_t clock() { struct timespec s; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &s); return (clock_t)(s.tv_sec * 1000000 + s.tv_nsec / 1000); }
int nanosleep(const struct timespec* r, struct timespec* rem) {
	if (case_active()) { g_clock += r->tv_sec * 1000000000ll + r->tv_nsec; return 0; }
	return (int)syscall(SYS_nanosleep, r, rem);
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec* r, struct timespec* rem) {
	if (case_active()) { if (!(fl & TIMER_ABSTIME)) g_clock += r->tv_sec * 1000000000ll + r->tv_nsec; return 0; }
	return (int)syscall(SYS_clock_nanosleep, id, fl, r, rem);
}
int usleep(useconds_t us) { struct timespec t = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; return nanosleep(&t, nullptr); }
} // extern C
