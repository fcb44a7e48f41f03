// Simulated disk: files below /simdisk/ live in memory; how their bytes reach the reader is decided by an IoScript.
// Compiled WITHOUT instrumentation. Everything else goes to the real file system calls.
#include "rt.h"
#include "rt_internal.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
namespace sim {
DiskStats disk_stats;
namespace {
struct File { std::string content; IoScript s; Rng r; int stats = 0; bool gone = false; bool eio_fired = false; };
std::map<std::string, File> & files() { static std::map<std::string, File> m; return m; }
struct Fd { File * f = nullptr; };
Fd g_fd[1024];
bool ours(const char * p) { return p && g_active && !strncmp(p, "/simdisk/", 9); }
struct Host { int sv; Host() : sv(tl.nest) { tl.nest = 1; } ~Host() { tl.nest = sv; } };
File * find(const char * p) { Host h; auto i = files().find(p); return i == files().end() || i->second.gone ? nullptr : &i->second; }
int do_open(const char * p, int flags) {
    Host h; File * f = find(p);
    if (!f) { errno = ENOENT; return -1; }
    if (f->s.open_errno) { fault(F_OPEN_FAIL); disk_stats.openfail++; errno = f->s.open_errno; return -1; }
    if ((flags & O_ACCMODE) != O_RDONLY) { errno = EROFS; return -1; }
    int fd = (int) syscall(SYS_memfd_create, "simdisk", 0);
    if (fd < 0 || fd >= 1024) harness_error("memfd_create failed");
    size_t o = 0; while (o < f->content.size()) { ssize_t k = (ssize_t) syscall(SYS_write, fd, f->content.data() + o, f->content.size() - o); if (k <= 0) harness_error("memfd write failed"); o += (size_t) k; }
    syscall(SYS_lseek, fd, 0, SEEK_SET);
    g_fd[fd].f = f; disk_stats.opens++;
    log("open"); log((uint64_t) f->content.size());
    return fd;
}
int do_stat(const char * p, struct stat * b) {
    Host h; File * f = find(p);
    if (!f) { errno = ENOENT; return -1; }
    if (f->s.vanish_after_stat && ++f->stats >= f->s.vanish_after_stat) { f->gone = true; fault(F_VANISH); }
    if (b) { memset(b, 0, sizeof *b); b->st_mode = S_IFREG | 0444; b->st_size = (off_t) f->content.size(); b->st_nlink = 1; b->st_ino = 7; b->st_dev = 7; b->st_blksize = 4096; }
    return 0;
}
bool is_ours(int fd) { return g_active && fd >= 0 && fd < 1024 && g_fd[fd].f; }
ssize_t do_read(int fd, void * buf, size_t n, bool stdio = false) {
    Host h; File * f = g_fd[fd].f; disk_stats.reads++;
    int64_t pos = (int64_t) syscall(SYS_lseek, fd, 0, SEEK_CUR);
    if (!stdio && f->s.eintr_pct && (int) f->r.below(100) < f->s.eintr_pct) { fault(F_EINTR); disk_stats.eintr++; log("eintr"); errno = EINTR; return -1; }
    if (f->s.eio_at >= 0 && pos + (int64_t) n > f->s.eio_at) {
        if (pos >= f->s.eio_at) { if (!(f->s.eio_once && f->eio_fired)) { f->eio_fired = true; fault(F_EIO); disk_stats.eio++; log("eio"); errno = EIO; return -1; } }
        else if (!(f->s.eio_once && f->eio_fired)) n = (size_t) (f->s.eio_at - pos);
    }
    if (f->s.eof_at >= 0 && pos + (int64_t) n > f->s.eof_at) { n = pos >= f->s.eof_at ? 0 : (size_t) (f->s.eof_at - pos); fault(F_EARLY_EOF); disk_stats.eof++; }
    if (n > 1 && f->s.short_pct && (int) f->r.below(100) < f->s.short_pct) { n = 1 + f->r.below(f->r.chance(1, 2) ? (n < 16 ? n : 16) : n); fault(F_SHORT_READ); disk_stats.shorts++; }
    ssize_t k = n ? (ssize_t) syscall(SYS_read, fd, buf, n) : 0;
    if (k > 0) disk_stats.bytes += (uint64_t) k;
    log((uint64_t) k + 17);
    return k;
}
// A FILE of the simulated disk is a cookie stream over the simulated descriptor, so that fread, fgets, fscanf... see the
// script too; fileno() is made to answer the descriptor, because libstdc++'s filebuf opens with fopen and then reads it
// directly. Interrupted reads are not injected here: a stdio stream cannot resume from one, and Linux does not
// interrupt reads of regular files.
ssize_t ck_read(void * c, char * b, size_t n) { int fd = (int) (intptr_t) c; if (is_ours(fd)) return do_read(fd, b, n, true); return (ssize_t) syscall(SYS_read, fd, b, n); }
int ck_seek(void * c, off64_t * o, int w) { off64_t r = (off64_t) syscall(SYS_lseek, (int) (intptr_t) c, *o, w); if (r < 0) return -1; *o = r; return 0; }
int ck_close(void * c) { int fd = (int) (intptr_t) c; g_fd[fd].f = nullptr; return (int) syscall(SYS_close, fd); }
}
void disk_put(const std::string & path, const std::string & content, const IoScript & s) { Host h; File & f = files()[path]; f = File(); f.content = content; f.s = s; f.r = Rng(s.seed); }
void disk_remove(const std::string & path) { Host h; auto i = files().find(path); if (i == files().end()) return; for (auto & f : g_fd) if (f.f == &i->second) f.f = nullptr; files().erase(i); }
void disk_reset() { Host h; files().clear(); for (auto & f : g_fd) f.f = nullptr; }
void disk_faults_off(const std::string & path) { Host h; auto i = files().find(path); if (i != files().end()) { i->second.s = IoScript(); i->second.gone = false; } }
}
using namespace sim;
extern "C" {
#define NEXT(T, n) ((T) real_fn(n))
FILE * fopen(const char * p, const char * m) {
    if (!ours(p)) return NEXT(FILE * (*)(const char *, const char *), "fopen")(p, m);
    int fd = do_open(p, m[0] == 'r' && !strchr(m, '+') ? O_RDONLY : O_RDWR); if (fd < 0) return nullptr;
    int sv = tl.sim; tl.sim = 0; FILE * f = fopencookie((void *) (intptr_t) fd, "r", cookie_io_functions_t{ck_read, nullptr, ck_seek, ck_close}); tl.sim = sv;      // the FILE itself is the kernel's side
    if (f) f->_fileno = fd;
    return f;
}
FILE * fopen64(const char * p, const char * m) { return fopen(p, m); }
int open(const char * p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap); if (ours(p)) return do_open(p, fl); return (int) syscall(SYS_openat, AT_FDCWD, p, fl, mode); }
int open64(const char * p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap); if (ours(p)) return do_open(p, fl); return (int) syscall(SYS_openat, AT_FDCWD, p, fl | O_LARGEFILE, mode); }
int openat(int d, const char * p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap); if (ours(p)) return do_open(p, fl); return (int) syscall(SYS_openat, d, p, fl, mode); }
int stat(const char * p, struct stat * b) { if (ours(p)) return do_stat(p, b); return NEXT(int (*)(const char *, struct stat *), "stat")(p, b); }
int lstat(const char * p, struct stat * b) { if (ours(p)) return do_stat(p, b); return NEXT(int (*)(const char *, struct stat *), "lstat")(p, b); }
int stat64(const char * p, struct stat64 * b) { return stat(p, (struct stat *) b); }
int lstat64(const char * p, struct stat64 * b) { return lstat(p, (struct stat *) b); }
int fstatat(int d, const char * p, struct stat * b, int f) { if (ours(p)) return do_stat(p, b); return NEXT(int (*)(int, const char *, struct stat *, int), "fstatat")(d, p, b, f); }
int access(const char * p, int m) { if (ours(p)) { if (m & W_OK) { errno = EROFS; return -1; } return do_stat(p, nullptr); } return (int) syscall(SYS_access, p, m); }
ssize_t read(int fd, void * b, size_t n) { if (is_ours(fd)) return do_read(fd, b, n); return (ssize_t) syscall(SYS_read, fd, b, n); }
ssize_t readv(int fd, const struct iovec * v, int c) { if (is_ours(fd)) { for (int i = 0; i < c; ++i) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len); return 0; } return (ssize_t) syscall(SYS_readv, fd, v, c); }
ssize_t pread(int fd, void * b, size_t n, off_t o) { if (is_ours(fd)) { int64_t p = syscall(SYS_lseek, fd, 0, SEEK_CUR); syscall(SYS_lseek, fd, o, SEEK_SET); ssize_t k = do_read(fd, b, n); int e = errno; syscall(SYS_lseek, fd, p, SEEK_SET); errno = e; return k; } return (ssize_t) syscall(SYS_pread64, fd, b, n, o); }
int close(int fd) { if (fd >= 0 && fd < 1024) sim::g_fd[fd].f = nullptr; return (int) syscall(SYS_close, fd); }
}
