// Deterministic simulation runtime: file system, dynamic loader and standard output seams.
// Paths below the scratch root are served by real files through raw system calls; every operation can fail,
// be shortened or interrupted, the disk can be full, and the process can be killed inside a write.
#include "rt.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <set>
#include <streambuf>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
u64 fs_capacity = ~0ull, fs_writes = 0, fs_reads = 0, fs_opens = 0, fs_bytes_written = 0;
bool fs_kill_enabled = false; u64 fs_kill_at = 0; bool fs_faults_on = false; bool dl_faults_on = false;
static std::string root; static bool err_seen = false; static std::string err_text;
struct FD { std::string path; u64 last_write_start = 0; u64 max_off = 0; bool wrote = false; bool wr = false; };
static std::map<int, FD>* fds; static std::map<FILE*, int>* files;
static bool on() { return active && self_tid() >= 0; }
static bool flt() { return on() && fs_faults_on; }
void fs_root(const std::string& d) { root = d; if (!fds) { fds = new std::map<int, FD>; files = new std::map<FILE*, int>; } }
void fs_reset_stats() { fs_writes = fs_reads = fs_opens = fs_bytes_written = 0; }
int fs_open_count() { return fds ? (int)fds->size() : 0; }
std::string fs_open_paths() { std::string r; if (fds) for (auto& f : *fds) r += f.second.path + " "; return r; }
bool fs_error_seen() { return err_seen; }
void fs_error_reset() { err_seen = false; err_text.clear(); }
std::string fs_error_text() { return err_text; }
static void err(const std::string& t) { err_seen = true; if (err_text.size() < 400) err_text += (err_text.empty() ? "" : ", ") + t; }
static std::string absolute(const char* p) { if (p[0] == '/') return p; char b[4096]; if (!getcwd(b, sizeof b)) return p; return std::string(b) + "/" + p; }
static bool tracked(const char* p) { if (root.empty() || !p) return false; if (p[0] != '/') return strncmp(p, "../", 3) != 0; std::string a = absolute(p); return a.compare(0, root.size(), root) == 0; }
static FD* fd_of(int fd) { if (!fds) return nullptr; auto it = fds->find(fd); return it == fds->end() ? nullptr : &it->second; }
static std::string base(const std::string& p) { return p.substr(p.rfind('/') + 1); }

static int do_open(int dirfd, const char* p, int fl, mode_t m) { Rt rtg;
    if (dirfd == AT_FDCWD && on() && tracked(p)) {
        point(); fs_opens++;
        bool wr = (fl & O_ACCMODE) != O_RDONLY; u64 pv;
        if (flt() && fault(F_OPEN_ERR, &pv)) { static const int e[] = { EACCES, ENOENT, EMFILE, EIO, ENOSPC, EROFS }; err("open(" + base(p) + ") failed"); errno = e[pv % (wr ? 6 : 4)]; return -1; }
        int fd = (int)syscall(SYS_openat, dirfd, p, fl, m);
        if (fd >= 0) { FD f; f.path = p; f.wr = wr; (*fds)[fd] = f; }
        return fd;
    }
    return (int)syscall(SYS_openat, dirfd, p, fl, m);
}
static u64 used() { return fs_bytes_written; }
static ssize_t do_write(int fd, const void* b, size_t n) { Rt rtg;
    FD* f = fd_of(fd);
    if (!f || !on()) return syscall(SYS_write, fd, b, n);
    point(); u64 pv; fs_writes++;
    off_t pos = lseek(fd, 0, SEEK_CUR);
    if (fs_kill_enabled && fs_writes - 1 == fs_kill_at) {
        // the process dies inside this write: nothing, part or all of it reached the file
        u64 k = 0; fault(F_KILL, &k); size_t m = n ? (size_t)(k % (n + 1)) : 0; if (m) syscall(SYS_write, fd, b, m); exit_process(137);
    }
    if (flt()) {
        if (fault(F_WRITE_EINTR)) { errno = EINTR; return -1; }
        if (fault(F_WRITE_ERR)) { err("write(" + base(f->path) + ") failed"); errno = EIO; return -1; }
        if (n > 1 && fault(F_WRITE_SHORT, &pv)) n = 1 + pv % (n - 1);
    }
    if (fs_capacity != ~0ull) {
        u64 left = used() >= fs_capacity ? 0 : fs_capacity - used();
        if (left == 0 && n > 0) { u64 d; err("disk full writing " + base(f->path)); (void)d; errno = ENOSPC; extern void count_enospc(); count_enospc(); return -1; }
        if (n > left) n = (size_t)left;
    }
    ssize_t r = syscall(SYS_write, fd, b, n);
    if (r > 0) { fs_bytes_written += r; f->last_write_start = pos; f->wrote = true; f->max_off = std::max<u64>(f->max_off, pos + r); }
    return r;
}
void count_enospc() { shm->r.faults[F_ENOSPC]++; }
static ssize_t do_read(int fd, void* b, size_t n) { Rt rtg;
    FD* f = fd_of(fd);
    if (!f || !on()) return syscall(SYS_read, fd, b, n);
    point(); u64 pv; fs_reads++;
    if (flt()) {
        if (fault(F_READ_EINTR)) { errno = EINTR; return -1; }
        if (fault(F_READ_ERR)) { err("read(" + base(f->path) + ") failed"); errno = EIO; return -1; }
        if (n > 1 && fault(F_READ_SHORT, &pv)) n = 1 + pv % (n - 1);
    }
    return syscall(SYS_read, fd, b, n);
}
static int do_close(int fd) { Rt rtg;
    FD* f = fd_of(fd);
    if (!f || !on()) { if (fds) fds->erase(fd); return (int)syscall(SYS_close, fd); }
    point(); u64 pv; int r = 0;
    if (flt() && f->wr && f->wrote && fault(F_CLOSE_ERR, &pv)) {
        // write-back failure reported by close: the tail of the file is lost
        u64 cut = f->max_off ? pv % f->max_off : 0; syscall(SYS_ftruncate, fd, (off_t)cut);
        err("close(" + base(f->path) + ") failed, file truncated"); r = -1;
    }
    fds->erase(fd); syscall(SYS_close, fd);
    if (r) errno = EIO;
    return r;
}
// ---- stdio on top
static ssize_t ck_read(void* c, char* b, size_t n) { for (;;) { ssize_t r = do_read((int)(intptr_t)c, b, n); if (r < 0 && errno == EINTR) continue; return r; } }
static ssize_t ck_write(void* c, const char* b, size_t n) {   // like the C library: loops over short writes
    size_t k = 0; while (k < n) { ssize_t r = do_write((int)(intptr_t)c, b + k, n - k); if (r < 0) { if (errno == EINTR) continue; break; } k += r; } return (ssize_t)k; }
static int ck_seek(void* c, off64_t* o, int w) { off_t r = lseek((int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { return do_close((int)(intptr_t)c); }
static FILE* mk_file(int fd, const char* mode) { cookie_io_functions_t io{ ck_read, ck_write, ck_seek, ck_close }; FILE* f = fopencookie((void*)(intptr_t)fd, mode, io); if (f) (*files)[f] = fd; return f; }
static int parse_mode(const char* m) { bool p = strchr(m, '+'); int fl = 0; switch (m[0]) { case 'r': fl = p ? O_RDWR : O_RDONLY; break; case 'w': fl = (p ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break; case 'a': fl = (p ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break; } if (strchr(m, 'x')) fl |= O_EXCL; return fl | O_CLOEXEC; }

// ---- stdout capture
static int cap_fd = -1, saved_out = -1;
struct CapBuf : std::streambuf {
    u64 unflushed = 0;      // a buffered stream would still hold these
    int sync() override { unflushed = 0; return 0; }
    int overflow(int c) override { if (c != EOF) { unflushed++; char ch = (char)c; point(); syscall(SYS_write, 1, &ch, 1); } return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { unflushed += n; point(); syscall(SYS_write, 1, s, n); return n; }
};
static CapBuf* capbuf; static std::streambuf* old_buf;
void capture_stdout() {
    fflush(stdout); std::cout.flush();
    cap_fd = (int)syscall(SYS_memfd_create, "stdout", 0); saved_out = (int)syscall(SYS_dup, 1);
    syscall(SYS_dup2, cap_fd, 1); setvbuf(stdout, nullptr, _IONBF, 0);
    if (!capbuf) capbuf = new CapBuf; capbuf->unflushed = 0; old_buf = std::cout.rdbuf(capbuf);
}
u64 unflushed_output() { return capbuf ? capbuf->unflushed : 0; }
std::string captured() {
    fflush(stdout); off_t n = lseek(cap_fd, 0, SEEK_END); std::string s(n, 0); off_t k = 0;
    while (k < n) { ssize_t r = pread(cap_fd, &s[k], n - k, k); if (r <= 0) break; k += r; } return s;
}
void release_stdout() { std::cout.rdbuf(old_buf); syscall(SYS_dup2, saved_out, 1); syscall(SYS_close, saved_out); syscall(SYS_close, cap_fd); }
}
using namespace sim;

#define NEXT(ret, name, ...) static ret (*r)(__VA_ARGS__); if (!r) r = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
extern "C" {
int open(const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return do_open(AT_FDCWD, p, fl, m); }
int open64(const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return do_open(d, p, fl, m); }
int creat(const char* p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t write(int fd, const void* b, size_t n) { return do_write(fd, b, n); }
ssize_t read(int fd, void* b, size_t n) { return do_read(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) { Rt rtg;
    if (!fd_of(fd) || !on()) return syscall(SYS_writev, fd, v, c);
    ssize_t t = 0; for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t;
}
int close(int fd) { return do_close(fd); }
int fsync(int fd) { Rt rtg; FD* f = fd_of(fd); if (f && flt() && fault(F_FSYNC_ERR)) { err("fsync failed"); errno = EIO; return -1; } return (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return fsync(fd); }
FILE* fopen(const char* p, const char* m) { Rt rtg;
    if (on() && tracked(p)) { int fd = do_open(AT_FDCWD, p, parse_mode(m), 0666); if (fd < 0) return nullptr; return mk_file(fd, m); }
    NEXT(FILE*, fopen, const char*, const char*); return r(p, m);
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
FILE* fdopen(int fd, const char* m) { Rt rtg; if (fd_of(fd) && on()) return mk_file(fd, m); NEXT(FILE*, fdopen, int, const char*); return r(fd, m); }
int fclose(FILE* f) { Rt rtg; NEXT(int, fclose, FILE*); if (files) files->erase(f); return r(f); }
int fileno(FILE* f) { Rt rtg; if (files) { auto it = files->find(f); if (it != files->end()) return it->second; } NEXT(int, fileno, FILE*); return r(f); }
int mkdir(const char* p, mode_t m) { Rt rtg; if (flt() && tracked(p)) { point(); u64 pv; if (fault(F_MKDIR_ERR, &pv)) { static const int e[] = { EACCES, ENOSPC, EIO }; err("mkdir failed"); errno = e[pv % 3]; return -1; } } return (int)syscall(SYS_mkdir, p, m); }
int rename(const char* a, const char* b) { Rt rtg; if (flt() && tracked(b)) { point(); if (fault(F_RENAME_ERR)) { err("rename failed"); errno = EIO; return -1; } } return (int)syscall(SYS_rename, a, b); }

// ---- directories: the order of the entries is a seeded permutation
struct DirList { std::vector<dirent> e; size_t at = 0; };
static std::map<DIR*, DirList>* dirs;
static void list_dir(DIR* d) {
    NEXT(dirent*, readdir, DIR*); DirList l; while (dirent* e = r(d)) l.e.push_back(*e);
    for (auto& e : l.e) { e.d_ino = 1; e.d_off = 0; }
    std::sort(l.e.begin(), l.e.end(), [](const dirent& a, const dirent& b) { return strcmp(a.d_name, b.d_name) < 0; });
    Rng g; g.seed(mix(spec.seed, 77)); for (size_t i = l.e.size(); i > 1; i--) std::swap(l.e[i - 1], l.e[g.below(i)]);
    if (!dirs) dirs = new std::map<DIR*, DirList>; (*dirs)[d] = l;
}
DIR* opendir(const char* p) { Rt rtg; NEXT(DIR*, opendir, const char*); DIR* d = r(p); if (d && on() && tracked(p)) list_dir(d); return d; }
DIR* fdopendir(int fd) { Rt rtg; NEXT(DIR*, fdopendir, int); bool t = fd_of(fd) && on(); DIR* d = r(fd); if (d && t) list_dir(d); return d; }
dirent* readdir(DIR* d) { Rt rtg; if (dirs) { auto it = dirs->find(d); if (it != dirs->end()) return it->second.at < it->second.e.size() ? &it->second.e[it->second.at++] : nullptr; } NEXT(dirent*, readdir, DIR*); return r(d); }
struct dirent64* readdir64(DIR* d) { return (struct dirent64*)readdir(d); }
int closedir(DIR* d) { Rt rtg; if (dirs) dirs->erase(d); int fd = dirfd(d); if (fds) fds->erase(fd); NEXT(int, closedir, DIR*); return r(d); }

// ---- dynamic loader
static thread_local std::string dl_msg; static thread_local bool dl_have = false; static std::set<void*> dl_open_handles;
void* dlopen(const char* p, int fl) {
    NEXT(void*, dlopen, const char*, int);
    if (on() && !quiet_get() && dl_faults_on && p) { Rt rtg; point(); if (fault(F_DLOPEN_ERR)) { dl_msg = std::string(p) + ": simulated loader failure"; dl_have = true; return nullptr; } }
    dl_have = false; return r(p, fl);
}
int dlclose(void* h) {
    NEXT(int, dlclose, void*);
    if (on() && !quiet_get() && dl_faults_on) { Rt rtg; point(); if (fault(F_DLCLOSE_ERR)) { dl_msg = "simulated unload failure"; dl_have = true; return 1; } }
    dl_have = false; return r(h);
}
char* dlerror() { NEXT(char*, dlerror); if (dl_have) { dl_have = false; return (char*)dl_msg.c_str(); } return r(); }
}
