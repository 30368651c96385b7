// Stand-ins for the system calls the file code makes, on a small in-memory file system.  Any call may fail (symbolic).
#pragma once
#ifndef CAPR
#define CAPR 2100
#endif
#include "hs.h"
#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
static inline size_t vlen(const char* p) { size_t n = 0; while (p[n]) ++n; return n; }
struct File { Ref c, dur; bool durable = false; unsigned mode = 0; };           // dur: what a crash is sure to find
struct Fd { bool open = false; int f = -1; size_t pos = 0; int flags = 0; bool ours = false; };
struct Map { void* p = nullptr; size_t n = 0; int f = -1; bool shared = false; bool live = false; };
struct Ent { bool used = false; Ref name; int f = -1; };
static File files[6]; static int nfiles; static Fd fds[12]; static Map maps[4]; static int nmaps; static Ent dir[6];
static bool faulted, faults_on, crash_on; static int nfault, maxfault = 100; static void (*crash_point)();
static unsigned ncalls;
static bool fault(const char* what) { ++ncalls; if (crash_on && crash_point) crash_point(); if (!faults_on || nfault >= maxfault) return false; if (vf_flag()) { vf_note(what); faulted = true; ++nfault; errno = EIO; return true; } return false; }
static void ended() { if (crash_on && crash_point) crash_point(); }
// "a/./b" and "a//b" and "./b" name the same entries as "a/b" and "b"
static Ref norm(const char* p) { Ref o; size_t n = vlen(p), i = 0; bool abs = n && p[0] == '/'; if (abs) o.app("/", 1); while (i < n) { while (i < n && p[i] == '/') ++i; size_t j = i; while (j < n && p[j] != '/') ++j; if (j > i && !(j == i + 1 && p[i] == '.')) { if (o.n && o.b[o.n - 1] != '/') o.app("/", 1); o.app(p + i, j - i); } i = j; } return o; }
static bool eqr(const Ref& a, const Ref& b) { return a.n == b.n && vf_eq(a.b, b.b, a.n); }
static Ent* look(const Ref& n) { for (auto& e : dir) if (e.used && eqr(e.name, n)) return &e; return nullptr; }
static Ent* add(const Ref& n, int f) { for (auto& e : dir) if (!e.used) { e.used = true; e.name = n; e.f = f; return &e; } vf_giveup("directory full"); return nullptr; }
static int newfile(unsigned mode) { if (nfiles == 6) vf_giveup("too many files"); files[nfiles].mode = mode; files[nfiles].c.n = 0; files[nfiles].dur.n = 0; files[nfiles].durable = true; return nfiles++; }
static int newfd(int f, int flags) { for (int i = 3; i < 12; ++i) if (!fds[i].open) { fds[i] = Fd(); fds[i].open = true; fds[i].f = f; fds[i].flags = flags; fds[i].ours = true; return i; } vf_giveup("too many descriptors"); return -1; }
static Fd* getfd(int fd) { if (fd < 0 || fd >= 12 || !fds[fd].open) return nullptr; return &fds[fd]; }
static void dirty(int f) { files[f].durable = false; }
static int open_fds() { int n = 0; for (auto& f : fds) n += f.open; return n; }
static int live_maps() { int n = 0; for (auto& m : maps) n += m.live; return n; }
extern "C" {
int vfs_open(const char* path, int flags, unsigned mode) {
  if (fault("open")) return -1; Ref n = norm(path); Ent* e = look(n); if (!e) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } e = add(n, newfile(mode)); } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (flags & O_TRUNC) { files[e->f].c.n = 0; dirty(e->f); } int r = newfd(e->f, flags); ended(); return r; }
int vfs_creat(const char* path, unsigned mode) { return vfs_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int vfs_close(int fd) { Fd* d = getfd(fd); if (!d) { if (fd != -1) VF_ASSERT(false, "closing a descriptor that is not open"); errno = EBADF; return -1; } d->open = false; if (fault("close")) return -1; ended(); return 0; }
off_t vfs_lseek(int fd, off_t o, int w) { Fd* d = getfd(fd); if (!d) { errno = EBADF; return -1; } if (fault("lseek")) return -1; off_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off_t)d->pos : (off_t)files[d->f].c.n; if (b + o < 0) { errno = EINVAL; return -1; } d->pos = (size_t)(b + o); return b + o; }
ssize_t vfs_pread(int fd, void* p, size_t n, off_t o) { Fd* d = getfd(fd); if (!d) { errno = EBADF; return -1; } if (fault("read")) return -1; Ref& c = files[d->f].c; size_t k = (size_t)o < c.n ? c.n - (size_t)o : 0; if (k > n) k = n; if (faults_on && k > 1 && vf_flag()) k = 1; for (size_t i = 0; i < k; ++i) ((char*)p)[i] = c.b[(size_t)o + i]; return (ssize_t)k; }
ssize_t vfs_read(int fd, void* p, size_t n) { Fd* d = getfd(fd); ssize_t r = vfs_pread(fd, p, n, d ? (off_t)d->pos : 0); if (r > 0) d->pos += (size_t)r; return r; }
ssize_t vfs_pwrite(int fd, const void* p, size_t n, off_t o) { Fd* d = getfd(fd); if (!d || (d->flags & 3) == O_RDONLY) { errno = EBADF; return -1; } if (fault("write")) return -1; if (faults_on && n > 1 && vf_flag()) n = 1; Ref& c = files[d->f].c; for (size_t i = c.n; i < (size_t)o; ++i) c.b[i] = 0; c.over((size_t)o, (const char*)p, n); dirty(d->f); ended(); return (ssize_t)n; }
ssize_t vfs_write(int fd, const void* p, size_t n) { Fd* d = getfd(fd); ssize_t r = vfs_pwrite(fd, p, n, d ? (off_t)d->pos : 0); if (r > 0) d->pos += (size_t)r; return r; }
int vfs_ftruncate(int fd, off_t n) { Fd* d = getfd(fd); if (!d || (d->flags & 3) == O_RDONLY) { errno = EBADF; return -1; } if (fault("ftruncate")) return -1; Ref& c = files[d->f].c; for (size_t i = c.n; i < (size_t)n; ++i) c.b[i] = 0; c.n = (size_t)n; dirty(d->f); ended(); return 0; }
static int st_(int f, struct stat* s) { __builtin_memset(s, 0, sizeof *s); s->st_size = (off_t)files[f].c.n; s->st_mode = S_IFREG | files[f].mode; s->st_nlink = 1; s->st_blksize = 4096; s->st_ino = (ino_t)(f + 10); return 0; }
int vfs_fstat(int fd, struct stat* s) { Fd* d = getfd(fd); if (!d) { errno = EBADF; return -1; } if (fault("fstat")) return -1; return st_(d->f, s); }
int vfs_stat(const char* p, struct stat* s) { if (fault("stat")) return -1; Ent* e = look(norm(p)); if (!e) { errno = ENOENT; return -1; } return st_(e->f, s); }
int vfs_access(const char* p, int) { if (fault("access")) return -1; if (!look(norm(p))) { errno = ENOENT; return -1; } return 0; }
void* vfs_mmap(void*, size_t n, int prot, int flags, int fd, off_t off) { Fd* d = getfd(fd); if (!d) { errno = EBADF; return MAP_FAILED; } if (n == 0) { errno = EINVAL; return MAP_FAILED; } if (fault("mmap")) return MAP_FAILED; if (off != 0) vf_giveup("mapping at an offset"); if ((flags & MAP_SHARED) && (prot & PROT_WRITE) && (d->flags & 3) != O_RDWR) { errno = EACCES; return MAP_FAILED; }
  Ref& c = files[d->f].c; size_t k = n < c.n ? n : c.n; char* p = new char[k ? k : 1]; for (size_t i = 0; i < k; ++i) p[i] = c.b[i]; if (nmaps == 4) vf_giveup("too many mappings"); Map& m = maps[nmaps++]; m.p = p; m.n = n; m.f = d->f; m.shared = (flags & MAP_SHARED) && (prot & PROT_WRITE); m.live = true; return p; }
static void flushmap(Map& m) { if (!m.shared) return; Ref& c = files[m.f].c; size_t k = m.n < c.n ? m.n : c.n; for (size_t i = 0; i < k; ++i) c.b[i] = ((char*)m.p)[i]; dirty(m.f); }
int vfs_munmap(void* p, size_t n) { for (int i = 0; i < nmaps; ++i) if (maps[i].live && maps[i].p == p) { VF_ASSERT(n == maps[i].n, "unmapping the length that was mapped"); maps[i].live = false; bool bad = fault("munmap"); if (!bad) flushmap(maps[i]); delete[] (char*)maps[i].p; ended(); return bad ? -1 : 0; } VF_ASSERT(false, "unmapping something that is not mapped"); return -1; }
int vfs_msync(void* p, size_t, int) { if (fault("msync")) return -1; for (int i = 0; i < nmaps; ++i) if (maps[i].live && maps[i].p == p) flushmap(maps[i]); return 0; }
int vfs_fsync(int fd) { Fd* d = getfd(fd); if (!d) { errno = EBADF; return -1; } if (fault("fsync")) return -1; files[d->f].dur = files[d->f].c; files[d->f].durable = true; ended(); return 0; }
int vfs_fchmod(int fd, unsigned mode) { Fd* d = getfd(fd); if (!d) { errno = EBADF; return -1; } if (fault("fchmod")) return -1; files[d->f].mode = mode; ended(); return 0; }
int vfs_chmod(const char* p, unsigned mode) { if (fault("chmod")) return -1; Ent* e = look(norm(p)); if (!e) { errno = ENOENT; return -1; } files[e->f].mode = mode; ended(); return 0; }
int vfs_rename(const char* a, const char* b) { if (fault("rename")) return -1; Ref na = norm(a), nb = norm(b); Ent* e = look(na); if (!e) { errno = ENOENT; return -1; } Ent* t = look(nb); int f = e->f; if (t == e) return 0; if (t) t->f = f; else add(nb, f); e->used = false; ended(); return 0; }
int vfs_link(const char* a, const char* b) { if (fault("link")) return -1; Ent* e = look(norm(a)); Ref nb = norm(b); if (!e) { errno = ENOENT; return -1; } if (look(nb)) { errno = EEXIST; return -1; } add(nb, e->f); ended(); return 0; }
int vfs_unlink(const char* p) { if (fault("unlink")) return -1; Ent* e = look(norm(p)); if (!e) { errno = ENOENT; return -1; } e->used = false; ended(); return 0; }
int vfs_dup(int fd) { Fd* d = getfd(fd); if (!d) { errno = EBADF; return -1; } if (fault("dup")) return -1; int n = newfd(d->f, d->flags); fds[n].pos = d->pos; return n; }
int vfs_mkstemp(char* t) { if (fault("mkstemp")) return -1; size_t n = vlen(t); VF_ASSERT(n >= 6, "mkstemp() template"); for (size_t i = 0; i < 6; ++i) VF_ASSERT(t[n - 6 + i] == 'X', "mkstemp() template"); static unsigned ctr; for (size_t i = 0; i < 6; ++i) t[n - 6 + i] = (char)('a' + ctr); ++ctr; Ref nm = norm(t); if (look(nm)) vf_giveup("temporary name taken"); add(nm, newfile(0600)); int r = newfd(nfiles - 1, O_RDWR); ended(); return r; }
int vfs_mkostemp(char* t, int) { return vfs_mkstemp(t); }
int vfs_open64(const char* p, int f, unsigned m) { return vfs_open(p, f, m); }
off_t vfs_lseek64(int fd, off_t o, int w) { return vfs_lseek(fd, o, w); }
int vfs_ftruncate64(int fd, off_t n) { return vfs_ftruncate(fd, n); }
void* vfs_mmap64(void* a, size_t n, int p, int f, int fd, off_t o) { return vfs_mmap(a, n, p, f, fd, o); }
int vfs_fdatasync(int fd) { return vfs_fsync(fd); }
int vfs_remove(const char* p) { return vfs_unlink(p); }
int vfs_lstat(const char* p, struct stat* s) { return vfs_stat(p, s); }
int vfs_fstat64(int fd, struct stat* s) { return vfs_fstat(fd, s); }
int vfs_mkstemp64(char* t) { return vfs_mkstemp(t); }
}
