#include "env.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <fcntl.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <netinet/in.h>
#include <unistd.h>
#include <time.h>
#include <pwd.h>
#include <grp.h>
#include <signal.h>

#ifdef FSX_NATIVE
#define W(name) __wrap_##name
#define REAL(name) __real_##name
#else
#define W(name) name
#endif

int64_t env_steady_ns = 1000000000000LL, env_system_ns = 1700000000000000000LL;
int env_epoll_calls = 0, env_epoll_limit = 64; void (*env_epoll_hook)() = nullptr; bool env_epoll_et = false;
int env_fs_fail_at = -1, env_fs_crash_at = -1, env_fs_fail_errno = ENOSPC, env_fs_ops = 0; size_t env_fs_short = 0; uint8_t env_random_byte = 0x5a;

enum VK { V_FREE, V_SOCK, V_EVENT, V_EPOLL, V_FILE, V_CLOSED };
struct Seg { unsigned char *p; size_t n, pos; Seg *next; };
struct FileData { char *path; unsigned char *data; size_t size, cap, synced; bool live; int64_t mtime; };
struct VFd { VK kind; uint64_t counter; Seg *in, *inLast; unsigned char *out; size_t outLen, outCap; size_t cap, wmax; bool eof, reset; int werr; int epfd; uint32_t events; uint64_t edata; FileData *file; size_t pos; bool ferr, feof, wr; };
static const int BASE = 1000, NFD = 64, NFILE = 24;
static VFd fds[NFD]; static int nfds = 0; static FileData files[NFILE]; static int nfiles = 0;
static VFd *V(int fd) { return fd >= BASE && fd < BASE + nfds ? &fds[fd - BASE] : nullptr; }
static int newFd(VK k) { if (nfds >= NFD) { fsx_assert(false, "harness limit: too many virtual descriptors"); fsx_stop(); } VFd &v = fds[nfds]; memset((void *)&v, 0, sizeof v); v.kind = k; v.cap = SIZE_MAX; v.wmax = SIZE_MAX; v.epfd = -1; return BASE + nfds++; }
int env_socket() { return newFd(V_SOCK); }
void env_feed(int fd, const void *p, size_t n) { if (!n) return; VFd *v = V(fd); Seg *s = (Seg *)malloc(sizeof(Seg)); s->p = (unsigned char *)malloc(n ? n : 1); memcpy(s->p, p, n); s->n = n; s->pos = 0; s->next = nullptr; if (v->inLast) v->inLast->next = s; else v->in = s; v->inLast = s; }
void env_peer_close(int fd) { V(fd)->eof = true; }
void env_peer_reset(int fd) { V(fd)->reset = true; }
void env_set_write_cap(int fd, size_t c) { V(fd)->cap = c; }
void env_add_write_cap(int fd, size_t c) { V(fd)->cap += c; }
size_t env_write_cap(int fd) { return V(fd)->cap; }
void env_set_write_max(int fd, size_t n) { V(fd)->wmax = n; }
void env_write_error(int fd, int e) { V(fd)->werr = e; }
size_t env_out_len(int fd) { return V(fd)->outLen; }
const unsigned char *env_out(int fd) { return V(fd)->out; }
void env_out_clear(int fd) { V(fd)->outLen = 0; }
size_t env_in_left(int fd) { size_t n = 0; for (Seg *s = V(fd)->in; s; s = s->next) n += s->n - s->pos; return n; }
bool env_is_open(int fd) { return V(fd) && V(fd)->kind == V_SOCK; }
uint32_t env_epoll_mask(int fd) { VFd *v = V(fd); return v && v->epfd >= 0 ? v->events : 0; }
void env_clear_epoll(int fd) { V(fd)->epfd = -1; }
static void outAdd(VFd *v, const void *p, size_t n) { if (v->outLen + n > v->outCap) { size_t c = v->outLen + n + 256; unsigned char *q = (unsigned char *)malloc(c); if (v->outLen) memcpy(q, v->out, v->outLen); free(v->out); v->out = q; v->outCap = c; } memcpy(v->out + v->outLen, p, n); v->outLen += n; }
// ---- files ----
static FileData *findFile(const char *path) { for (int i = 0; i < nfiles; i++) if (files[i].live && strcmp(files[i].path, path) == 0) return &files[i]; return nullptr; }
static char *dup(const char *s) { size_t n = strlen(s); char *p = (char *)malloc(n + 1); memcpy(p, s, n + 1); return p; }
static FileData *newFile(const char *path) { if (nfiles >= NFILE) { fsx_assert(false, "harness limit: too many virtual files"); fsx_stop(); } FileData &f = files[nfiles++]; memset((void *)&f, 0, sizeof f); f.path = dup(path); f.live = true; f.mtime = 1000; return &f; }
static void fileWrite(FileData *f, size_t pos, const void *p, size_t n) { if (pos < f->synced) f->synced = pos; if (pos + n > f->cap) { size_t c = pos + n + 512; unsigned char *q = (unsigned char *)malloc(c); if (f->size) memcpy(q, f->data, f->size); free(f->data); f->data = q; f->cap = c; } if (pos > f->size) memset(f->data + f->size, 0, pos - f->size); memcpy(f->data + pos, p, n); if (pos + n > f->size) f->size = pos + n; if (pos < f->synced) f->synced = pos; }
#ifdef FSX_NATIVE
extern "C" { FILE *__real_fopen(const char *, const char *); size_t __real_fwrite(const void *, size_t, size_t, FILE *); int __real_fclose(FILE *); }
#endif
void env_file_put(const char *path, const void *p, size_t n) {
    FileData *f = findFile(path); if (!f) f = newFile(path); f->size = 0; fileWrite(f, 0, p, n); f->synced = n;
#ifdef FSX_NATIVE
    if (path[0] != '/') { FILE *r = __real_fopen(path, "wb"); if (r) { __real_fwrite(p, 1, n, r); __real_fclose(r); } } // for std::ifstream users; the replay runs in a scratch directory
#endif
}
unsigned char *env_file_like(const char *pre, size_t *n) { for (int i = nfiles - 1; i >= 0; i--) if (files[i].live && strncmp(files[i].path, pre, strlen(pre)) == 0) { *n = files[i].size; return files[i].data; } return nullptr; }
bool env_file_exists(const char *path) { return findFile(path) != nullptr; }
size_t env_file_size(const char *path) { FileData *f = findFile(path); return f ? f->size : 0; }
unsigned char *env_file_data(const char *path) { FileData *f = findFile(path); return f ? f->data : nullptr; }
void env_file_remove(const char *path) { FileData *f = findFile(path); if (f) f->live = false; }
void env_file_copy(const char *from, const char *to) { FileData *f = findFile(from); if (f) env_file_put(to, f->data, f->size); }
void env_file_set_mtime(const char *path, int64_t s) { FileData *f = findFile(path); if (f) f->mtime = s; }
size_t env_file_synced(const char *path) { FileData *f = findFile(path); return f ? f->synced : 0; }
int env_files_open() { int n = 0; for (int i = 0; i < nfds; i++) if (fds[i].kind == V_FILE) n++; return n; }
// a crash keeps the files as they were just before that operation; the code then runs on to its end, and env_fs_restore brings them back
static FileData snap[NFILE]; static int nsnap = -1;
static unsigned char *dupData(const FileData &f) { unsigned char *p = (unsigned char *)malloc(f.size + 1); if (f.size) memcpy(p, f.data, f.size); return p; }
bool env_fs_crashed() { return nsnap >= 0; }
void env_fs_restore(bool loseUnsynced) { nfiles = nsnap; for (int i = 0; i < nsnap; i++) { files[i] = snap[i]; if (loseUnsynced && files[i].synced < files[i].size) files[i].size = files[i].synced; } nsnap = -1; }
bool env_fs_fail_on = false;
static bool fsOp() { int i = env_fs_ops++; if (i == env_fs_crash_at) { nsnap = nfiles; for (int k = 0; k < nfiles; k++) { snap[k] = files[k]; snap[k].data = dupData(files[k]); snap[k].cap = files[k].size + 1; } } return !(env_fs_fail_at >= 0 && (i == env_fs_fail_at || (env_fs_fail_on && i > env_fs_fail_at))); } // false: fails
static struct { const char *n; void *p; } syms[48]; static int nsyms = 0;
void env_plugin_symbol(const char *n, void *p) { for (int i = 0; i < nsyms; i++) if (!strcmp(syms[i].n, n)) { syms[i].p = p; return; } syms[nsyms].n = n; syms[nsyms].p = p; nsyms++; }
void env_plugin_reset() { nsyms = 0; }

extern "C" {
std::chrono::steady_clock::time_point W(_ZNSt6chrono3_V212steady_clock3nowEv)() { return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(env_steady_ns)); }
std::chrono::system_clock::time_point W(_ZNSt6chrono3_V212system_clock3nowEv)() { return std::chrono::system_clock::time_point(std::chrono::nanoseconds(env_system_ns)); }
int W(epoll_create)(int) { return newFd(V_EPOLL); }
int W(eventfd)(unsigned init, int) { int fd = newFd(V_EVENT); V(fd)->counter = init; return fd; }
int W(epoll_ctl)(int epfd, int op, int fd, struct epoll_event *ev) {
    VFd *e = V(epfd), *v = V(fd); if (!e || e->kind != V_EPOLL || !v || v->kind == V_CLOSED) { errno = EBADF; return -1; }
    if (op == EPOLL_CTL_ADD) { if (v->epfd >= 0) { errno = EEXIST; return -1; } v->epfd = epfd; v->events = ev->events; v->edata = ev->data.u64; return 0; }
    if (v->epfd != epfd) { errno = ENOENT; return -1; }
    if (op == EPOLL_CTL_MOD) { v->events = ev->events; v->edata = ev->data.u64; return 0; }
    v->epfd = -1; return 0;
}
int W(epoll_wait)(int epfd, struct epoll_event *evs, int max, int timeout) {
    env_epoll_calls++; fsx_assert(env_epoll_calls <= env_epoll_limit, "event loop spins without progress"); if (env_epoll_calls > env_epoll_limit) fsx_stop();
    if (env_epoll_hook) env_epoll_hook();
    int n = 0; for (int i = 0; i < nfds && n < max; i++) { VFd &v = fds[i]; if (v.epfd != epfd) continue; uint32_t r = 0;
        if (v.kind == V_EVENT) { if (v.counter) r |= EPOLLIN; }
        else if (v.kind == V_SOCK) { if (v.in || v.eof || v.reset) r |= EPOLLIN; if (v.cap > 0 || v.werr || v.reset) r |= EPOLLOUT; }
        r &= v.events | EPOLLERR | EPOLLHUP; if (r) { evs[n].events = r; evs[n].data.u64 = v.edata; n++; } }
    if (!n && timeout != 0) throw EpollExit();
    return n;
}
#ifdef FSX_NATIVE
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); int __real_close(int); int __real_fcntl(int, int, ...);
#endif
ssize_t W(read)(int fd, void *buf, size_t n) {
    VFd *v = V(fd); if (!v) {
#ifdef FSX_NATIVE
        return __real_read(fd, buf, n);
#else
        errno = EBADF; return -1;
#endif
    }
    if (v->kind == V_EVENT) { if (!v->counter) { errno = EAGAIN; return -1; } if (n < 8) { errno = EINVAL; return -1; } memcpy(buf, &v->counter, 8); v->counter = 0; return 8; }
    if (v->kind != V_SOCK) { errno = EBADF; return -1; }
    if (v->reset) { errno = ECONNRESET; return -1; }
    Seg *s = v->in; if (!s) { if (v->eof) return 0; errno = EAGAIN; return -1; }
    if (n == 0) return 0; size_t k = s->n - s->pos; if (k > n) k = n; memcpy(buf, s->p + s->pos, k); s->pos += k; if (s->pos >= s->n) { v->in = s->next; if (!v->in) v->inLast = nullptr; free(s->p); free(s); } return (ssize_t)k;
}
ssize_t W(write)(int fd, const void *buf, size_t n) {
    VFd *v = V(fd); if (!v) {
#ifdef FSX_NATIVE
        return __real_write(fd, buf, n);
#else
        errno = EBADF; return -1;
#endif
    }
    if (v->kind == V_EVENT) { uint64_t x; memcpy(&x, buf, 8); v->counter += x; return 8; }
    if (v->kind != V_SOCK) { errno = EBADF; return -1; }
    if (v->reset) { errno = EPIPE; return -1; } if (v->werr) { errno = v->werr; return -1; }
    size_t k = n; if (k > v->cap) k = v->cap; if (k > v->wmax) k = v->wmax; if (k == 0 && n > 0) { errno = EAGAIN; return -1; }
    outAdd(v, buf, k); if (v->cap != SIZE_MAX) v->cap -= k; return (ssize_t)k;
}
int W(close)(int fd) { VFd *v = V(fd); if (!v) {
#ifdef FSX_NATIVE
        return __real_close(fd);
#else
        errno = EBADF; return -1;
#endif
    }
    if (v->kind == V_CLOSED || v->kind == V_FREE) { errno = EBADF; return -1; } v->kind = V_CLOSED; v->epfd = -1; return 0; }
int W(fcntl)(int fd, int cmd, ...) { return 0; }
int W(setsockopt)(int, int, int, const void *, socklen_t) { return 0; }
int W(getsockopt)(int, int, int, void *v, socklen_t *l) { if (v && l && *l >= 4) { int z = 0; memcpy(v, &z, 4); } return 0; }
int W(getsockname)(int, struct sockaddr *a, socklen_t *l) { return 0; }
int W(getpeername)(int, struct sockaddr *a, socklen_t *l) { return 0; }
ssize_t W(getrandom)(void *p, size_t n, unsigned) { memset(p, env_random_byte, n); return (ssize_t)n; }
int W(pthread_setname_np)(pthread_t, const char *) { return 0; }
int W(malloc_trim)(size_t) { return 0; }
// files through stdio
static FILE *mkFile(int fd) { FILE *f = (FILE *)calloc(1, sizeof(FILE)); f->_fileno = fd; return f; }
static VFd *VF(FILE *f) { return V(f->_fileno); }
#ifdef FSX_NATIVE
size_t __real_fread(void *, size_t, size_t, FILE *); int __real_fseek(FILE *, long, int); long __real_ftell(FILE *); int __real_feof(FILE *); int __real_fflush(FILE *); void __real_rewind(FILE *); FILE *__real_fdopen(int, const char *); int __real_stat(const char *, struct stat *);
#define NATV(f, e) if (!(f) || !VF(f)) return e
#else
#define NATV(f, e)
#endif
int W(open)(const char *path, int flags, ...) {
    if (!fsOp()) { errno = EACCES; return -1; } FileData *f = findFile(path); bool dir = !(flags & (O_WRONLY | O_RDWR));
    if (!f) { if (!(flags & O_CREAT)) { if (dir) { int fd = newFd(V_FILE); return fd; } errno = ENOENT; return -1; } f = newFile(path); } else if (flags & O_TRUNC) { f->size = 0; f->synced = 0; }
    int fd = newFd(V_FILE); V(fd)->file = f; V(fd)->wr = flags & (O_WRONLY | O_RDWR); return fd; }
int W(creat)(const char *path, mode_t) { return W(open)(path, O_WRONLY | O_CREAT | O_TRUNC); }
FILE *W(fdopen)(int fd, const char *m) { if (!V(fd)) return nullptr; if (!fsOp()) { errno = ENOMEM; return nullptr; } return mkFile(fd); }
FILE *W(fopen)(const char *path, const char *mode) { 
    if (!fsOp()) { errno = EACCES; return nullptr; } FileData *f = findFile(path); bool w = mode[0] == 'w' || mode[0] == 'a'; if (!f) { if (!w) { errno = ENOENT; return nullptr; } f = newFile(path); } else if (mode[0] == 'w') { f->size = 0; f->synced = 0; }
    int fd = newFd(V_FILE); VFd *v = V(fd); v->file = f; v->wr = w || strchr(mode, '+'); if (mode[0] == 'a') v->pos = f->size; return mkFile(fd); }
size_t W(fwrite)(const void *p, size_t sz, size_t n, FILE *f) { NATV(f, __real_fwrite(p, sz, n, f)); VFd *v = VF(f); size_t k = sz * n; if (!sz || !n) return 0; if (!fsOp()) { size_t s = env_fs_short < k ? env_fs_short : k; if (s) { fileWrite(v->file, v->pos, p, s); v->pos += s; } v->ferr = true; errno = env_fs_fail_errno; return s / sz; } fileWrite(v->file, v->pos, p, k); v->pos += k; return n; }
size_t W(fread)(void *p, size_t sz, size_t n, FILE *f) { NATV(f, __real_fread(p, sz, n, f)); VFd *v = VF(f); if (!sz || !n) return 0; if (!fsOp()) { v->ferr = true; errno = EIO; return 0; } size_t k = sz * n, left = v->file->size > v->pos ? v->file->size - v->pos : 0; if (k > left) { k = left; v->feof = true; } if (k) memcpy(p, v->file->data + v->pos, k); v->pos += k; return k / sz; }
int W(fseek)(FILE *f, long o, int wh) { NATV(f, __real_fseek(f, o, wh)); VFd *v = VF(f); if (!fsOp()) { errno = EIO; return -1; } long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)v->pos : (long)v->file->size; if (b + o < 0) { errno = EINVAL; return -1; } v->pos = b + o; v->feof = false; return 0; }
long W(ftell)(FILE *f) { NATV(f, __real_ftell(f)); return (long)VF(f)->pos; }
int W(feof)(FILE *f) { NATV(f, __real_feof(f)); return VF(f)->feof; }
int W(ferror)(FILE *f) { if (!f || !VF(f)) return 0; return VF(f)->ferr; }
void W(clearerr)(FILE *f) { if (!f || !VF(f)) return; VF(f)->ferr = VF(f)->feof = false; }
int W(fileno)(FILE *f) { return f->_fileno; }
void W(rewind)(FILE *f) { if (!f || !VF(f)) return; VF(f)->pos = 0; VF(f)->feof = false; VF(f)->ferr = false; }
int W(fflush)(FILE *f) { NATV(f, __real_fflush(f)); if (!fsOp()) { errno = env_fs_fail_errno; return -1; } return 0; }
int W(fclose)(FILE *f) { NATV(f, __real_fclose(f)); VFd *v = VF(f); bool ok = fsOp(); v->kind = V_CLOSED; free(f); if (!ok) { errno = env_fs_fail_errno; return -1; } return 0; }
int W(fsync)(int fd) { VFd *v = V(fd); if (!v) { errno = EBADF; return -1; } if (!fsOp()) { errno = EIO; return -1; } if (v->file) v->file->synced = v->file->size; return 0; }
int W(fdatasync)(int fd) { return W(fsync)(fd); }
int W(rename)(const char *a, const char *b) { if (!fsOp()) { errno = EACCES; return -1; } FileData *f = findFile(a); if (!f) { errno = ENOENT; return -1; } FileData *g = findFile(b); if (g == f) return 0; if (g) g->live = false; f->path = dup(b); return 0; }
int W(unlink)(const char *p) { if (!fsOp()) { errno = EACCES; return -1; } FileData *f = findFile(p); if (!f) { errno = ENOENT; return -1; } f->live = false; return 0; }
int W(access)(const char *p, int) { FileData *f = findFile(p); if (!f) { errno = ENOENT; return -1; } return 0; }
int W(stat)(const char *p, struct stat *s) { FileData *f = findFile(p); if (!f) { errno = ENOENT; return -1; } memset((void *)s, 0, sizeof *s); s->st_mode = S_IFREG | 0600; s->st_size = f->size; s->st_mtim.tv_sec = f->mtime; s->st_ctim = s->st_mtim; return 0; }
int W(lstat)(const char *p, struct stat *s) { return W(stat)(p, s); }
int W(chmod)(const char *, mode_t) { return 0; }
int W(chown)(const char *, uid_t, gid_t) { return 0; }
int W(statvfs)(const char *, struct statvfs *s) { memset((void *)s, 0, sizeof *s); s->f_bavail = 1ull << 30; s->f_bsize = 4096; s->f_frsize = 4096; return 0; }
// plugins
void *W(dlopen)(const char *, int) { return nsyms ? (void *)&syms : nullptr; }
int W(dlclose)(void *) { return 0; }
char *W(dlerror)() { return nullptr; }
void *W(dlsym)(void *, const char *n) { for (int i = 0; i < nsyms; i++) if (strcmp(syms[i].n, n) == 0) return syms[i].p; return nullptr; }
int W(nanosleep)(const struct timespec *, struct timespec *) { return 0; }
int W(rand)() { return 4; }
// message digests: the environment's hash functions are modelled as injective over the contents hashed so far
struct Dig { unsigned char *p; size_t n, cap; int id; }; static Dig digs[64]; static int ndigs = 0;
struct MdCtx { unsigned char *p; size_t n, cap; int kind; };
static int digId(const unsigned char *p, size_t n, int kind) { for (int i = 0; i < ndigs; i++) if (digs[i].n == n && digs[i].id == kind && memcmp(digs[i].p, p, n) == 0) return i; Dig &d = digs[ndigs]; d.p = (unsigned char *)malloc(n ? n : 1); memcpy(d.p, p, n); d.n = n; d.id = kind; return ndigs++; }
void *W(EVP_MD_CTX_new)() { return calloc(1, sizeof(MdCtx)); }
void W(EVP_MD_CTX_free)(void *c) { if (c) { free(((MdCtx *)c)->p); free(c); } }
int W(EVP_MD_CTX_reset)(void *c) { ((MdCtx *)c)->n = 0; return 1; }
void *W(EVP_sha1)() { return (void *)20; }
void *W(EVP_sha512)() { return (void *)64; }
void *W(EVP_sha256)() { return (void *)32; }
int W(EVP_MD_get_size)(void *md) { return (int)(intptr_t)md; }
int W(EVP_DigestInit_ex)(void *c, void *md, void *) { MdCtx *m = (MdCtx *)c; m->n = 0; m->kind = (int)(intptr_t)md; return 1; }
int W(EVP_DigestUpdate)(void *c, const void *d, size_t n) { MdCtx *m = (MdCtx *)c; if (m->n + n > m->cap) { size_t k = m->n + n + 256; unsigned char *q = (unsigned char *)malloc(k); if (m->n) memcpy(q, m->p, m->n); free(m->p); m->p = q; m->cap = k; } memcpy(m->p + m->n, d, n); m->n += n; return 1; }
int W(EVP_DigestFinal_ex)(void *c, unsigned char *out, unsigned *len) { MdCtx *m = (MdCtx *)c; int id = digId(m->p, m->n, m->kind); memset(out, 0x40 + id, m->kind); if (len) *len = m->kind; return 1; }
int W(PKCS5_PBKDF2_HMAC)(const char *pw, int pwl, const unsigned char *salt, int sl, int iter, const void *md, int kl, unsigned char *out) {
    size_t n = 12 + pwl + sl; unsigned char *b = (unsigned char *)malloc(n); memcpy(b, &pwl, 4); memcpy(b + 4, &sl, 4); memcpy(b + 8, &iter, 4); memcpy(b + 12, pw, pwl); memcpy(b + 12 + pwl, salt, sl); int id = digId(b, n, 1000 + kl); free(b); memset(out, 0x40 + id, kl); return 1; }
static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
int W(EVP_EncodeBlock)(unsigned char *t, const unsigned char *f, int n) { int r = 0; for (int i = 0; i < n; i += 3) { unsigned v = f[i] << 16 | (i + 1 < n ? f[i + 1] << 8 : 0) | (i + 2 < n ? f[i + 2] : 0); t[r++] = b64[v >> 18 & 63]; t[r++] = b64[v >> 12 & 63]; t[r++] = i + 1 < n ? b64[v >> 6 & 63] : '='; t[r++] = i + 2 < n ? b64[v & 63] : '='; } t[r] = 0; return r; }
#ifndef FSX_NATIVE
struct DecCtx { int n, pad; unsigned v; bool bad, eof; };
void *EVP_ENCODE_CTX_new() { return calloc(1, sizeof(DecCtx)); } void EVP_ENCODE_CTX_free(void *p) { free(p); } void EVP_DecodeInit(void *p) { memset(p, 0, sizeof(DecCtx)); }
int EVP_DecodeUpdate(void *p, unsigned char *out, int *outl, const unsigned char *in, int inl) { DecCtx *c = (DecCtx *)p; int o = 0; for (int i = 0; i < inl; i++) { int ch = in[i], d = ch >= 'A' && ch <= 'Z' ? ch - 'A' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 26 : ch >= '0' && ch <= '9' ? ch - '0' + 52 : ch == '+' ? 62 : ch == '/' ? 63 : -1; if (ch == '=') { d = 0; c->pad++; } else if (ch == '\n' || ch == '\r' || ch == ' ' || ch == '\t') continue; else if (d < 0 || c->pad) { *outl = o; return -1; } c->v = c->v << 6 | d; if (++c->n == 4) { out[o++] = c->v >> 16; if (c->pad < 2) out[o++] = c->v >> 8; if (c->pad < 1) out[o++] = c->v; c->n = 0; c->v = 0; } } *outl = o; return c->pad ? 0 : 1; }
int EVP_DecodeFinal(void *p, unsigned char *, int *outl) { *outl = 0; return ((DecCtx *)p)->n ? -1 : 1; }
int sigfillset(sigset_t *) { return 0; } int sigemptyset(sigset_t *) { return 0; } int sigaddset(sigset_t *, int) { return 0; } int pthread_sigmask(int, const sigset_t *, sigset_t *) { return 0; } int sigprocmask(int, const sigset_t *, sigset_t *) { return 0; } int sigaction(int, const struct sigaction *, struct sigaction *) { return 0; }
char *getenv(const char *) { return nullptr; }
struct tm *localtime_r(const time_t *, struct tm *t) { memset((void *)t, 0, sizeof *t); return t; }
int get_nprocs() { return 1; }
unsigned long ERR_get_error() { return 0; } void ERR_clear_error() {} void ERR_error_string_n(unsigned long, char *b, size_t n) { if (n) b[0] = 0; }
#endif
}
