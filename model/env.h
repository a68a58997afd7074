// Environment model shared by the engine (where it replaces libc) and the native replay (where it is interposed with -Wl,--wrap).
// Clocks, sockets, eventfds, epoll and files are virtual and controlled by the harness.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include "fsx.h"
struct EpollExit {};                 // thrown out of epoll_wait when nothing is ready and the caller would block
extern int64_t env_steady_ns, env_system_ns;
inline void env_advance_ms(int64_t ms) { env_steady_ns += ms * 1000000; env_system_ns += ms * 1000000; }
int env_socket();                                    // new connected virtual socket (fd >= 1000)
void env_feed(int fd, const void *p, size_t n);      // one segment the peer sent; read() never crosses a segment boundary
void env_peer_close(int fd);                         // EOF after the fed data
void env_peer_reset(int fd);                         // reads fail with ECONNRESET, writes with EPIPE
void env_set_write_cap(int fd, size_t cap);          // bytes the kernel accepts before EAGAIN (SIZE_MAX: unlimited)
void env_add_write_cap(int fd, size_t cap);
size_t env_write_cap(int fd);
void env_set_write_max(int fd, size_t n);            // largest number of bytes one write() accepts
void env_write_error(int fd, int err);               // writes fail with this errno
size_t env_out_len(int fd); const unsigned char *env_out(int fd); void env_out_clear(int fd);
size_t env_in_left(int fd);
bool env_is_open(int fd); uint32_t env_epoll_mask(int fd); // events the fd is registered for, 0 when not registered
void env_clear_epoll(int fd);
extern int env_epoll_calls, env_epoll_limit;         // the harness asserts the loop does not spin
extern void (*env_epoll_hook)();
extern bool env_epoll_et;
// files
struct EnvFault { int op; int kind; };
extern int env_fs_fail_at;        // index of the file operation that fails (-1: none)
extern int env_fs_crash_at;       // index of the file operation before which the machine stops (-1: none)
extern int env_fs_fail_errno;
extern int env_fs_ops;            // operations so far
extern size_t env_fs_short;       // when the failing op is a write: bytes that still get written
extern bool env_fs_fail_on;       // everything after the failing operation fails as well
bool env_fs_crashed(); void env_fs_restore(bool loseUnsynced); // the files as they were at the crash
void env_file_put(const char *path, const void *p, size_t n);
bool env_file_exists(const char *path); size_t env_file_size(const char *path); unsigned char *env_file_data(const char *path);
unsigned char *env_file_like(const char *prefix, size_t *n); // the newest file whose path begins with that
void env_file_remove(const char *path); void env_file_copy(const char *from, const char *to);
void env_file_set_mtime(const char *path, int64_t sec);
size_t env_file_synced(const char *path);            // bytes of the file that were fsynced
int env_files_open();
extern const char *env_fs_log; 
// plugin symbols
void env_plugin_symbol(const char *name, void *p); void env_plugin_reset();
// stubs for hashing: injective over the contents seen
extern uint8_t env_random_byte;
