// The C library surface seen by the programs under test. Every function is reached through a symbol
// renamed at object level (foo -> sim_foo); nothing here touches the real system.
#include "core.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <getopt.h>
#include <limits.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

#define X extern "C"
static inline Proc *P() { return S.cur->proc; }
#define ERR(e) do { S.cur->err = (e); } while (0)
template <class T> static T ret(T r) { if (r < 0) { ERR((int) -r); return -1; } return r; }
static string cs(const char *s) { if (!s) mem_error("NULL string passed to a library call", s, 0); if (heap_bad(s, 1)) mem_error("dead heap memory passed to a library call", s, 1); return string(s); }
static void chk(const void *p, size_t n) { if (n && !p) mem_error("NULL buffer passed to a library call", p, n); if (heap_bad(p, n)) mem_error("buffer outside live heap memory passed to a library call", p, n); }

X int *sim___errno_location() { return &S.cur->err; }

// ---------------------------------------------------------------- allocation
static bool oom(const char *sc = "malloc") { return fault_point(sc) > 0; }
X void *sim_malloc(size_t n) { if (oom()) { ERR(ENOMEM); return nullptr; } void *p = heap_alloc(P(), n, false); if (!p) ERR(ENOMEM); return p; }
X void *sim_calloc(size_t a, size_t b) { if (oom()) { ERR(ENOMEM); return nullptr; } if (b && a > SIZE_MAX / b) { ERR(ENOMEM); return nullptr; } void *p = heap_alloc(P(), a * b, true); if (!p) ERR(ENOMEM); return p; }
X void sim_free(void *p) { heap_free(P(), p); }
X void *sim_realloc(void *p, size_t n) {
    if (!p) return sim_malloc(n); if (oom()) { ERR(ENOMEM); return nullptr; } size_t o = heap_size(P(), p); if (o == (size_t) -1) { mem_error("realloc of invalid pointer", p, 0); return nullptr; }
    if (n == 0) { heap_free(P(), p); return nullptr; }
    void *q = heap_alloc(P(), n, false); if (!q) { ERR(ENOMEM); return nullptr; } memcpy(q, p, std::min(o, n)); heap_free(P(), p); return q;
}
X void *sim_reallocarray(void *p, size_t a, size_t b) { if (b && a > SIZE_MAX / b) { ERR(ENOMEM); return nullptr; } return sim_realloc(p, a * b); }
X void *sim_aligned_alloc(size_t al, size_t n) { return oom() ? nullptr : heap_alloc(P(), n, false, al < 16 ? 16 : al); }
X int sim_posix_memalign(void **o, size_t al, size_t n) { if (oom()) return ENOMEM; *o = heap_alloc(P(), n, false, al < 16 ? 16 : al); return *o ? 0 : ENOMEM; }
static char *dup_str(const string &s) { char *p = (char *) sim_malloc(s.size() + 1); if (p) memcpy(p, s.c_str(), s.size() + 1); return p; }
X char *sim_strdup(const char *s) { return dup_str(cs(s)); }
X char *sim_strndup(const char *s, size_t n) { size_t l = strnlen(s, n); return dup_str(string(s, l)); }
X int sim_vasprintf(char **o, const char *f, va_list ap) { va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, f, a2); va_end(a2); if (n < 0) return -1; char *p = (char *) sim_malloc(n + 1); if (!p) return -1; vsnprintf(p, n + 1, f, ap); *o = p; return n; }
X int sim_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vasprintf(o, f, ap); va_end(ap); return r; }
X int sim___vasprintf_chk(char **o, int, const char *f, va_list ap) { return sim_vasprintf(o, f, ap); }
X int sim___asprintf_chk(char **o, int, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vasprintf(o, f, ap); va_end(ap); return r; }

// ---------------------------------------------------------------- checked memory/string functions
X void *sim_memcpy(void *d, const void *s, size_t n) { chk(d, n); chk(s, n); return memmove(d, s, n); }
X void *sim_memmove(void *d, const void *s, size_t n) { chk(d, n); chk(s, n); return memmove(d, s, n); }
X void *sim_memset(void *d, int c, size_t n) { chk(d, n); return memset(d, c, n); }
X void *sim___memcpy_chk(void *d, const void *s, size_t n, size_t) { return sim_memcpy(d, s, n); }
X void *sim_mempcpy(void *d, const void *s, size_t n) { sim_memcpy(d, s, n); return (char *) d + n; }
X size_t sim_strlen(const char *s) { if (!s) mem_error("strlen(NULL)", s, 0); size_t n = strlen(s); chk(s, n + 1); return n; }
X char *sim_strcpy(char *d, const char *s) { size_t n = sim_strlen(s) + 1; chk(d, n); memcpy(d, s, n); return d; }
X char *sim_stpcpy(char *d, const char *s) { size_t n = sim_strlen(s); chk(d, n + 1); memcpy(d, s, n + 1); return d + n; }
X char *sim_strncpy(char *d, const char *s, size_t n) { chk(d, n); return strncpy(d, s, n); }
X char *sim_strcat(char *d, const char *s) { size_t a = sim_strlen(d), b = sim_strlen(s); chk(d, a + b + 1); memcpy(d + a, s, b + 1); return d; }
X char *sim_strncat(char *d, const char *s, size_t n) { size_t a = sim_strlen(d), b = strnlen(s, n); chk(d, a + b + 1); memcpy(d + a, s, b); d[a + b] = 0; return d; }
X char *sim_strtok_r(char *s, const char *d, char **sv) { return strtok_r(s, d, sv); }
X char *sim_strtok(char *s, const char *d) { return strtok_r(s, d, &P()->strtok_save); }

// ---------------------------------------------------------------- environment, process
static void env_sync() {}
X char *sim_getenv(const char *n) { auto it = P()->env.find(n); if (it == P()->env.end()) return nullptr; P()->envstore.push_back(it->second); return (char *) P()->envstore.back().c_str(); }
X char *sim_secure_getenv(const char *n) { return sim_getenv(n); }
X int sim_setenv(const char *n, const char *v, int ow) { if (oom()) { ERR(ENOMEM); return -1; } if (ow || !P()->env.count(n)) P()->env[n] = cs(v); env_sync(); return 0; }
X int sim_unsetenv(const char *n) { P()->env.erase(n); return 0; }
X int sim_putenv(char *s) { string t = s; size_t i = t.find('='); if (i == string::npos) P()->env.erase(t); else P()->env[t.substr(0, i)] = t.substr(i + 1); return 0; }
X int sim_clearenv() { P()->env.clear(); return 0; }
void libc_flush_all(Proc *p);
static void run_atexit() { Proc *p = P(); while (!p->catexit.empty()) { auto f = p->catexit.back(); p->catexit.pop_back(); f(); } libc_flush_all(p); }
X int sim_atexit(void (*f)()) { P()->catexit.push_back(f); return 0; }
X void sim_exit(int c) { run_atexit(); proc_exit((c & 0xff) << 8); }
X void sim__exit(int c) { proc_exit((c & 0xff) << 8); }
X void sim__Exit(int c) { proc_exit((c & 0xff) << 8); }
X void sim_quick_exit(int c) { proc_exit((c & 0xff) << 8); }
X void sim_abort() { sim_log("abort"); proc_kill(P(), SIGABRT); }
X void sim___stack_chk_fail() { P()->memerr = "stack smashing"; proc_kill(P(), SIGABRT); }
X void sim___assert_fail(const char *, const char *, unsigned, const char *) { P()->memerr = "assertion failed"; proc_kill(P(), SIGABRT); }
X pid_t sim_getpid() { return P()->pid; } X pid_t sim_getppid() { return P()->ppid; } X uid_t sim_getuid() { return 0; } X uid_t sim_geteuid() { return 0; } X gid_t sim_getgid() { return 0; } X gid_t sim_getegid() { return 0; }
X pid_t sim_getpgid(pid_t) { return P()->pgid; } X pid_t sim_getpgrp() { return P()->pgid; } X int sim_setpgid(pid_t pid, pid_t pg) { PProc q = pid ? find_proc(pid) : find_proc(P()->pid); if (!q) { ERR(ESRCH); return -1; } q->pgid = pg ? pg : q->pid; return 0; } X pid_t sim_setsid() { P()->pgid = P()->pid; return P()->pid; }
X pid_t sim_gettid() { return P()->pid + S.cur->tid; } X long sim_syscall(long, ...) { ERR(ENOSYS); return -1; }
X pid_t sim_fork() { return (pid_t) ret(sys_fork()); }
X pid_t sim_vfork() { return sim_fork(); }
static vector<string> av(char *const *a) { vector<string> v; while (a && *a) v.push_back(cs(*a++)); return v; }
static map<string, string> ev(char *const *e) { map<string, string> m; while (e && *e) { string t = cs(*e++); size_t i = t.find('='); if (i != string::npos) m[t.substr(0, i)] = t.substr(i + 1); } return m; }
X int sim_execve(const char *p, char *const a[], char *const e[]) { return (int) ret(sys_exec(cs(p), av(a), ev(e))); }
X int sim_execv(const char *p, char *const a[]) { return (int) ret(sys_exec(cs(p), av(a), P()->env)); }
static int exec_p(const string &f, const vector<string> &a, const map<string, string> &env) { if (f.find('/') != string::npos) return (int) ret(sys_exec(f, a, env)); string q = find_in_path(f, P()->env); if (q.empty()) { sim_yield(); ERR(ENOENT); return -1; } return (int) ret(sys_exec(q, a, env)); }
X int sim_execvp(const char *f, char *const a[]) { return exec_p(cs(f), av(a), P()->env); }
X int sim_execvpe(const char *f, char *const a[], char *const e[]) { return exec_p(cs(f), av(a), ev(e)); }
#define VARGS vector<string> v; { va_list ap; va_start(ap, a0); const char *s = a0; while (s) { v.push_back(cs(s)); s = va_arg(ap, const char *); } va_end(ap); }
X int sim_execl(const char *p, const char *a0, ...) { VARGS return (int) ret(sys_exec(cs(p), v, P()->env)); }
X int sim_execlp(const char *p, const char *a0, ...) { VARGS return exec_p(cs(p), v, P()->env); }
X pid_t sim_waitpid(pid_t pid, int *st, int o) { return (pid_t) ret(sys_waitpid(pid, st, o)); }
X pid_t sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
X int sim_kill(pid_t p, int s) { return (int) ret(sys_kill(p, s)); }
X int sim_raise(int s) { post_signal(P(), s); sim_yield(); return 0; }
X int sim_system(const char *cmd) {
    if (!cmd) return 1; Proc *p = P(); SigAct oi = p->sa[SIGINT], oq = p->sa[SIGQUIT]; 
    // the child gets the original dispositions; sys_spawn resets handlers, keeps ignored ones
    i64 pid = sys_spawn({"/bin/sh", "-c", cs(cmd)}, p->env, {{0, 0}, {1, 1}, {2, 2}}); if (pid < 0) { ERR((int) -pid); return -1; }
    p->sa[SIGINT].h = SIG_IGN; p->sa[SIGQUIT].h = SIG_IGN; u64 om = p->sigmask; p->sigmask |= 1ULL << SIGCHLD;
    int st = 0; i64 r; do r = sys_waitpid((int) pid, &st, 0); while (r == -EINTR);
    p->sa[SIGINT] = oi; p->sa[SIGQUIT] = oq; p->sigmask = om; if (r < 0) { ERR((int) -r); return -1; } return st;
}
struct FileActions { struct A { int kind, a, b, flags, mode; string path; }; vector<A> v; };
static FileActions *&fact(posix_spawn_file_actions_t *f) { return *(FileActions **) &f->__actions; }
X int sim_posix_spawn_file_actions_init(posix_spawn_file_actions_t *f) { memset(f, 0, sizeof *f); fact(f) = new FileActions; return 0; }
X int sim_posix_spawn_file_actions_destroy(posix_spawn_file_actions_t *) { return 0; }
X int sim_posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t *f, int a, int b) { fact(f)->v.push_back({0, a, b, 0, 0, ""}); return 0; }
X int sim_posix_spawn_file_actions_addclose(posix_spawn_file_actions_t *f, int a) { fact(f)->v.push_back({1, a, 0, 0, 0, ""}); return 0; }
X int sim_posix_spawn_file_actions_addopen(posix_spawn_file_actions_t *f, int a, const char *p, int fl, mode_t m) { fact(f)->v.push_back({2, a, 0, fl, (int) m, cs(p)}); return 0; }
X int sim_posix_spawnattr_init(posix_spawnattr_t *a) { memset(a, 0, sizeof *a); return 0; } X int sim_posix_spawnattr_destroy(posix_spawnattr_t *) { return 0; } X int sim_posix_spawnattr_setflags(posix_spawnattr_t *, short) { return 0; } X int sim_posix_spawnattr_setsigmask(posix_spawnattr_t *, const sigset_t *) { return 0; } X int sim_posix_spawnattr_setsigdefault(posix_spawnattr_t *, const sigset_t *) { return 0; }
static int do_posix_spawn(pid_t *pid, const string &path, const posix_spawn_file_actions_t *f, char *const a[], char *const e[]) {
    vector<SpawnOp> ops; if (f) for (auto &x : fact((posix_spawn_file_actions_t *) f)->v) { SpawnOp o{x.kind, x.a, x.b, nullptr}; if (x.kind == 2) { i64 fd = sys_open(x.path, x.flags, x.mode); if (fd < 0) return (int) -fd; o.of = P()->fds[(int) fd]; sys_close((int) fd); } ops.push_back(o); }
    vector<string> v = av(a); i64 r = sys_spawn(v, ev(e), {}, &ops, &path); if (r < 0) return (int) -r; if (pid) *pid = (pid_t) r; return 0; }
X int sim_posix_spawn(pid_t *pid, const char *path, const posix_spawn_file_actions_t *f, const posix_spawnattr_t *, char *const a[], char *const e[]) { return do_posix_spawn(pid, cs(path), f, a, e); }
X int sim_posix_spawnp(pid_t *pid, const char *path, const posix_spawn_file_actions_t *f, const posix_spawnattr_t *, char *const a[], char *const e[]) { string q = strchr(path, '/') ? cs(path) : find_in_path(cs(path), P()->env); if (q.empty()) return ENOENT; return do_posix_spawn(pid, q, f, a, e); }
X pid_t sim_wait4(pid_t pid, int *st, int o, struct rusage *u) { if (u) memset(u, 0, sizeof *u); return sim_waitpid(pid, st, o); } X pid_t sim_wait3(int *st, int o, struct rusage *u) { return sim_wait4(-1, st, o, u); }
X int sim_killpg(pid_t g, int s) { return sim_kill(-g, s); }
typedef void (*sighandler)(int);
X int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (s < 1 || s > 64 || s == SIGKILL || s == SIGSTOP) { ERR(EINVAL); return -1; } if (o) { memset(o, 0, sizeof *o); o->sa_handler = P()->sa[s].h; o->sa_flags = P()->sa[s].flags; } if (a) { P()->sa[s].h = a->sa_handler; P()->sa[s].flags = a->sa_flags & ~SA_SIGINFO; sim_log("sigaction %d", s); if (a->sa_handler == SIG_IGN) P()->pending.erase(s); } return 0; }
X sighandler sim_signal(int s, sighandler h) { sighandler o = P()->sa[s].h; P()->sa[s].h = h; P()->sa[s].flags = SA_RESTART; if (h == SIG_IGN) P()->pending.erase(s); return o; }
X int sim_sigemptyset(sigset_t *s) { return sigemptyset(s); } X int sim_sigfillset(sigset_t *s) { return sigfillset(s); } X int sim_sigaddset(sigset_t *s, int n) { return sigaddset(s, n); } X int sim_sigdelset(sigset_t *s, int n) { return sigdelset(s, n); } X int sim_sigismember(const sigset_t *s, int n) { return sigismember(s, n); }
X int sim_sigprocmask(int how, const sigset_t *s, sigset_t *o) { u64 m = 0; Proc *p = P(); if (o) { sigemptyset(o); for (int i = 1; i < 64; i++) if (p->sigmask >> i & 1) sigaddset(o, i); } if (s) { for (int i = 1; i < 64; i++) if (sigismember(s, i)) m |= 1ULL << i; if (how == SIG_BLOCK) p->sigmask |= m; else if (how == SIG_UNBLOCK) p->sigmask &= ~m; else p->sigmask = m; } return 0; }
X int sim_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { return sim_sigprocmask(how, s, o); }
X int sim_sigsuspend(const sigset_t *s) { u64 om = P()->sigmask; sim_sigprocmask(SIG_SETMASK, s, nullptr); fiber_block_i("sigsuspend", []() { return false; }, -1); P()->sigmask = om; ERR(EINTR); return -1; }
X int sim_pause() { sim_yield(); while (!fiber_block_i("pause", []() { return false; }, -1)) {} ERR(EINTR); return -1; }
X int sim_sigwait(const sigset_t *s, int *sig) { Proc *p = P(); sim_yield(); auto has = [p, s]() { for (int x : p->pending) if (sigismember(s, x)) return x; return 0; }; fiber_block("sigwait", [has]() { return has() != 0; }, -1, false); *sig = has(); p->pending.erase(*sig); return 0; }
X unsigned sim_alarm(unsigned) { return 0; }

// ---------------------------------------------------------------- files
X int sim_open(const char *p, int f, ...) { mode_t m = 0; if (f & O_CREAT) { va_list ap; va_start(ap, f); m = va_arg(ap, mode_t); va_end(ap); } return (int) ret(sys_open(cs(p), f, m)); }
X int sim_openat(int d, const char *p, int f, ...) { mode_t m = 0; if (f & O_CREAT) { va_list ap; va_start(ap, f); m = va_arg(ap, mode_t); va_end(ap); } return (int) ret(sys_openat(d, cs(p), f, m)); }
X int sim___open_2(const char *p, int f) { return sim_open(p, f); }
X int sim_creat(const char *p, mode_t m) { return (int) ret(sys_open(cs(p), O_CREAT | O_WRONLY | O_TRUNC, m)); }
X ssize_t sim_read(int fd, void *b, size_t n) { chk(b, n); return ret(sys_read(fd, b, n)); }
X ssize_t sim___read_chk(int fd, void *b, size_t n, size_t) { return sim_read(fd, b, n); }
X ssize_t sim_write(int fd, const void *b, size_t n) { chk(b, n); return ret(sys_write(fd, b, n)); }
X ssize_t sim_pread(int fd, void *b, size_t n, off_t o) { chk(b, n); auto it = P()->fds.find(fd); if (it == P()->fds.end()) { ERR(EBADF); return -1; } u64 old = it->second->off; it->second->off = o; i64 r = sys_read(fd, b, n); it = P()->fds.find(fd); if (it != P()->fds.end()) it->second->off = old; return ret(r); }
X ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o) { chk(b, n); auto it = P()->fds.find(fd); if (it == P()->fds.end()) { ERR(EBADF); return -1; } u64 old = it->second->off; it->second->off = o; i64 r = sys_write(fd, b, n); it = P()->fds.find(fd); if (it != P()->fds.end()) it->second->off = old; return ret(r); }
X ssize_t sim_readv(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t) r < v[i].iov_len) break; } return t; }
X ssize_t sim_writev(int fd, const struct iovec *v, int c) { string all; for (int i = 0; i < c; i++) { chk(v[i].iov_base, v[i].iov_len); all.append((char *) v[i].iov_base, v[i].iov_len); } return ret(sys_write(fd, all.data(), all.size())); }
X int sim_close(int fd) { return (int) ret(sys_close(fd)); }
X off_t sim_lseek(int fd, off_t o, int w) { return ret(sys_lseek(fd, o, w)); }
X int sim_stat(const char *p, struct stat *st) { return (int) ret(sys_stat(cs(p), st, true)); }
X int sim_lstat(const char *p, struct stat *st) { return (int) ret(sys_stat(cs(p), st, false, "lstat")); }
X int sim_fstat(int fd, struct stat *st) { return (int) ret(sys_fstat(fd, st)); }
static string at(int d, const char *p) { string s = cs(p); if (d == AT_FDCWD || (!s.empty() && s[0] == '/')) return s; auto it = P()->fds.find(d); if (it == P()->fds.end() || !it->second->ino) return "/nonexistent-fd/x"; return fs_path_of(it->second->ino) + "/" + s; }
X int sim_fstatat(int d, const char *p, struct stat *st, int f) { if ((f & AT_EMPTY_PATH) && !*p) return sim_fstat(d, st); return (int) ret(sys_stat(at(d, p), st, !(f & AT_SYMLINK_NOFOLLOW), f & AT_SYMLINK_NOFOLLOW ? "lstat" : "stat")); }
X int sim_mkdir(const char *p, mode_t m) { return (int) ret(sys_mkdir(cs(p), m)); }
X int sim_mkdirat(int d, const char *p, mode_t m) { return (int) ret(sys_mkdir(at(d, p), m)); }
X int sim_rmdir(const char *p) { return (int) ret(sys_rmdir(cs(p))); }
X int sim_unlink(const char *p) { return (int) ret(sys_unlink(cs(p))); }
X int sim_unlinkat(int d, const char *p, int f) { return (int) ret(f & AT_REMOVEDIR ? sys_rmdir(at(d, p)) : sys_unlink(at(d, p))); }
X int sim_remove(const char *p) { i64 r = sys_unlink(cs(p)); if (r == -EISDIR) r = sys_rmdir(cs(p)); return (int) ret(r); }
X int sim_rename(const char *a, const char *b) { return (int) ret(sys_rename(cs(a), cs(b))); }
X int sim_renameat(int x, const char *a, int y, const char *b) { return (int) ret(sys_rename(at(x, a), at(y, b))); }
X int sim_renameat2(int x, const char *a, int y, const char *b, unsigned) { return (int) ret(sys_rename(at(x, a), at(y, b))); }
X int sim_link(const char *a, const char *b) { return (int) ret(sys_link(cs(a), cs(b))); }
X int sim_linkat(int x, const char *a, int y, const char *b, int) { return (int) ret(sys_link(at(x, a), at(y, b))); }
X int sim_symlink(const char *a, const char *b) { return (int) ret(sys_symlink(cs(a), cs(b))); }
X int sim_symlinkat(const char *a, int d, const char *b) { return (int) ret(sys_symlink(cs(a), at(d, b))); }
static ssize_t rl(const string &p, char *b, size_t n) { string o; i64 r = sys_readlink(p, o); if (r < 0) { ERR((int) -r); return -1; } size_t k = std::min(n, o.size()); chk(b, k); memcpy(b, o.data(), k); return k; }
X ssize_t sim_readlink(const char *p, char *b, size_t n) { return rl(cs(p), b, n); }
X ssize_t sim_readlinkat(int d, const char *p, char *b, size_t n) { return rl(at(d, p), b, n); }
X int sim_chdir(const char *p) { return (int) ret(sys_chdir(cs(p))); }
X int sim_fchdir(int fd) { auto it = P()->fds.find(fd); if (it == P()->fds.end() || !it->second->ino) { ERR(EBADF); return -1; } P()->cwd = it->second->ino; return 0; }
X char *sim_getcwd(char *b, size_t n) { string o; i64 r = sys_getcwd(o); if (r < 0) { ERR((int) -r); return nullptr; } if (!b) { if (!n) n = o.size() + 1; b = (char *) sim_malloc(n); if (!b) return nullptr; } if (n < o.size() + 1) { ERR(ERANGE); return nullptr; } chk(b, o.size() + 1); memcpy(b, o.c_str(), o.size() + 1); return b; }
X char *sim_get_current_dir_name() { return sim_getcwd(nullptr, 0); }
X int sim_access(const char *p, int m) { return (int) ret(sys_access(cs(p), m)); }
X int sim_faccessat(int d, const char *p, int m, int) { return (int) ret(sys_access(at(d, p), m)); }
X int sim_euidaccess(const char *p, int m) { return (int) ret(sys_access(cs(p), m)); } X int sim_eaccess(const char *p, int m) { return (int) ret(sys_access(cs(p), m)); }
X char *sim_realpath(const char *p, char *b) { if (!p) { ERR(EINVAL); return nullptr; } string o; i64 r = sys_realpath(cs(p), o); if (r < 0) { ERR((int) -r); return nullptr; } if (!b) return dup_str(o); chk(b, o.size() + 1); memcpy(b, o.c_str(), o.size() + 1); return b; }
X char *sim_canonicalize_file_name(const char *p) { return sim_realpath(p, nullptr); }
X char *sim___realpath_chk(const char *p, char *b, size_t) { return sim_realpath(p, b); }
X char *sim___getcwd_chk(char *b, size_t n, size_t) { return sim_getcwd(b, n); }
X int sim_pipe(int f[2]) { return (int) ret(sys_pipe(f, 0)); } X int sim_pipe2(int f[2], int fl) { return (int) ret(sys_pipe(f, fl)); }
X int sim_dup2(int a, int b) { return (int) ret(sys_dup2(a, b)); } X int sim_dup3(int a, int b, int fl) { i64 r = sys_dup2(a, b); if (r >= 0 && (fl & O_CLOEXEC)) P()->cloexec[b] = true; return (int) ret(r); } X int sim_dup(int a) { return (int) ret(sys_dup(a)); }
X int sim_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); auto it = P()->fds.find(fd); if (it == P()->fds.end()) { ERR(EBADF); return -1; } sim_log("fcntl %d", cmd);
    switch (cmd) { case F_GETFD: return P()->cloexec[fd] ? FD_CLOEXEC : 0; case F_SETFD: P()->cloexec[fd] = arg & FD_CLOEXEC; return 0; case F_GETFL: return it->second->flags | (it->second->nonblock ? O_NONBLOCK : 0); case F_SETFL: it->second->nonblock = arg & O_NONBLOCK; return 0; case F_DUPFD: return (int) ret(sys_dup(fd, (int) arg)); case F_DUPFD_CLOEXEC: { int r = (int) ret(sys_dup(fd, (int) arg)); if (r >= 0) P()->cloexec[r] = true; return r; }
    case F_SETLK: case F_SETLKW: case F_GETLK: return 0; case 1031: case 1032: return 65536; } return 0;
}
X int sim_ioctl(int fd, unsigned long, ...) { if (!P()->fds.count(fd)) { ERR(EBADF); return -1; } ERR(ENOTTY); return -1; }
X int sim_isatty(int) { ERR(ENOTTY); return 0; }
X int sim_fsync(int fd) { sim_yield(); fault_point("kill@"); if (!P()->fds.count(fd)) { ERR(EBADF); return -1; } int e = fault_point("fsync"); if (e > 0) { ERR(e); return -1; } return 0; } X int sim_fdatasync(int fd) { return sim_fsync(fd); } X void sim_sync() {}
X int sim_ftruncate(int fd, off_t l) { sim_yield(); auto it = P()->fds.find(fd); if (it == P()->fds.end() || it->second->type != OpenFile::REG) { ERR(EBADF); return -1; } int e = fault_point("truncate"); if (e > 0) { ERR(e); return -1; } sys_truncate_ino(it->second->ino, l); return 0; }
X int sim_truncate(const char *p, off_t l) { sim_yield(); INode n = fs_lookup(cs(p), true, P()->cwd); if (!n || n->type != Inode::FILE) { ERR(ENOENT); return -1; } int e = fault_point("truncate"); if (e > 0) { ERR(e); return -1; } sys_truncate_ino(n, l); return 0; }
X int sim_posix_fallocate(int, off_t, off_t) { return 0; } X int sim_posix_fadvise(int, off_t, off_t, int) { return 0; }
X int sim_chmod(const char *p, mode_t m) { return (int) ret(sys_chmod(cs(p), m)); } X int sim_fchmodat(int d, const char *p, mode_t m, int) { return (int) ret(sys_chmod(at(d, p), m)); }
X int sim_fchmod(int fd, mode_t m) { sim_yield(); auto it = P()->fds.find(fd); if (it == P()->fds.end() || !it->second->ino) { ERR(EBADF); return -1; } it->second->ino->mode = m & 07777; return 0; }
X int sim_chown(const char *, uid_t, gid_t) { return 0; } X int sim_fchown(int, uid_t, gid_t) { return 0; } X int sim_lchown(const char *, uid_t, gid_t) { return 0; }
X mode_t sim_umask(mode_t m) { mode_t o = P()->umask_; P()->umask_ = m & 0777; return o; }
static i64 tsns(const struct timespec *t, INode n) { if (!t || t->tv_nsec == UTIME_NOW) return S.now + S.clock_skew; if (t->tv_nsec == UTIME_OMIT) return n ? n->mtime : S.now; return t->tv_sec * SEC + t->tv_nsec; }
X int sim_utimensat(int d, const char *p, const struct timespec t[2], int f) { string q = at(d, p); INode n = fs_lookup(q, true, P()->cwd); return (int) ret(sys_utimens(q, tsns(t ? &t[1] : nullptr, n), !(f & AT_SYMLINK_NOFOLLOW))); }
X int sim_futimens(int fd, const struct timespec t[2]) { sim_yield(); auto it = P()->fds.find(fd); if (it == P()->fds.end() || !it->second->ino) { ERR(EBADF); return -1; } it->second->ino->mtime = tsns(t ? &t[1] : nullptr, it->second->ino); return 0; }
X int sim_utimes(const char *p, const struct timeval t[2]) { return (int) ret(sys_utimens(cs(p), t ? t[1].tv_sec * SEC + t[1].tv_usec * 1000 : S.now)); }
X int sim_utime(const char *p, const void *t) { const time_t *u = (const time_t *) t; return (int) ret(sys_utimens(cs(p), u ? u[1] * SEC : S.now)); }
X int sim_flock(int fd, int op) { // advisory locks by inode
    static map<u64, std::pair<void *, int>> dummy; (void) dummy; sim_yield(); auto it = P()->fds.find(fd); if (it == P()->fds.end() || !it->second->ino) { ERR(EBADF); return -1; } INode n = it->second->ino; OpenFile *me = it->second.get(); sim_log("flock %d", op);
    if (op & 8) { if (n->prog == strf("#lock%p", (void *) me)) n->prog.clear(); return 0; }
    auto held = [n, me]() { if (n->prog.compare(0, 5, "#lock")) return false; string want = strf("#lock%p", (void *) me); if (n->prog == want) return false; for (auto &pr : S.procs) if (!pr.second->dead) for (auto &f : pr.second->fds) if (strf("#lock%p", (void *) f.second.get()) == n->prog) return true; return false; };
    if (held()) { if (op & 4) { ERR(EWOULDBLOCK); return -1; } if (fiber_block_i("flock", [held]() { return !held(); })) { ERR(EINTR); return -1; } } n->prog = strf("#lock%p", (void *) me); return 0;
}
static int mktmp(char *t, int suf, bool dir, int flags) {
    size_t n = strlen(t); if (n < (size_t) (6 + suf)) { ERR(EINVAL); return -1; } char *x = t + n - suf - 6; if (strncmp(x, "XXXXXX", 6)) { ERR(EINVAL); return -1; }
    sim_yield(); int e = fault_point(dir ? "mkdtemp" : "mkstemp"); if (e > 0) { ERR(e); return -1; }
    for (int k = 0; k < 50; k++) { u64 h = hcomb(hcomb(S.k.seed, P()->hkey), S.nextid++ * 131 + k); for (int i = 0; i < 6; i++) { x[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[h % 62]; h /= 62; } i64 r = dir ? sys_mkdir(t, 0700) : sys_open(t, O_RDWR | O_CREAT | O_EXCL | flags, 0600); if (r != -EEXIST) return (int) ret(r); }
    ERR(EEXIST); return -1;
}
X char *sim_mkdtemp(char *t) { return mktmp(t, 0, true, 0) < 0 ? nullptr : t; } X int sim_mkstemp(char *t) { return mktmp(t, 0, false, 0); } X int sim_mkostemp(char *t, int f) { return mktmp(t, 0, false, f); } X int sim_mkstemps(char *t, int s) { return mktmp(t, s, false, 0); } X int sim_mkostemps(char *t, int s, int f) { return mktmp(t, s, false, f); }
X char *sim_mktemp(char *t) { size_t n = strlen(t); for (int i = 0; i < 6; i++) t[n - 6 + i] = 'a' + (char) ((hcomb(S.nextid++, i)) % 26); return t; }
X long sim_sysconf(int n) { switch (n) { case _SC_OPEN_MAX: return 1024; case _SC_PAGESIZE: return 4096; case _SC_NPROCESSORS_ONLN: return 4; case _SC_CLK_TCK: return 100; case _SC_HOST_NAME_MAX: return 64; } return sysconf(n); }
X long sim_pathconf(const char *, int) { return 4096; }

// directories
static void drop_fd(int fd) { if (fd >= 0) { P()->fds.erase(fd); P()->cloexec.erase(fd); } }
X DIR *sim_opendir(const char *p) { vector<std::pair<string, int>> v; INode n; i64 r = sys_readdir_all(cs(p), v, &n); if (r < 0) { ERR((int) -r); return nullptr; } if (oom()) { ERR(ENOMEM); return nullptr; } u64 id = P()->nextfile++; SDir &d = P()->dirs[id]; d.ents = v; d.ino = n; d.fd = sys_dirfd(n); return (DIR *) (0x7D0000000000ULL + id * 64); }
X DIR *sim_fdopendir(int fd) { auto it = P()->fds.find(fd); if (it == P()->fds.end() || !it->second->ino) { ERR(EBADF); return nullptr; } string p = fs_path_of(it->second->ino); DIR *d = sim_opendir(p.c_str()); if (d) { int &k = P()->dirs[((u64) d - 0x7D0000000000ULL) / 64].fd; drop_fd(k); k = fd; } return d; }
static SDir *dp(DIR *d) { auto it = P()->dirs.find(((u64) d - 0x7D0000000000ULL) / 64); if (it == P()->dirs.end()) { mem_error("use of a closed or invalid DIR", d, 0); return nullptr; } return &it->second; }
X struct dirent *sim_readdir(DIR *d) { SDir *s = dp(d); sim_yield(); s = dp(d); int e = fault_point("readdir"); if (e > 0) { ERR(e); return nullptr; } if (s->pos >= s->ents.size()) return nullptr; struct dirent *de = (struct dirent *) s->storage; auto &x = s->ents[s->pos++]; memset(de, 0, sizeof *de); de->d_ino = 1; de->d_type = x.second; strncpy(de->d_name, x.first.c_str(), sizeof de->d_name - 1); return de; }
X int sim_closedir(DIR *d) { SDir *s = dp(d); int fd = s->fd; P()->dirs.erase(((u64) d - 0x7D0000000000ULL) / 64); drop_fd(fd); return 0; }
X void sim_rewinddir(DIR *d) { dp(d)->pos = 0; } X int sim_dirfd(DIR *d) { SDir *s = dp(d); if (s->fd < 0) { i64 r = sys_open(fs_path_of(s->ino), O_RDONLY | O_DIRECTORY, 0); if (r < 0) return (int) ret(r); dp(d)->fd = (int) r; return (int) r; } return s->fd; }
typedef int (*sdfilter)(const struct dirent *); typedef int (*sdcmp)(const struct dirent **, const struct dirent **);
X int sim_alphasort(const struct dirent **a, const struct dirent **b) { return strcmp((*a)->d_name, (*b)->d_name); }
X int sim_scandir(const char *p, struct dirent ***o, sdfilter f, sdcmp c) {
    DIR *d = sim_opendir(p); if (!d) return -1; vector<struct dirent *> v; struct dirent *e; while ((e = sim_readdir(d))) { if (f && !f(e)) continue; struct dirent *k = (struct dirent *) sim_malloc(sizeof *k); memcpy(k, e, sizeof *k); v.push_back(k); } sim_closedir(d);
    if (c) std::stable_sort(v.begin(), v.end(), [c](struct dirent *a, struct dirent *b) { const struct dirent *x = a, *y = b; return c(&x, &y) < 0; }); *o = (struct dirent **) sim_malloc(sizeof(void *) * (v.size() + 1)); for (size_t i = 0; i < v.size(); i++) (*o)[i] = v[i]; return (int) v.size();
}
struct FTW; typedef int (*nftwfn)(const char *, const struct stat *, int, struct FTW *);
static int nftw_rec(const string &p, nftwfn fn, int flags, int lvl) { struct stat st; int ph = flags & 1; i64 r = sys_stat(p, &st, !ph, ph ? "lstat" : "stat"); int ft[2] = {(int) (p.rfind('/') == string::npos ? 0 : p.rfind('/') + 1), lvl}; if (r < 0) { memset(&st, 0, sizeof st); return fn(p.c_str(), &st, 3, (struct FTW *) ft); } if (!S_ISDIR(st.st_mode)) return fn(p.c_str(), &st, S_ISLNK(st.st_mode) ? 4 : 0, (struct FTW *) ft); bool depth = flags & 8; if (!depth) { int q = fn(p.c_str(), &st, 1, (struct FTW *) ft); if (q) return q; } vector<std::pair<string, int>> v; if (sys_readdir_all(p, v) < 0) return fn(p.c_str(), &st, 2, (struct FTW *) ft); for (auto &e : v) if (e.first != "." && e.first != "..") { int q = nftw_rec(p + "/" + e.first, fn, flags, lvl + 1); if (q) return q; } if (depth) return fn(p.c_str(), &st, 5, (struct FTW *) ft); return 0; }
X int sim_nftw(const char *p, nftwfn fn, int, int flags) { return nftw_rec(cs(p), fn, flags, 0); }

// ---------------------------------------------------------------- stdio
static const u64 FB = 0x7E0000000000ULL;
static FILE *fh(u64 id) { return (FILE *) (FB + id * 64); }
X FILE *sim_stdin, *sim_stdout, *sim_stderr; FILE *sim_stdin, *sim_stdout, *sim_stderr;
X char **sim_environ, **sim___environ; char **sim_environ, **sim___environ;
X char *sim_program_invocation_name, *sim_program_invocation_short_name, *sim___progname; char *sim_program_invocation_name, *sim_program_invocation_short_name, *sim___progname;
X char *sim_optarg; X int sim_optind, sim_opterr, sim_optopt; char *sim_optarg; int sim_optind = 1, sim_opterr = 1, sim_optopt = '?';
static SFile *sf(FILE *f) { if (!f) { mem_error("NULL stream", f, 0); return nullptr; } auto it = P()->files.find(((u64) f - FB) / 64); if (it == P()->files.end()) { mem_error("use of a closed or invalid stream", f, 0); return nullptr; } return &it->second; }
static u64 addfile(Proc *p, int fd, int mode, int bt) { u64 id = p->nextfile++; SFile &s = p->files[id]; s.fd = fd; s.mode = mode; s.buftype = bt; return id; }
void libc_init_proc(Proc *p) { p->nextfile = 1; p->f_in = addfile(p, 0, 1, 0); p->f_out = addfile(p, 1, 2, 0); p->f_err = addfile(p, 2, 2, 2); }
void libc_use(Proc *p) { sim_stdin = fh(p->f_in); sim_stdout = fh(p->f_out); sim_stderr = fh(p->f_err); }
static int flush1(FILE *f) { // write out pending data; loops over short writes like a real stdio
    SFile *s = sf(f); while (!s->wbuf.empty()) { string b = s->wbuf; i64 r = sys_write(s->fd, b.data(), b.size()); s = sf(f); if (r < 0) { ERR((int) -r); s->err = true; s->wbuf.clear(); return EOF; } s->wbuf.erase(0, r); } return 0;
}
void libc_flush_all(Proc *p) { vector<u64> ids; for (auto &kv : p->files) if (kv.second.fd >= 0 && !kv.second.wbuf.empty()) ids.push_back(kv.first); for (u64 i : ids) flush1(fh(i)); }
static int pmode(const char *m, int *fl) { bool plus = strchr(m, '+'); *fl = (m[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : m[0] == 'w' ? (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC : (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND) | (strchr(m, 'e') ? O_CLOEXEC : 0) | (strchr(m, 'x') ? O_EXCL : 0); return plus ? 3 : m[0] == 'r' ? 1 : 2; }
X FILE *sim_fopen(const char *p, const char *m) { int fl; int md = pmode(m, &fl); if (oom()) { ERR(ENOMEM); return nullptr; } i64 fd = sys_open(cs(p), fl, 0666); if (fd < 0) { ERR((int) -fd); return nullptr; } return fh(addfile(P(), (int) fd, md, 0)); }
X FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
X FILE *sim_fdopen(int fd, const char *m) { int fl; int md = pmode(m, &fl); if (!P()->fds.count(fd)) { ERR(EBADF); return nullptr; } if (oom()) { ERR(ENOMEM); return nullptr; } return fh(addfile(P(), fd, md, 0)); }
X int sim_fflush(FILE *f) { if (!f) { libc_flush_all(P()); return 0; } SFile *s = sf(f); if (s->memstream) return 0; return flush1(f); }
static void mem_sync(SFile *s) { if (s->mptr) { if (*s->mptr) heap_free(P(), *s->mptr); *s->mptr = (char *) heap_alloc(P(), s->memstream->size() + 1, false); memcpy(*s->mptr, s->memstream->c_str(), s->memstream->size() + 1); *s->msz = s->memstream->size(); } }
X int sim_fclose(FILE *f) { SFile *s = sf(f); if (s->memstream) { mem_sync(s); P()->files.erase(((u64) f - FB) / 64); return 0; } int r = flush1(f); s = sf(f); int fd = s->fd; P()->files.erase(((u64) f - FB) / 64); i64 c = sys_close(fd); if (c < 0) { ERR((int) -c); return EOF; } return r; }
X FILE *sim_freopen(const char *p, const char *m, FILE *f) { int fl; int md = pmode(m, &fl); flush1(f); SFile *s = sf(f); sys_close(s->fd); if (!p) return f; i64 fd = sys_open(cs(p), fl, 0666); if (fd < 0) { ERR((int) -fd); P()->files.erase(((u64) f - FB) / 64); return nullptr; } s = sf(f); *s = SFile(); s->fd = (int) fd; s->mode = md; return f; }
X FILE *sim_open_memstream(char **p, size_t *n) { u64 id = addfile(P(), -1, 2, 0); SFile &s = P()->files[id]; s.memstream = new string(); s.mptr = p; s.msz = n; *p = nullptr; mem_sync(&s); return fh(id); }
X FILE *sim_tmpfile() { char t[] = "/tmp/tmpfXXXXXX"; int fd = sim_mkstemp(t); if (fd < 0) return nullptr; sys_unlink(t); return fh(addfile(P(), fd, 3, 0)); }
X int sim_fileno(FILE *f) { return sf(f)->fd; }
X int sim_setvbuf(FILE *f, char *, int m, size_t) { sf(f)->buftype = m == _IONBF ? 2 : m == _IOLBF ? 1 : 0; return 0; } X void sim_setbuf(FILE *f, char *b) { sf(f)->buftype = b ? 0 : 2; } X void sim_setlinebuf(FILE *f) { sf(f)->buftype = 1; }
static size_t fwr(FILE *f, const char *b, size_t n) { // returns bytes accepted
    SFile *s = sf(f); if (s->memstream) { s->memstream->append(b, n); mem_sync(s); return n; } if (!(s->mode & 2)) { s->err = true; ERR(EBADF); return 0; } if (n == 0) return 0;
    s->rbuf.clear(); s->rpos = 0; s->wbuf.append(b, n); bool fl = s->buftype == 2 || s->wbuf.size() >= 4096 || (s->buftype == 1 && memchr(b, '\n', n)); if (fl) { if (s->buftype == 0) { // flush whole blocks only, keep the rest buffered
            while ((s = sf(f))->wbuf.size() >= 4096) { string blk = s->wbuf.substr(0, s->wbuf.size() / 4096 * 4096); i64 r = sys_write(s->fd, blk.data(), blk.size()); s = sf(f); if (r < 0) { ERR((int) -r); s->err = true; s->wbuf.clear(); return 0; } s->wbuf.erase(0, r); } return n; }
        if (flush1(f)) return 0; } return n;
}
X size_t sim_fwrite(const void *b, size_t s, size_t n, FILE *f) { chk(b, s * n); if (!s || !n) return 0; size_t r = fwr(f, (const char *) b, s * n); return r / s; }
X size_t sim_fwrite_unlocked(const void *b, size_t s, size_t n, FILE *f) { return sim_fwrite(b, s, n, f); }
X int sim_fputs(const char *s, FILE *f) { string t = cs(s); if (t.empty()) { sf(f); return 1; } return fwr(f, t.data(), t.size()) == t.size() ? 1 : EOF; }
X int sim_fputc(int, FILE *); X int sim_fflush(FILE *); X int sim_fputc_unlocked(int c, FILE *f) { return sim_fputc(c, f); } X int sim_fflush_unlocked(FILE *f) { return sim_fflush(f); }
X int sim_fputs_unlocked(const char *s, FILE *f) { return sim_fputs(s, f); }
X int sim_fputc(int c, FILE *f) { char b = (char) c; return fwr(f, &b, 1) == 1 ? (unsigned char) b : EOF; } X int sim_putc(int c, FILE *f) { return sim_fputc(c, f); } X int sim__IO_putc(int c, FILE *f) { return sim_fputc(c, f); } X int sim_putchar(int c) { return sim_fputc(c, sim_stdout); } X int sim_putc_unlocked(int c, FILE *f) { return sim_fputc(c, f); }
X int sim_puts(const char *s) { string t = cs(s) + "\n"; return fwr(sim_stdout, t.data(), t.size()) == t.size() ? 1 : EOF; }
X int sim_vfprintf(FILE *f, const char *fmt, va_list ap) { va_list a2; va_copy(a2, ap); char b[1024]; int n = vsnprintf(b, sizeof b, fmt, a2); va_end(a2); if (n < 0) return -1; if (n < (int) sizeof b) return fwr(f, b, n) == (size_t) n ? n : -1; string t; t.resize(n + 1); vsnprintf(&t[0], n + 1, fmt, ap); t.resize(n); return fwr(f, t.data(), n) == (size_t) n ? n : -1; }
X int sim_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(f, fmt, ap); va_end(ap); return r; }
X int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(sim_stdout, fmt, ap); va_end(ap); return r; }
X int sim_vprintf(const char *fmt, va_list ap) { return sim_vfprintf(sim_stdout, fmt, ap); }
X int sim___fprintf_chk(FILE *f, int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(f, fmt, ap); va_end(ap); return r; }
X int sim___printf_chk(int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(sim_stdout, fmt, ap); va_end(ap); return r; }
X int sim_dprintf(int fd, const char *fmt, ...) { va_list ap; va_start(ap, fmt); char *o = nullptr; int n = vasprintf(&o, fmt, ap); va_end(ap); string t(o, n); free(o); size_t d = 0; while (d < t.size()) { i64 r = sys_write(fd, t.data() + d, t.size() - d); if (r < 0) { ERR((int) -r); return -1; } d += r; } return n; }
static void wmsg(bool e, const char *f, va_list ap) { string t = "blogc: "; int er = S.cur->err; if (f) { char b[4096]; vsnprintf(b, sizeof b, f, ap); t += b; if (e) t += ": "; } if (e) t += strerror(er); t += "\n"; fwr(sim_stderr, t.data(), t.size()); }
X void sim_vwarn(const char *f, va_list ap) { wmsg(true, f, ap); } X void sim_vwarnx(const char *f, va_list ap) { wmsg(false, f, ap); } X void sim_warn(const char *f, ...) { va_list ap; va_start(ap, f); wmsg(true, f, ap); va_end(ap); } X void sim_warnx(const char *f, ...) { va_list ap; va_start(ap, f); wmsg(false, f, ap); va_end(ap); }
X void sim_exit(int); X void sim_err(int c, const char *f, ...) { va_list ap; va_start(ap, f); wmsg(true, f, ap); va_end(ap); sim_exit(c); } X void sim_errx(int c, const char *f, ...) { va_list ap; va_start(ap, f); wmsg(false, f, ap); va_end(ap); sim_exit(c); }
X char *sim_strerror_r(int e, char *b, size_t n) { snprintf(b, n, "%s", strerror(e)); return b; } X int sim___xpg_strerror_r(int e, char *b, size_t n) { snprintf(b, n, "%s", strerror(e)); return 0; }
X void sim_perror(const char *s) { int e = S.cur->err; string t = (s && *s ? string(s) + ": " : "") + strerror(e) + "\n"; fwr(sim_stderr, t.data(), t.size()); }
static int fill(FILE *f) { // one read(2) into the buffer; 1 ok, 0 eof/error
    SFile *s = sf(f); if (s->eof && s->fd != 0) return 0; if (s->memstream || !(s->mode & 1)) { s->err = true; return 0; } if (!s->wbuf.empty()) flush1(f); char b[4096]; s = sf(f); i64 r = sys_read(s->fd, b, sizeof b); s = sf(f); if (r < 0) { s->err = true; ERR((int) -r); return 0; } if (r == 0) { s->eof = true; return 0; } s->rbuf.assign(b, r); s->rpos = 0; return 1;
}
X int sim_fgetc(FILE *f) { SFile *s = sf(f); if (s->ungot >= 0) { int c = s->ungot; s->ungot = -1; return c; } if (s->rpos >= s->rbuf.size()) { if (!fill(f)) return EOF; s = sf(f); } return (unsigned char) s->rbuf[s->rpos++]; }
X int sim_getc(FILE *f) { return sim_fgetc(f); } X int sim__IO_getc(FILE *f) { return sim_fgetc(f); } X int sim_getchar() { return sim_fgetc(sim_stdin); } X int sim_getc_unlocked(FILE *f) { return sim_fgetc(f); }
X int sim_ungetc(int c, FILE *f) { if (c == EOF) return EOF; SFile *s = sf(f); s->ungot = c & 255; s->eof = false; return c; }
X size_t sim_fread(void *b, size_t sz, size_t n, FILE *f) { chk(b, sz * n); size_t want = sz * n, got = 0; if (!want) return 0; SFile *s = sf(f); if (s->ungot >= 0) { ((char *) b)[got++] = (char) s->ungot; s->ungot = -1; } while (got < want) { s = sf(f); if (s->rpos < s->rbuf.size()) { size_t k = std::min(want - got, s->rbuf.size() - s->rpos); memcpy((char *) b + got, s->rbuf.data() + s->rpos, k); s->rpos += k; got += k; } else if (!fill(f)) break; } return got / sz; }
X size_t sim_fread_unlocked(void *b, size_t s, size_t n, FILE *f) { return sim_fread(b, s, n, f); } X size_t sim___fread_chk(void *b, size_t, size_t s, size_t n, FILE *f) { return sim_fread(b, s, n, f); }
X int sim_fgetc_unlocked(FILE *f) { return sim_fgetc(f); }
X char *sim_fgets(char *b, int n, FILE *f) { if (n < 1) return nullptr; int i = 0; while (i < n - 1) { int c = sim_fgetc(f); if (c == EOF) break; b[i++] = (char) c; if (c == '\n') break; } if (i == 0) return nullptr; chk(b, i + 1); b[i] = 0; return b; }
X ssize_t sim_getdelim(char **l, size_t *n, int d, FILE *f) { string t; for (;;) { int c = sim_fgetc(f); if (c == EOF) break; t += (char) c; if (c == d) break; } if (t.empty()) return -1; if (!*l || *n < t.size() + 1) { *l = (char *) sim_realloc(*l, t.size() + 120); if (!*l) return -1; *n = t.size() + 120; } memcpy(*l, t.c_str(), t.size() + 1); return t.size(); }
X ssize_t sim_getline(char **l, size_t *n, FILE *f) { return sim_getdelim(l, n, '\n', f); } X ssize_t sim___getdelim(char **l, size_t *n, int d, FILE *f) { return sim_getdelim(l, n, d, f); }
X int sim_feof(FILE *f) { return sf(f)->eof; } X int sim_ferror(FILE *f) { return sf(f)->err; } X void sim_clearerr(FILE *f) { sf(f)->eof = sf(f)->err = false; } X int sim_feof_unlocked(FILE *f) { return sf(f)->eof; } X int sim_ferror_unlocked(FILE *f) { return sf(f)->err; }
X int sim_fseek(FILE *f, long o, int w) { SFile *s = sf(f); if (!s->wbuf.empty()) { flush1(f); s = sf(f); } if (w == SEEK_CUR) o -= (long) (s->rbuf.size() - s->rpos); s->rbuf.clear(); s->rpos = 0; s->eof = false; s->ungot = -1; i64 r = sys_lseek(s->fd, o, w); if (r < 0) { ERR((int) -r); return -1; } return 0; }
X int sim_fseeko(FILE *f, off_t o, int w) { return sim_fseek(f, o, w); }
X long sim_ftell(FILE *f) { SFile *s = sf(f); if (s->memstream) return s->memstream->size(); i64 r = sys_lseek(s->fd, 0, SEEK_CUR); if (r < 0) { ERR((int) -r); return -1; } s = sf(f); return r - (long) (s->rbuf.size() - s->rpos) + (long) s->wbuf.size(); } X off_t sim_ftello(FILE *f) { return sim_ftell(f); }
X void sim_rewind(FILE *f) { sim_fseek(f, 0, SEEK_SET); sf(f)->err = false; }
X void sim_flockfile(FILE *) {} X void sim_funlockfile(FILE *) {}
X FILE *sim_popen(const char *cmd, const char *m) { int p[2]; if (sys_pipe(p, O_CLOEXEC) < 0) return nullptr; bool rd = m[0] == 'r'; i64 pid = sys_spawn({"/bin/sh", "-c", cs(cmd)}, P()->env, rd ? map<int, int>{{0, 0}, {1, p[1]}, {2, 2}} : map<int, int>{{0, p[0]}, {1, 1}, {2, 2}}); if (pid < 0) { sys_close(p[0]); sys_close(p[1]); ERR((int) -pid); return nullptr; } sys_close(rd ? p[1] : p[0]); u64 id = addfile(P(), rd ? p[0] : p[1], rd ? 1 : 2, 0); P()->files[id].popen_pid = (int) pid; return fh(id); }
X int sim_pclose(FILE *f) { SFile *s = sf(f); int pid = s->popen_pid; sim_fclose(f); int st = 0; i64 r; do r = sys_waitpid(pid, &st, 0); while (r == -EINTR); return r < 0 ? (int) ret(r) : st; }
X int sim_vsnprintf(char *b, size_t n, const char *f, va_list ap) { int r = vsnprintf(b, n, f, ap); if (n) chk(b, r < 0 ? 0 : std::min<size_t>(n, (size_t) r + 1)); return r; }
X int sim_snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vsnprintf(b, n, f, ap); va_end(ap); return r; }
X int sim___vsnprintf_chk(char *b, size_t n, int, size_t, const char *f, va_list ap) { return sim_vsnprintf(b, n, f, ap); } X int sim___snprintf_chk(char *b, size_t n, int, size_t, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vsnprintf(b, n, f, ap); va_end(ap); return r; }
X int sim_sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(b, f, ap); va_end(ap); chk(b, r + 1); return r; }

// getopt with per-image state (rarely used; single threaded programs)
X int sim_getopt(int c, char *const *v, const char *o) { optind = sim_optind; int r = getopt(c, v, o); sim_optind = optind; sim_optarg = optarg; sim_optopt = optopt; return r; }
X int sim_getopt_long(int c, char *const *v, const char *o, const struct option *l, int *i) { optind = sim_optind; int r = getopt_long(c, v, o, l, i); sim_optind = optind; sim_optarg = optarg; return r; }

// ---------------------------------------------------------------- time
X time_t sim_time(time_t *t) { sim_yield(); time_t r = (S.now + S.clock_skew) / SEC; if (t) *t = r; S.clock_skew += S.clk_step; sim_log("time %ld", (long) r); return r; }
X int sim_gettimeofday(struct timeval *t, void *) { sim_yield(); i64 n = S.now + S.clock_skew; t->tv_sec = n / SEC; t->tv_usec = n % SEC / 1000; S.clock_skew += S.clk_step; return 0; }
X int sim_clock_gettime(clockid_t id, struct timespec *t) { sim_yield(); i64 n = S.now + (id == CLOCK_REALTIME ? S.clock_skew : 0); t->tv_sec = n / SEC; t->tv_nsec = n % SEC; if (id == CLOCK_REALTIME) S.clock_skew += S.clk_step; return 0; }
X int sim_timespec_get(struct timespec *t, int b) { sim_clock_gettime(CLOCK_REALTIME, t); return b; }
X clock_t sim_clock() { return (clock_t) (S.now / 1000 % 1000000000); }
X unsigned sim_sleep(unsigned s) { i64 t0 = S.now; if (sys_nanosleep((i64) s * SEC) < 0) { i64 left = (i64) s - (S.now - t0) / SEC; return left > 0 ? (unsigned) left : 0; } return 0; }
X int sim_usleep(useconds_t u) { return (int) ret(sys_nanosleep((i64) u * 1000)); }
X int sim_nanosleep(const struct timespec *t, struct timespec *r) { i64 d = t->tv_sec * SEC + t->tv_nsec, t0 = S.now; i64 v = sys_nanosleep(d); if (v < 0 && r) { i64 l = d - (S.now - t0); r->tv_sec = l / SEC; r->tv_nsec = l % SEC; } return (int) ret(v); }
X int sim_clock_nanosleep(clockid_t, int fl, const struct timespec *t, struct timespec *r) { if (fl & TIMER_ABSTIME) { i64 d = t->tv_sec * SEC + t->tv_nsec - S.now; return d > 0 ? (int) -sys_nanosleep(d) : 0; } return sim_nanosleep(t, r) < 0 ? EINTR : 0; }
// time zones: TZ as in POSIX, "ABC[+-]h[h][:mm]" (hours west of Greenwich); anything else is GMT
static long tz_west() { auto it = P()->env.find("TZ"); if (it == P()->env.end()) return 0; const char *c = it->second.c_str(); int n = 0; while (isalpha((unsigned char) c[n])) n++; if (n < 3 || !c[n]) return 0; c += n; int sg = 1; if (*c == '-') sg = -1, c++; else if (*c == '+') c++; long h = strtol(c, (char **) &c, 10), m = *c == ':' ? strtol(c + 1, nullptr, 10) : 0; return sg * (h * 3600 + m * 60); }
static struct tm *local_tm(const time_t *t, struct tm *r) { time_t x = *t - tz_west(); if (!gmtime_r(&x, r)) return nullptr; r->tm_gmtoff = -tz_west(); if (tz_west()) r->tm_zone = "SIM"; return r; }
X struct tm *sim_gmtime(const time_t *t) { if (oom()) {} return gmtime_r(t, &P()->tmbuf); } X struct tm *sim_localtime(const time_t *t) { return local_tm(t, &P()->tmbuf); } X struct tm *sim_gmtime_r(const time_t *t, struct tm *r) { return gmtime_r(t, r); } X struct tm *sim_localtime_r(const time_t *t, struct tm *r) { return local_tm(t, r); }
X time_t sim_mktime(struct tm *t) { time_t r = timegm(t) + tz_west(); local_tm(&r, t); return r; } X time_t sim_timegm(struct tm *t) { return timegm(t); } X void sim_tzset() {}
X char *sim_ctime(const time_t *t) { static char b[32]; return ctime_r(t, b); }
X int sim_getrusage(int who, struct rusage *r) { memset(r, 0, sizeof *r); if (S.ru_fail) { errno = EFAULT; return -1; } i64 c = S.ru_cpu, m = S.ru_mem, u = c * 2 / 3; if (who != RUSAGE_SELF) return 0; S.ru.push_back({c, m}); S.ru_cpu += S.ru_dcpu; S.ru_mem += S.ru_dmem; r->ru_utime.tv_sec = u / 1000000; r->ru_utime.tv_usec = u % 1000000; r->ru_stime.tv_sec = (c - u) / 1000000; r->ru_stime.tv_usec = (c - u) % 1000000; r->ru_maxrss = m; sim_log("getrusage %lld %lld", (long long) c, (long long) m); return 0; }
X int sim_getrlimit(int, struct rlimit *r) { r->rlim_cur = r->rlim_max = 1024; return 0; } X int sim_setrlimit(int, const struct rlimit *) { return 0; }
X char *sim_setlocale(int, const char *l) { static char c[] = "C", e[] = "C.UTF-8"; (void) e; if (!l) return c; return c; }
X int sim_gethostname(char *b, size_t n) { chk(b, n); sim_yield(); if (S.host_fail) { errno = EPERM; return -1; } if (S.host.size() >= n) { errno = ENAMETOOLONG; return -1; } memcpy(b, S.host.c_str(), S.host.size() + 1); return 0; }
X int sim_uname(struct utsname *u) { memset(u, 0, sizeof *u); strcpy(u->sysname, "Linux"); snprintf(u->nodename, sizeof u->nodename, "%s", S.host.c_str()); strcpy(u->release, "6.0"); return 0; }
X ssize_t sim_getrandom(void *b, size_t n, unsigned) { chk(b, n); for (size_t i = 0; i < n; i++) ((unsigned char *) b)[i] = (unsigned char) hcomb(hcomb(S.k.seed, P()->hkey), S.nextid++); return n; } X int sim_getentropy(void *b, size_t n) { return sim_getrandom(b, n, 0) < 0 ? -1 : 0; }
static u64 rnd() { return hcomb(hcomb(S.k.seed, P()->hkey), S.nextid++); }
X int sim_rand() { return (int) (rnd() & 0x7fffffff); } X void sim_srand(unsigned) {} X long sim_random() { return (long) (rnd() & 0x7fffffff); } X void sim_srandom(unsigned) {} X int sim_rand_r(unsigned *) { return sim_rand(); } X double sim_drand48() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); } X long sim_lrand48() { return sim_random(); } X void sim_srand48(long) {} X u32 sim_arc4random() { return (u32) rnd(); }
X int sim_sched_yield() { sim_yield(); i64 t = S.now + 1000; fiber_block("sched_yield", nullptr, t); return 0; }
X char *sim_strerror(int e) { return strerror(e); }

// ---------------------------------------------------------------- sockets
X int sim_socket(int fam, int, int) { sim_yield(); if (fam == AF_INET6 && S.v6 == 1) { sim_log("socket = -EAFNOSUPPORT"); ERR(EAFNOSUPPORT); return -1; } int e = fault_point("socket"); if (e > 0) { ERR(e); return -1; } auto f = std::make_shared<OpenFile>(); f->type = OpenFile::SOCKNEW; int fd = 0; while (P()->fds.count(fd)) fd++; P()->fds[fd] = f; P()->cloexec[fd] = false; sim_log("socket"); return fd; }
X int sim_setsockopt(int fd, int lv, int o, const void *v, socklen_t n) { sim_yield(); chk(v, n); auto it = P()->fds.find(fd); if (it == P()->fds.end()) { ERR(EBADF); return -1; } if (lv == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO) && n >= sizeof(struct timeval)) { const struct timeval *t = (const struct timeval *) v; (o == SO_RCVTIMEO ? it->second->rcvto : it->second->sndto) = t->tv_sec * SEC + t->tv_usec * 1000; } return 0; } X int sim_getsockopt(int, int, int, void *v, socklen_t *) { *(int *) v = 0; return 0; }
X int sim_bind(int fd, const struct sockaddr *a, socklen_t) {
    sim_yield(); auto it = P()->fds.find(fd); if (it == P()->fds.end()) { ERR(EBADF); return -1; } int e = fault_point("bind"); if (e > 0) { ERR(e); return -1; }
    int port = a->sa_family == AF_INET6 ? ntohs(((struct sockaddr_in6 *) a)->sin6_port) : ntohs(((struct sockaddr_in *) a)->sin_port); for (auto &l : S.listeners) if (l->port == port && !l->closed) { sim_log("bind in use"); ERR(EADDRINUSE); return -1; }
    if (a->sa_family == AF_INET6 && S.v6 == 2) { sim_log("bind = -EADDRNOTAVAIL"); ERR(EADDRNOTAVAIL); return -1; } char ab[64]; inet_ntop(a->sa_family, a->sa_family == AF_INET6 ? (const void *) &((struct sockaddr_in6 *) a)->sin6_addr : (const void *) &((struct sockaddr_in *) a)->sin_addr, ab, sizeof ab);
    auto l = std::make_shared<Listener>(); l->port = port; l->addr = ab; l->v6 = a->sa_family == AF_INET6; it->second->lst = l; it->second->type = OpenFile::LISTEN; S.listeners.push_back(l); sim_log("bind %d", port); return 0;
}
X int sim_listen(int fd, int b) { sim_yield(); auto it = P()->fds.find(fd); if (it == P()->fds.end() || !it->second->lst) { ERR(EBADF); return -1; } int e = fault_point("listen"); if (e > 0) { ERR(e); return -1; } it->second->lst->listening = true; it->second->lst->backlog = b; sim_log("listen"); return 0; }
X int sim_accept4(int fd, struct sockaddr *a, socklen_t *n, int) {
    sim_yield(); shared_ptr<Listener> l; bool nb; { auto it = P()->fds.find(fd); if (it == P()->fds.end() || !it->second->lst) { ERR(EBADF); return -1; } l = it->second->lst; nb = it->second->nonblock; }
    if (nb && l->q.empty()) { ERR(EAGAIN); return -1; } if (fiber_block_i("accept", [l]() { return !l->q.empty() || l->closed; })) { sim_log("accept EINTR"); ERR(EINTR); return -1; } if (l->closed) { ERR(EINVAL); return -1; }
    fault_point("kill@"); int e = fault_point("accept"); if (e > 0) { if (e == ECONNABORTED) { auto c = l->q.front(); l->q.pop_front(); c->reset = true; c->closed[1] = true; c->eof[1] = true; } sim_log("accept = -%s (injected)", errname(e)); ERR(e); return -1; }
    auto c = l->q.front(); l->q.pop_front(); c->accepted = true; auto f = std::make_shared<OpenFile>(); f->type = OpenFile::SOCK; f->conn = c; f->side = 1; int nf = 0; while (P()->fds.count(nf)) nf++; P()->fds[nf] = f; P()->cloexec[nf] = false; if (P()->fds.size() > P()->maxfd_seen) P()->maxfd_seen = P()->fds.size();
    if (a && n && l->v6) { struct sockaddr_in6 s; memset(&s, 0, sizeof s); s.sin6_family = AF_INET6; s.sin6_port = htons(40000 + (int) (c->id % 10000)); s.sin6_addr = in6addr_loopback; memcpy(a, &s, std::min<size_t>(*n, sizeof s)); *n = sizeof s; }
    else if (a && n) { struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(40000 + (int) (c->id % 10000)); s.sin_addr.s_addr = htonl(0x7f000001); memcpy(a, &s, std::min<size_t>(*n, sizeof s)); *n = sizeof s; } sim_log("accept conn %lu", (unsigned long) c->id); return nf;
}
X int sim_accept(int fd, struct sockaddr *a, socklen_t *n) { return sim_accept4(fd, a, n, 0); }
X int sim_connect(int, const struct sockaddr *, socklen_t) { ERR(ECONNREFUSED); return -1; }
X ssize_t sim_recv(int fd, void *b, size_t n, int fl) { chk(b, n); if (fl & MSG_PEEK) { shared_ptr<Conn> c; int d; { auto it = P()->fds.find(fd); if (it == P()->fds.end() || !it->second->conn) { ERR(EBADF); return -1; } c = it->second->conn; d = it->second->side == 0 ? 1 : 0; } sim_yield(); if (fiber_block_i("recv peek", [c, d]() { return !c->buf[d].empty() || c->eof[d] || c->reset; })) { ERR(EINTR); return -1; } size_t k = std::min(n, c->buf[d].size()); memcpy(b, c->buf[d].data(), k); return k; }
    if (fl & MSG_WAITALL) { size_t g = 0; while (g < n) { i64 r = sys_read(fd, (char *) b + g, n - g); if (r < 0) return g ? (ssize_t) g : ret(r); if (!r) break; g += r; } return g; } return ret(sys_read(fd, b, n)); }
X ssize_t sim_send(int fd, const void *b, size_t n, int fl) { chk(b, n); Proc *p = P(); SigAct o = p->sa[SIGPIPE]; if (fl & MSG_NOSIGNAL) p->sa[SIGPIPE].h = SIG_IGN; i64 r = sys_write(fd, b, n); if (fl & MSG_NOSIGNAL) p->sa[SIGPIPE] = o; return ret(r); }
X ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, void *, void *) { return sim_recv(fd, b, n, fl); } X ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, const void *, socklen_t) { return sim_send(fd, b, n, fl); }
X int sim_shutdown(int fd, int how) { sim_yield(); auto it = P()->fds.find(fd); if (it == P()->fds.end()) { ERR(EBADF); return -1; } if (it->second->lst) { it->second->lst->closed = true; it->second->lst->listening = false; return 0; } if (!it->second->conn) { ERR(ENOTCONN); return -1; } int d = it->second->side == 0 ? 0 : 1; if (how != SHUT_RD) it->second->conn->eof[d] = true; sim_log("shutdown"); return 0; }
X ssize_t sim_sendfile(int, int, off_t *, size_t);
X ssize_t sim_copy_file_range(int in, off_t *io, int out, off_t *oo, size_t n, unsigned) { if (oo) { ERR(EINVAL); return -1; } return sim_sendfile(out, in, io, n); }
X ssize_t sim_sendfile(int out, int in, off_t *off, size_t n) { if (n > 65536) n = 65536; string b(n, 0); i64 r; if (off) { ssize_t q = sim_pread(in, &b[0], n, *off); if (q < 0) return q; r = q; } else r = sys_read(in, &b[0], n); if (r <= 0) return ret(r); i64 w = sys_write(out, b.data(), r); if (w < 0) return ret(w); if (off) *off += w; return w; }
static short pollev(OFile &f, short want) { short r = 0; if (f->type == OpenFile::PIPE_R) { if (!f->pipe->buf.empty()) r |= POLLIN; if (!f->pipe->writers) r |= POLLHUP; } else if (f->type == OpenFile::PIPE_W) { if (f->pipe->readers == 0) r |= POLLERR; else if (f->pipe->cap - std::min(f->pipe->cap, f->pipe->buf.size()) >= std::min<size_t>(4096, f->pipe->cap)) r |= POLLOUT; } else if (f->type == OpenFile::SOCK) { int d = f->side == 0 ? 1 : 0; auto &c = f->conn; if (!c->buf[d].empty() || c->eof[d] || c->reset) r |= POLLIN; if (c->reset) r |= POLLERR | POLLHUP; if (c->buf[1 - d].size() < c->cap[1 - d]) r |= POLLOUT; } else if (f->type == OpenFile::LISTEN) { if (!f->lst->q.empty()) r |= POLLIN; } else r |= POLLIN | POLLOUT; return r & (want | POLLHUP | POLLERR | POLLNVAL); }
static int pollonce(struct pollfd *p, nfds_t n, Proc *pr) { int k = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd < 0) continue; auto it = pr->fds.find(p[i].fd); p[i].revents = it == pr->fds.end() ? (short) POLLNVAL : pollev(it->second, p[i].events); if (p[i].revents) k++; } return k; }
X int sim_poll(struct pollfd *p, nfds_t n, int to) { chk(p, n * sizeof *p); sim_yield(); fault_point("kill@"); Proc *pr = P(); i64 w = to < 0 ? -1 : S.now + (i64) to * MS; vector<struct pollfd> c(p, p + n); auto chkf = [c, pr]() mutable { return pollonce(c.data(), c.size(), pr) > 0; }; if (fiber_block_i("poll", chkf, w)) { ERR(EINTR); return -1; } int r = pollonce(p, n, pr); sim_log("poll = %d", r); return r; }
X int sim_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *) { return sim_poll(p, n, t ? (int) (t->tv_sec * 1000 + t->tv_nsec / MS) : -1); } X int sim___poll_chk(struct pollfd *p, nfds_t n, int to, size_t) { return sim_poll(p, n, to); }
X int sim_select(int n, fd_set *r, fd_set *w, fd_set *, struct timeval *t) { vector<struct pollfd> v; for (int i = 0; i < n; i++) { short e = 0; if (r && FD_ISSET(i, r)) e |= POLLIN; if (w && FD_ISSET(i, w)) e |= POLLOUT; if (e) v.push_back({i, e, 0}); } int k = sim_poll(v.data(), v.size(), t ? (int) (t->tv_sec * 1000 + t->tv_usec / 1000) : -1); if (k < 0) return k; if (r) FD_ZERO(r); if (w) FD_ZERO(w); int c = 0; for (auto &p : v) { if (r && (p.events & POLLIN) && (p.revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(p.fd, r); c++; } if (w && (p.events & POLLOUT) && (p.revents & (POLLOUT | POLLERR))) { FD_SET(p.fd, w); c++; } } return c; }
X int sim_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *) { struct timeval tv; if (t) { tv.tv_sec = t->tv_sec; tv.tv_usec = t->tv_nsec / 1000; } return sim_select(n, r, w, e, t ? &tv : nullptr); }
X unsigned long sim___fdelt_chk(unsigned long n) { return n / 64; }
X void sim_freeaddrinfo(struct addrinfo *a);
X int sim_getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **o) {
    int port = svc ? atoi(svc) : 0; if (svc) for (const char *c = svc; *c; c++) if (!isdigit((unsigned char) *c)) return EAI_SERVICE; if (port > 65535) return EAI_SERVICE; if (oom()) return EAI_MEMORY; string n = node ? node : "0.0.0.0"; struct in_addr ia; struct in6_addr i6; (void) h; if (n == "localhost") { struct addrinfo *a6 = nullptr, *a4 = nullptr; int e = sim_getaddrinfo("127.0.0.1", svc, h, &a4); if (!e && S.v6 >= 0) { e = sim_getaddrinfo("::1", svc, h, &a6); if (e) sim_freeaddrinfo(a4); else a6->ai_next = a4; } *o = a6 ? a6 : a4; return e; }
    if (inet_pton(AF_INET, n.c_str(), &ia) == 1) { char *m = (char *) heap_alloc(P(), sizeof(struct addrinfo) + sizeof(struct sockaddr_in), true); struct addrinfo *a = (struct addrinfo *) m; struct sockaddr_in *s = (struct sockaddr_in *) (m + sizeof *a); s->sin_family = AF_INET; s->sin_port = htons(port); s->sin_addr = ia; a->ai_family = AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_addrlen = sizeof *s; a->ai_addr = (struct sockaddr *) s; *o = a; return 0; }
    if (inet_pton(AF_INET6, n.c_str(), &i6) == 1) { char *m = (char *) heap_alloc(P(), sizeof(struct addrinfo) + sizeof(struct sockaddr_in6), true); struct addrinfo *a = (struct addrinfo *) m; struct sockaddr_in6 *s = (struct sockaddr_in6 *) (m + sizeof *a); s->sin6_family = AF_INET6; s->sin6_port = htons(port); s->sin6_addr = i6; a->ai_family = AF_INET6; a->ai_socktype = SOCK_STREAM; a->ai_addrlen = sizeof *s; a->ai_addr = (struct sockaddr *) s; *o = a; return 0; }
    return EAI_NONAME;
}
X void sim_freeaddrinfo(struct addrinfo *a) { while (a) { struct addrinfo *n = a->ai_next; heap_free(P(), a); a = n; } } X const char *sim_gai_strerror(int e) { return gai_strerror(e); }
X struct hostent *sim_gethostbyname(const char *n) { static struct hostent h; static char *al[] = {nullptr}; static char name[256]; sim_yield(); if (S.dns_fail) return nullptr; snprintf(name, sizeof name, "%s", !S.host_fqdn.empty() && S.host == n ? S.host_fqdn.c_str() : n); h.h_name = name; h.h_aliases = al; h.h_addrtype = AF_INET; h.h_length = 4; static char addr[4] = {127, 0, 0, 1}; static char *ads[] = {addr, nullptr}; h.h_addr_list = ads; return &h; }
X int sim_getnameinfo(const struct sockaddr *a, socklen_t, char *h, socklen_t hl, char *s, socklen_t sl, int) { if (h) snprintf(h, hl, "127.0.0.1"); if (s) snprintf(s, sl, "%d", ntohs(((struct sockaddr_in *) a)->sin_port)); return 0; }
X int sim_getsockname(int, struct sockaddr *a, socklen_t *n) { struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; memcpy(a, &s, std::min<size_t>(*n, sizeof s)); return 0; } X int sim_getpeername(int fd, struct sockaddr *a, socklen_t *n) { return sim_getsockname(fd, a, n); }

// ---------------------------------------------------------------- threads
struct Mx { int owner = 0; int count = 0; int type = 0; }; // owner: fiber id
static map<std::pair<int, u64>, Mx> mxs; static map<std::pair<int, u64>, u64> cvs; struct Rw { int w = 0; map<int, int> r; }; static map<std::pair<int, u64>, Rw> rws; static map<std::pair<int, u64>, int> sems;
static std::pair<int, u64> mk(void *m) { return {P()->pid, (u64) m}; }
X int sim_pthread_attr_init(pthread_attr_t *a) { memset(a, 0, sizeof *a); return 0; } X int sim_pthread_attr_destroy(pthread_attr_t *) { return 0; } X int sim_pthread_attr_setdetachstate(pthread_attr_t *a, int s) { *(int *) a = s; return 0; } X int sim_pthread_attr_setstacksize(pthread_attr_t *, size_t) { return 0; } X int sim_pthread_attr_getstacksize(const pthread_attr_t *, size_t *s) { *s = 65536; return 0; }
struct ThreadExit { void *v; };
static void thread_finish(Proc *p, int tid, void *r) { Fiber *f = S.cur; while (!f->cleanup.empty()) { auto c = f->cleanup.back(); f->cleanup.pop_back(); c.first(c.second); } sim_log("thread exit"); if (f->detached) p->thr.erase(tid); else p->thr[tid] = {r, true}; }
X int sim_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    sim_yield(); int e = fault_point("pthread_create"); if (e > 0) { sim_log("pthread_create = %s (injected)", errname(e)); return e; } Proc *p = P(); int id = ++p->nthread; p->thr[id] = {nullptr, false}; bool det = a && *(const int *) a == PTHREAD_CREATE_DETACHED;
    Fiber *f = new_fiber(p, [p, id, fn, arg]() { void *r = fn(arg); thread_finish(p, id, r); }, strf("t%d", id)); f->tid = id; f->detached = det; *t = (pthread_t) id; sim_log("pthread_create %d", id); sim_yield(); return 0;
}
X int sim_pthread_join(pthread_t t, void **r) { sim_yield(); Proc *p = P(); int id = (int) t; if (!p->thr.count(id)) { sim_log("join: no such thread"); return ESRCH; } if (id == S.cur->tid) return EDEADLK; fiber_block("join", [p, id]() { auto it = p->thr.find(id); return it == p->thr.end() || it->second.second; }); auto it = p->thr.find(id); if (it == p->thr.end()) return ESRCH; if (r) *r = it->second.first; p->thr.erase(it); sim_log("joined %d", id); return 0; }
X int sim_pthread_detach(pthread_t t) { sim_yield(); Proc *p = P(); auto it = p->thr.find((int) t); if (it == p->thr.end()) return ESRCH; if (it->second.second) p->thr.erase(it); else for (auto &f : p->fibers) if (f->tid == (int) t) f->detached = true; return 0; }
X pthread_t sim_pthread_self() { return S.cur->tid; } X int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
X void sim_pthread_exit(void *r) { Fiber *f = S.cur; Proc *p = P(); thread_finish(p, f->tid, r); f->st = Fiber::DONE; fiber_block("gone", []() { return false; }, -1, false); abort(); }
X int sim_pthread_cancel(pthread_t) { return 0; } X int sim_pthread_kill(pthread_t, int s) { post_signal(P(), s); return 0; } X int sim_pthread_setname_np(pthread_t, const char *) { return 0; }
X int sim_pthread_mutexattr_init(pthread_mutexattr_t *a) { memset(a, 0, sizeof *a); return 0; } X int sim_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { *(int *) a = t; return 0; } X int sim_pthread_mutexattr_destroy(pthread_mutexattr_t *) { return 0; }
X int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { Mx x; x.type = a ? *(const int *) a : 0; mxs[mk(m)] = x; return 0; } X int sim_pthread_mutex_destroy(pthread_mutex_t *m) { mxs.erase(mk(m)); return 0; }
static int mlock(void *m, i64 to) { sim_yield(); fault_point("kill@"); auto k = mk(m); int me = S.cur->id; Mx &x = mxs[k]; if (x.owner == me) { if (x.type == PTHREAD_MUTEX_RECURSIVE) { x.count++; return 0; } if (x.type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; sim_log("self deadlock on mutex"); probe("mutex-self-deadlock"); } fiber_block("mutex", [k]() { return mxs[k].owner == 0; }, to, true); if (mxs[k].owner) return ETIMEDOUT; mxs[k].owner = me; mxs[k].count = 1; return 0; }
X int sim_pthread_mutex_lock(pthread_mutex_t *m) { chk(m, 1); return mlock(m, -1); }
X int sim_pthread_mutex_trylock(pthread_mutex_t *m) { sim_yield(); Mx &x = mxs[mk(m)]; if (x.owner) { if (x.owner == S.cur->id && x.type == PTHREAD_MUTEX_RECURSIVE) { x.count++; return 0; } return EBUSY; } x.owner = S.cur->id; x.count = 1; return 0; }
X int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { return mlock(m, t->tv_sec * SEC + t->tv_nsec); }
X int sim_pthread_mutex_unlock(pthread_mutex_t *m) { chk(m, 1); Mx &x = mxs[mk(m)]; if (S.k.fault_sc.count("ONLYINT")) fault_point("kill@"); if (x.count > 0 && --x.count == 0) x.owner = 0; sim_yield(); return 0; }
X int sim_pthread_cond_init(pthread_cond_t *c, const void *) { cvs[mk(c)] = 0; return 0; } X int sim_pthread_cond_destroy(pthread_cond_t *c) { cvs.erase(mk(c)); return 0; }
struct CvW { bool sig = false; }; static map<std::pair<int, u64>, std::deque<shared_ptr<CvW>>> cvq;
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, i64 to) { auto k = mk(c); auto w = std::make_shared<CvW>(); cvq[k].push_back(w); Mx &x = mxs[mk(m)]; x.owner = 0; x.count = 0; sim_yield(); fiber_block("cond", [w]() { return w->sig; }, to); bool ok = w->sig; if (!ok) { auto &q = cvq[k]; for (auto it = q.begin(); it != q.end(); ++it) if (*it == w) { q.erase(it); break; } } mlock(m, -1); return ok ? 0 : ETIMEDOUT; }
X int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, -1); } X int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return cwait(c, m, t->tv_sec * SEC + t->tv_nsec); }
X int sim_pthread_cond_signal(pthread_cond_t *c) { auto &q = cvq[mk(c)]; if (!q.empty()) { q.front()->sig = true; q.pop_front(); } sim_yield(); return 0; } X int sim_pthread_cond_broadcast(pthread_cond_t *c) { auto &q = cvq[mk(c)]; for (auto &w : q) w->sig = true; q.clear(); sim_yield(); return 0; }
X int sim_pthread_condattr_init(void *) { return 0; } X int sim_pthread_condattr_setclock(void *, int) { return 0; } X int sim_pthread_condattr_destroy(void *) { return 0; }
X int sim_pthread_rwlock_init(pthread_rwlock_t *m, const void *) { rws[mk(m)] = Rw(); return 0; } X int sim_pthread_rwlock_destroy(pthread_rwlock_t *m) { rws.erase(mk(m)); return 0; }
X int sim_pthread_rwlock_rdlock(pthread_rwlock_t *m) { sim_yield(); auto k = mk(m); fiber_block("rd", [k]() { return rws[k].w == 0; }); rws[k].r[S.cur->id]++; return 0; } X int sim_pthread_rwlock_wrlock(pthread_rwlock_t *m) { sim_yield(); auto k = mk(m); fiber_block("wr", [k]() { return rws[k].w == 0 && rws[k].r.empty(); }); rws[k].w = S.cur->id; return 0; } X int sim_pthread_rwlock_unlock(pthread_rwlock_t *m) { Rw &x = rws[mk(m)]; if (x.w == S.cur->id) x.w = 0; else if (--x.r[S.cur->id] <= 0) x.r.erase(S.cur->id); sim_yield(); return 0; }
X int sim_pthread_once(pthread_once_t *o, void (*f)()) { sim_yield(); u64 k = (u64) o; Proc *p = P(); int &s = p->once[k]; if (s == 2) return 0; if (s == 1) { fiber_block("once", [p, k]() { return p->once[k] == 2; }); return 0; } s = 1; f(); p->once[k] = 2; return 0; }
X int sim_pthread_key_create(unsigned *k, void (*)(void *)) { static unsigned n = 1; *k = (unsigned) (n++); return 0; } X int sim_pthread_setspecific(unsigned k, const void *v) { S.cur->tsd[k] = (void *) v; return 0; } X void *sim_pthread_getspecific(unsigned k) { auto it = S.cur->tsd.find(k); return it == S.cur->tsd.end() ? nullptr : it->second; } X int sim_pthread_key_delete(unsigned) { return 0; }
X int sim_sem_init(sem_t *s, int, unsigned v) { sems[mk(s)] = (int) v; return 0; } X int sim_sem_destroy(sem_t *s) { sems.erase(mk(s)); return 0; } X int sim_sem_post(sem_t *s) { sems[mk(s)]++; sim_yield(); return 0; } X int sim_sem_wait(sem_t *s) { sim_yield(); auto k = mk(s); if (fiber_block_i("sem", [k]() { return sems[k] > 0; }, -1)) { ERR(EINTR); return -1; } sems[k]--; return 0; } X int sim_sem_trywait(sem_t *s) { sim_yield(); int &v = sems[mk(s)]; if (v <= 0) { ERR(EAGAIN); return -1; } v--; return 0; }
void libc_reset() { mxs.clear(); cvs.clear(); cvq.clear(); rws.clear(); sems.clear(); }
