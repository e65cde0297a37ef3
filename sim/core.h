// Deterministic simulator core: fibers, processes, file system, pipes, sockets, signals, clock, faults.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/types.h>

using std::string; using std::vector; using std::map; using std::set; using std::shared_ptr; using std::function;

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;

// ---------------------------------------------------------------- hashing / randomness
static inline u64 mix(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
static inline u64 hcomb(u64 a, u64 b) { return mix(a * 0x9E3779B97F4A7C15ULL + b + 0x7F4A7C15); }
u64 hstr(const string &s);
u64 hbytes(const void *p, size_t n, u64 h = 0xcbf29ce484222325ULL);

// sequential generator used only to generate workloads (before/between simulated steps)
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix(seed + 0x1234567)) {}
    u64 next() { s += 0x9E3779B97F4A7C15ULL; return mix(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int) below((u64) (b - a + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- file system
struct Inode {
    enum T { FILE, DIR, LINK, DEV, FIFO } type;
    u64 ino; mode_t mode; string data; map<string, shared_ptr<Inode>> ent; string prog; // prog: builtin/real program for executables
    i64 mtime = 0, ctime = 0, atime = 0; int nlink = 1; std::weak_ptr<Inode> parent; int dev = 0; // DEV: 1 null 2 full 3 stdin-ish
    u64 gen = 0; /* bumped on content change */ bool procfs = false; /* size is reported as 0 */
};
typedef shared_ptr<Inode> INode;

struct Pipe { string buf; size_t cap = 65536; int readers = 0, writers = 0; u64 id = 0; u64 total = 0; };
struct Conn;
struct SockEnd;
struct Listener;

struct OpenFile {
    enum T { REG, DIR, PIPE_R, PIPE_W, SOCK, LISTEN, DEV, SOCKNEW } type;
    INode ino; u64 off = 0; int flags = 0; shared_ptr<Pipe> pipe;
    shared_ptr<Conn> conn; int side = 0; shared_ptr<Listener> lst; int port = 0; string path; bool nonblock = false, tty = false; /* tty: a read returns one line */ i64 rcvto = 0, sndto = 0; // socket timeouts, 0 none
    ~OpenFile();
};
typedef shared_ptr<OpenFile> OFile;

struct Conn { // a stream connection: dir[0] client->server, dir[1] server->client
    string buf[2]; size_t cap[2] = {65536, 65536}; bool eof[2] = {false, false}; // eof[d]: writer of direction d shut down
    bool closed[2] = {false, false}; // side closed entirely (0 client, 1 server)
    bool reset = false; u64 id = 0; string received; // all bytes the client has received
    bool accepted = false; u64 total[2] = {0, 0};
};
struct Listener { int port = 0; bool listening = false; int backlog = 0; std::deque<shared_ptr<Conn>> q; bool closed = false; string addr; bool v6 = false; };

// ---------------------------------------------------------------- processes and fibers
struct Proc; struct Fiber;
typedef int (*ProgFn)(Proc &, vector<string> &argv);

struct SFile { // stdio stream state
    int fd = -1; string wbuf, rbuf; size_t rpos = 0; bool eof = false, err = false; int mode = 0; /*1 r 2 w 3 rw*/ int buftype = 0; /*0 full 1 line 2 none*/
    int popen_pid = 0; int ungot = -1; bool app = false; string *memstream = nullptr; char **mptr = nullptr; size_t *msz = nullptr; void *ubuf = nullptr;
};
struct SDir { vector<std::pair<string, int>> ents; size_t pos = 0; char storage[512]; int fd = -1; INode ino; };

struct Heap {
    int slot = -1; char *base = nullptr; u64 used = 0; u64 live = 0, peak = 0; u64 nalloc = 0, nfree = 0;
    std::deque<u64> quarantine; u64 qbytes = 0;
    map<u64, vector<u64>> freelist;    // cap -> addrs (large only)
};

struct Image { // a real program loaded as a shared object
    string name; void *handle = nullptr; char *rw = nullptr; size_t rwlen = 0; string pristine; int resident = 0; // pid whose globals are resident
    int (*mainfn)(int, char **, char **) = nullptr; u64 text = 0, textlen = 0;
};

struct SigAct { void (*h)(int) = SIG_DFL; int flags = 0; };

struct Proc {
    int pid = 0, ppid = 0, pgid = 0; string key; u64 hkey = 0; string prog; vector<string> argv; map<string, string> env; std::deque<string> envstore;
    INode cwd; string cwdpath; map<int, OFile> fds; map<int, bool> cloexec; mode_t umask_ = 022;
    bool dead = false, zombie = false, reaped = false; int status = 0; bool killed = false;
    int nchild = 0, nthread = 0; SigAct sa[65]; set<int> pending; u64 sigmask = 0;
    Image *img = nullptr; string saved; bool has_saved = false; // saved globals when not resident
    shared_ptr<Heap> heap; map<string, int> cnt; // per-syscall counters (fault addressing)
    map<u64, SFile> files; map<u64, SDir> dirs; u64 nextfile = 1; u64 f_in = 0, f_out = 0, f_err = 0;
    vector<shared_ptr<Fiber>> fibers; bool frozen = false; // frozen while a forked child borrows our memory
    bool is_stub = false; bool harness = false; i64 start = 0; i64 endt = 0; bool borrowed = false; // borrowed: forked child before exec
    vector<function<void()>> atexit_; vector<void (*)()> catexit; struct tm tmbuf; char *strtok_save = nullptr; void *environ_arr = nullptr;
    map<int, std::pair<void *, bool>> thr; // thread id -> retval, done (joinable)
    string memerr; bool faultable = true; u64 maxfd_seen = 0; string exe;
    unsigned alarm_at = 0; bool stopped = false; int nsteps_compute = 0; bool sysactive = false;
    bool sigcont = false;
    int umutex = 0; map<u64, int> once; bool killpt = false;
    string errtail; // last bytes written on fd 2 (diagnostics)
    u64 compute = 0;
    u64 total_compute = 0;
};
typedef shared_ptr<Proc> PProc;

struct Fiber {
    int id; u64 hkey; Proc *proc; void *sp = nullptr; char *stk = nullptr; size_t stklen = 0; function<void()> entry;
    enum S { RUN, BLOCKED, DONE } st = RUN; function<bool()> ready; i64 wake = -1; // wake: absolute virtual time, -1 none
    u64 steps = 0; int err = 0; bool woken_by_signal = false; bool interruptible = false; u64 prio = 0; const char *what = "";
    int tid = 0; bool detached = false; bool joined = false; i64 delayed = 0; u64 slow_at = 0;
    // fork support
    bool snapped = false; string snap_stack; void *snap_sp = nullptr; string snap_glob; string snap_heap, snap_shadow; shared_ptr<Heap> snap_h; Proc *fork_parent = nullptr; int fork_ret = 0;
    vector<void *> fork_frames; string prog_label; int sigdepth = 0; void *thr_ret = nullptr; bool mem_ok = true;
    vector<shared_ptr<struct ForkSnap>> forks;
    vector<std::pair<void (*)(void *), void *>> cleanup; int retval_unused = 0;
    std::map<u64, void *> tsd;
};

struct ForkSnap { string stack; char *stklo; void *sp; string glob; Heap heap; std::pair<char *, u64> ranges[2]; vector<std::pair<char *, string>> pages; Proc *parent; map<u64, SFile> files; };

// ---------------------------------------------------------------- faults, scheduling knobs
struct FaultSpec { string proc; string sc; int n; string kind; }; // kind: errno name | SHORT | KILL | KILLPG | STALL
struct Preempt { u64 fkey; u64 step; u64 to; };

struct Knobs {
    u64 seed = 1;
    bool explicit_mode = false;          // only listed faults/preemptions happen
    int policy = 0;                      // 0 run-to-block round robin, 1 random, 2 priorities with change points
    u32 p_sys = 0;                       // 1/p_sys preempt at system calls (0 = never)
    u32 p_mem = 0;                       // 1/p_mem preempt at memory accesses (0 = never)
    u32 fault_rate = 0;                  // 1/rate at eligible calls (0 = never)
    set<string> fault_sc;                // enabled syscalls for random faults
    int fault_max = 3;                   // at most that many random faults per run
    size_t pipe_cap = 65536; size_t sock_cap = 65536;
    u32 short_io = 0;                    // 1/n chance of short pipe/socket transfer
    u32 stall_rate = 0; i64 stall_ns = 0;
    set<string> slow_sc; i64 slow_ns = 0; // each of these calls first takes that long: processes that do the same meet there
    u64 disk_limit = 0;                  // bytes; 0 = unlimited
    bool sh_exec_last = true;            // shell execs last command (dash >= 0.5.11) or forks
    u64 step_limit = 3000000; u64 compute_limit = 60000000;
    i64 tick_ns = 1000; u32 wr_chunk = 0; // wr_chunk: split regular writes in chunks of at most that many bytes (0 = whole)
    u64 dir_order = 0;
};

struct Stats {
    map<string, u64> faults; map<string, u64> probes; u64 syscalls = 0, switches = 0, preempts = 0, procs = 0; i64 sim_ns = 0; u64 memsteps = 0;
};

struct Violation { string prop, cls, msg; };

struct Sim {
    Knobs k; Stats st; i64 now = 0; u64 hash = 0xcbf29ce484222325ULL; u64 nsteps = 0; bool trace = false; string tracebuf; 
    vector<shared_ptr<Fiber>> fibers; map<int, PProc> procs; Fiber *cur = nullptr; int nextpid = 100; int nextfid = 1; u64 nextid = 1;
    INode root; u64 fsver = 0; u64 disk_used = 0; 
    vector<shared_ptr<Listener>> listeners; 
    vector<FaultSpec> xfaults; map<string, const FaultSpec *> xfmap; vector<Preempt> xpre; map<std::pair<u64, u64>, u64> xpmap;
    vector<FaultSpec> fired; vector<Preempt> fired_pre; 
    i64 intr_at = -1; /* last SIGINT to a process group */ function<bool(Proc &, const string &sc)> fault_ok; map<string, string> persist; /* syscall -> error: fails every time while listed */ function<void()> on_fs, on_edit; function<void(Proc &)> on_exit_; function<void(Proc &, const vector<string> &)> on_exec;
    bool faults_on = false; bool stop = false; string stop_reason; vector<Violation> viol; string opname;
    u64 last_fsver_checked = 0; bool in_hook = false; i64 clock_skew = 0; // added to time()
    i64 clk_step = 0; /* every reading of the wall clock is followed by this jump */ int v6 = -1; /* what localhost is: -1 IPv4 only, 0 also ::1, 1 there are no IPv6 sockets, 2 ::1 cannot be bound */ string host = "simhost", host_fqdn; bool host_fail = false, dns_fail = false, ru_fail = false; vector<std::pair<i64, i64>> ru; i64 ru_cpu = 1000, ru_mem = 2048, ru_dcpu = 0, ru_dmem = 0; // host and resource usage reported to processes; every report made
    int nfaults_random = 0;
    map<string, function<int(Proc &, vector<string> &)>> builtins; map<string, Image> images;
    unsigned char cov[8192]; 
    u64 memctr = 0;
    u64 statehash = 0; std::unordered_set<u64> states;
    u64 ev_n = 0;
    bool quiet = false;
};
extern Sim S;

void sim_reset(const Knobs &k);
void sim_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool sim_load_image(const string &name, const string &path, string *err);

// run scheduler until pred() true / quiescent / limits. returns reason: "pred" "idle" "steps" "time"
string sim_run(function<bool()> pred, i64 time_limit_ns = -1);

void violate(const string &prop, const string &cls, const string &msg);
void probe(const string &name);

// processes
PProc spawn_proc(const string &keybase, const vector<string> &argv, const map<string, string> &env, const string &cwd, OFile in, OFile out, OFile err, Proc *parent);
Fiber *new_fiber(Proc *p, function<void()> entry, const string &label);
[[noreturn]] void proc_exit(int status);       // current process
void proc_kill(Proc *p, int sig);              // simulated termination by signal
void post_signal(Proc *p, int sig);
void signal_pgrp(int pgid, int sig);
void fiber_block(const char *what, function<bool()> ready, i64 wake = -1, bool intr = true); // returns when ready/timeout/signal
bool fiber_block_i(const char *what, function<bool()> ready, i64 wake = -1); // true if interrupted by a signal
void sim_yield();
PProc find_proc(int pid);
PProc harness_proc();
Fiber *harness_fiber(const string &label, function<void()> f);

// faults: returns 0 or an errno; -1 SHORT
int fault_point(const char *sc);
u64 decide(const char *what); // per-process stateless choice (hash)

// syscalls (C++ level; return -errno)
i64 sys_open(const string &path, int flags, mode_t mode);
i64 sys_openat(int dirfd, const string &path, int flags, mode_t mode);
i64 sys_read(int fd, void *buf, size_t n);
i64 sys_write(int fd, const void *buf, size_t n);
i64 sys_close(int fd);
i64 sys_lseek(int fd, i64 off, int wh);
i64 sys_stat(const string &path, struct stat *st, bool follow, const char *sc = "stat");
i64 sys_fstat(int fd, struct stat *st);
i64 sys_mkdir(const string &path, mode_t m);
i64 sys_rmdir(const string &path);
i64 sys_unlink(const string &path);
i64 sys_rename(const string &a, const string &b);
i64 sys_link(const string &a, const string &b);
i64 sys_symlink(const string &tgt, const string &path);
i64 sys_readlink(const string &path, string &out);
i64 sys_chdir(const string &path);
i64 sys_getcwd(string &out);
i64 sys_access(const string &path, int mode);
i64 sys_realpath(const string &path, string &out);
int sys_dirfd(INode n); i64 sys_readdir_all(const string &path, vector<std::pair<string, int>> &out, INode *ino = nullptr);
i64 sys_pipe(int fds[2], int flags);
i64 sys_dup2(int a, int b, bool dup3 = false);
i64 sys_dup(int a, int min = 0);
i64 sys_chmod(const string &p, mode_t m);
i64 sys_utimens(const string &p, i64 mtime, bool follow = true);
i64 sys_truncate_ino(INode n, u64 len);
struct SpawnOp { int kind; /* 0 dup2 a->b, 1 close a, 2 open at a */ int a, b; OFile of; };
i64 sys_spawn(const vector<string> &argv, const map<string, string> &env, map<int, int> fdmap /*child fd -> parent fd*/, const vector<SpawnOp> *ops = nullptr /*instead of fdmap, in order*/, const string *file = nullptr /*instead of argv[0]*/); // for stubs
i64 sys_waitpid(int pid, int *status, int options);
i64 sys_exec(const string &path, const vector<string> &argv, const map<string, string> &env); // real programs
i64 sys_kill(int pid, int sig);
i64 sys_nanosleep(i64 ns);
i64 sys_fork();
string find_in_path(const string &name, const map<string, string> &env);

// direct (non-faulting, not scheduled) file system access for the harness
INode fs_lookup(const string &path, bool follow = true, INode base = nullptr);
INode fs_mkdirs(const string &path);
INode fs_write(const string &path, const string &data, mode_t mode = 0644);
bool fs_read(const string &path, string &out, bool follow = true);
bool fs_exists(const string &path, bool follow = true);
void fs_remove(const string &path); // recursive
void fs_symlink(const string &target, const string &path);
void fs_prog(const string &path, const string &prog);
map<string, string> fs_tree(const string &path); // relative path -> "d" | "f:data" | "l:target"
string fs_path_of(INode n); string fs_realpath(const string &path);
u64 fs_tree_hash(const string &path);

OFile of_null(); OFile of_capture(string **sink); OFile of_pipe_r(shared_ptr<Pipe> p); OFile of_pipe_w(shared_ptr<Pipe> p);
OFile of_file(const string &path, int flags);

// heap for programs
void *heap_alloc(Proc *p, size_t n, bool zero, size_t align = 16);
void heap_free(Proc *p, void *ptr);
size_t heap_size(Proc *p, void *ptr);
void heap_release(Proc *p);
bool heap_bad(const void *a, size_t n); // any poisoned byte in a heap range?
void mem_error(const char *what, const void *a, size_t n);

void prog_enter();

// client sockets for harness actors
shared_ptr<Conn> net_connect(int port); // nullptr if refused
bool net_listening(int port);
i64 net_send(Conn &c, const string &data);           // blocks on the fiber; returns bytes or -errno
i64 net_recv(Conn &c, string &out, size_t max, i64 timeout_ns = -1); // 0 eof, -ETIMEDOUT
void net_shutdown_wr(Conn &c);
void net_close(Conn &c);
void net_reset(Conn &c);

string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
string shq(const string &s);
const char *errname(int e); int errnum(const string &n);
void libc_init_proc(Proc *p); void libc_flush_all(Proc *p); void libc_use(Proc *p);
void register_stubs();
string esc(const string &s, size_t max = 400);
vector<string> split(const string &s, char c);
string join(const vector<string> &v, const string &sep);
bool starts_with(const string &s, const string &p); bool ends_with(const string &s, const string &p);
static const i64 MS = 1000000LL, SEC = 1000000000LL;
