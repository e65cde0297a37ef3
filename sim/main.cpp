// Driver: seeded search over simulated runs, one forked process per run; replay of recorded runs.
#include "scn.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

vector<CheckDef> g_checks; map<string, Scenario> g_scns;
void add_scenario(const string &name, function<void(Plan &, Rng &)> gen, function<void(const Plan &)> exec) { g_scns[name] = {name, gen, exec}; }
extern "C" void sim_segv(int, siginfo_t *, void *);
extern "C" void sim_vtalrm(int, siginfo_t *, void *);
extern "C" void sim_unmodelled(const char *n) { fprintf(stderr, "sim: unmodelled library function %s called\n", n); _exit(4); }

// ------------------------------------------------------------ plan files
static string q(const string &s) { string r; for (unsigned char c : s) { if (c == '\\') r += "\\\\"; else if (c == '\t') r += "\\t"; else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) r += strf("\\x%02x", c); else r += (char) c; } return r; }
static string uq(const string &s) { string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] != '\\') { r += s[i]; continue; } char c = s[++i]; if (c == 't') r += '\t'; else if (c == 'n') r += '\n'; else if (c == 'x') { r += (char) strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else r += c; } return r; }
#define KNOBS(F) F(policy) F(p_sys) F(p_mem) F(fault_rate) F(fault_max) F(pipe_cap) F(sock_cap) F(short_io) F(stall_rate) F(stall_ns) F(slow_ns) F(disk_limit) F(sh_exec_last) F(step_limit) F(compute_limit) F(tick_ns) F(wr_chunk) F(dir_order)
string plan_write(const Plan &p) {
    string r = "simreplay\t1\nproperty\t" + p.prop + "\nclass\t" + q(p.cls) + "\nscenario\t" + p.scn + strf("\nseed\t%lu\nhash\t%lx\nexplicit\t%d\n", (unsigned long) p.seed, (unsigned long) p.hash, (int) p.xplicit);
    Knobs d;
#define W(n) if ((i64) p.k.n != (i64) d.n) r += strf("knob\t%s\t%lld\n", #n, (long long) p.k.n);
    KNOBS(W)
    for (auto &s : p.k.fault_sc) r += "faultsc\t" + s + "\n"; for (auto &s : p.k.slow_sc) r += "slowsc\t" + s + "\n";
    for (auto &x : p.par) r += "param\t" + q(x.first) + "\t" + q(x.second) + "\n";
    for (auto &o : p.ops) { r += "op"; for (auto &a : o) r += "\t" + q(a); r += "\n"; }
    for (auto &f : p.faults) r += strf("fault\t%s\t%s\t%d\t%s\n", f.proc.c_str(), f.sc.c_str(), f.n, f.kind.c_str());
    for (auto &f : p.pre) r += strf("pre\t%lx\t%lx\t%lx\n", (unsigned long) f.fkey, (unsigned long) f.step, (unsigned long) f.to);
    return r;
}
bool plan_read(const string &t, Plan &p) {
    p = Plan(); bool ok = false;
    for (auto &l : split(t, '\n')) {
        vector<string> f = split(l, '\t'); if (f[0] == "simreplay") ok = true; else if (f.size() < 2) continue;
        else if (f[0] == "property") p.prop = f[1]; else if (f[0] == "class") p.cls = uq(f[1]); else if (f[0] == "scenario") p.scn = f[1]; else if (f[0] == "seed") p.seed = strtoull(f[1].c_str(), nullptr, 10); else if (f[0] == "hash") p.hash = strtoull(f[1].c_str(), nullptr, 16); else if (f[0] == "explicit") p.xplicit = f[1] == "1";
        else if (f[0] == "knob") { i64 v = atoll(f[2].c_str());
#define R(n) if (f[1] == #n) p.k.n = v;
            KNOBS(R) }
        else if (f[0] == "faultsc") p.k.fault_sc.insert(f[1]); else if (f[0] == "slowsc") p.k.slow_sc.insert(f[1]); else if (f[0] == "param") p.par[uq(f[1])] = f.size() > 2 ? uq(f[2]) : "";
        else if (f[0] == "op") { Op o; for (size_t i = 1; i < f.size(); i++) o.push_back(uq(f[i])); p.ops.push_back(o); }
        else if (f[0] == "fault") p.faults.push_back({f[1], f[2], atoi(f[3].c_str()), f[4]}); else if (f[0] == "pre") p.pre.push_back({strtoull(f[1].c_str(), nullptr, 16), strtoull(f[2].c_str(), nullptr, 16), strtoull(f[3].c_str(), nullptr, 16)});
    }
    p.k.seed = p.seed; p.k.explicit_mode = p.xplicit; return ok;
}

// ------------------------------------------------------------ helpers for scenarios
map<string, string> g_env = {{"PATH", "/usr/bin:/bin"}, {"HOME", "/home"}};
Run launch(const string &key, const vector<string> &argv, const string &cwd, const string *in, const map<string, string> *env) {
    Run r; r.o = std::make_shared<Pipe>(); r.e = std::make_shared<Pipe>(); r.o->cap = r.e->cap = 1ULL << 40; r.o->id = S.nextid++; r.e->id = S.nextid++; r.ro = of_pipe_r(r.o); r.re = of_pipe_r(r.e); OFile i = of_null();
    if (in) { auto p = std::make_shared<Pipe>(); p->cap = in->size() + 1; p->buf = *in; i = of_pipe_r(p); }
    r.p = spawn_proc(key, argv, env ? *env : g_env, cwd, i, of_pipe_w(r.o), of_pipe_w(r.e), nullptr); return r;
}
Run run_wait(const string &key, const vector<string> &argv, const string &cwd, const string *in, i64 limit, string *why) {
    Run r = launch(key, argv, cwd, in); PProc p = r.p; string w = sim_run([p]() { return p->dead; }, limit); if (why) *why = w; return r;
}
bool run_is_crash(const Run &r) { int s = r.p->status & 0x7f; return r.p->dead && !r.p->memerr.empty() && s; }
string run_desc(const Run &r) { return !r.p->dead ? "did not end" : r.exited() ? strf("exit %d", r.code()) : strf("died of signal %d%s%s", r.p->status & 0x7f, r.p->memerr.empty() ? "" : ": ", r.p->memerr.c_str()); }
int leftover_children() { int n = 0; for (auto &kv : S.procs) if (!kv.second->harness && !kv.second->dead) n++; return n; }
void knobs_schedule(Plan &p, Rng &r, int level) {
    int c = (int) r.below(level ? 5 : 3);
    switch (c) { case 0: p.k.policy = 0; break; case 1: p.k.policy = 1; p.k.p_sys = 1 + r.below(12); break; case 2: p.k.policy = 2; p.k.p_sys = r.chance(.5) ? 10 + r.below(60) : 0; break; case 3: p.k.policy = 1; p.k.p_sys = 2 + r.below(10); p.k.p_mem = 3 + r.below(200); break; case 4: p.k.policy = 2; p.k.p_sys = 20; p.k.p_mem = 20 + r.below(2000); break; }
}

// ------------------------------------------------------------ one run
struct Result { vector<Violation> viol; vector<FaultSpec> fired; vector<Preempt> fpre; map<string, u64> faults, probes; u64 hash = 0, sys = 0, sw = 0, pre = 0, procs = 0, steps = 0, mem = 0; i64 ns = 0; bool ok = false; string note; };
static void make_plan(const string &scn, const string &prop, u64 seed, Plan &p) { p = Plan(); p.scn = scn; p.prop = prop; p.seed = seed; p.k.seed = seed; Rng r(hcomb(seed, hstr(scn))); p.k.dir_order = r.chance(.7) ? 1 + r.below(1000000) : 0; g_scns.at(scn).gen(p, r); }
static char *altstack;
static void execute(const Plan &p) {
    sim_reset(p.k);
    if (p.xplicit) { S.xfaults = p.faults; S.xpre = p.pre; for (auto &f : S.xfaults) S.xfmap[f.proc + "|" + f.sc + "|" + std::to_string(f.n)] = &f; for (auto &x : S.xpre) S.xpmap[{x.fkey, x.step}] = x.to; }
    g_scns.at(p.scn).exec(p);
    if (S.stop_reason == "compute" && S.viol.empty() && string(" C01 C02 C03 C04 C05 C08 C09 C10 C12 C14 C16 C18 C21 C22 C23 C24 ").find(" " + p.prop + " ") != string::npos) { string who; for (auto &kv : S.procs) if (!kv.second->memerr.empty()) who += " " + join(kv.second->argv, " ").substr(0, 300) + " (" + kv.second->memerr + ")"; violate(p.prop, "endless-computation", "a program computed without end:" + who); }
}
struct Shared { unsigned char cov[8192]; unsigned char states[1 << 23]; };
static Shared *shm;
static void put(string &o, const string &s) { o += q(s); }
static string result_text() {
    string o = strf("hash\t%lx\nstat\t%lu\t%lu\t%lu\t%lu\t%lu\t%lu\t%lld\n", (unsigned long) S.hash, (unsigned long) S.st.syscalls, (unsigned long) S.st.switches, (unsigned long) S.st.preempts, (unsigned long) S.st.procs, (unsigned long) S.nsteps, (unsigned long) S.st.memsteps, (long long) S.st.sim_ns);
    for (auto &v : S.viol) { o += "viol\t"; put(o, v.prop); o += "\t"; put(o, v.cls); o += "\t"; put(o, v.msg); o += "\n"; }
    for (auto &x : S.st.faults) o += strf("nf\t%s\t%lu\n", x.first.c_str(), (unsigned long) x.second);
    for (auto &x : S.st.probes) o += strf("np\t%s\t%lu\n", x.first.c_str(), (unsigned long) x.second);
    if (!S.viol.empty()) { for (auto &f : S.fired) o += strf("fired\t%s\t%s\t%d\t%s\n", f.proc.c_str(), f.sc.c_str(), f.n, f.kind.c_str()); for (auto &f : S.fired_pre) o += strf("fpre\t%lx\t%lx\t%lx\n", (unsigned long) f.fkey, (unsigned long) f.step, (unsigned long) f.to); }
    return o + "end\n";
}
static void in_child(const Plan &p, int fd) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 256 << 10; ss.ss_sp = altstack = (char *) mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = sim_segv; sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_SIGINFO; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr); signal(SIGPIPE, SIG_IGN); sa.sa_sigaction = sim_vtalrm; sa.sa_flags = SA_SIGINFO | SA_RESTART | SA_ONSTACK; sigaction(SIGVTALRM, &sa, nullptr); struct itimerval iv = {{1, 0}, {1, 0}}; setitimer(ITIMER_VIRTUAL, &iv, nullptr);
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl); alarm(60);
    execute(p);
    if (shm) { for (size_t i = 0; i < sizeof S.cov; i++) if (S.cov[i]) __atomic_fetch_or(&shm->cov[i], S.cov[i], __ATOMIC_RELAXED); for (u64 s : S.states) { u64 b = s % (sizeof shm->states * 8); __atomic_fetch_or(&shm->states[b >> 3], (unsigned char) (1 << (b & 7)), __ATOMIC_RELAXED); } }
    string o = result_text(); const char *d = o.data(); size_t n = o.size(); while (n) { ssize_t k = write(fd, d, n); if (k <= 0) break; d += k; n -= k; } _exit(0);
}
static Result parse(const string &t) {
    Result r; for (auto &l : split(t, '\n')) { vector<string> f = split(l, '\t'); if (f[0] == "end") r.ok = true; else if (f.size() < 2) continue; else if (f[0] == "hash") r.hash = strtoull(f[1].c_str(), nullptr, 16); else if (f[0] == "stat") { r.sys = atoll(f[1].c_str()); r.sw = atoll(f[2].c_str()); r.pre = atoll(f[3].c_str()); r.procs = atoll(f[4].c_str()); r.steps = atoll(f[5].c_str()); r.mem = atoll(f[6].c_str()); r.ns = atoll(f[7].c_str()); }
        else if (f[0] == "viol") r.viol.push_back({uq(f[1]), uq(f[2]), f.size() > 3 ? uq(f[3]) : ""}); else if (f[0] == "nf") r.faults[f[1]] += atoll(f[2].c_str()); else if (f[0] == "np") r.probes[f[1]] += atoll(f[2].c_str()); else if (f[0] == "fired") r.fired.push_back({f[1], f[2], atoi(f[3].c_str()), f[4]}); else if (f[0] == "fpre") r.fpre.push_back({strtoull(f[1].c_str(), nullptr, 16), strtoull(f[2].c_str(), nullptr, 16), strtoull(f[3].c_str(), nullptr, 16)}); }
    return r;
}
static Result run_forked(const Plan &p, bool trace = false) {
    int fd[2]; if (pipe(fd)) exit(3); fflush(nullptr); pid_t pid = fork();
    if (pid == 0) { close(fd[0]); if (trace) S.trace = true; in_child(p, fd[1]); }
    close(fd[1]); string t; char b[65536]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) t.append(b, k); close(fd[0]); int st = 0; waitpid(pid, &st, 0); Result r = parse(t); if (!r.ok) r.note = strf("simulator process ended with status %x", st); return r;
}
static bool has(const Result &r, const string &prop, const string &cls) { for (auto &v : r.viol) if (v.prop == prop && v.cls == cls) return true; return false; }

// ------------------------------------------------------------ minimiser (delta debugging over operations, faults, preemptions, knobs)
template <class T> static bool ddmin(vector<T> &v, function<bool(const vector<T> &)> test, int &budget) {
    bool any = false; size_t n = 2; if (v.empty()) return false;
    { vector<T> e; if (budget-- > 0 && test(e)) { v = e; return true; } }
    while (v.size() >= 1 && budget > 0) {
        size_t chunk = std::max<size_t>(1, v.size() / n); bool red = false;
        for (size_t i = 0; i < v.size() && budget > 0; i += chunk) { vector<T> w(v.begin(), v.begin() + i); w.insert(w.end(), v.begin() + std::min(v.size(), i + chunk), v.end()); budget--; if (test(w)) { v = w; any = red = true; n = n > 2 ? n - 1 : 2; break; } }
        if (!red) { if (chunk == 1) break; n = std::min(v.size(), n * 2); }
    }
    return any;
}
static Plan minimise(Plan p, const string &prop, const string &cls, int budget, double deadline) {
    auto now = []() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; };
    auto bad = [&](const Plan &c) { if (now() > deadline) return false; Result r = run_forked(c); return r.ok && has(r, prop, cls); };
    Plan x = p; Result r0 = run_forked(p); x.xplicit = true; x.k.explicit_mode = true; x.faults = r0.fired; x.pre = r0.fpre;
    bool xok = p.xplicit || bad(x); if (xok) { if (!p.xplicit) p = x; }
    for (int round = 0; round < 3; round++) {
        bool ch = false;
        auto ops = p.ops; ch |= ddmin<Op>(ops, [&](const vector<Op> &o) { Plan c = p; c.ops = o; return bad(c); }, budget); p.ops = ops;
        if (xok) { auto fs = p.faults; ch |= ddmin<FaultSpec>(fs, [&](const vector<FaultSpec> &o) { Plan c = p; c.faults = o; return bad(c); }, budget); p.faults = fs; auto ps = p.pre; ch |= ddmin<Preempt>(ps, [&](const vector<Preempt> &o) { Plan c = p; c.pre = o; return bad(c); }, budget); p.pre = ps; }
        Knobs d; auto tryk = [&](function<void(Knobs &)> f) { Plan c = p; f(c.k); if (budget-- > 0 && plan_write(c) != plan_write(p) && bad(c)) { p = c; ch = true; } };
        tryk([&](Knobs &k) { k.short_io = 0; }); tryk([&](Knobs &k) { k.wr_chunk = 0; }); tryk([&](Knobs &k) { k.pipe_cap = d.pipe_cap; }); tryk([&](Knobs &k) { k.sock_cap = d.sock_cap; }); tryk([&](Knobs &k) { k.disk_limit = 0; }); tryk([&](Knobs &k) { k.dir_order = 0; });
        if (xok) tryk([&](Knobs &k) { k.policy = 0; k.p_sys = 0; k.p_mem = 0; k.stall_rate = 0; k.slow_sc.clear(); k.fault_rate = 0; k.fault_sc.clear(); });
        if (!ch) break;
    }
    return p;
}

// ------------------------------------------------------------ search
static double mono() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static string js(const string &s) { string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) r += strf("\\u%04x", c); else r += c; } return r + "\""; }
int main(int argc, char **argv) {
    if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); int per = personality(0xffffffff); if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && personality(per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
    setvbuf(stdout, nullptr, _IOLBF, 0); map<string, string> a; vector<string> pos; for (int i = 1; i < argc; i++) { string s = argv[i]; if (starts_with(s, "--")) { size_t e = s.find('='); a[s.substr(2, e == string::npos ? string::npos : e - 2)] = e == string::npos ? "1" : s.substr(e + 1); } else pos.push_back(s); }
    if (pos.size() < 2) { fprintf(stderr, "usage: sim search|replay|minimise|plan|list CODEDIR ...\n"); return 2; }
    string cmd = pos[0], code = pos[1];
    for (const char *n : {"blogc", "blogc-make", "blogc-runserver", "blogc-git-receiver", "blogc-embedded"}) { string e; if (!sim_load_image(n, code + "/" + n + ".so", &e)) { fprintf(stderr, "sim: %s\n", e.c_str()); return 3; } }
    if (cmd == "list") { for (auto &c : g_checks) { printf("%s", c.prop.c_str()); for (auto &s : c.scns) printf(" %s:%d", s.first.c_str(), s.second); printf("\n"); } return 0; }
    if (cmd == "replay") { string t; FILE *f = fopen(pos[2].c_str(), "r"); if (!f) { perror("replay"); return 2; } char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) t.append(b, k); fclose(f); Plan p; if (!plan_read(t, p)) { fprintf(stderr, "bad replay file\n"); return 2; }
        Result r = run_forked(p, a.count("trace")); if (!r.ok) { printf("ERROR %s\n", r.note.c_str()); return 3; } for (auto &v : r.viol) printf("%s %s :: %s\n", v.prop == p.prop && v.cls == p.cls ? "REPRODUCED" : "ALSO", (v.prop + " " + v.cls).c_str(), esc(v.msg, 1500).c_str()); printf("hash %lx%s\n", (unsigned long) r.hash, p.hash ? (r.hash == p.hash ? " (as recorded)" : " (DIFFERS from recorded)") : ""); return has(r, p.prop, p.cls) ? 1 : 0; }
    if (cmd == "plan" || cmd == "one") { Plan p; make_plan(a["scn"], a["prop"], strtoull(a["seed"].c_str(), nullptr, 10), p); if (cmd == "plan") { printf("%s", plan_write(p).c_str()); return 0; }
        Result r = run_forked(p, a.count("trace")); if (!r.ok) { printf("ERROR %s\n", r.note.c_str()); return 3; } for (auto &v : r.viol) printf("viol %s %s :: %s\n", v.prop.c_str(), v.cls.c_str(), esc(v.msg, 1500).c_str()); printf("hash %lx steps %lu procs %lu sim %.3fs mem %lu\n", (unsigned long) r.hash, (unsigned long) r.steps, (unsigned long) r.procs, r.ns / 1e9, (unsigned long) r.mem); for (auto &x : r.faults) printf("fault %s %lu\n", x.first.c_str(), (unsigned long) x.second); for (auto &x : r.probes) printf("probe %s %lu\n", x.first.c_str(), (unsigned long) x.second); return 0; }
    if (cmd == "minimise") { string t; FILE *f = fopen(pos[2].c_str(), "r"); char b[65536]; size_t k; while (f && (k = fread(b, 1, sizeof b, f)) > 0) t.append(b, k); if (f) fclose(f); Plan p; if (!plan_read(t, p)) return 2; Result r0 = run_forked(p), r1 = run_forked(p); if (!has(r0, p.prop, p.cls) || r0.hash != r1.hash) { printf("NOT-REPRODUCED %lx %lx\n", (unsigned long) r0.hash, (unsigned long) r1.hash); return 4; }
        Plan m = minimise(p, p.prop, p.cls, 600, mono() + (a.count("secs") ? atof(a["secs"].c_str()) : 60)); Result r = run_forked(m); if (!has(r, p.prop, p.cls)) { m = p; r = r0; } m.hash = r.hash; string o = plan_write(m); for (auto &v : r.viol) if (v.prop == p.prop && v.cls == p.cls) o += "# " + esc(v.msg, 3000) + "\n"; f = fopen(pos[3].c_str(), "w"); if (!f) return 3; fwrite(o.data(), 1, o.size(), f); fclose(f); return 1; }
    if (cmd == "determinism") { // every seed twice; hashes must agree
        int n = atoi(a["n"].c_str()), bad = 0; u64 s0 = strtoull(a["seed"].c_str(), nullptr, 10); for (auto &s : g_scns) for (int i = 0; i < n; i++) { Plan p; make_plan(s.first, a["prop"], s0 + i, p); Result x = run_forked(p), y = run_forked(p); if (!x.ok || !y.ok || x.hash != y.hash) { bad++; printf("NONDETERMINISTIC %s seed %lu %lx %lx %s\n", s.first.c_str(), (unsigned long) (s0 + i), (unsigned long) x.hash, (unsigned long) y.hash, x.note.c_str()); } } printf("determinism: %d seeds per scenario, %d mismatches\n", n, bad); return bad ? 1 : 0; }
    if (cmd != "search") return 2;
    // search: --prop --seed --secs --jobs --max --known=file(classes) --out=dir
    string prop = a["prop"]; u64 seed0 = strtoull(a["seed"].c_str(), nullptr, 10); double secs = atof(a["secs"].c_str()); int jobs = a.count("jobs") ? atoi(a["jobs"].c_str()) : 8; u64 maxruns = a.count("max") ? strtoull(a["max"].c_str(), nullptr, 10) : 1000000000ULL; string only = a["scn"];
    CheckDef *cd = nullptr; for (auto &c : g_checks) if (c.prop == prop) cd = &c; if (!cd) { fprintf(stderr, "no check %s\n", prop.c_str()); return 2; }
    vector<string> wheel; for (auto &s : cd->scns) if (only.empty() || s.first == only) for (int i = 0; i < s.second; i++) wheel.push_back(s.first);
    set<string> known; { FILE *f = a.count("known") ? fopen(a["known"].c_str(), "r") : nullptr; char b[4096]; while (f && fgets(b, sizeof b, f)) { string l = b; while (!l.empty() && (l.back() == '\n')) l.pop_back(); if (!l.empty()) known.insert(l); } if (f) fclose(f); }
    shm = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); double t0 = mono(), tend = t0 + secs; vector<int> rfd; vector<pid_t> wp;
    u64 *next = (u64 *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); // next[0]: seed index, next[1]: stop flag
    for (int w = 0; w < jobs; w++) { int fd[2]; if (pipe(fd)) return 3; pid_t pid = fork(); if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL); close(fd[0]); 
            for (;;) { if (mono() > tend || next[1]) break; u64 i = __atomic_fetch_add(&next[0], 1, __ATOMIC_RELAXED); if (i >= maxruns) break; u64 seed = hcomb(seed0 * 1000003 + 17, i) >> 8; Plan p; make_plan(wheel[i % wheel.size()], prop, seed, p); Result r = run_forked(p);
                string o; o = strf("run\t%lu\t%lu\t%s\t%lx\t%lu\t%lu\t%lu\t%lu\t%lu\t%lu\t%lld\t%d\t%zu\n", (unsigned long) i, (unsigned long) seed, p.scn.c_str(), (unsigned long) r.hash, (unsigned long) r.sys, (unsigned long) r.sw, (unsigned long) r.pre, (unsigned long) r.procs, (unsigned long) r.steps, (unsigned long) r.mem, (long long) r.ns, (int) r.ok, p.ops.size());
                for (auto &x : r.faults) o += strf("nf\t%s\t%lu\n", x.first.c_str(), (unsigned long) x.second); for (auto &x : r.probes) o += strf("np\t%s\t%lu\n", x.first.c_str(), (unsigned long) x.second);
                for (auto &v : r.viol) o += "viol\t" + q(v.prop) + "\t" + q(v.cls) + "\t" + q(v.msg.substr(0, 1500)) + "\n"; if (!r.ok) o += "bad\t" + q(r.note) + "\n"; o += "done\n"; const char *d = o.data(); size_t n = o.size(); while (n) { ssize_t k = write(fd[1], d, n); if (k <= 0) _exit(1); d += k; n -= k; } }
            _exit(0); }
        close(fd[1]); rfd.push_back(fd[0]); wp.push_back(pid); }
    struct Found { string cls, msg, scn; u64 seed, count, idx; }; map<string, Found> found; map<string, u64> nf, np, perscn, kn; set<u64> hashes; set<u64> nontriv; u64 runs = 0, bad = 0, sys = 0, sw = 0, pre = 0, procs = 0, steps = 0, mem = 0; double ns = 0; vector<string> buf(jobs), badnotes; vector<string> samples; struct Cur { u64 idx, seed, hash, pre; string scn; bool faulted; size_t nops; }; vector<Cur> cur(jobs); int open = jobs; map<string, u64> other; double tviol = 0;
    while (open) {
        vector<struct pollfd> pf; vector<int> idx; for (int w = 0; w < jobs; w++) if (rfd[w] >= 0) { pf.push_back({rfd[w], POLLIN, 0}); idx.push_back(w); } poll(pf.data(), pf.size(), 1000);
        for (size_t z = 0; z < pf.size(); z++) if (pf[z].revents) { int w = idx[z]; char b[65536]; ssize_t k = read(rfd[w], b, sizeof b); if (k <= 0) { close(rfd[w]); rfd[w] = -1; open--; continue; } buf[w].append(b, k); size_t nl;
            while ((nl = buf[w].find('\n')) != string::npos) { string l = buf[w].substr(0, nl); buf[w].erase(0, nl + 1); vector<string> f = split(l, '\t');
                if (f[0] == "run") { Cur &c = cur[w]; c.idx = strtoull(f[1].c_str(), nullptr, 10); c.seed = strtoull(f[2].c_str(), nullptr, 10); c.scn = f[3]; c.hash = strtoull(f[4].c_str(), nullptr, 16); c.faulted = false; runs++; perscn[f[3]]++; sys += atoll(f[5].c_str()); sw += atoll(f[6].c_str()); c.pre = atoll(f[7].c_str()); pre += c.pre; procs += atoll(f[8].c_str()); steps += atoll(f[9].c_str()); mem += atoll(f[10].c_str()); ns += atof(f[11].c_str()); if (f[12] != "1") bad++; c.nops = atoll(f[13].c_str()); hashes.insert(c.hash); }
                else if (f[0] == "nf") { nf[f[1]] += atoll(f[2].c_str()); cur[w].faulted = true; } else if (f[0] == "np") np[f[1]] += atoll(f[2].c_str());
                else if (f[0] == "viol") { string pr = uq(f[1]), cl = uq(f[2]); if (pr != prop) { other[pr + " " + cl]++; continue; } if (known.count(cl)) { kn[cl]++; continue; } auto &fd = found[cl]; if (!fd.count++ || cur[w].idx < fd.idx) { fd.cls = cl; fd.msg = uq(f[3]); fd.scn = cur[w].scn; fd.seed = cur[w].seed; fd.idx = cur[w].idx; } if (!tviol) tviol = mono(); }
                else if (f[0] == "bad") { if (badnotes.size() < 5) badnotes.push_back(cur[w].scn + strf(" seed %lu: ", (unsigned long) cur[w].seed) + uq(f[1])); }
                else if (f[0] == "done") { Cur &c = cur[w]; if (c.faulted || c.pre) { bool fresh = nontriv.insert(c.hash).second; if (fresh && samples.size() < 5 && (nontriv.size() % 97) == 1) samples.push_back(strf("%s seed=%lu ops=%zu preemptions=%lu hash=%lx", c.scn.c_str(), (unsigned long) c.seed, c.nops, (unsigned long) c.pre, (unsigned long) c.hash)); } } } }
        if (tviol && mono() > tviol + (a.count("grace") ? atof(a["grace"].c_str()) : 2.0)) next[1] = 1;
    }
    for (pid_t p : wp) waitpid(p, nullptr, 0); double el = mono() - t0; u64 covn = 0, stn = 0; for (unsigned char c : shm->cov) covn += __builtin_popcount(c); for (size_t i = 0; i < sizeof shm->states; i++) stn += __builtin_popcount(shm->states[i]);
    string o = strf("{\"runs\":%lu,\"bad\":%lu,\"elapsed\":%.3f,\"distinct\":%zu,\"distinct_nontrivial\":%zu,\"syscalls\":%lu,\"switches\":%lu,\"preemptions\":%lu,\"processes\":%lu,\"steps\":%lu,\"memsteps\":%lu,\"sim_seconds\":%.3f,\"coverage_bits\":%lu,\"sched_states\":%lu", (unsigned long) runs, (unsigned long) bad, el, hashes.size(), nontriv.size(), (unsigned long) sys, (unsigned long) sw, (unsigned long) pre, (unsigned long) procs, (unsigned long) steps, (unsigned long) mem, ns / 1e9, (unsigned long) covn, (unsigned long) stn);
    auto mj = [&](const char *n, map<string, u64> &m) { o += strf(",\"%s\":{", n); bool first = true; for (auto &x : m) { if (!first) o += ","; first = false; o += js(x.first) + strf(":%lu", (unsigned long) x.second); } o += "}"; };
    mj("faults", nf); mj("probes", np); mj("scenarios", perscn); mj("known", kn); mj("other", other); o += ",\"samples\":["; for (size_t i = 0; i < samples.size(); i++) o += (i ? "," : "") + js(samples[i]); o += "],\"badnotes\":["; for (size_t i = 0; i < badnotes.size(); i++) o += (i ? "," : "") + js(badnotes[i]); o += "],\"found\":["; bool first = true;
    for (auto &x : found) { if (!first) o += ","; first = false; Plan p; make_plan(x.second.scn, prop, x.second.seed, p); p.cls = x.second.cls; o += "{\"cls\":" + js(x.second.cls) + ",\"msg\":" + js(x.second.msg) + ",\"scn\":" + js(x.second.scn) + strf(",\"seed\":%lu,\"count\":%lu,\"plan\":", (unsigned long) x.second.seed, (unsigned long) x.second.count) + js(plan_write(p)) + "}"; }
    o += "]}\n"; fputs(o.c_str(), stdout); return found.empty() ? 0 : 1;
}
