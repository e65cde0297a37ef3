#include "core.h"
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <unistd.h>
#include <ucontext.h>
#include <algorithm>

Sim S;

// ---------------------------------------------------------------- utils
u64 hbytes(const void *p, size_t n, u64 h) { const unsigned char *c = (const unsigned char *) p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ULL; } return h; }
u64 hstr(const string &s) { return mix(hbytes(s.data(), s.size())); }
string strf(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); char b[512]; va_list ap2; va_copy(ap2, ap); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    string r; if (n < (int) sizeof b) r.assign(b, n > 0 ? n : 0); else { r.resize(n + 1); vsnprintf(&r[0], n + 1, fmt, ap2); r.resize(n); }
    va_end(ap2); return r;
}
string shq(const string &s) { string r = "'"; for (char c : s) { if (c == '\'') r += "'\\''"; else r += c; } return r + "'"; }
string esc(const string &s, size_t max) {
    string r; for (unsigned char c : s) { if (r.size() > max) { r += "..."; break; } if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\\') r += "\\\\"; else if (c < 32 || c > 126) r += strf("\\x%02x", c); else r += (char) c; } return r;
}
vector<string> split(const string &s, char c) { vector<string> r; string cur; for (char x : s) { if (x == c) { r.push_back(cur); cur.clear(); } else cur += x; } r.push_back(cur); return r; }
string join(const vector<string> &v, const string &sep) { string r; for (size_t i = 0; i < v.size(); i++) { if (i) r += sep; r += v[i]; } return r; }
bool starts_with(const string &s, const string &p) { return s.compare(0, p.size(), p) == 0; }
bool ends_with(const string &s, const string &p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
static const struct { int e; const char *n; } errs[] = {{ENOENT, "ENOENT"}, {EIO, "EIO"}, {ENOSPC, "ENOSPC"}, {EMFILE, "EMFILE"}, {ENFILE, "ENFILE"}, {EAGAIN, "EAGAIN"}, {ENOMEM, "ENOMEM"}, {EINTR, "EINTR"}, {EACCES, "EACCES"}, {EPIPE, "EPIPE"}, {ECONNABORTED, "ECONNABORTED"}, {EADDRINUSE, "EADDRINUSE"}, {EISDIR, "EISDIR"}, {ENOTDIR, "ENOTDIR"}, {EEXIST, "EEXIST"}, {ENOTEMPTY, "ENOTEMPTY"}, {EINVAL, "EINVAL"}, {EBADF, "EBADF"}, {ECHILD, "ECHILD"}, {ELOOP, "ELOOP"}, {ECONNRESET, "ECONNRESET"}, {ETIMEDOUT, "ETIMEDOUT"}, {ESTALE, "ESTALE"}, {EDQUOT, "EDQUOT"}, {EROFS, "EROFS"}, {EPERM, "EPERM"}, {ENOEXEC, "ENOEXEC"}, {EBUSY, "EBUSY"}, {EXDEV, "EXDEV"}, {ESRCH, "ESRCH"}, {ENAMETOOLONG, "ENAMETOOLONG"}, {-1, "SHORT"}};
const char *errname(int e) { for (auto &x : errs) if (x.e == e) return x.n; return "E?"; }
int errnum(const string &n) { for (auto &x : errs) if (n == x.n) return x.e; return EIO; }

void sim_log(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); char b[768]; int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (n >= (int) sizeof b) n = sizeof b - 1; if (n < 0) n = 0;
    S.hash = hbytes(b, n, S.hash); S.ev_n++;
    if (S.trace) { string l = strf("%6lu %12.6f ", (unsigned long) S.ev_n, (S.now % (100000 * SEC)) / 1e9); if (S.cur) l += strf("[%s%s] ", S.cur->proc->key.c_str(), S.cur->tid ? strf("/t%d", S.cur->tid).c_str() : ""); l.append(b, n); l += '\n'; fwrite(l.data(), 1, l.size(), stderr); }
}
void violate(const string &prop, const string &cls, const string &msg) {
    for (auto &v : S.viol) if (v.prop == prop && v.cls == cls) return;
    S.viol.push_back({prop, cls, msg}); sim_log("VIOLATION %s %s", prop.c_str(), cls.c_str());
}
void probe(const string &name) { S.st.probes[name]++; }

// ---------------------------------------------------------------- memory layout
static const u64 HEAP_BASE = 0x500000000000ULL; static const u64 HEAP_SLOT = 64ULL << 20; static const int HEAP_SLOTS = 96;
static const u64 SHAD_BASE = 0x600000000000ULL; // shadow of heap: 1 byte per 8
static const u64 STK_BASE = 0x580000000000ULL; static const u64 STK_SIZE = 256 << 10; static const int STK_N = 256;
static vector<int> free_slots, free_stks;
static bool mem_inited = false;
static void mem_init() {
    if (mem_inited) return; mem_inited = true;
    auto mm = [](u64 a, u64 n, int prot) { void *p = mmap((void *) a, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p != (void *) a) { perror("mmap"); exit(3); } };
    mm(HEAP_BASE, HEAP_SLOT * HEAP_SLOTS, PROT_READ | PROT_WRITE); mm(SHAD_BASE, HEAP_SLOT * HEAP_SLOTS / 8, PROT_READ | PROT_WRITE);
    mm(STK_BASE, STK_SIZE * STK_N, PROT_READ | PROT_WRITE); for (int i = 0; i < STK_N; i++) mprotect((void *) (STK_BASE + i * STK_SIZE), 4096, PROT_NONE);
}
static inline unsigned char *shadow(u64 a) { return (unsigned char *) (SHAD_BASE + ((a - HEAP_BASE) >> 3)); }
static inline bool in_heap(u64 a) { return a - HEAP_BASE < HEAP_SLOT * HEAP_SLOTS; }
// shadow: 0 = never allocated/poisoned, 9 = fully addressable granule, 1..8 = k addressable bytes, 0xfd = freed
bool heap_bad(const void *p, size_t n) {
    u64 a = (u64) p; if (!in_heap(a) || n == 0) return false;
    u64 e = a + n; if (!in_heap(e - 1)) return true;
    for (u64 g = a >> 3; g <= (e - 1) >> 3; g++) { unsigned char s = *shadow(g << 3); if (s == 9) continue; if (s == 0 || s > 9) return true; u64 lim = (g << 3) + s; if (e > lim && (g == (e - 1) >> 3 ? e > lim : true)) return true; }
    return false;
}
static void shadow_set(u64 a, u64 n, bool on) {
    u64 g = n >> 3; memset(shadow(a), on ? 9 : 0xfd, g); if (n & 7) *shadow(a + (g << 3)) = on ? (n & 7) : 0xfd;
}
struct HeapHdr { uint32_t magic, cap; u64 size; }; static const u64 HLIVE = 1ULL << 63; // before each block, not addressable by the program
static inline HeapHdr *hdr(u64 a) { return (HeapHdr *) (a - sizeof(HeapHdr)); } static inline uint32_t hmagic(u64 a) { return (uint32_t) ((a * 0x9E3779B97F4A7C15ULL) >> 32); }
static HeapHdr *heap_find(Heap &h, u64 a) { if (h.slot < 0 || (a & 15) || a < (u64) h.base + 64 + sizeof(HeapHdr) || a > (u64) h.base + h.used) return nullptr; HeapHdr *x = hdr(a); return x->magic == hmagic(a) && (x->size & HLIVE) ? x : nullptr; }
void *heap_alloc(Proc *p, size_t n, bool zero, size_t align) {
    Heap &h = *p->heap;
    if (h.slot < 0) { if (free_slots.empty()) { fprintf(stderr, "sim: out of heap slots\n"); _exit(3); } h.slot = free_slots.back(); free_slots.pop_back(); h.base = (char *) (HEAP_BASE + h.slot * HEAP_SLOT); h.used = 64; }
    if (n > HEAP_SLOT / 2) return nullptr;
    u64 cap = ((n < 1 ? 1 : n) + 15) & ~15ULL; u64 addr = 0;
    if (cap >= 2048) { u64 c = 2048; while (c < cap) c *= 2; cap = c; auto it = h.freelist.find(cap); if (it != h.freelist.end() && !it->second.empty()) { addr = it->second.back(); it->second.pop_back(); } }
    if (!addr) { u64 o = (h.used + sizeof(HeapHdr) + align - 1) & ~(u64) (align - 1); if (o + cap + 32 > HEAP_SLOT) return nullptr; addr = (u64) h.base + o; h.used = o + cap; }
    *hdr(addr) = {hmagic(addr), (uint32_t) cap, n | HLIVE}; h.live += n; h.nalloc++; if (h.live > h.peak) h.peak = h.live;
    shadow_set(addr, n, true); memset((void *) addr, zero ? 0 : 0xBE, n);
    return (void *) addr;
}
size_t heap_size(Proc *p, void *ptr) { HeapHdr *x = heap_find(*p->heap, (u64) ptr); return x ? x->size & ~HLIVE : (size_t) -1; }
void heap_free(Proc *p, void *ptr) {
    if (!ptr) return; Heap &h = *p->heap; HeapHdr *x = heap_find(h, (u64) ptr);
    if (!x) { mem_error("free of invalid or already freed pointer", ptr, 0); return; }
    u64 n = x->size & ~HLIVE; h.live -= n; h.nfree++; x->size = 0; shadow_set((u64) ptr, n, false); if (n < 100000) memset(ptr, 0xDD, n);
    u64 cap = x->cap; if (cap >= 2048) { h.quarantine.push_back((u64) ptr); h.qbytes += cap; while (h.qbytes > (1 << 20) && h.quarantine.size() > 1) { u64 q = h.quarantine.front(); h.quarantine.pop_front(); u64 c = hdr(q)->cap; h.qbytes -= c; h.freelist[c].push_back(q); } }
}
void heap_release(Proc *p) { Heap &h = *p->heap; if (h.slot >= 0) { memset(shadow((u64) h.base), 0, (h.used >> 3) + 8); free_slots.push_back(h.slot); h.slot = -1; } h.freelist.clear(); h.quarantine.clear(); }

// a forked child runs on its parent's memory until it execs or exits: pages are saved when they are first written and put back afterwards
static vector<ForkSnap *> cows;
static void cow_protect(ForkSnap *s, int prot) { for (auto &r : s->ranges) if (mprotect(r.first, r.second, prot)) { perror("mprotect"); _exit(3); } }
static void cow_begin(ForkSnap *s) { Heap &h = s->heap; s->ranges[0] = {h.base, (h.used + 4095) & ~4095ULL}; s->ranges[1] = {(char *) shadow((u64) h.base), ((h.used >> 3) + 8 + 4095) & ~4095ULL}; cow_protect(s, PROT_READ); cows.push_back(s); }
static bool cow_fault(char *a) {
    for (size_t i = cows.size(); i-- > 0;) for (auto &r : cows[i]->ranges) if (a >= r.first && a < r.first + r.second) {
        char *pg = (char *) ((u64) a & ~4095ULL); for (auto &x : cows[i]->pages) if (x.first == pg) { if (mprotect(pg, 4096, PROT_READ | PROT_WRITE)) return false; return true; } // saved already; an inner fork had protected it again
        cows[i]->pages.push_back({pg, string(pg, 4096)}); return mprotect(pg, 4096, PROT_READ | PROT_WRITE) == 0; }
    return false;
}
static void cow_end(ForkSnap *s, bool restore) {
    cow_protect(s, PROT_READ | PROT_WRITE); if (restore) for (auto &x : s->pages) memcpy(x.first, x.second.data(), 4096); cows.erase(std::find(cows.begin(), cows.end(), s));
    for (auto o : cows) if (o->heap.slot == s->heap.slot) cow_protect(o, PROT_READ);
}

// ---------------------------------------------------------------- context switch
extern "C" void ctx_switch(void **from, void *to);
asm(R"(
.text
.globl ctx_switch
.type ctx_switch,@function
ctx_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
)");
static void *host_sp;
enum Ask { ASK_NONE, ASK_FORK, ASK_UNFORK, ASK_DONE };
static Ask ask; static PProc ask_child;
static i64 mem_countdown = 1 << 20, mem_initial = 1 << 20; // see mem callbacks
static void to_host() { Fiber *f = S.cur; ctx_switch(&f->sp, host_sp); }

static void fiber_main() {
    Fiber *f = S.cur;
    { auto fn = std::move(f->entry); fn(); }
    f->st = Fiber::DONE; ask = ASK_DONE; to_host(); abort();
}

PProc find_proc(int pid) { auto it = S.procs.find(pid); return it == S.procs.end() ? nullptr : it->second; }

Fiber *new_fiber(Proc *p, function<void()> entry, const string &label) {
    auto f = std::make_shared<Fiber>(); f->id = S.nextfid++; f->proc = p; f->entry = std::move(entry); f->prog_label = label;
    f->hkey = hcomb(p->hkey, hstr(label)); f->prio = hcomb(hcomb(S.k.seed, 77), f->hkey);
    if (free_stks.empty()) { fprintf(stderr, "sim: out of stacks\n"); _exit(3); }
    int si = free_stks.back(); free_stks.pop_back();
    f->stk = (char *) (STK_BASE + si * STK_SIZE); f->stklen = STK_SIZE;
    u64 *top = (u64 *) (f->stk + f->stklen); memset(f->stk + f->stklen - 32768, 0xA5, 32768);
    *--top = 0; *--top = 0; *--top = 0; *--top = (u64) &fiber_main; for (int i = 0; i < 6; i++) *--top = 0;
    f->sp = top; S.fibers.push_back(f); p->fibers.push_back(f); return f.get();
}
static void fiber_reap(Fiber *f) { if (f->stk) { free_stks.push_back((int) (((u64) f->stk - STK_BASE) / STK_SIZE)); f->stk = nullptr; } }

// ---------------------------------------------------------------- images
struct FindRw { const char *want; Image *im; };
static int phdr_cb(struct dl_phdr_info *i, size_t, void *d) {
    FindRw *f = (FindRw *) d; if (!i->dlpi_name || strcmp(i->dlpi_name, f->want)) return 0;
    u64 relro_end = 0; for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) relro_end = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz + 4095) & ~4095ULL;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
        u64 a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, e = a + i->dlpi_phdr[k].p_memsz;
        if (i->dlpi_phdr[k].p_flags & PF_W) { if (a < relro_end) a = relro_end; if (a < e) { f->im->rw = (char *) a; f->im->rwlen = e - a; } }
        if (i->dlpi_phdr[k].p_flags & PF_X) { f->im->text = a; f->im->textlen = e - a; }
    }
    return 1;
}
bool sim_load_image(const string &name, const string &path, string *err) {
    Image im; im.name = name; im.handle = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!im.handle) { *err = dlerror(); return false; }
    im.mainfn = (int (*)(int, char **, char **)) dlsym(im.handle, "main"); if (!im.mainfn) { *err = "no main in " + path; return false; }
    FindRw f{path.c_str(), &im}; dl_iterate_phdr(phdr_cb, &f); if (!im.text) { *err = "no segments for " + path; return false; }
    im.pristine.assign(im.rw, im.rwlen); S.images[name] = im; return true;
}
static void make_resident(Proc *p) {
    Image *im = p->img; if (!im || im->resident == p->pid) return;
    if (im->resident) { PProc o = find_proc(im->resident); if (o && !o->dead && o->img == im) { o->saved.assign(im->rw, im->rwlen); o->has_saved = true; } }
    memcpy(im->rw, p->has_saved ? p->saved.data() : im->pristine.data(), im->rwlen); im->resident = p->pid;
}

// ---------------------------------------------------------------- reset
static std::unordered_map<int, u64> g_memsteps; // fiber id -> memory steps so far
static u64 last_k = 7, last_s = 0; static int last_id = 0; // the fiber that ran last
static u64 g_covseen[65536]; // program counters whose coverage bit is set already
void libc_reset();
void sim_reset(const Knobs &k) {
    mem_init(); free_slots.clear(); free_stks.clear(); g_memsteps.clear(); last_k = 7; last_s = 0; last_id = 0; libc_reset();
    for (int i = HEAP_SLOTS - 1; i >= 0; i--) free_slots.push_back(i);
    for (int i = STK_N - 1; i >= 0; i--) free_stks.push_back(i);
    auto imgs = S.images; auto bl = S.builtins; bool tr = S.trace; S = Sim(); S.images = imgs; S.builtins = bl; S.trace = tr; S.k = k; memset(S.cov, 0, sizeof S.cov); memset(g_covseen, 0, sizeof g_covseen);
    for (auto &i : S.images) { i.second.resident = 0; memcpy(i.second.rw, i.second.pristine.data(), i.second.rwlen); }
    S.now = 1700000000LL * SEC;
    auto r = std::make_shared<Inode>(); r->type = Inode::DIR; r->ino = S.nextid++; r->mode = 0755; r->mtime = r->ctime = S.now; r->parent = r; S.root = r;
    fs_mkdirs("/tmp"); fs_mkdirs("/bin"); fs_mkdirs("/usr/bin"); fs_mkdirs("/dev"); fs_mkdirs("/home");
    auto d = fs_write("/dev/null", ""); d->type = Inode::DEV; d->dev = 1; d = fs_write("/dev/full", ""); d->type = Inode::DEV; d->dev = 2;
    register_stubs();
    harness_proc();
}
PProc harness_proc() {
    PProc h = find_proc(1); if (h) return h;
    h = std::make_shared<Proc>(); h->pid = 1; h->key = "harness"; h->hkey = hstr("harness"); h->prog = "harness"; h->harness = true; h->cwd = S.root; h->heap = std::make_shared<Heap>(); h->is_stub = true; h->faultable = false; h->pgid = 1; S.procs[1] = h; return h;
}
Fiber *harness_fiber(const string &label, function<void()> f) { return new_fiber(harness_proc().get(), std::move(f), label); }

// ---------------------------------------------------------------- scheduling
static bool fiber_runnable(Fiber *f) {
    Proc *p = f->proc; if (f->st == Fiber::DONE) return false; if (p->frozen || p->stopped) return false;
    if (f->delayed > S.now) return false;
    if (f->st == Fiber::RUN || f->woken_by_signal) return true;
    if (f->wake >= 0 && f->wake <= S.now) return true;
    if (f->interruptible && !p->pending.empty()) { for (int s : p->pending) if (!(p->sigmask >> s & 1)) return true; }
    return f->ready && f->ready();
}
static void runnables(vector<Fiber *> &out, Fiber *except = nullptr) { out.clear(); for (auto &f : S.fibers) if (f.get() != except && fiber_runnable(f.get())) out.push_back(f.get()); }

static void set_mem_countdown(Fiber *f);

static void record_pre(u64 k, u64 step, u64 to) { if (S.fired_pre.size() < 200000) S.fired_pre.push_back({k, step, to}); }

static Fiber *pick_next(Fiber *, vector<Fiber *> &c) {
    // default: first id greater than prev's, cyclic
    Fiber *def = nullptr; int pid = last_id; for (auto *f : c) if (f->id > pid) { def = f; break; } if (!def) def = c[0];
    if (c.size() == 1) return c[0];
    u64 pk = last_k, ps = last_s;
    if (S.k.explicit_mode) { auto it = S.xpmap.find({pk, ps}); if (it != S.xpmap.end()) for (auto *f : c) if (f->hkey == it->second) return f; return def; }
    Fiber *r = def;
    if (S.k.policy == 1) r = c[hcomb(hcomb(hcomb(S.k.seed, 0x5c), pk), ps) % c.size()];
    else if (S.k.policy == 2) { for (auto *f : c) if (f->prio > r->prio) r = f; }
    if (r != def) record_pre(pk, ps, r->hkey);
    return r;
}

static void finish_unfork(Fiber *f); // restores the forking parent's memory on fiber f (f not running)
static Fiber *forced_next;

static void resume(Fiber *f) {
    if (f->st == Fiber::BLOCKED) { f->st = Fiber::RUN; }
    S.cur = f; make_resident(f->proc); libc_use(f->proc); set_mem_countdown(f); S.st.switches++;
    S.statehash = hcomb(S.statehash, f->hkey); if ((S.st.switches & 3) == 0) S.states.insert(hcomb(S.statehash, f->steps));
    ctx_switch(&host_sp, f->sp);
    g_memsteps[f->id] += mem_initial - mem_countdown;
    Fiber *was = f; S.cur = nullptr;
    switch (ask) {
    case ASK_NONE: break;
    case ASK_DONE: ask = ASK_NONE; was->st = Fiber::DONE; break;
    case ASK_FORK: {
        ask = ASK_NONE; Proc *P = was->proc; PProc C = ask_child; auto sn = std::make_shared<ForkSnap>();
        char *lo = (char *) was->sp; sn->stklo = lo; sn->stack.assign(lo, was->stk + was->stklen - lo); sn->sp = was->sp; sn->parent = P;
        if (P->heap->slot >= 0) { sn->heap = *P->heap; cow_begin(sn.get()); }
        if (P->img) { P->saved.assign(P->img->rw, P->img->rwlen); P->has_saved = true; P->img->resident = C->pid; }
        was->forks.push_back(sn); P->frozen = true; was->proc = C.get(); C->fibers.push_back(nullptr); C->fibers.clear();
        for (auto &x : S.fibers) if (x.get() == was) C->fibers.push_back(x);
        was->fork_ret = 0; ask_child = nullptr; forced_next = was; break;
    }
    case ASK_UNFORK: ask = ASK_NONE; finish_unfork(was); break;
    }
}
static void finish_unfork(Fiber *f) {
    auto sn = f->forks.back(); f->forks.pop_back(); Proc *C = f->proc; Proc *P = sn->parent; 
    memcpy(sn->stklo, sn->stack.data(), sn->stack.size()); f->sp = sn->sp; f->st = Fiber::RUN; f->ready = nullptr; f->wake = -1; f->interruptible = false;
    if (sn->heap.slot >= 0) {
        u64 extra = P->heap->used > sn->heap.used ? P->heap->used - sn->heap.used : 0; if (extra) memset(shadow((u64) sn->heap.base + ((sn->heap.used + 7) & ~7ULL)), 0, (extra >> 3) + 16);
        cow_end(sn.get(), true); if (!P->dead) *P->heap = sn->heap;
    }
    f->proc = P; f->fork_ret = C->pid; C->borrowed = false; C->heap = std::make_shared<Heap>(); 
    for (auto it = C->fibers.begin(); it != C->fibers.end();) { if (it->get() == f) it = C->fibers.erase(it); else ++it; }
    if (P->img && P->img->resident == C->pid) P->img->resident = 0;
    P->frozen = false; if (P->dead) { f->st = Fiber::DONE; heap_release(P); }
}

static int run_depth = 0;
string sim_run(function<bool()> pred, i64 tl) {
    if (run_depth) abort();
    run_depth++; i64 deadline = tl < 0 ? INT64_MAX : S.now + tl; Fiber *prev = nullptr; vector<Fiber *> c; string why; i64 t0 = S.now;
    for (;;) {
        if (S.stop) { why = S.stop_reason; break; }
        if (pred && pred()) { why = "pred"; break; }
        if (S.nsteps > S.k.step_limit) { why = "steps"; break; }
        Fiber *n = nullptr;
        if (forced_next) { n = forced_next; forced_next = nullptr; if (n->st == Fiber::DONE || n->proc->dead) n = nullptr; } // killed since
        if (n) {}
        else {
            runnables(c);
            if (c.empty()) { // advance the clock to the next timer
                i64 nt = INT64_MAX; for (auto &f : S.fibers) if (f->st != Fiber::DONE && !f->proc->stopped) { if (f->delayed > S.now && f->delayed < nt) nt = f->delayed; if (f->st == Fiber::BLOCKED && f->wake > S.now && f->wake < nt) nt = f->wake; }
                if (nt == INT64_MAX) { why = "idle"; break; }
                if (nt > deadline) { S.now = deadline; why = "time"; break; }
                S.now = nt; continue;
            }
            if (S.now > deadline) { why = "time"; break; }
            n = pick_next(prev, c);
        }
        prev = n; resume(n); last_k = n->hkey; last_s = n->steps; last_id = n->id;
        // reap finished fibers
        for (size_t i = 0; i < S.fibers.size();) { auto &f = S.fibers[i]; if (f->st == Fiber::DONE) { if (prev == f.get()) prev = nullptr; fiber_reap(f.get()); auto &pf = f->proc->fibers; for (size_t j = 0; j < pf.size(); j++) if (pf[j] == f) { pf.erase(pf.begin() + j); break; } S.fibers.erase(S.fibers.begin() + i); } else i++; }
    }
    S.st.sim_ns += S.now - t0; run_depth--; return why;
}

static void deliver_signals();
static void maybe_switch(bool block) {
    Fiber *f = S.cur; (void) block; f->st = Fiber::RUN; to_host();
}
// yield point at a system call
void sim_yield() {
    Fiber *f = S.cur; f->steps++; S.nsteps++; S.now += S.k.tick_ns; S.st.syscalls++; f->proc->compute = 0;
    if (S.nsteps > S.k.step_limit) { to_host(); }
    bool sw = false;
    if (S.k.explicit_mode) {
        auto it = S.xpmap.find({f->hkey, f->steps}); if (it != S.xpmap.end()) { for (auto &g : S.fibers) if (g->hkey == it->second && g.get() != f && fiber_runnable(g.get())) { forced_next = g.get(); sw = true; S.st.preempts++; break; } }
    } else if (S.k.p_sys && S.fibers.size() > 1 && hcomb(hcomb(hcomb(S.k.seed, 0x11), f->hkey), f->steps) % S.k.p_sys == 0) {
        vector<Fiber *> c; runnables(c, f);
        if (!c.empty()) { Fiber *n = c[hcomb(hcomb(hcomb(S.k.seed, 0x12), f->hkey), f->steps) % c.size()]; if (S.k.policy == 2) f->prio >>= 8; forced_next = n; sw = true; record_pre(f->hkey, f->steps, n->hkey); S.st.preempts++; }
    } else if (S.k.policy == 2 && S.fibers.size() > 1) {
        vector<Fiber *> c; runnables(c, f); Fiber *b = nullptr; for (auto *x : c) if (x->prio > f->prio && (!b || x->prio > b->prio)) b = x;
        if (b) { forced_next = b; sw = true; record_pre(f->hkey, f->steps, b->hkey); S.st.preempts++; }
    }
    if (!S.k.explicit_mode && S.k.stall_rate && !f->proc->harness && hcomb(hcomb(hcomb(S.k.seed, 0x13), f->hkey), f->steps) % S.k.stall_rate == 0) { f->delayed = S.now + 1 + (i64) (hcomb(hcomb(S.k.seed, 0x14), f->hkey + f->steps) % (u64) S.k.stall_ns); S.st.faults["stall"]++; S.fired.push_back({f->proc->key, "stall", (int) f->steps, strf("%lld", (long long) (f->delayed - S.now))}); sw = true; }
    else if (S.k.explicit_mode) { auto it = S.xfmap.find(f->proc->key + "|stall|" + std::to_string(f->steps)); if (it != S.xfmap.end()) { f->delayed = S.now + atoll(it->second->kind.c_str()); S.st.faults["stall"]++; S.fired.push_back(*it->second); sw = true; } }
    if (sw) maybe_switch(false);
    if (f->proc->dead) { to_host(); }
    if (!f->proc->pending.empty()) deliver_signals();
}
bool fiber_block_i(const char *what, function<bool()> ready, i64 wake) {
    Fiber *f = S.cur;
    for (;;) {
        if (f->woken_by_signal) { f->woken_by_signal = false; S.st.faults["eintr-after-stop"]++; return true; }
        if (ready && ready()) return false; if (wake >= 0 && S.now >= wake) return false;
        if (!f->proc->pending.empty()) { bool any = false; for (int s : f->proc->pending) if (!(f->proc->sigmask >> s & 1)) any = true; if (any) { bool restart = true; set<int> p = f->proc->pending; for (int s : p) { SigAct &a = f->proc->sa[s]; if (a.h != SIG_IGN && a.h != SIG_DFL && !(a.flags & SA_RESTART)) restart = false; } deliver_signals(); if (!restart) return true; continue; } }
        f->steps++; S.nsteps++; f->st = Fiber::BLOCKED; f->what = what; f->ready = ready; f->wake = wake; f->interruptible = true; to_host(); f->interruptible = false; f->ready = nullptr; f->wake = -1;
    }
}
void fiber_block(const char *what, function<bool()> ready, i64 wake, bool intr) {
    if (intr) { while (fiber_block_i(what, ready, wake)) {} return; }
    Fiber *f = S.cur;
    while (!(ready && ready()) && !(wake >= 0 && S.now >= wake)) { f->steps++; S.nsteps++; f->st = Fiber::BLOCKED; f->what = what; f->ready = ready; f->wake = wake; f->interruptible = false; to_host(); f->ready = nullptr; f->wake = -1; }
}

// ---------------------------------------------------------------- processes
static PProc mkproc(Proc *parent, const string &key) {
    auto p = std::make_shared<Proc>(); p->pid = S.nextpid++; p->key = key; p->hkey = hstr(key); p->heap = std::make_shared<Heap>(); p->start = S.now;
    if (parent) { p->ppid = parent->pid; p->pgid = parent->pgid; p->faultable = true; } else { p->ppid = 1; p->pgid = p->pid; }
    S.procs[p->pid] = p; S.st.procs++; return p;
}
struct ArgBlock { vector<char *> argv, envp; };
extern "C" void sim_exit(int c);
static void start_image(PProc p) { // create main fiber for a process whose prog/argv are set
    p->files.clear(); p->dirs.clear(); p->cnt.clear(); libc_init_proc(p.get());
    auto bi = S.builtins.find(p->prog); auto im = S.images.find(p->prog);
    if (im != S.images.end()) {
        p->img = &im->second; p->has_saved = false; p->is_stub = false; if (p->img->resident == p->pid) p->img->resident = 0;
        Proc *pp = p.get();
        new_fiber(pp, [pp]() {
            size_t n = pp->argv.size(); char **av = (char **) heap_alloc(pp, (n + 1) * sizeof(char *), false); for (size_t i = 0; i < n; i++) { av[i] = (char *) heap_alloc(pp, pp->argv[i].size() + 1, false); memcpy(av[i], pp->argv[i].c_str(), pp->argv[i].size() + 1); } av[n] = nullptr;
            pp->heap->nalloc = 0; 
            int r = pp->img->mainfn((int) n, av, nullptr); sim_exit(r);
        }, "main" + std::to_string(p->cnt["exec#"]++));
    } else if (bi != S.builtins.end()) {
        p->is_stub = true; p->img = nullptr; Proc *pp = p.get(); auto fn = bi->second;
        new_fiber(pp, [pp, fn]() { int r = fn(*pp, pp->argv); proc_exit((r & 0xff) << 8); }, "main");
    } else { fprintf(stderr, "sim: no program %s\n", p->prog.c_str()); _exit(3); }
}
PProc spawn_proc(const string &keybase, const vector<string> &argv, const map<string, string> &env, const string &cwd, OFile in, OFile out, OFile err, Proc *parent) {
    PProc p = mkproc(parent, keybase); p->env = env; p->argv = argv; p->cwd = fs_lookup(cwd); p->cwdpath = cwd; if (!p->cwd) { fprintf(stderr, "sim: bad cwd %s\n", cwd.c_str()); _exit(3); }
    if (!parent) p->pgid = p->pid;
    p->fds[0] = in; p->fds[1] = out; p->fds[2] = err;
    string path = argv[0].find('/') != string::npos ? argv[0] : find_in_path(argv[0], env); INode n = fs_lookup(path, true, p->cwd);
    if (!n || n->prog.empty()) { fprintf(stderr, "sim: cannot exec %s\n", argv[0].c_str()); _exit(3); }
    p->prog = n->prog; p->exe = path; sim_log("spawn %s", p->key.c_str()); start_image(p); return p;
}
string find_in_path(const string &name, const map<string, string> &env) {
    auto it = env.find("PATH"); string path = it == env.end() ? "/usr/bin:/bin" : it->second;
    for (auto &d : split(path, ':')) { string f = (d.empty() ? "." : d) + "/" + name; INode n = fs_lookup(f, true, S.cur ? S.cur->proc->cwd : nullptr); if (n && n->type == Inode::FILE && (n->mode & 0111)) return f; }
    return "";
}
static void close_all(Proc *p) { auto fds = std::move(p->fds); p->fds.clear(); fds.clear(); }
static void to_zombie(Proc *p, int status) {
    p->dead = true; p->zombie = true; p->status = status; p->endt = S.now; p->atexit_.clear(); close_all(p); p->cwd = nullptr;
    bool borrowed = p->borrowed; if (!borrowed && !p->frozen) heap_release(p); if (p->img && p->img->resident == p->pid) { p->img->resident = 0; } p->saved.clear(); p->files.clear(); p->dirs.clear();
    for (auto &kv : S.procs) if (kv.second->ppid == p->pid && kv.second.get() != p) { kv.second->ppid = 1; if (kv.second->zombie) { kv.second->zombie = false; kv.second->reaped = true; } }
    PProc par = find_proc(p->ppid); if (!par || par->dead || p->ppid == 1) { p->zombie = false; p->reaped = true; }
    else if (par->sa[SIGCHLD].h != SIG_DFL && par->sa[SIGCHLD].h != SIG_IGN) post_signal(par.get(), SIGCHLD);
    sim_log("exit %s status %x", p->key.c_str(), status); if (S.on_exit_) S.on_exit_(*p);
}
void proc_exit(int status) { // current process terminates
    Proc *p = S.cur->proc; Fiber *f = S.cur;
    if (p->borrowed) { to_zombie(p, status); ask = ASK_UNFORK; to_host(); abort(); }
    to_zombie(p, status); for (auto &x : p->fibers) x->st = Fiber::DONE; f->st = Fiber::DONE; ask = ASK_DONE; to_host(); abort();
}
void proc_kill(Proc *p, int sig) {
    if (p->dead) return; p->killed = true; sim_log("killed %s sig %d", p->key.c_str(), sig);
    bool self = S.cur && S.cur->proc == p;
    if (p->borrowed) { to_zombie(p, sig); Fiber *bf = nullptr; for (auto &x : S.fibers) if (x->proc == p) bf = x.get(); if (self) { ask = ASK_UNFORK; to_host(); abort(); } if (bf) finish_unfork(bf); return; }
    bool was_frozen = p->frozen; to_zombie(p, sig);
    for (auto &x : S.fibers) if (x->proc == p) x->st = Fiber::DONE;
    (void) was_frozen; // a borrowed child keeps running on its own; its fiber finishes when it execs or exits
    if (self) { ask = ASK_DONE; to_host(); abort(); }
}
static bool default_terminates(int s) { return !(s == SIGCHLD || s == SIGCONT || s == SIGURG || s == SIGWINCH || s == SIGSTOP || s == SIGTSTP); }
void post_signal(Proc *p, int sig) {
    if (p->dead || p->harness) return; sim_log("signal %d -> %s", sig, p->key.c_str());
    if (sig == SIGKILL) { proc_kill(p, sig); return; }
    // calls on sockets with a timeout fail with EINTR when the process goes on (see signal(7))
    if (sig == SIGSTOP) { p->stopped = true; for (auto &f : p->fibers) if (f->st == Fiber::BLOCKED && f->interruptible && f->wake >= 0 && !strncmp(f->what, "sock", 4)) f->woken_by_signal = true; return; } if (sig == SIGCONT) { p->stopped = false; return; }
    SigAct &a = p->sa[sig]; if (a.h == SIG_IGN) return; if (a.h == SIG_DFL && !default_terminates(sig)) return;
    if (a.h == SIG_DFL && !(p->sigmask >> sig & 1) && !(S.cur && S.cur->proc == p)) { proc_kill(p, sig); return; }
    p->pending.insert(sig); mem_countdown = mem_countdown; 
}
void signal_pgrp(int pgid, int sig) { if (sig == SIGINT) S.intr_at = S.now; vector<PProc> v; for (auto &kv : S.procs) if (kv.second->pgid == pgid && !kv.second->dead) v.push_back(kv.second); for (auto &p : v) post_signal(p.get(), sig); }
static void deliver_signals() {
    Fiber *f = S.cur; Proc *p = f->proc;
    while (!p->pending.empty()) {
        int sig = 0; for (int s : p->pending) if (!(p->sigmask >> s & 1)) { sig = s; break; } if (!sig) return;
        p->pending.erase(sig); SigAct a = p->sa[sig]; if (a.h == SIG_IGN) continue;
        if (a.h == SIG_DFL) { if (default_terminates(sig)) proc_kill(p, sig); continue; }
        sim_log("handler %d", sig); u64 om = p->sigmask; p->sigmask |= 1ULL << sig; int se = f->err; f->sigdepth++; probe("signal-handler-ran"); if (a.flags & (int) SA_RESETHAND) p->sa[sig] = SigAct(); 
        a.h(sig); f->sigdepth--; f->err = se; p->sigmask = om;
    }
}
i64 sys_kill(int pid, int sig) {
    sim_yield(); sim_log("kill %d %d", pid > 0 ? 1 : pid, sig); Proc *me = S.cur->proc; if (pid == 0) { signal_pgrp(me->pgid, sig); } else if (pid < -1) signal_pgrp(-pid, sig); else { PProc t = find_proc(pid); if (!t || t->reaped || t->harness) return -ESRCH; if (sig && !t->dead) post_signal(t.get(), sig); }
    if (!me->pending.empty()) deliver_signals(); return 0;
}

void mem_error(const char *what, const void *a, size_t n) {
    Proc *p = S.cur->proc; if (p->memerr.empty()) p->memerr = strf("%s (size %zu)", what, n); (void) a; sim_log("memory error: %s", what); probe("memory-error"); proc_kill(p, SIGSEGV);
}
// a loop without any instrumented event (the compiler may reduce an endless one to a jump to itself) ends the run like the computation limit
extern "C" void sim_vtalrm(int, siginfo_t *, void *uc) {
    static u64 last; static int same; u64 now = hcomb(hcomb(S.st.memsteps, (u64) mem_countdown), hcomb(S.nsteps, S.st.switches)); if (now != last) { last = now; same = 0; return; } if (++same < 3) return;
    if (!S.cur || S.in_hook || S.cur->proc->is_stub || S.cur->proc->harness || !S.cur->proc->img) return; Dl_info a, b; void *pc = (void *) ((ucontext_t *) uc)->uc_mcontext.gregs[REG_RIP];
    if (!dladdr(pc, &a) || !dladdr((void *) S.cur->proc->img->text, &b) || a.dli_fbase != b.dli_fbase) return;
    Proc *p = S.cur->proc; sim_log("endless loop"); p->memerr = "endless loop"; probe("endless-loop"); S.stop = true; S.stop_reason = "compute"; to_host();
}
extern "C" void sim_segv(int sig, siginfo_t *si, void *) {
    if (sig == SIGSEGV && cow_fault((char *) si->si_addr)) return;
    if (!S.cur || S.in_hook || S.cur->proc->is_stub || S.cur->proc->harness) { const char m[] = "sim: real crash in simulator\n"; (void) !write(2, m, sizeof m - 1); signal(sig, SIG_DFL); raise(sig); _exit(139); }
    Proc *p = S.cur->proc; if (p->memerr.empty()) p->memerr = strf("hardware fault %d", sig); sim_log("hw fault %d", sig); probe("hw-fault");
    sigset_t s; sigemptyset(&s); sigaddset(&s, sig); sigprocmask(SIG_UNBLOCK, &s, nullptr);
    proc_kill(p, sig);
}

// ---------------------------------------------------------------- memory-access callbacks
static void set_mem_countdown(Fiber *f) {
    Proc *p = f->proc; i64 c = 1 << 20; u64 ms = g_memsteps[f->id];
    if (p->img) {
        if (S.k.explicit_mode) { u64 mk = f->hkey ^ 0x5bd1e995; auto it = S.xpmap.lower_bound({mk, ms + 1}); if (it != S.xpmap.end() && it->first.first == mk) { i64 d = (i64) (it->first.second - ms); if (d < c) c = d; } }
        else { if (S.k.p_mem && p->fibers.size() > 1) c = 1 + (i64) (hcomb(hcomb(hcomb(S.k.seed, 0x21), f->hkey), ms) % (2 * S.k.p_mem)); }
    }
    if (c < 1) c = 1; mem_countdown = mem_initial = c;
}
static void mem_slow() {
    Fiber *f = S.cur; if (!f) { mem_countdown = 1 << 20; return; }
    Proc *p = f->proc; u64 ms = (g_memsteps[f->id] += mem_initial - mem_countdown); S.st.memsteps += mem_initial; p->compute += mem_initial; p->total_compute += mem_initial; mem_initial = mem_countdown = 0;
    if (p->compute > S.k.compute_limit) { sim_log("compute limit"); p->memerr = "compute limit exceeded"; probe("compute-limit"); S.stop = true; S.stop_reason = "compute"; to_host(); }
    u64 mk = f->hkey ^ 0x5bd1e995; bool sw = false;
    if (S.k.explicit_mode) { auto it = S.xpmap.find({mk, ms}); if (it != S.xpmap.end()) for (auto &g : S.fibers) if (g->hkey == it->second && g.get() != f && fiber_runnable(g.get())) { forced_next = g.get(); sw = true; } }
    else if (S.k.p_mem && p->fibers.size() > 1) { vector<Fiber *> c; runnables(c, f); if (!c.empty()) { Fiber *n = c[hcomb(hcomb(hcomb(S.k.seed, 0x22), f->hkey), ms) % c.size()]; forced_next = n; record_pre(mk, ms, n->hkey); sw = true; } }
    if (sw) { S.st.preempts++; probe("preempt-mem"); to_host(); if (f->proc->dead) to_host(); if (!f->proc->pending.empty()) { f->steps++; deliver_signals(); } }
    set_mem_countdown(f);
}
static inline void mem_cb(void *a, size_t n) {
    if (__builtin_expect(in_heap((u64) a), 0)) { unsigned char s = *shadow((u64) a); if (s != 9 || ((u64) a & 7) + n > 8) if (S.cur && heap_bad(a, n)) mem_error("access outside live heap memory", a, n); }
    if (__builtin_expect(--mem_countdown <= 0, 0)) mem_slow();
}
#define CB(n) extern "C" void __tsan_read##n(void *a) { mem_cb(a, n); } extern "C" void __tsan_write##n(void *a) { mem_cb(a, n); } extern "C" void __tsan_unaligned_read##n(void *a) { mem_cb(a, n); } extern "C" void __tsan_unaligned_write##n(void *a) { mem_cb(a, n); } extern "C" void __tsan_volatile_read##n(void *a) { mem_cb(a, n); } extern "C" void __tsan_volatile_write##n(void *a) { mem_cb(a, n); } extern "C" void __tsan_unaligned_volatile_read##n(void *a) { mem_cb(a, n); } extern "C" void __tsan_unaligned_volatile_write##n(void *a) { mem_cb(a, n); } extern "C" void __tsan_read_write##n(void *a) { mem_cb(a, n); } extern "C" void __tsan_unaligned_read_write##n(void *a) { mem_cb(a, n); }
CB(1) CB(2) CB(4) CB(8) CB(16)
extern "C" void __tsan_init() {} extern "C" void __tsan_func_entry(void *) {} extern "C" void __tsan_func_exit() {} extern "C" void __tsan_vptr_update(void **, void *) {} extern "C" void __tsan_vptr_read(void **) {}
extern "C" void __tsan_read_range(void *a, size_t n) { mem_cb(a, 1); if (n && S.cur && heap_bad(a, n)) mem_error("range read outside live heap memory", a, n); }
extern "C" void __tsan_write_range(void *a, size_t n) { mem_cb(a, 1); if (n && S.cur && heap_bad(a, n)) mem_error("range write outside live heap memory", a, n); }
#define AT(T, B) \
extern "C" T __tsan_atomic##B##_load(const volatile T *a, int) { mem_cb((void *) a, sizeof(T)); return *a; } \
extern "C" void __tsan_atomic##B##_store(volatile T *a, T v, int) { mem_cb((void *) a, sizeof(T)); *a = v; } \
extern "C" T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { mem_cb((void *) a, sizeof(T)); T o = *a; *a = v; return o; } \
extern "C" T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { mem_cb((void *) a, sizeof(T)); T o = *a; *a = (T) (o + v); return o; } \
extern "C" T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { mem_cb((void *) a, sizeof(T)); T o = *a; *a = (T) (o - v); return o; } \
extern "C" T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { mem_cb((void *) a, sizeof(T)); T o = *a; *a = o & v; return o; } \
extern "C" T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { mem_cb((void *) a, sizeof(T)); T o = *a; *a = o | v; return o; } \
extern "C" T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { mem_cb((void *) a, sizeof(T)); T o = *a; *a = o ^ v; return o; } \
extern "C" T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int) { mem_cb((void *) a, sizeof(T)); T o = *a; *a = (T) ~(o & v); return o; } \
extern "C" int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { mem_cb((void *) a, sizeof(T)); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
extern "C" int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { mem_cb((void *) a, sizeof(T)); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
extern "C" T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T e, T v, int, int) { mem_cb((void *) a, sizeof(T)); T o = *a; if (o == e) *a = v; return o; }
AT(unsigned char, 8) AT(unsigned short, 16) AT(unsigned int, 32) AT(u64, 64)
extern "C" void __tsan_atomic_thread_fence(int) {} extern "C" void __tsan_atomic_signal_fence(int) {}
extern "C" void __sanitizer_cov_trace_pc() {
    u64 pc = (u64) __builtin_return_address(0); u64 &seen = g_covseen[pc & 0xffff];
    if (__builtin_expect(seen != pc, 0)) if (Fiber *f = S.cur) if (f->proc->img) { seen = pc; u64 o = hcomb(pc - f->proc->img->text, f->proc->img->rwlen) % (sizeof S.cov * 8); S.cov[o >> 3] |= 1 << (o & 7); }
    if (__builtin_expect(--mem_countdown <= 0, 0)) mem_slow();
}

// ---------------------------------------------------------------- faults
u64 decide(const char *what) { Fiber *f = S.cur; return hcomb(hcomb(hcomb(S.k.seed, hbytes(what, strlen(what))), f->hkey), f->steps); }
static const map<string, vector<const char *>> &fault_table() {
    static const map<string, vector<const char *>> t = {
        {"open", {"EMFILE", "EIO", "ENFILE", "EACCES"}}, {"creat", {"EMFILE", "EIO", "ENOSPC", "EACCES"}}, {"read", {"EIO"}}, {"write", {"ENOSPC", "EIO", "SHORT"}}, {"close", {"EIO", "ENOSPC"}}, {"stat", {"EIO"}}, {"lstat", {"EIO"}}, {"mkdir", {"ENOSPC", "EIO", "EACCES"}}, {"rmdir", {"EIO", "EBUSY"}}, {"unlink", {"EIO", "EACCES"}}, {"symlink", {"ENOSPC", "EIO"}}, {"rename", {"EIO", "ENOSPC"}}, {"link", {"EIO"}}, {"readlink", {"EIO"}}, {"opendir", {"EMFILE", "EIO", "EACCES"}}, {"readdir", {"EIO"}}, {"chdir", {"EIO", "EACCES"}}, {"getcwd", {"ENOENT"}}, {"access", {"EIO"}}, {"realpath", {"EIO", "EACCES"}}, {"mkdtemp", {"ENOSPC", "EACCES"}}, {"mkstemp", {"ENOSPC", "EMFILE"}},
        {"pipe", {"EMFILE", "ENFILE"}}, {"fork", {"EAGAIN", "ENOMEM"}}, {"exec", {"ENOMEM", "EIO"}}, {"dup", {"EMFILE"}}, {"socket", {"EMFILE"}}, {"bind", {"EADDRINUSE"}}, {"listen", {"EADDRINUSE"}}, {"accept", {"ECONNABORTED", "EMFILE", "ENFILE", "ENOMEM"}}, {"pthread_create", {"EAGAIN"}}, {"malloc", {"ENOMEM"}}, {"chmod", {"EIO"}}, {"utimens", {"EIO"}}, {"fsync", {"EIO"}}, {"truncate", {"EIO"}}, {"sread", {"ECONNRESET"}}, {"swrite", {"ECONNRESET"}}, {"pread", {"EIO"}}, {"pwrite", {"EIO"}}, {"kill@", {"KILL"}}};
    return t;
}
int fault_point(const char *sc) {
    Fiber *f = S.cur; if (!f) return 0; Proc *p = f->proc; if (p->harness || !p->faultable) return 0;
    if (!S.persist.empty()) { auto it = S.persist.find(sc); if (it != S.persist.end() && (!S.fault_ok || S.fault_ok(*p, sc))) { S.st.faults[string(sc) + ":" + it->second + "-persistent"]++; sim_log("persistent fault %s %s", sc, it->second.c_str()); return errnum(it->second); } }
    if (!S.k.slow_sc.empty() && !S.k.explicit_mode && f->slow_at != f->steps && f->delayed <= S.now - S.k.slow_ns && S.k.slow_sc.count(sc)) { f->slow_at = f->steps; f->delayed = S.now + S.k.slow_ns; S.st.faults["slow-call"]++; S.fired.push_back({p->key, "stall", (int) f->steps, strf("%lld", (long long) S.k.slow_ns)}); maybe_switch(false); if (p->dead) to_host(); if (!p->pending.empty()) deliver_signals(); }
    if (!S.faults_on) return 0; string scs = sc; int n = ++p->cnt[scs];
    auto doit = [&](const string &kind, bool rec) -> int {
        if (rec) S.fired.push_back({p->key, scs, n, kind});
        S.st.faults[kind == "EDIT" ? string("edit-at-call") : (scs == "kill@" ? string("process-kill") : scs + ":" + kind)]++; sim_log("fault %s #%d %s", sc, n, kind.c_str());
        if (kind == "EDIT") { auto fn = S.on_edit; if (fn) fn(); return 0; }
        if (kind == "KILL") { proc_kill(p, SIGKILL); return 0; }
        if (kind == "KILLPG") { int g = p->pgid; Proc *me = p; vector<PProc> v; for (auto &kv : S.procs) if (kv.second->pgid == g && !kv.second->dead && kv.second.get() != me) v.push_back(kv.second); for (auto &q : v) proc_kill(q.get(), SIGKILL); proc_kill(me, SIGKILL); return 0; }
        if (kind == "INTPG") { signal_pgrp(p->pgid, SIGINT); if (!p->pending.empty()) deliver_signals(); return 0; }
        if (kind == "TERM") { post_signal(p, SIGTERM); if (!p->pending.empty()) deliver_signals(); return 0; }
        return kind == "SHORT" ? -1 : errnum(kind);
    };
    if (S.k.explicit_mode) { auto it = S.xfmap.find(p->key + "|" + scs + "|" + std::to_string(n)); return it == S.xfmap.end() ? 0 : doit(it->second->kind, true); }
    if (!S.k.fault_rate || S.nfaults_random >= S.k.fault_max || !S.k.fault_sc.count(scs)) return 0;
    u64 h = hcomb(hcomb(hcomb(S.k.seed, 0x31), p->hkey), hcomb(hstr(scs), n));
    u32 rate = S.k.fault_rate; if (scs == "malloc") rate *= 8; if (scs == "kill@") rate *= 2;
    if (h % rate) return 0;
    if (S.fault_ok && !S.fault_ok(*p, scs)) return 0;
    auto it = fault_table().find(scs); if (it == fault_table().end()) return 0;
    string kind = it->second[(h >> 32) % it->second.size()];
    if (scs == "kill@" && S.k.fault_sc.count("EDIT")) { if (!S.on_edit) return 0; kind = "EDIT"; }
    if (scs == "kill@") { u64 r = (h >> 40) % 4; if (S.k.fault_sc.count("KILLPG") && r >= 2) kind = "KILLPG"; if (S.k.fault_sc.count("INTPG") && (r == 1 || r == 3)) kind = "INTPG"; if (S.k.fault_sc.count("ONLYINT")) kind = "INTPG"; }
    S.nfaults_random++; return doit(kind, true);
}
#define ENTER(sc) do { sim_yield(); fault_point("kill@"); int fe_ = fault_point(sc); if (fe_ > 0) { sim_log("%s = -%s (injected)", sc, errname(fe_)); return -fe_; } } while (0)

// ---------------------------------------------------------------- fs
static void fs_changed() { S.fsver++; if (S.on_fs && !S.in_hook) { S.in_hook = true; S.on_fs(); S.in_hook = false; } }
OpenFile::~OpenFile() {
    if (pipe) { if (type == PIPE_R) pipe->readers--; else pipe->writers--; }
    if (conn) { conn->closed[side] = true; conn->eof[side == 0 ? 0 : 1] = true; if (!conn->buf[side == 0 ? 1 : 0].empty()) { conn->reset = true; } }
    if (lst) { lst->closed = true; lst->listening = false; for (auto &c : lst->q) { c->reset = true; c->closed[1] = true; c->eof[1] = true; } lst->q.clear(); }
}
struct Res { INode dir, node; string name; int err = 0; bool trailing = false; };
static Res resolve(const string &path, bool follow, INode base = nullptr, int depth = 0) {
    Res r; if (path.empty()) { r.err = ENOENT; return r; } if (depth > 40) { r.err = ELOOP; return r; } if (path.size() > 4095) { r.err = ENAMETOOLONG; return r; }
    INode cur = path[0] == '/' ? S.root : (base ? base : (S.cur ? S.cur->proc->cwd : S.root)); if (!cur) { r.err = ENOENT; return r; }
    vector<string> parts; for (auto &c : split(path, '/')) if (!c.empty()) parts.push_back(c);
    r.trailing = path.size() > 1 && path.back() == '/';
    if (parts.empty()) { r.dir = cur; r.node = cur; r.name = "."; return r; }
    for (size_t i = 0; i < parts.size(); i++) {
        bool last = i + 1 == parts.size(); if (cur->type != Inode::DIR) { r.err = ENOTDIR; return r; } if (parts[i].size() > 255) { r.err = ENAMETOOLONG; return r; }
        if (cur->nlink == 0) { r.err = ENOENT; return r; }
        if (parts[i] == ".") { if (last) { r.dir = cur->parent.lock(); r.node = cur; r.name = "."; } continue; }
        if (parts[i] == "..") { INode up = cur->parent.lock(); if (!up) { r.err = ENOENT; return r; } cur = up; if (last) { r.dir = cur->parent.lock(); r.node = cur; r.name = ".."; } continue; }
        auto it = cur->ent.find(parts[i]);
        if (it == cur->ent.end()) { if (last) { r.dir = cur; r.name = parts[i]; r.err = 0; return r; } r.err = ENOENT; return r; }
        INode n = it->second;
        if (n->type == Inode::LINK && (!last || follow || r.trailing)) {
            string rest = n->data; for (size_t k = i + 1; k < parts.size(); k++) rest += "/" + parts[k]; if (r.trailing && rest.back() != '/') rest += "/";
            return resolve(rest, follow, cur, depth + 1);
        }
        if (last) { r.dir = cur; r.node = n; r.name = parts[i]; if (r.trailing && n->type != Inode::DIR) r.err = ENOTDIR; return r; }
        cur = n;
    }
    return r;
}
INode fs_lookup(const string &path, bool follow, INode base) { Res r = resolve(path, follow, base ? base : S.root); return r.err ? nullptr : r.node; }
static INode mknode(Inode::T t, mode_t mode) { auto n = std::make_shared<Inode>(); n->type = t; n->ino = S.nextid++; n->mode = mode; n->mtime = n->ctime = n->atime = S.now + S.clock_skew; return n; }
static void link_into(INode dir, const string &name, INode n) { dir->ent[name] = n; if (n->type == Inode::DIR) n->parent = dir; dir->mtime = dir->ctime = S.now + S.clock_skew; }
INode fs_mkdirs(const string &path) { INode c = S.root; for (auto &p : split(path, '/')) { if (p.empty()) continue; auto it = c->ent.find(p); if (it == c->ent.end()) { auto n = mknode(Inode::DIR, 0755); link_into(c, p, n); c = n; } else { c = it->second; if (c->type == Inode::LINK) c = fs_lookup(c->data); } } return c; }
static string dirn(const string &p) { size_t i = p.rfind('/'); return i == string::npos ? "." : i == 0 ? "/" : p.substr(0, i); }
static string basen(const string &p) { size_t i = p.rfind('/'); return i == string::npos ? p : p.substr(i + 1); }
INode fs_write(const string &path, const string &data, mode_t mode) {
    INode d = fs_mkdirs(dirn(path)); auto it = d->ent.find(basen(path)); INode n;
    if (it == d->ent.end() || it->second->type != Inode::FILE) { n = mknode(Inode::FILE, mode); link_into(d, basen(path), n); } else n = it->second;
    S.disk_used += data.size(); S.disk_used -= n->data.size(); n->data = data; n->mtime = n->ctime = S.now + S.clock_skew; n->gen++; fs_changed(); return n;
}
bool fs_read(const string &path, string &out, bool follow) { INode n = fs_lookup(path, follow); if (!n || n->type != Inode::FILE) return false; out = n->data; return true; }
bool fs_exists(const string &path, bool follow) { return !!fs_lookup(path, follow); }
static void drop_usage(INode n) { if (n->type == Inode::FILE) { if (n->nlink == 0) S.disk_used -= n->data.size(); } else if (n->type == Inode::DIR) for (auto &e : n->ent) { e.second->nlink--; drop_usage(e.second); } }
void fs_remove(const string &path) { Res r = resolve(path, false, S.root); if (r.err || !r.node) return; r.dir->ent.erase(r.name); r.dir->mtime = S.now; r.node->nlink = 0; drop_usage(r.node); fs_changed(); }
void fs_symlink(const string &t, const string &path) { INode d = fs_mkdirs(dirn(path)); auto n = mknode(Inode::LINK, 0777); n->data = t; link_into(d, basen(path), n); fs_changed(); }
void fs_prog(const string &path, const string &prog) { INode n = fs_write(path, "#!prog " + prog, 0755); n->prog = prog; n->mode = 0755; }
static void tree_rec(INode n, const string &pre, map<string, string> &out) { for (auto &e : n->ent) { string p = pre.empty() ? e.first : pre + "/" + e.first; INode c = e.second; if (c->type == Inode::DIR) { out[p] = "d"; tree_rec(c, p, out); } else if (c->type == Inode::LINK) out[p] = "l:" + c->data; else out[p] = "f:" + c->data; } }
map<string, string> fs_tree(const string &path) { map<string, string> o; INode n = fs_lookup(path); if (n && n->type == Inode::DIR) tree_rec(n, "", o); return o; }
u64 fs_tree_hash(const string &path) { u64 h = 1; for (auto &e : fs_tree(path)) h = hcomb(h, hcomb(hstr(e.first), hstr(e.second))); return h; }
string fs_path_of(INode n) { string r; for (int i = 0; i < 200 && n != S.root; i++) { INode p = n->parent.lock(); if (!p || n->type != Inode::DIR) return "?" + r; string nm; for (auto &e : p->ent) if (e.second == n) nm = e.first; if (nm.empty()) return "?" + r; r = "/" + nm + r; n = p; } return r.empty() ? "/" : r; }

static int newfd(Proc *p, OFile f, int min = 0, bool clo = false) { int fd = min; while (p->fds.count(fd)) fd++; p->fds[fd] = f; p->cloexec[fd] = clo; if (p->fds.size() > p->maxfd_seen) p->maxfd_seen = p->fds.size(); return fd; }
static OFile getfd(int fd) { auto &m = S.cur->proc->fds; auto it = m.find(fd); return it == m.end() ? nullptr : it->second; }

i64 sys_openat(int dirfd, const string &path, int flags, mode_t mode) {
    INode base; if (dirfd != AT_FDCWD && !path.empty() && path[0] != '/') { OFile d = getfd(dirfd); if (!d) return -EBADF; if (!d->ino || d->ino->type != Inode::DIR) return -ENOTDIR; base = d->ino; }
    bool wr = (flags & O_ACCMODE) != O_RDONLY; ENTER(wr ? "creat" : "open");
    Proc *p = S.cur->proc; Res r = resolve(path, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)), base);
    auto ret = [&](i64 v) { sim_log("open %s %x = %s", path.c_str(), flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_EXCL | O_APPEND), v < 0 ? errname(-v) : "ok"); return v; };
    if (r.err) return ret(-r.err);
    if (r.node && r.node->type == Inode::LINK) return ret(flags & O_CREAT && flags & O_EXCL ? -EEXIST : -ELOOP);
    if (!r.node) { if (!(flags & O_CREAT)) return ret(-ENOENT); if (r.trailing) return ret(-EISDIR); if (S.k.disk_limit && S.disk_used >= S.k.disk_limit) { S.st.faults["disk-full"]++; return ret(-ENOSPC); } r.node = mknode(Inode::FILE, mode & ~p->umask_ & 07777); link_into(r.dir, r.name, r.node); auto f = std::make_shared<OpenFile>(); f->type = OpenFile::REG; f->ino = r.node; f->flags = flags; f->path = path; int fd = newfd(p, f, 0, flags & O_CLOEXEC); ret(fd); fs_changed(); return fd; }
    if ((flags & O_CREAT) && (flags & O_EXCL)) return ret(-EEXIST);
    if (r.node->type == Inode::DIR) { if (wr) return ret(-EISDIR); } else if (flags & O_DIRECTORY) return ret(-ENOTDIR);
    auto f = std::make_shared<OpenFile>(); f->ino = r.node; f->flags = flags; f->path = path; f->type = r.node->type == Inode::DIR ? OpenFile::DIR : r.node->type == Inode::DEV ? OpenFile::DEV : OpenFile::REG;
    bool chg = false; if (f->type == OpenFile::REG && wr && (flags & O_TRUNC)) { chg = !r.node->data.empty(); S.disk_used -= r.node->data.size(); r.node->data.clear(); r.node->mtime = r.node->ctime = S.now + S.clock_skew; r.node->gen++; }
    int fd = newfd(p, f, 0, flags & O_CLOEXEC); ret(fd); if (chg) fs_changed(); return fd;
}
i64 sys_open(const string &path, int flags, mode_t mode) { return sys_openat(AT_FDCWD, path, flags, mode); }
static int fdtype(int fd) { auto &m = S.cur->proc->fds; auto it = m.find(fd); return it == m.end() ? -1 : (int) it->second->type; }
// no reference to an open file description may be held across a yield: a killed fiber would keep it open for ever
i64 sys_read(int fd, void *buf, size_t n) {
    int ty = fdtype(fd); sim_yield(); if (ty < 0) return -EBADF; fault_point("kill@"); ty = fdtype(fd); if (ty < 0) return -EBADF;
    if (ty == OpenFile::REG || ty == OpenFile::DIR) {
        int e = fault_point("read"); if (e > 0) { sim_log("read = -%s (injected)", errname(e)); return -e; }
        OFile f = getfd(fd); if (f->type == OpenFile::DIR) { sim_log("read dir"); return -EISDIR; } if ((f->flags & O_ACCMODE) == O_WRONLY) return -EBADF;
        u64 sz = f->ino->data.size(); if (f->off >= sz) { sim_log("read eof"); return 0; } size_t k = std::min<u64>(n, sz - f->off); if (f->tty) { const char *d = f->ino->data.data() + f->off; if (const void *q = memchr(d, '\n', k)) k = (const char *) q - d + 1; } memcpy(buf, f->ino->data.data() + f->off, k); f->off += k; sim_log("read %zu", k); return k;
    }
    if (ty == OpenFile::DEV) return 0;
    if (ty == OpenFile::PIPE_R) {
        shared_ptr<Pipe> p; bool nb; { OFile f = getfd(fd); p = f->pipe; nb = f->nonblock; } if (n == 0) return 0;
        if (p->buf.empty() && p->writers > 0 && nb) return -EAGAIN;
        if (fiber_block_i("pipe read", [p]() { return !p->buf.empty() || p->writers == 0; })) return -EINTR;
        if (p->buf.empty()) { sim_log("pipe eof"); return 0; }
        size_t k = std::min(n, p->buf.size()); if (k > 1 && S.k.short_io && decide("short") % S.k.short_io == 0) { k = 1 + decide("shortn") % (k - 1); S.st.faults["short-read"]++; }
        memcpy(buf, p->buf.data(), k); p->buf.erase(0, k); sim_log("pipe read %zu", k); return k;
    }
    if (ty == OpenFile::SOCK) {
        int e = fault_point("sread"); shared_ptr<Conn> c; int d; bool nb; i64 to; { OFile f = getfd(fd); c = f->conn; d = f->side == 0 ? 1 : 0; nb = f->nonblock; to = f->rcvto; } if (e > 0) { c->reset = true; return -e; }
        if (nb && c->buf[d].empty() && !c->eof[d] && !c->reset) return -EAGAIN;
        if (fiber_block_i("sock read", [c, d]() { return !c->buf[d].empty() || c->eof[d] || c->reset; }, to ? S.now + to : -1)) return -EINTR; if (c->buf[d].empty() && !c->eof[d] && !c->reset) { sim_log("sock read timeout"); return -EAGAIN; }
        if (c->reset && c->buf[d].empty()) { sim_log("sock reset"); return -ECONNRESET; }
        if (c->buf[d].empty()) { sim_log("sock eof"); return 0; }
        size_t k = std::min(n, c->buf[d].size()); if (k > 1 && S.k.short_io && decide("short") % S.k.short_io == 0) { k = 1 + decide("shortn") % (k - 1); S.st.faults["short-read"]++; }
        memcpy(buf, c->buf[d].data(), k); c->buf[d].erase(0, k); sim_log("sock read %zu", k); return k;
    }
    return -EBADF;
}
static void sigpipe() { Proc *p = S.cur->proc; post_signal(p, SIGPIPE); if (!p->pending.empty()) deliver_signals(); }
static i64 reg_write(OFile f, const char *b, size_t n) {
    string &d = f->ino->data; if (f->flags & O_APPEND) f->off = d.size(); size_t k = n;
    u64 grow = f->off + n > d.size() ? f->off + n - d.size() : 0;
    if (S.k.disk_limit && grow && S.disk_used + grow > S.k.disk_limit) { u64 room = S.disk_used < S.k.disk_limit ? S.k.disk_limit - S.disk_used : 0; u64 maxn = d.size() + room; if (maxn <= f->off) { S.st.faults["disk-full"]++; sim_log("write ENOSPC (disk full)"); return -ENOSPC; } k = std::min<u64>(n, maxn - f->off); S.st.faults["disk-full-short"]++; }
    if (f->off + k > d.size()) { S.disk_used += f->off + k - d.size(); d.resize(f->off + k); } memcpy(&d[f->off], b, k); f->off += k; f->ino->mtime = f->ino->ctime = S.now + S.clock_skew; f->ino->gen++; fs_changed(); return k;
}
i64 sys_write(int fd, const void *buf, size_t n) {
    int ty = fdtype(fd); sim_yield(); if (ty < 0) return -EBADF; fault_point("kill@"); ty = fdtype(fd); if (ty < 0) return -EBADF; const char *b = (const char *) buf;
    if (ty == OpenFile::REG) {
        int e = fault_point("write"); if (e > 0) { sim_log("write = -%s (injected)", errname(e)); return -e; }
        OFile f = getfd(fd); if ((f->flags & O_ACCMODE) == O_RDONLY) return -EBADF; if (e == -1 && n > 1) { n = 1 + decide("shortw") % (n - 1); sim_log("short write"); }
        size_t done = 0; while (done < n || n == 0) { size_t c = n - done; if (S.k.wr_chunk && c > S.k.wr_chunk) c = S.k.wr_chunk; i64 r = reg_write(f, b + done, c); if (r < 0) return done ? (i64) done : r; done += r; if ((size_t) r < c || n == 0) break; if (done < n) { sim_yield(); fault_point("kill@"); } }
        sim_log("write %zu %lx", done, (unsigned long) (hbytes(b, done) & 0xffff)); return done;
    }
    if (ty == OpenFile::DEV) { OFile f = getfd(fd); return f->ino->dev == 2 ? -ENOSPC : (i64) n; }
    if (ty == OpenFile::PIPE_W) {
        shared_ptr<Pipe> p; bool nb; { OFile f = getfd(fd); p = f->pipe; nb = f->nonblock; } size_t done = 0; bool atomic = n <= 4096 && n <= p->cap;
        while (done < n) {
            if (p->readers == 0) { sim_log("EPIPE"); sigpipe(); return -EPIPE; }
            size_t room = p->buf.size() < p->cap ? p->cap - p->buf.size() : 0;
            if (atomic ? room >= n : room > 0) { size_t k = std::min(room, n - done); p->buf.append(b + done, k); p->total += k; done += k; continue; }
            if (nb) return done ? (i64) done : -EAGAIN;
            if (fiber_block_i("pipe write", [p, atomic, n]() { return p->readers == 0 || (atomic ? p->cap >= p->buf.size() + n : p->buf.size() < p->cap); })) return done ? (i64) done : -EINTR;
        }
        sim_log("pipe write %zu", done); Proc *me = S.cur->proc; if (fd == 2) { me->errtail.append(b, done); if (me->errtail.size() > 600) me->errtail.erase(0, me->errtail.size() - 400); } return done;
    }
    if (ty == OpenFile::SOCK) {
        int e = fault_point("swrite"); shared_ptr<Conn> c; int side, d; bool nb; i64 to; { OFile f = getfd(fd); c = f->conn; side = f->side; d = side == 0 ? 0 : 1; nb = f->nonblock; to = f->sndto; } if (e > 0) c->reset = true;
        size_t done = 0; while (done < n) {
            if (c->reset || c->closed[1 - side]) { sim_log("sock write EPIPE"); int er = c->reset && !c->closed[1 - side] ? ECONNRESET : EPIPE; c->reset = true; if (er == EPIPE) sigpipe(); return -er; }
            size_t room = c->buf[d].size() < c->cap[d] ? c->cap[d] - c->buf[d].size() : 0; if (room) { size_t k = std::min(room, n - done); bool sh = false; if (k > 1 && S.k.short_io && decide("shortsw") % S.k.short_io == 0) { k = 1 + decide("shortswn") % (k - 1); S.st.faults["short-write"]++; sh = true; } c->buf[d].append(b + done, k); c->total[d] += k; done += k; if (sh) break; continue; }
            if (nb) return done ? (i64) done : -EAGAIN; if (fiber_block_i("sock write", [c, d, side]() { return c->reset || c->closed[1 - side] || c->buf[d].size() < c->cap[d]; }, to ? S.now + to : -1)) return done ? (i64) done : -EINTR; if (!c->reset && !c->closed[1 - side] && c->buf[d].size() >= c->cap[d]) { sim_log("sock write timeout"); return done ? (i64) done : -EAGAIN; }
        }
        sim_log("sock write %zu", done); return done;
    }
    return -EBADF;
}
i64 sys_close(int fd) {
    sim_yield(); fault_point("kill@"); Proc *p = S.cur->proc; auto it = p->fds.find(fd); if (it == p->fds.end()) { sim_log("close EBADF"); return -EBADF; }
    OFile f = it->second; p->fds.erase(fd); p->cloexec.erase(fd); int e = 0; if (f->type == OpenFile::REG && (f->flags & O_ACCMODE) != O_RDONLY) e = fault_point("close"); sim_log("close%s", e > 0 ? " (injected error)" : ""); return e > 0 ? -e : 0;
}
i64 sys_lseek(int fd, i64 off, int wh) { sim_yield(); OFile f = getfd(fd); if (!f) return -EBADF; if (f->type != OpenFile::REG) return f->type == OpenFile::DIR ? 0 : -ESPIPE; i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64) f->off : (i64) f->ino->data.size(); if (b + off < 0) return -EINVAL; f->off = b + off; return f->off; }
static void fillstat(INode n, struct stat *st) {
    memset(st, 0, sizeof *st); st->st_dev = 1; st->st_ino = n->ino; st->st_nlink = n->nlink; st->st_mode = n->mode | (n->type == Inode::FILE ? S_IFREG : n->type == Inode::DIR ? S_IFDIR : n->type == Inode::LINK ? S_IFLNK : n->type == Inode::FIFO ? S_IFIFO : S_IFCHR);
    st->st_size = n->type == Inode::DIR ? 4096 : n->procfs ? 0 : n->data.size(); st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512; st->st_mtim.tv_sec = n->mtime / SEC; st->st_mtim.tv_nsec = n->mtime % SEC; st->st_ctim.tv_sec = n->ctime / SEC; st->st_ctim.tv_nsec = n->ctime % SEC; st->st_atim = st->st_mtim;
    if (n->type == Inode::DIR) { int k = 2; for (auto &e : n->ent) if (e.second->type == Inode::DIR) k++; st->st_nlink = k; }
}
i64 sys_stat(const string &path, struct stat *st, bool follow, const char *sc) { ENTER(sc); Res r = resolve(path, follow); if (r.err || !r.node) { int e = r.err ? r.err : ENOENT; sim_log("%s %s = %s", sc, path.c_str(), errname(e)); return -e; } fillstat(r.node, st); sim_log("%s %s", sc, path.c_str()); return 0; }
i64 sys_fstat(int fd, struct stat *st) { sim_yield(); OFile f = getfd(fd); if (!f) return -EBADF; if (f->ino) fillstat(f->ino, st); else { memset(st, 0, sizeof *st); st->st_mode = (f->type == OpenFile::PIPE_R || f->type == OpenFile::PIPE_W ? S_IFIFO : S_IFSOCK) | 0600; } return 0; }
i64 sys_mkdir(const string &path, mode_t m) { ENTER("mkdir"); Res r = resolve(path, false); i64 v = r.err == ENOTDIR && r.node ? -EEXIST : r.err ? -r.err : r.node ? -EEXIST : r.dir->nlink == 0 ? -ENOENT : 0; sim_log("mkdir %s = %s", path.c_str(), v ? errname(-v) : "0"); if (v) return v; link_into(r.dir, r.name, mknode(Inode::DIR, m & ~S.cur->proc->umask_ & 07777)); fs_changed(); return 0; }
i64 sys_rmdir(const string &path) {
    ENTER("rmdir"); Res r = resolve(path, false); i64 v = r.err ? -r.err : !r.node ? -ENOENT : r.name == "." ? -EINVAL : r.name == ".." ? -ENOTEMPTY : r.node->type != Inode::DIR ? -ENOTDIR : !r.node->ent.empty() ? -ENOTEMPTY : r.node == S.root ? -EBUSY : 0; sim_log("rmdir %s = %s", path.c_str(), v ? errname(-v) : "0"); if (v) return v;
    r.dir->ent.erase(r.name); r.node->nlink = 0; r.dir->mtime = S.now + S.clock_skew; fs_changed(); return 0;
}
i64 sys_unlink(const string &path) {
    ENTER("unlink"); Res r = resolve(path, false); i64 v = r.err ? -r.err : !r.node ? -ENOENT : r.node->type == Inode::DIR ? -EISDIR : 0; sim_log("unlink %s = %s", path.c_str(), v ? errname(-v) : "0"); if (v) return v;
    r.dir->ent.erase(r.name); r.node->nlink--; if (r.node->nlink == 0 && r.node->type == Inode::FILE) S.disk_used -= r.node->data.size(); r.dir->mtime = S.now + S.clock_skew; fs_changed(); return 0;
}
static bool is_under(INode n, INode anc) { for (int i = 0; i < 300 && n; i++) { if (n == anc) return true; INode p = n->parent.lock(); if (p == n) return false; n = p; } return false; }
i64 sys_rename(const string &a, const string &b) {
    ENTER("rename"); Res x = resolve(a, false), y = resolve(b, false); i64 v = 0;
    if (x.err) v = -x.err; else if (!x.node) v = -ENOENT; else if (y.err) v = -y.err; else if (x.name == "." || x.name == ".." || y.name == "." || y.name == "..") v = -EBUSY; else if (y.dir->nlink == 0) v = -ENOENT;
    else if (y.node == x.node) v = 1; else if (x.node->type == Inode::DIR) { if (is_under(y.dir, x.node)) v = -EINVAL; else if (y.node && y.node->type != Inode::DIR) v = -ENOTDIR; else if (y.node && !y.node->ent.empty()) v = -ENOTEMPTY; } else if (y.node && y.node->type == Inode::DIR) v = -EISDIR; else if (!y.node && y.trailing) v = -ENOTDIR;
    sim_log("rename %s %s = %s", a.c_str(), b.c_str(), v < 0 ? errname(-v) : "0"); if (v < 0) return v; if (v == 1) return 0;
    if (y.node) { y.node->nlink = y.node->type == Inode::DIR ? 0 : y.node->nlink - 1; if (y.node->nlink == 0 && y.node->type == Inode::FILE) S.disk_used -= y.node->data.size(); } x.dir->ent.erase(x.name); link_into(y.dir, y.name, x.node); x.dir->mtime = S.now + S.clock_skew; fs_changed(); return 0;
}
i64 sys_link(const string &a, const string &b) { ENTER("link"); Res x = resolve(a, false), y = resolve(b, false); i64 v = x.err ? -x.err : !x.node ? -ENOENT : x.node->type == Inode::DIR ? -EPERM : y.err ? -y.err : y.node ? -EEXIST : 0; sim_log("link %s %s = %s", a.c_str(), b.c_str(), v ? errname(-v) : "0"); if (v) return v; link_into(y.dir, y.name, x.node); x.node->nlink++; fs_changed(); return 0; }
i64 sys_symlink(const string &t, const string &path) { ENTER("symlink"); Res r = resolve(path, false); i64 v = r.err ? -r.err : r.node ? -EEXIST : t.empty() ? -ENOENT : r.trailing ? -ENOENT : 0; sim_log("symlink %s %s = %s", t.c_str(), path.c_str(), v ? errname(-v) : "0"); if (v) return v; auto n = mknode(Inode::LINK, 0777); n->data = t; link_into(r.dir, r.name, n); fs_changed(); return 0; }
i64 sys_readlink(const string &path, string &out) { ENTER("readlink"); Res r = resolve(path, false); i64 v = r.err ? -r.err : !r.node ? -ENOENT : r.node->type != Inode::LINK ? -EINVAL : 0; sim_log("readlink %s", path.c_str()); if (v) return v; out = r.node->data; return out.size(); }
i64 sys_chdir(const string &path) { ENTER("chdir"); Res r = resolve(path, true); i64 v = r.err ? -r.err : !r.node ? -ENOENT : r.node->type != Inode::DIR ? -ENOTDIR : 0; sim_log("chdir %s = %s", path.c_str(), v ? errname(-v) : "0"); if (v) return v; S.cur->proc->cwd = r.node; return 0; }
i64 sys_getcwd(string &out) { ENTER("getcwd"); INode n = S.cur->proc->cwd; if (!n || (n->nlink == 0 && n != S.root)) return -ENOENT; out = fs_path_of(n); if (out[0] == '?') return -ENOENT; return 0; }
i64 sys_access(const string &path, int mode) { ENTER("access"); Res r = resolve(path, true); i64 v = r.err ? -r.err : !r.node ? -ENOENT : ((mode & X_OK) && r.node->type == Inode::FILE && !(r.node->mode & 0111)) ? -EACCES : 0; sim_log("access %s = %s", path.c_str(), v ? errname(-v) : "0"); return v; }
static int realpath_rec(INode base, const string &path, vector<string> &acc, INode &cur, int &budget) {
    if (!path.empty() && path[0] == '/') { acc.clear(); cur = S.root; } else cur = base;
    for (auto &c : split(path, '/')) {
        if (c.empty() || c == ".") { if (cur->type != Inode::DIR) { if (!c.empty()) return ENOTDIR; } continue; } if (cur->type != Inode::DIR) return ENOTDIR; if (c == "..") { INode u = cur->parent.lock(); if (!u) return ENOENT; cur = u; if (!acc.empty()) acc.pop_back(); continue; }
        auto it = cur->ent.find(c); if (it == cur->ent.end()) return ENOENT;
        if (it->second->type == Inode::LINK) { if (--budget < 0) return ELOOP; INode nn; int e = realpath_rec(cur, it->second->data, acc, nn, budget); if (e) return e; cur = nn; continue; }
        acc.push_back(c); cur = it->second;
    }
    return 0;
}
string fs_realpath(const string &path) { vector<string> acc; INode cur; int b = 40; return realpath_rec(S.root, path, acc, cur, b) ? "" : "/" + join(acc, "/"); } // absolute paths, no faults
i64 sys_realpath(const string &path, string &out) {
    ENTER("realpath"); if (path.empty()) return -ENOENT; vector<string> acc; INode cur, base = S.cur->proc->cwd; int budget = 40;
    if (path[0] != '/') { string cw = fs_path_of(base); if (cw[0] == '?') return -ENOENT; for (auto &c : split(cw, '/')) if (!c.empty()) acc.push_back(c); }
    int e = realpath_rec(base, path, acc, cur, budget); sim_log("realpath %s = %s", path.c_str(), e ? errname(e) : "ok"); if (e) return -e; if (path.back() == '/' && cur->type != Inode::DIR) return -ENOTDIR; out = "/" + join(acc, "/"); return 0;
}
i64 sys_readdir_all(const string &path, vector<std::pair<string, int>> &out, INode *ino) {
    ENTER("opendir"); Res r = resolve(path, true); i64 v = r.err ? -r.err : !r.node ? -ENOENT : r.node->type != Inode::DIR ? -ENOTDIR : 0; sim_log("opendir %s = %s", path.c_str(), v ? errname(-v) : "0"); if (v) return v;
    vector<std::pair<u64, std::pair<string, int>>> t; auto add = [&](const string &n, int ty) { t.push_back({S.k.dir_order ? hcomb(S.k.dir_order, hstr(n)) : 0, {n, ty}}); };
    add(".", 4); add("..", 4); for (auto &e : r.node->ent) add(e.first, e.second->type == Inode::DIR ? 4 : e.second->type == Inode::LINK ? 10 : e.second->type == Inode::FILE ? 8 : 2);
    std::stable_sort(t.begin(), t.end(), [](auto &a, auto &b) { return a.first < b.first; }); for (auto &e : t) out.push_back(e.second); if (ino) *ino = r.node; return 0;
}
int sys_dirfd(INode n) { auto f = std::make_shared<OpenFile>(); f->ino = n; f->flags = O_RDONLY | O_DIRECTORY | O_CLOEXEC; f->type = OpenFile::DIR; f->path = fs_path_of(n); return newfd(S.cur->proc, f, 0, true); }
i64 sys_pipe(int fds[2], int flags) {
    ENTER("pipe"); auto p = std::make_shared<Pipe>(); p->cap = S.k.pipe_cap; p->id = S.nextid++; OFile r = of_pipe_r(p), w = of_pipe_w(p); if (flags & O_NONBLOCK) r->nonblock = w->nonblock = true;
    fds[0] = newfd(S.cur->proc, r, 0, flags & O_CLOEXEC); fds[1] = newfd(S.cur->proc, w, 0, flags & O_CLOEXEC); sim_log("pipe"); return 0;
}
i64 sys_dup2(int a, int b, bool) { sim_yield(); OFile f = getfd(a); if (!f) return -EBADF; if (a != b) { S.cur->proc->fds[b] = f; S.cur->proc->cloexec[b] = false; } sim_log("dup2"); return b; }
i64 sys_dup(int a, int min) { ENTER("dup"); OFile f = getfd(a); if (!f) return -EBADF; return newfd(S.cur->proc, f, min); }
i64 sys_chmod(const string &p, mode_t m) { ENTER("chmod"); Res r = resolve(p, true); if (r.err || !r.node) return r.err ? -r.err : -ENOENT; r.node->mode = m & 07777; return 0; }
i64 sys_utimens(const string &p, i64 mt, bool follow) { ENTER("utimens"); Res r = resolve(p, follow); if (r.err || !r.node) return r.err ? -r.err : -ENOENT; r.node->mtime = mt; return 0; }
i64 sys_truncate_ino(INode n, u64 len) { S.disk_used += len; S.disk_used -= n->data.size(); n->data.resize(len); n->mtime = n->ctime = S.now + S.clock_skew; n->gen++; fs_changed(); return 0; }
i64 sys_nanosleep(i64 ns) { sim_yield(); i64 t = S.now + ns; sim_log("sleep %lld", (long long) ns); return fiber_block_i("sleep", nullptr, t) ? -EINTR : 0; }

// processes: fork / exec / wait / spawn
i64 sys_fork() {
    ENTER("fork"); Fiber *f = S.cur; Proc *P = f->proc; PProc C = mkproc(P, strf("%s.%d", P->key.c_str(), ++P->nchild));
    C->prog = P->prog; C->argv = P->argv; C->env = P->env; C->cwd = P->cwd; C->fds = P->fds; C->cloexec = P->cloexec; C->umask_ = P->umask_; for (int i = 0; i < 65; i++) C->sa[i] = P->sa[i]; C->sigmask = P->sigmask; C->img = P->img; C->heap = P->heap; C->files = P->files; C->dirs = P->dirs; C->nextfile = P->nextfile; C->f_in = P->f_in; C->f_out = P->f_out; C->f_err = P->f_err; C->borrowed = true; C->faultable = P->faultable; C->exe = P->exe; C->catexit = P->catexit; C->is_stub = P->is_stub;
    sim_log("fork -> %s", C->key.c_str()); ask = ASK_FORK; ask_child = std::move(C); to_host(); // no counted reference may live on the stack that is about to be duplicated
    return S.cur->fork_ret;
}
static string prog_of(const string &path, int &err, vector<string> &argv) {
    Res r = resolve(path, true); if (r.err) { err = r.err; return ""; } if (!r.node) { err = ENOENT; return ""; } if (r.node->type != Inode::FILE || !(r.node->mode & 0111)) { err = EACCES; return ""; }
    if (!r.node->prog.empty()) return r.node->prog;
    if (starts_with(r.node->data, "#!/bin/sh")) { vector<string> a = {"/bin/sh", path}; for (size_t i = 1; i < argv.size(); i++) a.push_back(argv[i]); argv = a; return "sh"; }
    err = ENOEXEC; return "";
}
static void exec_into(PProc p, const string &prog, const vector<string> &argv, const map<string, string> &env, const string &path) {
    for (auto it = p->cloexec.begin(); it != p->cloexec.end();) { if (it->second) { p->fds.erase(it->first); it = p->cloexec.erase(it); } else ++it; }
    for (int i = 0; i < 65; i++) if (p->sa[i].h != SIG_IGN) p->sa[i] = SigAct(); p->prog = prog; p->argv = argv; p->env = env; p->exe = path; p->catexit.clear(); p->atexit_.clear(); p->key += ":" + prog; p->hkey = hstr(p->key); p->heap = std::make_shared<Heap>();
    sim_log("exec %s", join(argv, " ").substr(0, 500).c_str()); if (S.on_exec) S.on_exec(*p, argv); start_image(p);
}
i64 sys_exec(const string &path, const vector<string> &argv0, const map<string, string> &env) {
    ENTER("exec"); vector<string> argv = argv0; int e = 0; string prog = prog_of(path, e, argv); if (prog.empty()) { sim_log("exec %s = %s", path.c_str(), errname(e)); return -e; }
    Fiber *f = S.cur; Proc *p = f->proc; PProc pp = find_proc(p->pid);
    if (p->borrowed) { p->borrowed = false; p->img = nullptr; // fiber goes back to the parent; the process gets a new one
        vector<string> av = argv; exec_into(pp, prog, av, env, path); p->borrowed = false;
        // unfork frees f from this proc
        { auto sn = f->forks.back(); (void) sn; } ask = ASK_UNFORK; 
        auto h = p->heap; auto fb = p->fibers; to_host(); abort(); }
    for (auto &x : S.fibers) if (x->proc == p && x.get() != f) x->st = Fiber::DONE;
    heap_release(p); if (p->img && p->img->resident == p->pid) p->img->resident = 0; exec_into(pp, prog, argv, env, path); f->st = Fiber::DONE; ask = ASK_DONE; to_host(); abort();
}
i64 sys_spawn(const vector<string> &argv0, const map<string, string> &env, map<int, int> fdmap, const vector<SpawnOp> *ops, const string *file) {
    ENTER("fork"); Proc *P = S.cur->proc; vector<string> argv = argv0; string path = file ? *file : argv[0].find('/') != string::npos ? argv[0] : find_in_path(argv[0], env); if (path.empty()) return -ENOENT; int e = 0; string prog = prog_of(path, e, argv); if (prog.empty()) return -e;
    PProc C = mkproc(P, strf("%s.%d", P->key.c_str(), ++P->nchild)); C->env = env; C->cwd = P->cwd; for (auto &m : fdmap) { auto it = P->fds.find(m.second); if (it != P->fds.end()) C->fds[m.first] = it->second; }
    if (ops) { auto fds = P->fds; auto ce = P->cloexec; for (auto &o : *ops) { if (o.kind == 0) { auto it = fds.find(o.a); if (it == fds.end()) { e = EBADF; break; } fds[o.b] = OFile(it->second); ce[o.b] = false; } else if (o.kind == 1) fds.erase(o.a); else fds[o.a] = o.of, ce[o.a] = false; } if (e) { S.procs.erase(C->pid); S.st.procs--; return -e; } for (auto &kv : fds) if (!ce[kv.first]) C->fds[kv.first] = kv.second; } else
    for (auto &kv : P->fds) if (kv.first > 2 && !P->cloexec[kv.first] && !C->fds.count(kv.first)) C->fds[kv.first] = kv.second; // inherited descriptors
    for (int i = 0; i < 65; i++) if (P->sa[i].h == SIG_IGN) C->sa[i] = P->sa[i]; C->faultable = P->faultable; exec_into(C, prog, argv, env, path); return C->pid;
}
i64 sys_waitpid(int pid, int *status, int options) {
    sim_yield(); fault_point("kill@"); int me = S.cur->proc->pid; auto find = [me, pid](bool any) -> PProc { for (auto &kv : S.procs) { auto &p = kv.second; if (p->ppid == me && !p->reaped && (pid == -1 || pid == 0 || p->pid == pid) && (any || p->zombie)) return p; } return nullptr; };
    if (!find(true)) return -ECHILD; if (options & 1 /*WNOHANG*/) { if (!find(false)) return 0; }
    if (fiber_block_i("waitpid", [find]() { return find(false) || !find(true); })) return -EINTR;
    PProc z = find(false); if (!z) return -ECHILD; z->zombie = false; z->reaped = true; if (status) *status = z->status; sim_log("waitpid %s = %x", z->key.c_str(), z->status); return z->pid;
}

// ---------------------------------------------------------------- open-file helpers
OFile of_null() { auto f = std::make_shared<OpenFile>(); f->type = OpenFile::DEV; f->ino = fs_lookup("/dev/null"); return f; }
OFile of_pipe_r(shared_ptr<Pipe> p) { auto f = std::make_shared<OpenFile>(); f->type = OpenFile::PIPE_R; f->pipe = p; p->readers++; return f; }
OFile of_pipe_w(shared_ptr<Pipe> p) { auto f = std::make_shared<OpenFile>(); f->type = OpenFile::PIPE_W; f->pipe = p; p->writers++; return f; }
OFile of_file(const string &path, int flags) { auto f = std::make_shared<OpenFile>(); f->type = OpenFile::REG; INode n = fs_lookup(path); if (!n) n = fs_write(path, ""); if (n->type == Inode::DEV) f->type = OpenFile::DEV; f->ino = n; f->flags = flags; if (flags & O_TRUNC) n->data.clear(); return f; }

// ---------------------------------------------------------------- network for harness actors
bool net_listening(int port) { for (auto &l : S.listeners) if (l->port == port && l->listening && !l->closed) return true; return false; }
shared_ptr<Conn> net_connect(int port) {
    sim_yield(); for (auto &l : S.listeners) if (l->port == port && l->listening && !l->closed) { auto c = std::make_shared<Conn>(); c->id = S.nextid++; c->cap[0] = c->cap[1] = S.k.sock_cap; l->q.push_back(c); sim_log("connect %lu", (unsigned long) c->id); return c; }
    sim_log("connect refused"); return nullptr;
}
i64 net_send(Conn &c, const string &d) { sim_yield(); size_t done = 0; Conn *cp = &c; while (done < d.size()) { if (c.reset || c.closed[1]) { c.reset = true; return -EPIPE; } size_t room = c.buf[0].size() < c.cap[0] ? c.cap[0] - c.buf[0].size() : 0; if (room) { size_t k = std::min(room, d.size() - done); c.buf[0].append(d, done, k); done += k; } else fiber_block("client send", [cp]() { return cp->reset || cp->closed[1] || cp->buf[0].size() < cp->cap[0]; }); } sim_log("client send %zu", done); return done; }
i64 net_recv(Conn &c, string &out, size_t max, i64 to) {
    sim_yield(); Conn *cp = &c; fiber_block("client recv", [cp]() { return !cp->buf[1].empty() || cp->eof[1] || cp->reset; }, to < 0 ? -1 : S.now + to);
    if (!c.buf[1].empty()) { size_t k = std::min(max, c.buf[1].size()); out.append(c.buf[1], 0, k); c.received.append(c.buf[1], 0, k); c.buf[1].erase(0, k); sim_log("client recv %zu", k); return k; }
    if (c.eof[1]) { sim_log("client eof"); return 0; } if (c.reset) { sim_log("client reset"); return -ECONNRESET; } return -ETIMEDOUT;
}
void net_shutdown_wr(Conn &c) { sim_yield(); c.eof[0] = true; }
void net_close(Conn &c) { sim_yield(); sim_log("client close"); c.closed[0] = true; c.eof[0] = true; if (!c.buf[1].empty()) c.reset = true; }
void net_reset(Conn &c) { sim_yield(); sim_log("client reset"); c.reset = true; c.closed[0] = true; c.buf[0].clear(); }
