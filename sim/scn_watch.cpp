// blogc-make watch and blogc-make runserver: long-running rebuild loops under edits, faults, signals and server deaths (C08, C09, C11).
#include "mk.h"
#include <algorithm>

static void gen_edits(Plan &p, Rng &r, int n, i64 span_us) { // timed edits, some of them preceded by a half-written file, plus periods during which the site is broken
    Site s; sim_reset(p.k); s.init("/w/site", "", false); for (auto &o : p.ops) s.apply(o, false);
    vector<i64> at; for (int i = 0; i < n; i++) at.push_back(r.chance(.4) ? r.below(span_us) : r.below(60000)); std::sort(at.begin(), at.end());
    for (int i = 0; i < n; i++) {
        i64 t = at[i]; if (i && t < at[i - 1] + 10) at[i] = t = at[i - 1] + 10; double x = r.below(1000) / 1000.0;
        if (x < .2) { if (r.chance(.1)) t = at[i] = at[i] % 2000; vector<string> K = {"cfg", "tmpl", "tmplmiss", "src", "src", "cfgmiss", "copydir", "post", "post", "cfgkey", "cfgname"}; i64 t2 = t + r.range(100, r.chance(.5) ? 3000 : 9000000); p.op({"break", strf("%lld", (long long) t), strf("%lld", (long long) t2), r.pick(K)}); }
        else { Op e = gen_edit(p, r, s); s.apply(e, true); Op o = {"at", strf("%lld", (long long) t), strf("%d", r.chance(.25) ? r.range(1, 4000) : 0)}; o.insert(o.end(), e.begin(), e.end()); p.ops.push_back(o); }
    }
}
static void gen_faults(Plan &p, Rng &r) {
    auto &k = p.k; int m = (int) r.below(8); k.fault_max = r.chance(.5) ? 1 : r.range(2, 8);
    if (m == 0) { k.fault_sc = {"kill@"}; k.fault_rate = r.range(20, 2000); } else if (m == 1) { p.par["disk"] = strf("%d", r.range(0, r.chance(.5) ? 3000 : 20000)); } else if (m == 2) { k.fault_sc = {"read", "open", "stat", "lstat", "fstat"}; k.fault_rate = r.range(5, 300); } else if (m == 3) { k.fault_sc = {"write", "close", "creat", "rename", "mkdir", "mkstemp", "unlink", "utimens"}; k.fault_rate = r.range(3, 60); } else if (m == 4) { k.fault_sc = {"pipe", "fork", "exec", "dup", "waitpid", "poll"}; k.fault_rate = r.range(2, 40); } else if (m == 5) { k.fault_sc = {"opendir", "readdir", "realpath", "access", "stat"}; k.fault_rate = r.range(3, 100); } else if (m == 6) { k.fault_sc = {"malloc"}; k.fault_rate = r.range(200, 20000); }
    else { k.fault_sc = {"read", "open", "write", "close", "creat", "mkdir", "stat", "rename", "unlink", "pipe", "fork", "exec", "malloc", "kill@", "opendir", "readdir", "mkstemp", "poll", "utimens"}; k.fault_rate = r.range(10, 1000); }
    if (r.chance(.2)) k.wr_chunk = r.range(1, 4000); if (r.chance(.2)) k.short_io = r.range(1, 5);
    p.par["faultend"] = strf("%d", r.chance(.5) ? r.range(100, 60000) : r.range(1000, 12000000)); // microseconds after the first build started
}
static void gen_common(Plan &p, Rng &r) {
    static const vector<string> OD = {"out", "a/b/out/", "/abs/out", ""}; p.par["odset"] = r.chance(.3) ? "1" : "0"; p.par["outdir"] = r.pick(OD); p.par["dev"] = r.chance(.2) ? "1" : "0"; p.par["verbose"] = r.chance(.2) ? "1" : "0"; p.par["emb"] = r.chance(.15) ? "1" : "0"; p.par["cwd"] = strf("%d", r.chance(.6) ? 0 : (int) r.below(3));
    if (r.chance(.12)) p.par["links"] = strf("%d", 1 + (int) r.below(100000)); knobs_schedule(p, r, 0); p.k.sh_exec_last = r.chance(.5); p.k.step_limit = 6000000; p.k.compute_limit = 3000000000; if (r.chance(.1)) { p.k.stall_rate = r.range(200, 5000); p.k.stall_ns = r.range(1, 800) * MS; }
}
static void gen_watch(Plan &p, Rng &r) {
    gen_common(p, r); gen_site(p, r, 3, r.chance(.3)); if (r.chance(.85)) gen_edits(p, r, r.range(1, 6), r.chance(.5) ? 3000000 : 20000000); if (r.chance(.5)) gen_faults(p, r); else if (r.chance(.5)) { p.par["editat"] = "1"; p.k.fault_sc = {"kill@", "EDIT"}; p.k.fault_max = 99; p.k.fault_rate = r.range(2, 120); }
    if (p.prop == "C08" && r.chance(.12)) { p.par["intat"] = "1"; p.par.erase("editat"); p.k.fault_sc = {"kill@", "ONLYINT"}; p.k.fault_rate = r.chance(.5) ? r.range(5, 60) : r.range(20, 2000); p.k.fault_max = 1; } else if (r.chance(.3)) p.par["int"] = strf("%d", r.chance(.3) ? r.range(0, 500) : r.chance(.5) ? r.range(0, 60000) : r.range(0, 10000000)); p.par["prebuilt"] = r.chance(.4) ? "1" : "0";
    if (p.prop == "C11" && r.chance(.6)) { static const vector<string> H = {"cfg", "cfgmiss", "cfgkey", "cfgname", "tmpl", "src", "post", "copydir", "sc:mkstemp:ENOSPC", "sc:write:ENOSPC", "sc:creat:EACCES", "sc:fork:EAGAIN", "sc:pipe:EMFILE", "sc:opendir:EACCES", "sc:open:EMFILE", "sc:exec:ENOMEM", "sc:read:EIO", "sc:close:EIO", "sc:stat:EIO", "sc:mkdir:ENOSPC", "sc:rename:EIO", "sc:realpath:EACCES", "sc:utimens:EIO", "sc:poll:ENOMEM", "sc:unlink:EACCES"}; p.par["hold"] = r.pick(H); if (r.chance(.5) || p.par.count("editat")) { p.k.fault_rate = 0; p.k.fault_sc.clear(); p.par.erase("disk"); p.par.erase("editat"); } p.par.erase("int"); p.par.erase("intat"); }
}
struct Live { Site s; Run r; PProc pr; vector<string> av; map<string, string> env; string cwd = "/w/site"; i64 t0 = 0; bool broken = false; int pend = 0; i64 last = 0; bool faults = false; i64 fault_until = -1; string desc(const string &why = "") { return strf("%s: %s; stderr: %s", join(av, " ").c_str(), pr->dead ? run_desc(r).c_str() : ("still running" + (why.empty() ? "" : " (" + why + ")")).c_str(), esc(r.err().size() > 900 ? "..." + r.err().substr(r.err().size() - 900) : r.err(), 900).c_str()); } };
typedef shared_ptr<Live> PLive;
static void fs_half(Live &l, const Op &e) { // what an editor that truncates and writes in two steps leaves half-way
    MSite &m = l.s.m; string f, full; if (e[0] == "post" || e[0] == "page") { f = m.src_path(e[1], e[0] == "post"); full = msrc_unpack(e[2]).text(); } else if (e[0] == "raw") { f = e[1]; full = e[2]; } else if (e[0] == "tmpl") { f = m.tmpl_path(); full = tmpl_text(atoi(e[1].c_str())); } else if (e[0] == "set" || e[0] == "glob") { if (l.s.whole_cfg && l.s.whole_cfg()) return; f = "blogcfile"; full = m.blogcfile(); } else return;
    S.now += 1000; l.s.put(f, full.substr(0, full.size() / 2)); sim_log("half-written %s", f.c_str());
}
static bool has_blog(const MSite &m) { return !m.posts.empty(); }
static void brk(Live &l, const string &kind, bool on) {
    MSite &m = l.s.m; S.now += 1000; sim_log("%s %s", on ? "break" : "repair", kind.c_str()); l.broken = on; string root = l.s.root;
    if (kind == "cfgkey") { MSite c = m; if (on) c.globals["SITE_TAGLINE"] = ""; l.s.put("blogcfile", c.blogcfile()); }
    else if (kind == "cfgname") { MSite c = m; if (on) c.globals["lower"] = "x"; l.s.put("blogcfile", c.blogcfile()); }
    else if (kind == "cfg") { if (on) l.s.put("blogcfile", m.blogcfile() + "\n[broken\n"); else l.s.cfg(); }
    else if (kind == "cfgmiss") { if (on) fs_remove(root + "/blogcfile"); else l.s.cfg(); }
    else if (kind == "tmpl") { if (on) l.s.put(m.tmpl_path(), "{% block listing %}x"); else l.s.put(m.tmpl_path(), tmpl_text(m.tver)); }
    else if (kind == "tmplmiss") { if (on) fs_remove(root + "/" + m.tmpl_path()); else l.s.put(m.tmpl_path(), tmpl_text(m.tver)); }
    else if (kind == "src" || kind == "post") { string f = !m.posts.empty() ? m.src_path(m.posts[0], true) : !m.pages.empty() ? m.src_path(m.pages[0], false) : ""; if (f.empty()) return; if (on) { if (kind == "src") fs_remove(root + "/" + f); else l.s.put(f, "TITLE: x\nno separator"); } else l.s.put(f, m.src[f].text()); }
    else if (kind == "copydir") { if (m.copy.empty() || m.copy[0] != "static") return; if (on) fs_remove(root + "/static"); else for (auto &x : m.raw) if (starts_with(x.first, "static/")) l.s.put(x.first, x.second); }
}
static void start_editor(PLive l, const Plan &p) { // one actor; edits that fall into a broken period are applied after its repair
    struct Ev { i64 t; int kind; Op o; }; auto evs = std::make_shared<vector<Ev>>(); i64 busy = -1; for (auto &o : p.ops) { if (o[0] == "at") { i64 t = std::max<i64>(atoll(o[1].c_str()), busy + 1), h = atoll(o[2].c_str()); Op e(o.begin() + 3, o.end()); if (h) evs->push_back({t, 0, e}); evs->push_back({t + h, 1, e}); busy = t + h; } else if (o[0] == "break") { i64 t = std::max<i64>(atoll(o[1].c_str()), busy + 1), t2 = std::max<i64>(t + 10, atoll(o[2].c_str())); evs->push_back({t, 2, {o[3]}}); evs->push_back({t2, 3, {o[3]}}); busy = t2; } }
    if (evs->empty()) return; l->pend++; bool atcall = p.par.count("editat"); if (atcall) S.faults_on = true; harness_fiber("editor", [l, evs, atcall]() { for (auto &e : *evs) { i64 at = l->t0 + e.t * 1000; if (at > S.now) fiber_block("edit", nullptr, at);
        if (atcall) { auto hit = std::make_shared<bool>(false); auto fire = [l, &e, hit]() { if (*hit) return; *hit = true; S.on_edit = nullptr; bool h = S.in_hook; S.in_hook = true; if (e.kind == 0) fs_half(*l, e.o); else if (e.kind == 1) { l->s.apply(e.o, true); sim_log("edit %s", join(e.o, " ").substr(0, 80).c_str()); } else brk(*l, e.o[0], e.kind == 2); S.in_hook = h; l->last = S.now; }; S.on_edit = fire; fiber_block("edit at call", [hit]() { return *hit; }, S.now + 4 * SEC); if (!*hit) fire(); continue; }
        bool h = S.in_hook; S.in_hook = true; if (e.kind == 0) fs_half(*l, e.o); else if (e.kind == 1) { S.now += 1000; l->s.apply(e.o, true); sim_log("edit %s", join(e.o, " ").substr(0, 80).c_str()); } else brk(*l, e.o[0], e.kind == 2); S.in_hook = h; l->last = S.now; } l->pend--; });
}
static PLive setup(const Plan &p, const string &rule) {
    auto l = std::make_shared<Live>(); bool odset = p.get("odset") == "1"; string od = p.get("outdir"); l->s.linkseed = p.par.count("links") ? (u64) p.geti("links") : 0; l->s.init("/w/site", od, odset); l->s.m.dev = p.get("dev") == "1"; l->env = g_env; if (odset) l->env["OUTPUT_DIR"] = od; fs_mkdirs("/tmp"); fs_mkdirs("/abs"); int cm = (int) p.geti("cwd");
    for (auto &o : p.ops) if (o[0] != "at" && o[0] != "break") { l->s.apply(o, true); }
    if (p.get("emb") == "1") { l->av = {"/usr/bin/blogc-embedded", "-m"}; if (p.seed % 2) { fs_remove("/usr/bin/blogc"); /* it runs itself */ } } else l->av = {"blogc-make"}; if (l->s.m.dev) l->av.push_back("-D"); if (p.get("verbose") == "1") l->av.push_back("-V"); if (cm == 1) { l->cwd = "/w"; l->av.push_back("-f"); l->av.push_back("site/blogcfile"); } else if (cm == 2) { l->cwd = "/"; l->av.push_back("-f/w/site/blogcfile"); }
    if (p.get("prebuilt") == "1") { vector<string> a = l->av; a.push_back("all"); Run r = launch("pre", a, l->cwd, nullptr, &l->env); PProc q = r.p; sim_run([q]() { return q->dead; }, 600 * SEC); }
    l->av.push_back(rule); return l;
}
static bool any_fault(const char *prefix = nullptr) { for (auto &f : S.st.faults) if (f.first != "stall" && f.first != "edit-at-call" && f.first != "short-read" && f.first != "short-write" && (!prefix || starts_with(f.first, prefix))) return true; return S.st.probes.count("enospc"); }
static void arm_faults(PLive l, const Plan &p) { // faults begin once the first build is under way and end after a while
    bool en = p.k.fault_rate || p.par.count("disk") || !p.faults.empty(); if (!en || p.par.count("editat")) return; l->pend++; i64 dur = p.geti("faultend", 1000) * 1000; u64 dl = p.par.count("disk") ? p.geti("disk") + 1 : 0;
    auto begun = std::make_shared<bool>(false); PProc pr = l->pr; S.on_exec = [begun, dl](Proc &, const vector<string> &a) { if (*begun || a.empty() || !ends_with(a[0], "blogc")) return; *begun = true; S.faults_on = true; if (dl) S.k.disk_limit = S.disk_used + dl; };
    harness_fiber("faults-end", [l, begun, dur, pr]() { fiber_block("begin", [begun, pr]() { return *begun || pr->dead; }, S.now + 20 * SEC); fiber_block("faults", nullptr, S.now + dur); *begun = true; S.faults_on = false; S.k.disk_limit = 0; sim_log("faults end"); l->last = S.now; l->pend--; });
}
// a settings file that is rewritten in place while a rule starts may be read half old, half new; once the loop runs that is retried
static void whole_cfg_until_loop(PLive l) { PProc pr = l->pr; l->s.whole_cfg = [pr]() { return pr->sa[SIGINT].h == SIG_DFL; }; }
static void exec_watch(const Plan &p) {
    string prop = p.prop; PLive l = setup(p, "watch"); l->t0 = l->last = S.now; l->r = launch("watch", l->av, l->cwd, nullptr, &l->env); l->pr = l->r.p; whole_cfg_until_loop(l); PProc pr = l->pr; bool intat = p.par.count("intat"); if (intat) { S.fault_ok = [pr](Proc &q, const string &) { return q.pid == pr->pid; }; S.faults_on = true; } else { bool ea = p.par.count("editat"); S.fault_ok = [pr, ea](Proc &q, const string &sc) { return ea || !((sc == "malloc" || sc == "kill@") && q.pid == pr->pid); }; arm_faults(l, p); } start_editor(l, p);
    auto stopped = [&](const string &why) { if (leftover_children() && prop == "C08") violate("C08", "interrupt-ignored", l->desc(why) + strf("; 20 simulated seconds after an interrupt %d processes are still running", leftover_children())); else if (prop == "C08" && pr->dead && !pr->memerr.empty()) violate("C08", "memory-error", l->desc()); };
    if (intat) { auto hit = []() { for (auto &f : S.st.faults) if (f.first == "process-kill") return true; return false; }; sim_run([pr, hit]() { return pr->dead || hit(); }, 15 * SEC); if (!hit() || S.stop) return; probe("interrupted-at-call"); string why = sim_run([]() { return leftover_children() == 0; }, 20 * SEC); stopped(why); return; }
    bool intr = p.par.count("int"); i64 it = p.geti("int") * 1000; if (intr) { l->pend = 0; sim_run([pr]() { return pr->dead; }, it); } else sim_run([pr, l]() { return pr->dead || l->pend == 0; }, 120 * SEC);
    if (intr && !pr->dead) { // the user presses ^C: the whole group gets it
        S.faults_on = false; S.k.disk_limit = 0; signal_pgrp(pr->pgid, SIGINT); sim_log("interrupt"); probe("interrupted"); string why = sim_run([]() { return leftover_children() == 0; }, 20 * SEC); stopped(why); return; }
    if (pr->dead) { probe("watch-ended"); if (!intr && prop == "C08") violate("C08", pr->memerr.empty() ? "watch-ended" : "memory-error", l->desc() + "; watching must go on until it is interrupted"); return; }
    if (intr) return;
    // faults are over and the last edit is made: within a retry, a sleep and a build the outputs must be current
    bool sf = false; i64 lim = 15 * SEC, from = l->last; while (S.now < from + lim && !pr->dead && !S.stop) { string w = sim_run([pr]() { return pr->dead; }, std::min<i64>(SEC, from + lim - S.now)); if (w == "steps") break; if (l->s.check({"all"}, &sf).empty()) break; }
    string bad = l->s.check({"all"}, &sf); if (sf) { probe("model-error"); return; } if (S.stop) return;
    if (pr->dead) { if (prop == "C08") violate("C08", "watch-ended", l->desc() + "; watching must go on until it is interrupted"); return; }
    if (!bad.empty()) { if (prop == "C08") violate("C08", any_fault() ? "stale-after-faults" : "stale", l->desc() + strf("; %lld simulated seconds after the last edit%s: ", (long long) ((S.now - from) / SEC), any_fault() ? " and the last fault" : "") + bad); return; }
    probe("converged");
    // from here on nothing changes: nothing may be written, and nothing may accumulate
    sim_run([pr]() { return pr->dead; }, 7 * SEC); Snap a = snap_tree(l->s.outabs); auto asleep = [pr]() { if (pr->dead) return true; for (auto &f : pr->fibers) if (f->st == Fiber::BLOCKED && !strcmp(f->what, "sleep")) return true; return false; };
    auto sample = [&](u64 &mem, int &fds, int &tmp) { sim_run(asleep, 5 * SEC); mem = pr->heap->live; fds = (int) pr->fds.size(); tmp = (int) fs_tree("/tmp").size(); }; u64 m0, m1; int f0, f1, t0, t1; sample(m0, f0, t0); int kids0 = leftover_children(); sim_run([pr]() { return pr->dead; }, 12 * SEC); if (S.stop) return; sample(m1, f1, t1); int kids1 = leftover_children(); Snap b = snap_tree(l->s.outabs); string d = snap_diff(a, b); bool sf2; string bad2 = l->s.check({"all"}, &sf2);
    if (pr->dead) { if (prop == "C08") violate("C08", "watch-ended", l->desc()); return; }
    if (prop == "C08") { if (!d.empty()) violate("C08", "idle-watch-writes", l->desc() + "; nothing changes any more, yet it " + d); if (!bad2.empty()) violate("C08", "stale", l->desc() + "; " + bad2); }
    if (prop == "C11") { bool unl = any_fault("unlink:") || any_fault("kill"); if (m1 > m0) violate("C11", "watch-memory-grows", l->desc() + strf("; memory in use grew from %llu to %llu bytes in 12 idle seconds", (unsigned long long) m0, (unsigned long long) m1)); if (f1 > f0) violate("C11", "watch-descriptors-grow", l->desc() + strf("; %d open descriptors, %d before", f1, f0)); if (f1 > 4) violate("C11", "watch-descriptors-left", l->desc() + strf("; %d descriptors are open while it sleeps", f1)); if (!unl && t1 > 1 && !any_fault()) violate("C11", "watch-temp-files-accumulate", l->desc() + strf("; %d files in /tmp", t1)); if (kids0 > 1 || kids1 > 1) violate("C11", "watch-children-left", l->desc() + strf("; %d processes besides it", kids1 - 1)); if (t1 > t0) violate("C11", "watch-temp-files-grow", l->desc() + strf("; %d files in /tmp, %d before", t1, t0)); int z = 0; for (auto &kv : S.procs) if (kv.second->zombie && kv.second->ppid == pr->pid) z++; if (z) violate("C11", "watch-zombies", l->desc() + strf("; %d children were never collected", z)); 
        string hold = p.par.count("hold") ? p.get("hold") : ""; if (hold.empty() || S.stop || !S.viol.empty()) return; // trouble that lasts: the same step fails at every retry, and nothing may accumulate meanwhile
        if (starts_with(hold, "sc:")) { for (auto &f : fs_tree(l->s.root)) if (INode n = fs_lookup(l->s.root + "/" + f.first)) if (n->type == Inode::FILE) n->mtime = S.now; size_t c = hold.find(':', 3); S.persist[hold.substr(3, c - 3)] = hold.substr(c + 1); } else brk(*l, hold, true);
        sim_run([pr]() { return pr->dead; }, 17 * SEC); sample(m0, f0, t0); sim_run([pr]() { return pr->dead; }, 35 * SEC); sample(m1, f1, t1); if (S.stop || pr->dead) return; probe("lasting-trouble:" + hold); string wh = "while " + (starts_with(hold, "sc:") ? hold.substr(3) + " fails all the time" : "the site stays broken (" + hold + ")");
        if (m1 > m0) violate("C11", "failing-watch-memory-grows", l->desc() + strf("; memory in use grew from %llu to %llu bytes in 35 seconds ", (unsigned long long) m0, (unsigned long long) m1) + wh); if (f1 > f0) violate("C11", "failing-watch-descriptors-grow", l->desc() + strf("; %d open descriptors, %d before, ", f1, f0) + wh); if (t1 > t0 && !starts_with(hold, "sc:unlink")) violate("C11", "failing-watch-temp-files-grow", l->desc() + strf("; %d files in /tmp, %d before, ", t1, t0) + wh); z = 0; for (auto &kv : S.procs) if (kv.second->zombie && kv.second->ppid == pr->pid) z++; if (z > 1) violate("C11", "failing-watch-zombies", l->desc() + strf("; %d children were never collected, ", z) + wh);
    }
}

// ------------------------------------------------------------ runserver rule
static void gen_serve(Plan &p, Rng &r) {
    gen_common(p, r); gen_site(p, r, 3, false); p.par["prebuilt"] = r.chance(.5) ? "1" : "0"; bool early = r.chance(.22); if (early) p.op({"at", strf("%d", r.chance(.7) ? r.range(0, 3000) : r.range(95000, 110000)), "0", "glob", "SITE_TITLE", "Early title"}), r.chance(.5) ? (p.k.stall_rate = r.range(5, 80), p.k.stall_ns = r.range(100, 800) * MS) : 0; else if (r.chance(.6)) gen_edits(p, r, r.range(1, 4), 8000000); if (p.par["odset"] == "1" && p.par["outdir"] == "") p.par["odset"] = "0";
    int e = (int) r.below(10); if (r.chance(.1)) { p.par["end"] = "int"; p.par["intat"] = "1"; p.k.fault_sc = {"kill@", "ONLYINT"}; p.k.fault_rate = r.chance(.5) ? r.range(5, 60) : r.range(20, 2000); p.k.fault_max = 1; } else p.par["end"] = e < 3 ? "converge" : e < 5 ? "int" : e < 7 ? "die" : e < 8 ? "busy" : e < 9 ? "missing" : "badarg"; if (p.par["end"] == "int" || p.par["end"] == "die") p.par["endat"] = strf("%d", r.chance(.4) ? r.range(0, 3000) : r.chance(.5) ? r.range(0, 60000) : r.range(0, 12000000)); if (p.par["end"] == "die") p.par["sig"] = r.chance(.5) ? "9" : "15"; if (early && r.chance(.6)) { p.par["end"] = "converge"; p.par["editat"] = "1"; p.par["prebuilt"] = "1"; p.ops.back()[1] = "0"; p.k.fault_sc = {"kill@", "EDIT"}; p.k.fault_max = 1; p.k.fault_rate = r.range(2, 14); if (p.k.policy == 2) p.k.policy = 1; p.k.stall_rate = r.range(3, 12); p.k.stall_ns = r.range(20, 200) * MS; } else if (p.par["end"] == "converge" && r.chance(.3)) gen_faults(p, r); if (r.chance(.3)) p.par["threads"] = strf("%d", r.range(1, 4)); p.par["port"] = r.chance(.5) ? "8080" : "9000"; p.par["host"] = r.chance(.6) ? "" : r.chance(.5) ? "127.0.0.1" : "::1";
}
static string http_get(int port, const string &path, int *code) { // simple complete request
    *code = -1; auto c = net_connect(port); if (!c) return ""; string rq = "GET " + path + " HTTP/1.1\r\nHost: x\r\n\r\n", all; if (net_send(*c, rq) < 0) return ""; i64 end = S.now + 30 * SEC; for (;;) { string b; i64 n = net_recv(*c, b, 65536, end - S.now); if (n <= 0) break; all += b; } net_close(*c); size_t h = all.find("\r\n\r\n"); if (h == string::npos || all.size() < 12) return ""; *code = atoi(all.c_str() + 9); return all.substr(h + 4);
}
static void exec_serve(const Plan &p) {
    if (p.prop != "C09") return; string end = p.get("end"); int port = (int) p.geti("port"); string rule = "runserver", args; auto arg = [&](const string &k, const string &v) { args += (args.empty() ? ":" : ",") + k + "=" + v; }; if (port != 8080) arg("port", strf("%d", port)); if (!p.get("host").empty()) arg("host", p.get("host")); if (p.par.count("threads")) arg("threads", p.get("threads")); if (end == "badarg") { args = ":port=notaport"; }
    PLive l = setup(p, rule + args); fs_mkdirs(l->s.outabs); if (end == "missing") { fs_remove("/usr/bin/blogc-runserver"); } if (end == "busy") { auto b = std::make_shared<Listener>(); b->port = port; b->listening = true; S.listeners.push_back(b); }
    l->t0 = l->last = S.now; l->r = launch("serve", l->av, l->cwd, nullptr, &l->env); l->pr = l->r.p; whole_cfg_until_loop(l); PProc pr = l->pr; bool intat = p.par.count("intat"); if (intat) { S.fault_ok = [pr](Proc &q, const string &) { return q.pid == pr->pid; }; S.faults_on = true; } else { bool ea = p.par.count("editat"); S.fault_ok = [pr, ea](Proc &q, const string &) { return ea ? q.pid == pr->pid : q.prog == "blogc"; }; }
    auto server = []() -> PProc { for (auto &kv : S.procs) if (kv.second->prog == "blogc-runserver" && !kv.second->dead) return kv.second; return nullptr; }; start_editor(l, p); if (p.k.stall_rate && p.k.stall_rate < 100) harness_fiber("stalls-end", []() { fiber_block("stalls", nullptr, S.now + 400 * MS); S.k.stall_rate = 0; }); if (end == "converge") arm_faults(l, p);
    auto ended = [&](const char *cls, const string &what, i64 lim) { string why = sim_run([]() { return leftover_children() == 0; }, lim); if (leftover_children() == 0) return true; string ps; bool late = pr->dead && S.intr_at >= 0; for (auto &kv : S.procs) if (!kv.second->harness && !kv.second->dead) { ps += " " + kv.second->prog; if (kv.second->start < S.intr_at || (kv.second->prog != "sh" && kv.second->prog != "blogc-runserver")) late = false; } violate("C09", late && !strcmp(cls, "interrupt-ignored") ? "server-started-after-interrupt" : cls, l->desc(why) + strf("; %lld simulated seconds after %s these processes are still running:%s", (long long) (lim / SEC), what.c_str(), ps.c_str())); return false; };
    if (end == "busy" || end == "missing" || end == "badarg") { // the server cannot start: blogc-make must end, reporting failure
        if (!ended("server-failure-unnoticed", "the server failed to start", 30 * SEC)) return; probe("server-failed"); if (l->r.exited() && l->r.code() == 0) violate("C09", "server-failure-exit-0", l->desc()); else if (!l->r.exited()) violate("C09", "died-of-signal", l->desc()); if (!pr->memerr.empty()) violate("C09", "memory-error", l->desc()); return; }
    if (end == "int" || end == "die") {
        i64 at = p.geti("endat") * 1000; if (intat) { auto hit = []() { return S.st.faults.count("process-kill") > 0; }; sim_run([pr, hit]() { return pr->dead || hit(); }, 15 * SEC); if (!hit() || S.stop) return; probe("interrupted-at-call"); if (!ended("interrupt-ignored", "an interrupt", 40 * SEC)) return; if (!pr->memerr.empty()) violate("C09", "memory-error", l->desc()); return; } sim_run([pr]() { return pr->dead; }, at); if (S.stop) return; if (pr->dead) { violate("C09", "ended-early", l->desc()); return; }
        if (end == "int") { signal_pgrp(pr->pgid, SIGINT); sim_log("interrupt"); probe("interrupted"); if (!ended("interrupt-ignored", "an interrupt", 40 * SEC)) return; if (!pr->memerr.empty()) violate("C09", "memory-error", l->desc()); if (!l->r.exited() && (pr->status & 0x7f) != SIGINT) violate("C09", "died-of-signal", l->desc()); return; }
        sim_run([&]() { return server() != nullptr || pr->dead; }, 20 * SEC); PProc sv = server(); if (!sv) { if (!S.stop) violate("C09", "server-not-started", l->desc()); return; } sim_log("server dies"); proc_kill(sv.get(), atoi(p.get("sig").c_str())); probe("server-killed"); if (!ended("server-death-unnoticed", "the server died", 60 * SEC)) return; if (l->r.exited() && l->r.code() == 0) violate("C09", "server-death-exit-0", l->desc()); if (!pr->memerr.empty()) violate("C09", "memory-error", l->desc()); return; }
    // the server comes up, and after the last edit serves exactly the current site
    sim_run([pr, l]() { return pr->dead || l->pend == 0; }, 120 * SEC); bool sf = false; i64 from = l->last; while (S.now < from + 15 * SEC && !pr->dead && !S.stop) { sim_run([pr]() { return pr->dead; }, SEC); if (l->s.check({"all"}, &sf).empty() && net_listening(port)) break; } if (S.stop) return;
    if (pr->dead) { violate("C09", pr->memerr.empty() ? "ended-early" : "memory-error", l->desc()); return; } if (!net_listening(port)) { violate("C09", "server-not-started", l->desc()); return; } if (p.par.count("threads") && l->r.err().find("(max threads: " + p.get("threads") + ")") == string::npos) { violate("C09", "wrong-arguments", l->desc()); return; } string bad = l->s.check({"all"}, &sf); if (sf) return; if (!bad.empty()) { violate("C09", "stale", l->desc() + "; " + bad); return; }
    bool ok; auto want = l->s.expected({"all"}, &ok); int n = 0; auto fail = std::make_shared<string>(); auto left = std::make_shared<int>(0); for (auto &x : want) { if (n++ >= 6) break; bool odd = false; for (unsigned char ch : x.first) if (!isalnum(ch) && !strchr("/._-", ch)) odd = true; if (odd) continue; ++*left; harness_fiber(strf("get%d", n), [x, port, fail, left]() { int code; string b = http_get(port, "/" + x.first, &code); if (code != 200 || b != x.second) *fail = strf("GET /%s answered %d with %zu bytes: %s", x.first.c_str(), code, b.size(), diff_str(x.second, b).c_str()); --*left; }); }
    sim_run([left]() { return *left == 0; }, 60 * SEC); if (S.stop) return; if (*left) *fail = "a request was not answered within 60 simulated seconds"; if (!fail->empty()) { violate("C09", "not-served", l->desc() + "; " + *fail); return; } probe("served");
}
static int reg = (add_scenario("watch", gen_watch, exec_watch), add_scenario("serve", gen_serve, exec_serve), g_checks.push_back({"C08", {{"watch", 1}}}), g_checks.push_back({"C09", {{"serve", 1}}}), g_checks.push_back({"C11", {{"watch", 1}, {"mk", 1}}}), 0);
