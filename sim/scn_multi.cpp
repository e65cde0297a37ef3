// Several blogc-make processes in the same site at the same time (C24).
#include "mk.h"
#include <algorithm>

static const vector<string> MRULES = {"index", "atom", "atom_tags", "pagination", "pagination_tags", "posts", "tags", "pages", "copy"};
static void gen(Plan &p, Rng &r) {
    static const vector<string> OD = {"out", "a/b/out/", "/abs/out", "", "./o"}; p.par["odset"] = r.chance(.3) ? "1" : "0"; p.par["outdir"] = r.pick(OD); p.par["dev"] = r.chance(.15) ? "1" : "0"; p.par["emb"] = r.chance(.15) ? "1" : "0";
    gen_site(p, r, 3, r.chance(.4)); Site s; sim_reset(p.k); s.init("/w/site", "", false); { auto ops = p.ops; for (auto &o : ops) s.apply(o, false); }
    auto edits = [&](int n) { for (int i = 0; i < n; i++) { Op o = gen_edit(p, r, s); s.apply(o, true); p.ops.push_back(o); } };
    auto rules = [&]() -> string { if (r.chance(.55)) return "all"; string x; int k = r.range(1, 3); for (int i = 0; i < k; i++) x += (i ? " " : "") + r.pick(MRULES); return x; };
    int victim = -1, mode = (int) r.below(10); /* 0-4 undisturbed, 5-6 edits, 7-8 one process is disturbed, 9 a process cleans */ int rounds = r.range(1, 3); bool vict = mode == 7 || mode == 8;
    if (r.chance(.3)) { p.op({"build", "0", rules(), "q"}); p.op({"go"}); if (r.chance(.7)) edits(r.range(1, 3)); }
    for (int q = 0; q < rounds; q++) {
        if (q) { edits(r.range(0, 3)); if (r.chance(.3)) p.op({"rmout", strf("%d", (int) r.below(1000))}); }
        int n = r.chance(.6) ? 2 : r.range(3, 4); i64 span = r.chance(.5) ? 1 : r.chance(.5) ? 300 : 5000; victim = vict ? (int) r.below(n) : -1; bool watch = r.chance(.2);
        for (int i = 0; i < n; i++) { string at = strf("%lld", (long long) r.below(span)); if (watch && i == 0) p.op({"build", at, "watch", i == victim ? "f" : "q"}); else if (mode == 9 && i == n - 1) p.op({"build", at, "clean", "q"}); else p.op({"build", at, rules(), i == victim ? "f" : "q"}); }
        if (mode == 5 || mode == 6) { int k = r.range(1, 3); for (int i = 0; i < k; i++) { Op e = gen_edit(p, r, s); s.apply(e, true); Op o = {"during", strf("%d", r.chance(.7) ? r.range(0, 3000) : r.range(0, 20000))}; o.insert(o.end(), e.begin(), e.end()); p.ops.push_back(o); } }
        p.op({"go"});
    }
    auto &k = p.k; if (mode == 6) { p.par["editat"] = "1"; k.fault_sc = {"kill@", "EDIT"}; k.fault_max = 9; k.fault_rate = r.chance(.5) ? r.range(2, 15) : r.range(15, 600); }
    if (vict) { int m = (int) r.below(5); k.fault_max = r.chance(.6) ? 1 : r.range(2, 5); if (m < 2) { k.fault_sc = {"kill@", "KILLPG"}; k.fault_rate = r.range(10, 1500); } else if (m == 2) { k.fault_sc = {"kill@", "INTPG"}; k.fault_rate = r.range(10, 1500); } else if (m == 3) { k.fault_sc = {"write", "close", "creat", "rename", "mkdir", "mkstemp", "utimens", "unlink"}; k.fault_rate = r.range(3, 60); } else { k.fault_sc = {"read", "open", "write", "close", "creat", "mkdir", "stat", "rename", "pipe", "fork", "exec", "malloc", "kill@", "opendir", "mkstemp"}; k.fault_rate = r.range(20, 2000); } }
    if (r.chance(.2)) k.wr_chunk = r.range(1, 4000); if (r.chance(.1)) k.short_io = r.range(1, 5); if (r.chance(.1)) k.pipe_cap = r.range(4096, 8192); if (r.chance(.3)) { k.stall_rate = r.range(100, 3000); k.stall_ns = r.range(1, 50) * MS; } if (r.chance(.35)) { static const vector<string> SL = {"mkdir", "mkdir", "rename", "creat", "open", "stat", "unlink", "close", "utimens", "mkstemp", "access", "rmdir"}; k.slow_sc = {r.pick(SL)}; if (r.chance(.3)) k.slow_sc.insert(r.pick(SL)); k.slow_ns = r.range(1, 40) * MS; } knobs_schedule(p, r, 0); k.sh_exec_last = r.chance(.5); k.step_limit = 6000000; k.compute_limit = 3000000000;
}
static void exec(const Plan &p) {
    if (p.prop != "C24") return; Site s; bool odset = p.get("odset") == "1"; s.init("/w/site", p.get("outdir"), odset); s.m.dev = p.get("dev") == "1"; fs_mkdirs("/abs"); fs_mkdirs("/tmp"); map<string, string> env = g_env; if (odset) env["OUTPUT_DIR"] = p.get("outdir");
    struct Job { Op o; Run r; vector<string> rules; bool victim, watch, clean; string desc; }; vector<Op> jobs, during; int nrun = 0; bool litter = false;
    auto argv = [&](const vector<string> &rules) { vector<string> av = p.get("emb") == "1" ? vector<string>{"/usr/bin/blogc-embedded", "-m"} : vector<string>{"blogc-make"}; if (s.m.dev) av.push_back("-D"); for (auto &q : rules) av.push_back(q); return av; };
    auto kinds = [&]() { u64 n = 0; for (auto &f : S.st.faults) if (f.first != "stall" && f.first != "slow-call" && f.first != "edit-at-call") n += f.second; return n; };
    if (p.get("emb") == "1" && p.seed % 2) fs_remove("/usr/bin/blogc");
    auto alone = [&](const string &label, const string &when) -> bool { // one build, nothing else going on: everything must become current
        Run r = launch(label, argv({"all"}), "/w/site", nullptr, &env); S.now += 1000; string why = sim_run([&]() { return r.p->dead; }, 3600 * SEC); if (S.stop) return false; bool sf; string bad = s.check({"all"}, &sf); string d = strf("a build %s: %s; stderr: %s", when.c_str(), r.p->dead ? run_desc(r).c_str() : "did not end", esc(r.err(), 300).c_str());
        if (!r.p->dead) { violate("C24", "no-termination", d); return false; } if (!r.p->memerr.empty()) { violate("C24", "memory-error", d); return false; } if (sf) return true; if (!r.exited() || r.code()) { violate("C24", "cannot-recover", d); return false; } if (!bad.empty()) { violate("C24", "stale-afterwards", d + "; " + bad); return false; } return true; };
    auto go = [&]() -> bool {
        if (jobs.empty()) return true; vector<shared_ptr<Job>> J; bool ok; string why; auto want = s.expected({"all"}, &ok, &why); bool conc = !during.empty(), clean = false; auto old = fs_tree(s.outabs); u64 n0 = kinds(); S.now += 1000; i64 t0 = S.now; auto pend = std::make_shared<int>(0); std::set<int> vg; auto started = std::make_shared<int>(0); std::set<string> ever0 = s.ever;
        for (auto &o : jobs) { auto j = std::make_shared<Job>(); j->o = o; j->victim = o[3] == "f"; j->watch = o[2] == "watch"; j->clean = o[2] == "clean"; clean = clean || j->clean; for (auto &x : split(o[2], ' ')) if (!x.empty()) j->rules.push_back(x); J.push_back(j); }
        auto begin = [&](shared_ptr<Job> j) { j->r = launch(strf("mk%d", nrun++), argv(j->rules), "/w/site", nullptr, &env); if (j->victim) vg.insert(j->r.p->pgid); ++*started; };
        string descs; for (auto &j : J) { i64 at = t0 + atoll(j->o[1].c_str()) * 1000; if (at <= t0) begin(j); else harness_fiber("starter", [at, j, begin]() { fiber_block("start", nullptr, at); begin(j); }); }
        auto all = [&]() { string x; for (auto &j : J) if (j->r.p) x += strf("%s[%s%s: %s; stderr: %s]", x.empty() ? "" : ", ", j->o[2].c_str(), j->victim ? " (disturbed)" : "", j->r.p->dead ? run_desc(j->r).c_str() : "running", esc(j->r.err(), 200).c_str()); return "blogc-make processes at the same time: " + x + (conc ? "; sources edited meanwhile" : ""); };
        auto doedit = [&s](const Op &d) { Op e(d.begin() + 2, d.end()); bool h = S.in_hook; S.in_hook = true; s.apply(e, true); S.in_hook = h; sim_log("edit %s", join(e, " ").substr(0, 80).c_str()); }; auto todo = std::make_shared<std::deque<Op>>();
        if (p.par.count("editat") && conc) { todo->assign(during.begin(), during.end()); S.on_edit = [todo, doedit]() { if (todo->empty()) return; Op d = todo->front(); todo->pop_front(); if (todo->empty()) S.on_edit = nullptr; doedit(d); }; S.faults_on = true; } else for (auto &d : during) { i64 at = t0 + atoll(d[1].c_str()) * 1000; ++*pend; harness_fiber("editor", [at, d, doedit, pend]() { if (at > S.now) fiber_block("edit", nullptr, at); doedit(d); --*pend; }); }
        bool vict = false; for (auto &j : J) vict = vict || j->victim; if (vict) { S.fault_ok = [&vg](Proc &q, const string &) { return vg.count(q.pgid) > 0; }; S.faults_on = true; }
        map<string, std::pair<u64, u64>> seen; bool exact = ok && !conc; std::set<string> paths; for (auto &x : want) paths.insert(x.first); for (auto &x : old) if (ever0.count(x.first)) paths.insert(x.first);
        auto look = [&](const string &f) { INode n = fs_lookup(s.outabs + "/" + f); auto it = old.find(f); bool had = it != old.end() && it->second[0] != 'd'; if (!n) { if (had && !clean) violate("C24", "output-vanished", all() + "; output " + f + " was there before and is missing meanwhile"); return; } if (n->type != Inode::FILE) return; auto &sn = seen[f]; if (sn.first == n->ino && sn.second == n->gen + 1) return; sn = {n->ino, n->gen + 1}; string c; if (!fs_read(s.outabs + "/" + f, c)) return; auto w = want.find(f); if ((w != want.end() && w->second == c) || (had && it->second.substr(2) == c)) return; violate("C24", "damaged-output", all() + "; output " + f + " held neither its previous nor its new content: " + diff_str(w != want.end() ? w->second : string("(nothing new)"), c)); };
        if (exact) S.on_fs = [&]() { for (auto &f : paths) { if (S.stop) return; look(f); } };
        S.on_exit_ = [&](Proc &q) { if (!exact || clean) return; for (auto &j : J) if (j->r.p.get() == &q && !j->watch && (q.status & 0xff7f) == 0) { bool sf; bool h = S.in_hook; S.in_hook = true; string bad = s.check(j->rules, &sf); S.in_hook = h; if (!sf && !bad.empty()) violate("C24", "exit-0-incomplete", all() + strf("; when '%s' ended with success, ", j->o[2].c_str()) + bad); } };
        size_t nj = J.size(); string w = sim_run([&J, pend, started, nj]() { if (*pend || (size_t) *started < nj) return false; for (auto &j : J) if (!j->r.p->dead && !j->watch) return false; return true; }, 3600 * SEC); bool stop = S.stop; if (!stop) probe(conc ? "round-with-edits" : vict ? "round-with-victim" : clean ? "round-with-clean" : "round-undisturbed");
        S.on_edit = nullptr; if (!vict) S.faults_on = false; while (!todo->empty() && !stop) { Op d = todo->front(); todo->pop_front(); doedit(d); } bool ret = true; bool sf;
        if (!stop && w == "time") { violate("C24", "no-termination", all()); stop = true; }
        for (auto &j : J) if (j->watch && !stop) { PProc pr = j->r.p; if (!vict) { // watching goes on, and soon everything is current
                i64 end = S.now + 15 * SEC; while (S.now < end && !pr->dead && !S.stop) { if (s.check({"all"}, &sf).empty() || sf) break; sim_run([pr]() { return pr->dead; }, SEC); } string bad = s.check({"all"}, &sf); if (pr->dead && !S.stop) violate("C24", "watch-ended", all()); else if (!sf && !bad.empty() && !S.stop) violate("C24", "watch-stale", all() + "; 15 simulated seconds after the last build and edit, " + bad); else probe("watch-and-build"); }
            S.faults_on = false; if (!pr->dead && !S.stop) { signal_pgrp(pr->pgid, SIGINT); sim_run([]() { return leftover_children() == 0; }, 30 * SEC); litter = true; } if (!pr->dead && !S.stop) violate("C24", "no-termination", all()); }
        S.faults_on = false; stop = stop || S.stop; if (!stop && leftover_children()) sim_run([]() { return leftover_children() == 0; }, 60 * SEC); bool faulted = kinds() != n0; S.on_fs = nullptr; S.on_exit_ = nullptr; S.fault_ok = nullptr; jobs.clear(); during.clear(); if (stop || S.stop) return false;
        for (auto &j : J) if (!j->watch) { if (!j->r.p->memerr.empty()) { if (!(j->victim && S.st.faults.count("malloc:ENOMEM"))) violate("C24", "memory-error", all()); } else if (!j->victim && !j->r.exited()) violate("C24", "died-of-signal", all()); else if (!j->victim && exact && !clean && j->r.code()) { bool k; s.expected(j->rules, &k); if (k) violate("C24", faulted ? "other-process-fails" : "build-fails", all()); } }
        litter = litter || faulted || conc;
        if (!litter) { string t; for (auto &x : fs_tree("/tmp")) t += " /tmp/" + x.first; if (!t.empty()) violate("C24", "temp-left", all() + "; left behind:" + t); for (auto &x : fs_tree(s.outabs)) if (x.second[0] != 'd' && !s.ever.count(x.first)) { violate("C24", "temp-left", all() + "; left behind: " + x.first); break; } }
        for (auto &q : fs_tree("/tmp")) fs_remove("/tmp/" + q.first); (void) ret; bool hasall = false; for (auto &j : J) if (!j->victim && !j->watch && !j->clean && j->r.exited() && !j->r.code() && j->rules == vector<string>{"all"}) hasall = true;
        if (hasall && exact && !clean && !faulted) { Snap a = snap_tree(s.outabs); if (!alone(strf("null%d", nrun), "after all of them")) return false; string d = snap_diff(a, snap_tree(s.outabs)); if (!d.empty()) violate("C24", "built-again", all() + "; all of them had succeeded, yet the next build " + d); } else if (conc || clean || faulted) if (!alone(strf("rec%d", nrun), "after " + all())) return false;
        return !S.stop; };
    for (auto &o : p.ops) { const string &c = o[0]; if (c == "build") jobs.push_back(o); else if (c == "during") during.push_back(o); else if (c == "go") { if (!go()) return; } else if (c == "rmout") { bool ok; auto e = s.expected({"all"}, &ok); vector<string> v; for (auto &x : e) if (fs_exists(s.outabs + "/" + x.first)) v.push_back(x.first); if (!v.empty()) fs_remove(s.outabs + "/" + v[atoi(o[1].c_str()) % v.size()]); } else s.apply(o, true); if (S.stop) return; }
    if (!jobs.empty() && !go()) return; alone("final", "at the end");
}
static int reg = (add_scenario("multi", gen, exec), g_checks.push_back({"C24", {{"multi", 1}}}), 0);
