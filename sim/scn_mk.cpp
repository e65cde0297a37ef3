// blogc-make build/clean histories: edits, faulty or killed builds, concurrent edits, null builds, clean (C04-C07, C11).
#include "mk.h"
#include <algorithm>

static const vector<string> BRULES = {"index", "atom", "atom_tags", "pagination", "pagination_tags", "posts", "tags", "pages", "copy"};
static void gen(Plan &p, Rng &r) {
    bool c4 = p.prop == "C04", c5 = p.prop == "C05", c6 = p.prop == "C06", c7 = p.prop == "C07", c11 = p.prop == "C11";
    static const vector<string> OD = {"out", "a/b/out", "out/", "a/out//", "/abs/out", "/abs/x/out/", "", "./o"}; p.par["odset"] = r.chance(c7 ? .6 : .3) ? "1" : "0"; p.par["outdir"] = r.pick(OD); p.par["dev"] = r.chance(.2) ? "1" : "0"; p.par["verbose"] = r.chance(.2) ? "1" : "0"; p.par["emb"] = r.chance(.15) ? "1" : "0"; if (r.chance(.15)) p.par["links"] = strf("%d", 1 + (int) r.below(100000)); if (r.chance(.3)) p.par["samepid"] = "1"; p.par["cwd"] = strf("%d", r.chance(.6) ? 0 : (int) r.below(3));
    gen_site(p, r, 4, true); size_t nsite = p.ops.size(); Site s; // a shadow copy steers the generation
    sim_reset(p.k); s.init("/w/site", "", false); for (size_t i = 0; i < nsite; i++) { Op o = p.ops[i]; s.apply(o, false); }
    bool faulty = c5 || (!c6 && r.chance(c4 ? .35 : c11 ? .7 : .4)); bool conc = c5 ? r.chance(.4) : c4 || c7 || c11 ? r.chance(.05) : false;
    bool editat = conc && r.chance(.5); if (editat) faulty = false; int nb = r.range(1, c5 ? 3 : 4); /* editat: sources change at an exact call of the build */
    auto edits = [&](int n) { for (int i = 0; i < n; i++) { Op o = gen_edit(p, r, s); s.apply(o, true); p.ops.push_back(o); } };
    auto rules = [&]() -> string { if (!c5 && !c6 && !c7 && r.chance(.04)) { static const vector<string> NR = {"nosuchrule all", "all index_ copy", "al", "page", "pos all", "post", "paginatio", "atom_", "inde copy", "all,", "=", "copyall", "ALL"}; return r.pick(NR); } if (r.chance(c5 || c6 || c7 ? .85 : .6)) return "all"; string x; int k = r.range(1, 3); for (int i = 0; i < k; i++) x += (i ? " " : "") + r.pick(BRULES); return x; };
    for (int b = 0; b < nb; b++) {
        if (b) { edits(r.range(0, 3)); if (r.chance(.2)) p.op({"rmout", strf("%d", (int) r.below(1000))}); if (r.chance(.1)) p.op({"adv", strf("%lld", (long long) r.range(1, 100000) * (i64) 1000000)}); if (r.chance(.08) && !s.m.posts.empty()) p.op({"rmsrc", s.m.src_path(r.pick(s.m.posts), true)}); }
        if (r.chance(c7 ? .6 : .1)) { vector<string> F = {"foreign.txt", "post/keep.txt", "blog/x.html", "static/mine.bin", "emptydir/", "page0/other", "blog/post/zz/index.html", ".hidden"}; p.op({"foreign", r.pick(F)}); }
        bool f = faulty && (b + 1 < nb || nb == 1 || r.chance(.5)); int k = conc && !f ? r.range(1, 3) : 0;
        for (int i = 0; i < k; i++) { Op e = gen_edit(p, r, s); if (r.chance(.3)) { MSrc ms; vector<Op> L; if (s.m.src.count(s.m.le_path()) && !s.m.set("listing_entry").empty()) { gen_msrc(r, ms, "le", (int) r.below(60), false, false); L.push_back({"lesrc", msrc_pack(ms)}); } if (!s.m.set("atom_template").empty()) L.push_back({"atmpl", strf("%d", s.m.atver + 1)}); if (!L.empty()) e = r.pick(L); } s.apply(e, true); Op o = {"during", strf("%d", r.chance(.5) ? r.range(0, 3000) : r.range(0, 40000))}; o.insert(o.end(), e.begin(), e.end()); p.ops.push_back(o); }
        p.op({"build", rules(), f ? "f" : "q"}); if (c6 || r.chance(.15)) { p.op({"null"}); if (r.chance(.6)) { edits(1); p.op({"minimal"}); } }
        if (r.chance(c7 ? .5 : .1)) p.op({"clean", faulty && r.chance(.3) ? "f" : "q"});
        if (c7 && r.chance(.4)) edits(r.range(1, 2));
    }
    if (c7 && r.chance(.7)) p.op({"clean", "q"}); if (c11) { p.op({"build", "all", "f"}); }
    if (c4 && r.chance(.12)) p.par["dump"] = r.chance(.5) ? "f" : "q", p.par["dumprate"] = strf("%d", r.chance(.7) ? r.range(1, 3) : r.range(5, 300));
    if (c4 && r.chance(.15)) p.par["gconf"] = strf("%d", (int) r.below(1000000));
    if (faulty) {
        auto &k = p.k; int m = (int) r.below(9); k.fault_max = r.chance(.6) ? 1 : r.range(2, 5);
        if (m == 0) { k.fault_sc = {"kill@", "KILLPG"}; k.fault_rate = r.range(20, 3000); } else if (m == 1) { k.fault_sc = {"kill@", "INTPG"}; k.fault_rate = r.range(20, 3000); } else if (m == 2) { p.par["disk"] = strf("%d", r.range(0, r.chance(.5) ? 3000 : 30000)); } else if (m == 3) { k.fault_sc = {"read", "open"}; k.fault_rate = r.range(5, 400); } else if (m == 4) { k.fault_sc = {"write", "close", "creat", "rename", "mkdir", "mkstemp"}; k.fault_rate = r.range(3, 60); } else if (m == 5) { k.fault_sc = {"pipe", "fork", "exec", "dup", "waitpid", "poll"}; k.fault_rate = r.range(2, 40); } else if (m == 6) { k.fault_sc = {"malloc"}; k.fault_rate = r.range(200, 30000); } else if (m == 7) { k.fault_sc = {"stat", "lstat", "opendir", "readdir", "realpath", "access", "unlink", "rmdir", "utimens"}; k.fault_rate = r.range(5, 200); }
        else { k.fault_sc = {"read", "open", "write", "close", "creat", "mkdir", "stat", "rename", "unlink", "pipe", "fork", "exec", "malloc", "kill@", "opendir", "rmdir", "mkstemp", "utimens"}; k.fault_rate = r.range(20, 3000); }
        if (r.chance(.3)) k.wr_chunk = r.range(1, 4000); if (r.chance(.2)) k.short_io = r.range(1, 5);
        if (c7 && r.chance(.4)) { // only cleaning is disturbed
            for (auto &o : p.ops) if (o[0] == "build") o[2] = "q"; else if (o[0] == "clean") o[1] = "f"; if (p.ops.back()[0] != "clean") p.op({"clean", "f"}); p.par.erase("disk"); k.fault_max = r.chance(.7) ? 1 : 2; k.fault_rate = r.range(1, 40); k.fault_sc = r.chance(.3) ? std::set<string>{"pipe", "fork", "exec", "read", "open"} : r.chance(.6) ? std::set<string>{"stat", "lstat"} : std::set<string>{"stat", "lstat", "unlink", "rmdir", "opendir", "readdir", "realpath"}; }
    }
    if (editat) { p.par["editat"] = "1"; auto &k = p.k; k.fault_sc = {"kill@", "EDIT"}; k.fault_max = 9; k.fault_rate = r.chance(.5) ? r.range(2, 15) : r.range(15, 600); }
    if (r.chance(.1)) p.k.pipe_cap = r.range(4096, 8192); knobs_schedule(p, r, 0); p.k.sh_exec_last = r.chance(.5); p.k.step_limit = 4000000; p.k.compute_limit = 2000000000;
}
static void exec(const Plan &p) {
    Site s; bool odset = p.get("odset") == "1"; string od = p.get("outdir"); s.linkseed = p.par.count("links") ? (u64) p.geti("links") : 0; s.init("/w/site", od, odset); s.m.dev = p.get("dev") == "1"; string prop = p.prop; fs_mkdirs("/abs/x"); fs_mkdirs("/tmp");
    map<string, string> env = g_env; if (odset) env["OUTPUT_DIR"] = od; fs_write("/w/site/unrelated.txt", "do not touch"); fs_mkdirs("/w/site/emptyunrelated"); fs_mkdirs("/abs/emptyunrelated");
    vector<Op> during; bool history_faulty = false, conc_hist = false; int nbuild = 0; std::set<string> execs; bool started = false; u64 faults0 = 0; map<string, string> foreign;
    S.on_exec = [&](Proc &, const vector<string> &a) { for (size_t i = 0; i + 1 < a.size(); i++) if (a[i] == "-o" && a[0].find("blogc") != string::npos) execs.insert(a[i + 1]); };
    auto nf = [&]() { u64 n = 0; for (auto &f : S.st.faults) if (f.first != "stall" && f.first != "edit-at-call") n += f.second; if (S.st.probes.count("enospc")) n += S.st.probes["enospc"]; return n; };
    auto tmpfiles = [&]() { string r; for (auto &x : fs_tree("/tmp")) r += " /tmp/" + x.first; return r; };
    struct Res { Run r; string why; bool faulted, killed; vector<string> rules; string desc; };
    auto run = [&](const vector<string> &rules, bool faults, const string &label) {
        Res x; x.rules = rules; vector<string> av; string cwd = "/w/site"; int cm = (int) p.geti("cwd"); if (p.get("emb") == "1") { av = {"/usr/bin/blogc-embedded", "-m"}; if (p.seed % 2) { fs_remove("/usr/bin/blogc"); /* it runs itself */ } } else av = {"blogc-make"}; if (s.m.dev) av.push_back("-D"); if (p.get("verbose") == "1") av.push_back("-V"); if (cm == 1) { cwd = "/w"; av.push_back("-f"); av.push_back("site/blogcfile"); } else if (cm == 2) { cwd = "/"; av.push_back("-f/w/site/blogcfile"); } for (auto &q : rules) av.push_back(q);
        u64 n0 = nf(); if (faults && p.par.count("disk")) S.k.disk_limit = S.disk_used + p.geti("disk"); S.now += 1000; if (p.par.count("samepid") && leftover_children() == 0) { for (auto it = S.procs.begin(); it != S.procs.end();) if (it->first != 1 && it->second->dead) it = S.procs.erase(it); else ++it; if (S.procs.size() <= 1) S.nextpid = 100; } x.r = launch(label, av, cwd, nullptr, &env); PProc pr = x.r.p; if (label == "dump") pr->fds[1] = of_file("/w/dump.txt", O_WRONLY | O_APPEND); S.faults_on = faults; vector<Op> du = during; during.clear(); int pend = 0; auto ps = std::make_shared<int>((int) du.size()); (void) pend;
        i64 t0 = S.now; auto todo = std::make_shared<std::deque<Op>>(); auto doedit = [&s](const Op &d) { Op e(d.begin() + 2, d.end()); bool h = S.in_hook; S.in_hook = true; s.apply(e, true); S.in_hook = h; sim_log("edit %s", join(e, " ").substr(0, 80).c_str()); };
        if (p.par.count("editat") && !du.empty()) { todo->assign(du.begin(), du.end()); *ps = 0; S.faults_on = true; S.on_edit = [todo, doedit]() { if (todo->empty()) return; Op d = todo->front(); todo->pop_front(); if (todo->empty()) S.on_edit = nullptr; doedit(d); }; } else for (auto &d : du) { i64 at = t0 + atoll(d[1].c_str()) * 1000; Op e(d.begin() + 2, d.end()); harness_fiber("editor", [at, e, &s, ps]() { if (at > S.now) fiber_block("edit", nullptr, at); bool h = S.in_hook; S.in_hook = true; s.apply(e, true); S.in_hook = h; sim_log("edit %s", join(e, " ").substr(0, 80).c_str()); --*ps; }); }
        x.why = sim_run([pr, ps]() { return pr->dead && *ps == 0; }, 3600 * SEC); S.faults_on = false; S.on_edit = nullptr; while (!todo->empty()) { Op d = todo->front(); todo->pop_front(); doedit(d); } if (faults) S.k.disk_limit = 0;
        string left; if (pr->dead && leftover_children()) { left = strf("%d processes it started were still running", leftover_children()); sim_run([]() { return leftover_children() == 0; }, 60 * SEC); }
        x.faulted = nf() != n0; x.killed = pr->killed; if (pr->sa[SIGINT].h == SIG_DFL && pr->dead && (pr->status & 0x7f) == SIGINT) x.killed = true; if (x.faulted) history_faulty = true; if (!du.empty()) conc_hist = true;
        x.desc = strf("%s%s: %s; stderr: %s", join(av, " ").c_str(), x.faulted ? " (with injected faults)" : du.empty() ? "" : " (sources edited meanwhile)", pr->dead ? run_desc(x.r).c_str() : ("did not end (" + x.why + ")").c_str(), esc(x.r.err(), 300).c_str());
        if (pr->dead && !pr->memerr.empty() && S.st.faults.count("malloc:ENOMEM") == 0) violate(prop, "memory-error:" + pr->memerr.substr(0, 40), x.desc);
        if (pr->dead && prop == "C11" && x.r.exited()) { string t = tmpfiles(); bool delfail = S.st.faults.count("unlink:EIO") || S.st.faults.count("unlink:EACCES") || S.st.faults.count("unlink:EPERM"); if (!t.empty() && !started && !delfail) violate("C11", "temp-left", x.desc + "; left behind:" + t); if (!left.empty()) violate("C11", "children-left", x.desc + "; " + left); }
        if (!tmpfiles().empty()) for (auto &q : fs_tree("/tmp")) fs_remove("/tmp/" + q.first); // whatever was left by a kill does not concern later steps
        return x;
    };
    auto judge = [&](Res &x, bool conc, const string &blame) { // blame: property charged with a wrong success / failure
        bool sf; string bad = s.check(x.rules, &sf);
        if (!x.r.p->dead) { if (prop == "C04" || prop == "C05") if (!x.faulted || prop == "C05") violate(prop, "no-termination", x.desc); return false; }
        if (x.r.exited() && x.r.code() == 0) { probe(x.faulted ? "build-ok-despite-faults" : sf ? "build-ok-error-sources" : "build-ok"); if (!conc && !bad.empty() && prop == blame) violate(blame, x.faulted ? "exit-0-incomplete-after-fault" : history_faulty ? "stale-after-faulty-history" : conc_hist ? "stale-after-concurrent-edit" : sf ? "exit-0-sources-in-error" : bad.find("missing") != string::npos ? "exit-0-output-missing" : "exit-0-output-wrong", x.desc + "; " + bad); return bad.empty(); }
        probe(x.killed ? "build-killed" : x.faulted ? "build-fail-fault" : "build-fail"); if (!x.faulted && !conc && !sf && prop == blame) violate(blame, history_faulty ? "cannot-recover" : "spurious-failure", x.desc); if (!x.faulted && !conc && prop == "C04" && x.r.err().empty()) violate("C04", "failed-silently", x.desc); return false;
    };
    auto verify_null = [&](const string &label) { if (prop != "C06") return; Snap a = snap_tree(s.outabs); execs.clear(); Res x = run({"all"}, false, label); Snap b = snap_tree(s.outabs); string d = snap_diff(a, b); if (!x.r.exited() || x.r.code()) violate("C06", "null-build-fails", x.desc); else if (!d.empty()) violate("C06", "null-build-writes", x.desc + "; nothing had changed, yet it " + d); else if (!execs.empty()) violate("C06", "null-build-regenerates", x.desc + "; regenerated " + *execs.begin()); probe("null-build"); };
    auto doclean = [&](bool faults, const string &label) {
        map<string, string> before = fs_tree(s.outabs), site0 = fs_tree("/w/site"), abs0 = fs_tree("/abs"), out0; bool ok, hadout = fs_lookup(s.outabs) != nullptr; string why; auto e = s.expected({"all"}, &ok, &why); Res x = run({"clean"}, faults, label); map<string, string> after = fs_tree(s.outabs); bool hasout = fs_lookup(s.outabs) != nullptr; if (prop != "C07") return x; probe("clean");
        // nothing outside the output directory changes
        auto outside = [&](const string &base, map<string, string> &a, map<string, string> b) { for (auto &f : a) { string full = base + "/" + f.first; if (starts_with(full + "/", s.outabs + "/")) continue; auto it = b.find(f.first); if (it == b.end()) violate("C07", "clean-removed-outside", x.desc + "; removed " + full + " (output directory is " + s.outabs + ")"); else if (it->second != f.second) violate("C07", "clean-changed-outside", x.desc + "; changed " + full); } }; outside("/w/site", site0, fs_tree("/w/site")); outside("/abs", abs0, fs_tree("/abs"));
        map<string, string> want = before; std::set<string> dirs; for (auto &f : before) if (f.second[0] != 'd' && e.count(f.first)) { want.erase(f.first); string d = f.first; for (size_t q; (q = d.rfind('/')) != string::npos;) { d = d.substr(0, q); dirs.insert(d); } }
        bool any = false; for (auto &f : before) if (f.second[0] != 'd' && e.count(f.first)) any = true; for (auto it = dirs.rbegin(); it != dirs.rend(); ++it) { auto nx = want.upper_bound(*it + "/"); bool has = nx != want.end() && starts_with(nx->first, *it + "/"); if (!has) want.erase(*it); }
        for (auto &f : before) if (f.second[0] != 'd' && !after.count(f.first) && !e.count(f.first) && !(s.ever.count(f.first) && !ok)) violate("C07", "clean-removed-foreign", x.desc + "; removed " + f.first + ", which no rule builds");
        for (auto &f : before) if (f.second[0] == 'd' && !after.count(f.first) && want.count(f.first) && ok && !x.faulted) violate("C07", "clean-removed-directory", x.desc + "; removed directory " + f.first); for (auto &f : after) if (!before.count(f.first)) violate("C07", "clean-created", x.desc + "; created " + f.first);
        if (!x.faulted && ok && x.r.p->dead) { if (!x.r.exited() || x.r.code()) violate("C07", "clean-fails", x.desc); for (auto &f : after) if (!want.count(f.first)) { violate("C07", f.second[0] == 'd' ? "clean-left-empty-dir" : "clean-left-built-file", x.desc + "; left " + f.first); break; } if (any && want.empty() && hasout) violate("C07", "clean-left-empty-dir", x.desc + "; left the empty output directory"); if (!want.empty() && !hasout && hadout) violate("C07", "clean-removed-directory", x.desc); }
        if (x.faulted && x.r.exited() && x.r.code() == 0 && ok) for (auto &f : e) if (fs_exists(s.outabs + "/" + f.first, false) && before.count(f.first)) { violate("C07", "clean-exit-0-incomplete", x.desc + "; left " + f.first); break; }
        return x;
    };
    bool last_ok = false; // outputs known complete and current for everything
    for (auto &o : p.ops) {
        const string &c = o[0]; nbuild++;
        if (c == "adv") S.now += atoll(o[1].c_str()); else if (c == "during") during.push_back(o);
        else if (c == "foreign") { string f = s.outabs + "/" + o[1]; if (s.ever.count(o[1])) continue; if (o[1].back() == '/') fs_mkdirs(f.substr(0, f.size() - 1)); else if (!fs_exists(f)) { fs_mkdirs(f.substr(0, f.rfind('/'))); INode d = fs_lookup(f.substr(0, f.rfind('/'))); if (d && d->type == Inode::DIR) fs_write(f, "foreign\n"); } }
        else if (c == "rmout") { bool ok; auto e = s.expected({"all"}, &ok); vector<string> v; for (auto &x : e) if (fs_exists(s.outabs + "/" + x.first)) v.push_back(x.first); if (!v.empty()) fs_remove(s.outabs + "/" + v[atoi(o[1].c_str()) % v.size()]); last_ok = false; }
        else if (c == "build") { bool conc = !during.empty(); vector<string> ru; for (auto &x : split(o[1], ' ')) if (!x.empty()) ru.push_back(x); Res x = run(ru, o[2] == "f", strf("mk%d", nbuild)); bool blame5 = history_faulty || conc_hist; last_ok = judge(x, conc, (blame5 && !x.faulted) || prop == "C05" ? "C05" : "C04") && ru[0] == "all"; if (!x.r.p->dead) return; }
        else if (c == "null") { if (last_ok) verify_null(strf("null%d", nbuild)); }
        else if (c == "minimal") { if (prop != "C06") continue; // exactly one edit since everything was current: only its dependants may be rewritten
            if (!last_ok) continue; const Op &e = *(&o - 1); std::set<string> al; string k = e[0]; bool blog = false, all = false; if (k == "post" || k == "post!") { al.insert(s.m.out_path("post", e[1])); blog = true; } else if (k == "page" || k == "page!") al.insert(s.m.out_path("pg", e[1])); else if (k == "raw") { for (auto &f : s.m.copy_files()) if (f == e[1]) al.insert(f); } else if (k == "lesrc" || k == "atmpl" || k == "tmpl" || k == "tmpl!") { bool k2; if (k == "lesrc" && s.m.set("listing_entry").empty()) {} else for (auto &q : s.expected(k == "lesrc" ? vector<string>{"index", "pagination", "pagination_tags", "tags"} : k == "atmpl" ? vector<string>{"atom", "atom_tags"} : vector<string>{"index", "pagination", "pagination_tags", "tags", "posts", "pages"}, &k2)) al.insert(q.first); } else all = true; if (all) { last_ok = false; continue; }
            bool ok; auto ex = s.expected({"all"}, &ok); if (blog) { auto q = s.expected({"index", "atom", "atom_tags", "pagination", "pagination_tags", "tags"}, &ok); for (auto &f : q) al.insert(f.first); } std::set<string> dirs; for (auto &f : al) { string d = f; for (size_t q; (q = d.rfind('/')) != string::npos;) { d = d.substr(0, q); dirs.insert(d + "/"); } } al.insert(dirs.begin(), dirs.end());
            Snap a = snap_tree(s.outabs); Res x = run({"all"}, false, strf("min%d", nbuild)); Snap b = snap_tree(s.outabs); string d = snap_diff(a, b, &al); probe("minimal-build"); if (x.r.exited() && x.r.code() == 0 && !d.empty()) violate("C06", "unrelated-output-rewritten", x.desc + "; after editing only " + e[1] + " it " + d); last_ok = x.r.exited() && x.r.code() == 0; }
        else if (c == "clean") { Res x = doclean(o[1] == "f", strf("clean%d", nbuild)); last_ok = false; if (!x.r.p->dead) return; }
        else { s.apply(o, true); last_ok = &o + 1 < &p.ops.back() + 1 && (*(&o + 1))[0] == "minimal" ? last_ok : false; }
        if (S.stop) return;
    }
    // faults are over: the next build must bring everything up to date, and the one after that must do nothing
    during.clear(); Res x = run({"all"}, false, "final"); last_ok = judge(x, false, history_faulty || conc_hist ? "C05" : "C04"); if (last_ok) verify_null("final-null"); if (prop == "C07" && x.r.p->dead) doclean(false, "final-clean");
    if (p.par.count("dump") && prop == "C04" && x.r.p->dead) { // what atom_dump prints is a template that builds the same feeds as the built-in one
        bool faults = p.get("dump") == "f"; auto sc = S.k.fault_sc; u32 rate = S.k.fault_rate; int fm = S.k.fault_max; if (faults) { S.k.fault_rate = (u32) p.geti("dumprate"); S.k.fault_sc = S.k.fault_rate % 5 == 4 ? std::set<string>{"close", "malloc", "mkstemp"} : std::set<string>{"write"}; S.k.fault_max = fm + 9; } Res y = run({"atom_dump"}, faults, "dump"); S.k.fault_sc = sc; S.k.fault_rate = rate; S.k.fault_max = fm; bool ok0 = y.r.exited() && y.r.code() == 0; probe(ok0 ? "dump-ok" : "dump-fail"); string t; fs_read("/w/dump.txt", t);
        if (!y.r.p->dead) { violate("C04", "no-termination", y.desc); return; } if (!ok0) { bool sf; s.check({"atom"}, &sf); if (!y.faulted && !sf) violate("C04", "spurious-failure", y.desc); if (y.r.err().empty() && !y.killed && !(y.r.p->status & 0x7f)) violate("C04", "failed-silently", y.desc); }
        else if (!ends_with(t, "</feed>\n")) violate("C04", "dump-incomplete", y.desc + strf("; what it printed (%zu bytes) is no complete template", t.size()));
        else { MSite m0 = s.m; m0.settings.erase("atom_template"); map<string, string> e, e2; if (m0.expect("atom", e) && m0.expect("atom_tags", e2)) { e.insert(e2.begin(), e2.end()); s.apply({"set", "atom_template", "dumped.tmpl"}, true); s.put(s.m.atmpl_path(), t); Res z = run({"atom", "atom_tags"}, false, "dumped"); if (z.r.p->dead && z.r.exited()) { if (z.r.code()) violate("C04", "dump-not-usable", z.desc + "; the template was what atom_dump printed"); else for (auto &q : e) { string got; if (!fs_read(s.outabs + "/" + q.first, got) || got != q.second) { violate("C04", "dump-differs", z.desc + "; the template was what atom_dump printed, yet " + q.first + " differs from what the built-in one gives"); break; } } } } }
    }
    if (p.par.count("gconf") && prop == "C04" && x.r.p->dead) { // a damaged settings file: refused with a message, or accepted, in bounded time
        Rng q((u64) p.geti("gconf")); for (int i = 0; i < 6; i++) { string g = garbage("conf", q.below(1000000), q.range(1, 40)), b = s.m.blogcfile(); if (q.chance(.6)) { size_t at = q.below(b.size() + 1); if (q.chance(.3)) b = b.substr(0, at) + g; else b.insert(at, g); g = b; } s.put("blogcfile", g); Res y = run({"all"}, false, strf("garbage%d", i)); if (!y.r.p->dead) { violate("C04", "no-termination", y.desc + "; the settings file was damaged"); return; } if (!y.r.exited()) violate("C04", "died-of-signal", y.desc + "; the settings file was damaged"); else if (y.r.code() && y.r.err().empty()) violate("C04", "failed-silently", y.desc + "; the settings file was damaged"); probe(y.r.code() ? "garbage-refused" : "garbage-accepted"); }
    }
}
static int reg = (add_scenario("mk", gen, exec), g_checks.push_back({"C04", {{"mk", 1}}}), g_checks.push_back({"C05", {{"mk", 1}}}), g_checks.push_back({"C06", {{"mk", 1}}}), g_checks.push_back({"C07", {{"mk", 1}}}), 0);
