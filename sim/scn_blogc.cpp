// One invocation of blogc under I/O, allocation and process faults (C01, C02, C03).
#include "scn.h"
#include "model.h"

static void gen(Plan &p, Rng &r) {
    bool c3 = p.prop == "C03", c2 = p.prop == "C02"; bool listing = c3 || r.chance(.6); int n = listing ? (r.chance(.1) && !c2 ? r.range(30, 200) : r.range(0, 12)) : 1; if (c3 && n == 0 && r.chance(.9)) n = r.range(1, 40);
    bool use_in = c3 || r.chance(.4), print = !c3 && r.chance(.12), big = r.chance(.2); bool dates = r.chance(.8); vector<string> paths, names;
    for (int i = 0; i < n; i++) {
        string nm = strf("s%d", i); if (r.chance(.15)) nm += " sp"; if (r.chance(.1)) nm += "'q"; if (r.chance(c3 ? .35 : .1)) { static const vector<string> odd = {" #1", "#x", "# comment", " # c", "%20", ",a", ";b", "caf\xc3\xa9", " -x", "\"dq\"", "`bt`", "$HOME", "*", "  two", "\ttab", "=eq", ":", "&amp", "<lt>", "?", "~", "!", "(p)", "[b]", "{c}", "\x01" "ctl"}; nm += odd[r.below(odd.size())]; if (r.chance(.5)) nm += strf("%d", i); } if (c3 && r.chance(.05)) nm = r.pick(vector<string>{"-", "--", "-i", "@", "s", "\xf0\x9f\x98\x80"}) + strf("%d", i); if (r.chance(.05)) nm += string(r.range(20, 120), 'l'); if (r.chance(.1)) nm = "d" + strf("%d/", (int) r.below(3)) + nm; MSrc s; gen_msrc(r, s, nm, i, big, true); if (!dates) s.date = ""; string ph = "src/" + nm + (r.chance(.9) ? ".txt" : ".a.md"); if (c3 && i && r.chance(.02)) ph = paths[r.below(paths.size())]; else p.op({"src", ph, msrc_pack(s)}); paths.push_back(ph);
    }
    string var = "LAST_PAGE"; map<string, string> G; G["SITE_TITLE"] = "Site"; if (r.chance(.5)) G["XVAR"] = "v=1 " + string(r.below(60), 'x'); if (r.chance(.6)) G["DATE_FORMAT"] = r.chance(.5) ? "%Y/%m/%d" : "%b %d, %Y, %I:%M %p GMT";
    if (listing) { if (r.chance(.35)) G["FILTER_TAG"] = r.chance(.06) ? "" : r.chance(.5) ? "foo" : r.chance(.7) ? "bar" : "fo"; if (r.chance(.5)) { G["FILTER_PAGE"] = r.chance(.12) ? r.pick(vector<string>{"0", "-1", "-7", "", "x", "2x", "1 ", " 2", "+2", "02", "1000000", "1.5"}) : strf("%d", r.range(1, 4)); G["FILTER_PER_PAGE"] = r.chance(.06) ? r.pick(vector<string>{"", "x", "2x", "03", "+1", "1000", "-100"}) : strf("%d", r.chance(.1) ? r.range(-1, 0) : r.range(1, 5)); if (r.chance(.04)) G.erase("FILTER_PER_PAGE"); } if (r.chance(.5)) G["FILTER_REVERSE"] = r.chance(.7) ? "1" : "0"; if (dates && r.chance(.3)) G["FILTER_SORT"] = "1"; }
    if (r.chance(.15)) G["TOCTREE_MAXDEPTH"] = strf("%d", r.range(-1, 3)); if (!c3 && r.chance(.4)) { p.par["tseed"] = strf("%d", (int) r.below(1000000)); p.par["tsize"] = strf("%d", r.range(1, r.chance(.8) ? 25 : 120)); if (r.chance(.7)) G["LIST"] = "a-b c  dd"; if (r.chance(.7)) { G["LIST__A_B"] = "first item"; G["TAGS__FOO"] = "Foo tag"; } if (r.chance(.3)) G["EMPTYLIST"] = r.chance(.5) ? "" : "  "; } if (r.chance(.08)) p.par["debug"] = "1";
    for (auto &x : G) p.op({"var", x.first, x.second});
    if (listing && r.chance(.4)) { MSrc s; gen_msrc(r, s, "entry", 3, big, false); if (p.par.count("tseed") && r.chance(.15)) p.op({"entry", "", ""}); p.op({"entry", "src/entry.txt", msrc_pack(s)}); if (p.par.count("tseed")) while (r.chance(.5)) { if (r.chance(.25)) { p.op({"entry", "", ""}); continue; } gen_msrc(r, s, "entry", 3, big, false); p.op({"entry", strf("src/entry%d.txt", (int) p.ops.size()), msrc_pack(s)}); } }
    p.par["listing"] = listing ? "1" : "0"; p.par["stdin"] = use_in ? "1" : "0"; p.par["tver"] = strf("%d", r.range(1, 9)); if (print) { vector<string> vs = {"LAST_PAGE", "SITE_TITLE", "TITLE", "DATE_FIRST", "FILENAME_FIRST", "CURRENT_PAGE"}; p.par["print"] = r.pick(vs); }
    int om = (int) r.below(10); p.par["out"] = om < 5 ? "out/a/b.html" : om < 7 ? "out.html" : om < 8 ? "" : om < 9 ? "-" : "abs"; p.par["old"] = r.chance(.5) ? "1" : "0"; if (r.chance(.06)) p.par["out"] = "link"; if (r.chance(.04)) p.par["out"] = "full";
    if (use_in) { // how the list is delivered
        if (r.chance(.3) && n < 30) { p.par["argvn"] = strf("%d", (int) r.below(n + 1)); } p.par["chunk"] = strf("%d", r.chance(.5) ? r.range(1, 20) : r.range(1, 5000)); p.par["pause"] = strf("%d", r.chance(.5) ? 0 : r.range(1, 2000)); p.par["style"] = strf("%d", (int) r.below(6)); p.par["inseed"] = strf("%d", (int) r.below(100000)); p.par["eofdelay"] = strf("%d", r.chance(.7) ? 0 : r.range(1, 100)); if (r.chance(.2)) p.par["incap"] = strf("%d", r.range(1, 300)); if (r.chance(c3 ? .08 : .02)) { p.par["pad"] = strf("%d", r.chance(.5) ? r.range(1, 100) : r.range(100, 1800)); p.par["chunk"] = strf("%d", r.range(500, 70000)); p.par["pause"] = "0"; } if (r.chance(c3 ? .04 : .01)) p.par["longc"] = strf("%d", r.chance(.5) ? r.range(100, 5000) : r.range(5000, 150000)); }
    if (c2 ? r.chance(.6) : r.chance(.1)) { vector<string> bad = {"nosrc", "dirsrc", "utf8src", "emptysrc", "mixdate", "notmpl", "dirtmpl", "utf8tmpl", "syntmpl", "outcomp", "outdir", "not", "zero", "two", "dnoeq", "dlower", "dutf8", "noentry", "noprint", "badopt", "baddate"}; p.par["bad"] = r.pick(bad); }
    if (c2 && !p.par.count("bad") && r.chance(.5)) { double q = r.below(100) / 100.0; if (q < .65) { p.par["gsrc"] = strf("%d", (int) r.below(1000000)); p.par["glen"] = strf("%d", r.range(1, r.chance(.7) ? 60 : 400)); } if (q > .55) { p.par["gtmpl"] = strf("%d", (int) r.below(1000000)); p.par["gtlen"] = strf("%d", r.range(1, 60)); } }
    bool faulty = c3 ? r.chance(.25) : r.chance(c2 && p.par.count("bad") ? .3 : .85);
    if (faulty) {
        int f = (int) r.below(7); auto &k = p.k; k.fault_max = r.chance(.7) ? 1 : r.range(2, 4);
        if (f == 0) { k.fault_sc = {"malloc"}; k.fault_rate = r.chance(.5) ? r.range(5, 300) : r.range(300, 20000); } else if (f == 1) { k.fault_sc = {"read", "open"}; k.fault_rate = r.range(2, 60); } else if (f == 2) { k.fault_sc = {"write", "close", "creat", "rename", "fsync", "chmod"}; k.fault_rate = r.range(2, 8); } else if (f == 3) { k.fault_sc = {"kill@"}; k.fault_rate = r.range(3, 200); } else if (f == 4) { p.par["disk"] = strf("%d", r.chance(.3) ? 0 : r.range(1, r.chance(.5) ? 800 : 12000)); } else if (f == 5) { k.fault_sc = {"read", "open", "write", "close", "creat", "mkdir", "stat", "lstat", "rename", "unlink", "malloc", "mkstemp", "chmod", "access", "fsync"}; k.fault_rate = r.range(3, 400); } else { k.fault_sc = {"mkdir", "creat", "stat", "lstat", "unlink", "rename", "access", "realpath"}; k.fault_rate = r.range(1, 6); }
        if (r.chance(.3)) k.wr_chunk = r.range(1, 4000); if (r.chance(.2)) k.short_io = r.range(1, 5);
        if (use_in && r.chance(c3 ? .5 : .2)) { p.par["stdinfile"] = r.chance(.7) ? "2" : "1"; if (r.chance(.7)) { k.fault_sc = {"read"}; k.fault_rate = r.range(2, 12); p.par.erase("disk"); } if (r.chance(.7)) k.short_io = r.range(1, 3); }
    }
    if (r.chance(.3)) p.par["tz"] = r.pick(vector<string>{"XST5", "XST-9", "IST-5:30", "AAA12", "BBB-14"});
    knobs_schedule(p, r, 0); p.k.step_limit = 4000000; p.k.compute_limit = 400000000;
}
static string q1(const string &s) { return "'" + s + "'"; }
static void exec(const Plan &p) {
    fs_mkdirs("/w/src"); RefIn in; in.listing = p.get("listing") == "1"; in.tver = (int) p.geti("tver", 1); bool must_fail = false; string bad = p.get("bad"); vector<string> paths; map<string, MSrc> srcs; MSrc lasts;
    for (auto &o : p.ops) { if (o[0] == "src") { MSrc s = msrc_unpack(o[2]); fs_mkdirs("/w/" + o[1].substr(0, o[1].rfind('/'))); fs_write("/w/" + o[1], s.text()); srcs[o[1]] = s; paths.push_back(o[1]); } else if (o[0] == "var") in.globals[o[1]] = o[2]; else if (o[0] == "entry") { MSrc s = msrc_unpack(o[2]); if (!o[1].empty()) fs_write("/w/" + o[1], s.text()); in.entries.push_back({o[1], s}); } }
    if (!in.listing && paths.size() > 1) paths.resize(1);
    if (bad == "two" && (in.listing || paths.empty())) bad = ""; if (bad == "zero" && in.listing) bad = ""; if ((bad == "noentry" || bad == "mixdate" || bad == "baddate") && !in.listing) bad = "nosrc"; if (bad == "mixdate" && paths.empty()) bad = ""; if ((bad == "dirsrc" || bad == "utf8src" || bad == "emptysrc" || bad == "nosrc") && !in.listing) paths.clear(); bool print = p.par.count("print"); if (print && (bad == "notmpl" || bad == "dirtmpl" || bad == "utf8tmpl" || bad == "syntmpl" || bad == "outcomp" || bad == "outdir" || bad == "not")) bad = ""; if (bad == "baddate") in.globals["FILTER_SORT"] = "1";
    if (!in.listing && paths.empty() && bad != "nosrc" && bad != "dirsrc" && bad != "utf8src" && bad != "emptysrc") must_fail = true;
    for (auto &ph : paths) in.sources.push_back({ph, srcs[ph]});
    bool rt = p.par.count("tseed"); u64 tseed = (u64) p.geti("tseed"); int tsize = (int) p.geti("tsize"); string tm = rt ? rtmpl_text(tseed, tsize, in.listing) : tmpl_text(in.tver); fs_write("/w/t.tmpl", tm); vector<string> list = paths; string extra; MSrc mx; mx.title = "bad";
    if (bad == "nosrc") extra = "src/missing.txt"; else if (bad == "dirsrc") { fs_mkdirs("/w/src/adir"); extra = "src/adir"; } else if (bad == "utf8src") { fs_write("/w/src/bad.txt", "TITLE: x\nDATE: 2011-01-01 00:00:00\n-----\n\nab\xff\xfe" "cd\n"); extra = "src/bad.txt"; } else if (bad == "emptysrc") { fs_write("/w/src/empty.txt", ""); extra = "src/empty.txt"; } else if (bad == "mixdate") { bool d = !in.sources[0].second.date.empty(); fs_write("/w/src/mix.txt", d ? "TITLE: x\n-----\n\nab\n" : "TITLE: x\nDATE: 2011-01-01 00:00:00\n-----\n\nab\n"); extra = "src/mix.txt"; } else if (bad == "baddate") { fs_write("/w/src/bd.txt", "TITLE: x\nDATE: notadate\n-----\n\nab\n"); extra = "src/bd.txt"; }
    if (!extra.empty()) { size_t at = list.empty() ? 0 : S.k.seed % (list.size() + 1); list.insert(list.begin() + at, extra); must_fail = true; }
    bool unknown = false; size_t given = tm.size(); if (p.par.count("gsrc") && p.prop == "C02") { unknown = true; string g = garbage("src", (u64) p.geti("gsrc"), (int) p.geti("glen")); fs_write("/w/src/garb.txt", g); given += g.size(); if (in.listing) list.push_back("src/garb.txt"); else list = {"src/garb.txt"}; for (auto &s : in.sources) given += s.second.text().size(); } if (p.par.count("gtmpl") && p.prop == "C02" && bad.empty()) { unknown = true; string g = garbage("tmpl", (u64) p.geti("gtmpl"), (int) p.geti("gtlen")); fs_write("/w/t.tmpl", g); given += g.size(); }
    vector<string> argv = {"blogc"}; int av = 0; if (p.get("debug") == "1") argv.push_back("-d"); for (auto &x : in.globals) { if (av++ % 2) argv.push_back("-D" + x.first + "=" + x.second); else { argv.push_back("-D"); argv.push_back(x.first + "=" + x.second); } }
    if (in.listing) argv.push_back("-l"); if (in.listing) for (auto &e : in.entries) { argv.push_back("-e"); argv.push_back(e.first); } else in.entries.clear();
    if (bad == "noentry") { argv.push_back("-e"); argv.push_back("src/nope.txt"); must_fail = true; } if (bad == "dnoeq") { argv.push_back("-D"); argv.push_back("NOEQ"); must_fail = true; } if (bad == "dlower") { argv.push_back("-D"); argv.push_back("lower=1"); must_fail = true; } if (bad == "dutf8") { argv.push_back("-D"); argv.push_back("BAD=\xff\xfe"); must_fail = true; } if (bad == "badopt") { argv.push_back("-Z"); must_fail = true; } if (bad == "two") { list.push_back(list[0]); must_fail = true; } if (bad == "zero") { list.clear(); must_fail = true; }
    if (bad == "noprint") { print = true; argv.push_back("-p"); argv.push_back("UNDEFINED_VAR"); must_fail = true; } else if (print) { argv.push_back("-p"); argv.push_back(p.get("print")); }
    if (bad == "notmpl") fs_remove("/w/t.tmpl"); if (bad == "dirtmpl") { fs_remove("/w/t.tmpl"); fs_mkdirs("/w/t.tmpl"); } if (bad == "utf8tmpl") fs_write("/w/t.tmpl", tm + "\xff\xfe"); if (bad == "syntmpl") fs_write("/w/t.tmpl", tm + "{% block entry %}x"); if (bad == "notmpl" || bad == "dirtmpl" || bad == "utf8tmpl" || bad == "syntmpl") must_fail = true;
    if (bad == "not") must_fail = !print; else if (!print) { argv.push_back("-t"); argv.push_back("t.tmpl"); }
    string om = p.get("out"), dest; if (om == "abs") dest = "/w/x/y/z.html"; else if (om == "link") dest = "ln.html"; else if (om == "full") dest = "/dev/full"; else if (!om.empty() && om != "-") dest = om; if (bad == "outcomp") dest = "comp/x.html"; if (bad == "outdir") dest = "odir"; bool tofile = !dest.empty() && !print; string dpath = dest.empty() ? "" : dest[0] == '/' ? dest : "/w/" + dest; string old; bool hasold = false, special = om == "link" || om == "full";
    if (bad == "outcomp") { fs_write("/w/comp", "file"); must_fail = true; special = false; } else if (bad == "outdir") { fs_mkdirs("/w/odir"); must_fail = true; special = false; } else if (om == "link") { fs_write("/w/target.html", "linked old"); fs_symlink("target.html", "/w/ln.html"); } else if (om != "full" && tofile && p.get("old") == "1") { hasold = true; old = "OLD OUTPUT\n" + string(S.k.seed % 3000, 'o'); fs_mkdirs(dpath.substr(0, dpath.rfind('/'))); fs_write(dpath, old); }
    if (tofile) { argv.push_back("-o"); argv.push_back(dest); } else if (om == "-" && !print) { argv.push_back("-o"); argv.push_back("-"); }
    bool si = p.get("stdin") == "1"; string stdin_text; size_t nargv = 0;
    if (si) { argv.push_back("-i"); nargv = std::min<size_t>(list.size(), p.geti("argvn", 0)); } else nargv = list.size();
    for (size_t i = 0; i < nargv; i++) argv.push_back(list[i]);
    if (si) { Rng q(p.geti("inseed")); int st = (int) p.geti("style"); int pad = (int) p.geti("pad"), longc = (int) p.geti("longc"); auto rep = [](const char *x, int n) { string o; while (n-- > 0) o += x; return o; }; string nlc = st == 1 ? "\r\n" : "\n"; for (size_t i = nargv; i < list.size(); i++) { if (st == 2 && q.chance(.3)) stdin_text += "# comment " + q1(list[i]) + nlc; if (st >= 3 && q.chance(.3)) stdin_text += nlc; if (st == 4) stdin_text += q.chance(.5) ? "  " : "\t"; if (longc && i == nargv + (list.size() - nargv) / 2) stdin_text += "#" + string(longc, 'c') + nlc; stdin_text += pad && list[i].compare(0, 4, "src/") == 0 ? "src/" + rep("./", (int) q.below(pad) + 1) + list[i].substr(4) : list[i]; if (st == 4 && q.chance(.5)) stdin_text += "  "; if (!(st == 5 && i + 1 == list.size())) stdin_text += nlc; } if (st == 2) stdin_text += "# the end" ; }
    // expected result
    string want; RefIn rl = in; bool okload = must_fail || ref_load(rl); if (!okload && !unknown) must_fail = true;
    if (!must_fail && !unknown) { if (print) { string v = p.get("print"); auto it = rl.globals.find(v); if (it != rl.globals.end()) want = it->second + "\n"; else if (!in.listing && v == "TITLE") want = in.sources[0].second.title + "\n"; else must_fail = true; if (!in.listing && v == "TITLE" && !must_fail) want = in.sources[0].second.title + "\n"; } else want = rt ? rtmpl_eval(tseed, tsize, in) : ref_render(in); }
    if (om == "full" && tofile && bad.empty() && !unknown && !want.empty()) must_fail = true;
    // run
    map<string, string> env = g_env; if (p.par.count("tz")) env["TZ"] = p.get("tz");
    Run r; r.o = std::make_shared<Pipe>(); r.e = std::make_shared<Pipe>(); r.o->cap = r.e->cap = 1ULL << 40; r.ro = of_pipe_r(r.o); r.re = of_pipe_r(r.e); auto ip = std::make_shared<Pipe>(); ip->cap = p.geti("incap", 65536); OFile iw = of_pipe_w(ip), irf = of_pipe_r(ip); if (si && p.par.count("stdinfile")) { fs_write("/w/in.list", stdin_text); irf = of_file("/w/in.list", O_RDONLY); irf->tty = p.get("stdinfile") == "2"; }
    if (p.par.count("disk")) S.k.disk_limit = S.disk_used + p.geti("disk"); string sink = "/stdout.cap"; bool outfile = !tofile && S.k.disk_limit; OFile so = outfile ? of_file(sink, O_WRONLY | O_APPEND) : of_pipe_w(r.o);
    string prop = p.prop; string newc = want; auto cur = [&](string &c) { return fs_read(dpath, c); };
    if (tofile && !special && bad != "outcomp" && bad != "outdir") S.on_fs = [&]() { string c; bool ex = cur(c); bool ok = unknown ? ex || !hasold : ex ? (hasold && c == old) || (!must_fail && c == want) : !hasold; if (!ok && prop == "C02") violate("C02", "partial-output-exposed", strf("while %s ran, the output path held neither the previous nor the complete new content: %s", join(argv, " ").substr(0, 300).c_str(), ex ? esc(c, 120).c_str() : "(missing)")); };
    r.p = spawn_proc("blogc", argv, env, "/w", si ? irf : of_null(), so, of_pipe_w(r.e), nullptr); irf = nullptr; so = nullptr; PProc pr = r.p; S.faults_on = true;
    if (si && !p.par.count("stdinfile")) { size_t chunk = p.geti("chunk", 100); i64 pause = p.geti("pause") * 1000, ed = p.geti("eofdelay") * MS; string data = stdin_text; harness_fiber("feeder", [ip, &iw, data, chunk, pause, ed, pr]() { size_t o = 0; while (o < data.size() && !pr->dead) { sim_yield(); if (ip->buf.size() >= ip->cap) { fiber_block("feed", [ip, pr]() { return ip->buf.size() < ip->cap || pr->dead || ip->readers == 0; }); if (ip->readers == 0) break; continue; } size_t k = std::min({chunk, data.size() - o, ip->cap - ip->buf.size()}); ip->buf.append(data, o, k); o += k; sim_log("fed %zu", k); if (pause) fiber_block("pause", nullptr, S.now + pause); } if (ed) fiber_block("pause", nullptr, S.now + ed); iw = nullptr; sim_log("fed eof"); }); } else iw = nullptr;
    string why = sim_run([pr]() { return pr->dead; }, 3600 * SEC); S.faults_on = false; S.on_fs = nullptr; bool faulted = false; for (auto &f : S.st.faults) if (f.first != "stall") faulted = true; bool killed = pr->killed && (pr->status & 0x7f) == SIGKILL;
    if (S.k.disk_limit && S.st.probes.count("enospc")) faulted = true;
    string cmd = join(argv, " ").substr(0, 400), got; bool gex = true; if (tofile) gex = cur(got); else if (outfile) fs_read(sink, got); else got = r.o->buf; string e = r.err();
    string desc = strf("blogc run [%s]%s: %s; stderr: %s", cmd.c_str(), faulted ? " (with injected faults)" : "", !pr->dead ? ("did not terminate (" + why + ")").c_str() : run_desc(r).c_str(), esc(e, 300).c_str());
    if (!pr->dead) { if (prop == "C02") violate("C02", "no-termination", desc); probe("end:" + why); return; }
    if (r.exited() && r.code() == 0) {
        probe(faulted ? "ok-despite-faults" : "ok"); if (must_fail) { if (prop == "C02") violate("C02", "exit-0-on-error:" + (bad.empty() ? string("input") : bad), desc); if (om == "full" && prop == "C01") violate("C01", "exit-0-output-lost", desc); }
        else if (unknown) { probe("garbage-accepted"); if (!gex && om != "full") violate("C02", "exit-0-without-output", desc); if (got.size() > given * 1000 + 100000) violate("C02", "output-out-of-proportion", desc + strf("; %zu bytes were given, %zu were written", given, got.size())); }
        else { bool ok = gex && got == want; if (special && om == "full") ok = true; if (om == "link" && bad.empty() && tofile) { INode n = fs_lookup("/w/ln.html", false); (void) n; }
            if (!ok && prop == "C01") violate("C01", faulted ? "wrong-output-after-fault" : "wrong-output", desc + "; " + (gex ? diff_str(want, got) : "no output file"));
            if (!ok && prop == "C03") violate("C03", "wrong-output-from-list", desc + strf("; list of %zu bytes, chunk %d; ", stdin_text.size(), (int) p.geti("chunk")) + (gex ? diff_str(want, got) : "no output file")); }
    } else {
        probe(killed ? "killed" : faulted ? "fail-after-fault" : "fail");
        if (!killed) {
            if (unknown && !faulted) probe("garbage-refused"); if (!must_fail && !unknown && !faulted) { if (prop == "C01") violate("C01", "spurious-failure", desc); if (prop == "C03") violate("C03", "spurious-failure", desc); }
            if (prop == "C02") { if (!pr->memerr.empty()) violate("C02", "crash:" + pr->memerr.substr(0, 40), desc); else if (!r.exited() && (pr->status & 0x7f) != SIGABRT) violate("C02", "died-of-signal", desc); else if (e.empty() && !(faulted && S.st.faults.count("write:EIO") + S.st.faults.count("write:ENOSPC") + S.st.faults.count("write:SHORT"))) violate("C02", "no-diagnostic", desc); }
        }
        if (prop == "C02" && tofile && !special && bad != "outcomp" && bad != "outdir") { bool ok = unknown ? (faulted ? gex || !hasold : gex == hasold && got == old) : gex ? (hasold && got == old) || (!must_fail && got == want) : !hasold; if (!ok) violate("C02", "bad-output-left-behind", desc + "; output path holds " + (gex ? esc(got, 120) : string("nothing"))); }
    }
    if (p.prop == "C02" && pr->dead && !killed && !S.st.faults.count("unlink:EIO") && !S.st.faults.count("unlink:EACCES")) { for (auto &t : fs_tree("/tmp")) violate("C02", "temp-left", desc + "; left /tmp/" + t.first); if (tofile && dest.size()) { string d = dpath.substr(0, dpath.rfind('/')), b = dpath.substr(dpath.rfind('/') + 1); INode n = fs_lookup(d); if (n && n->type == Inode::DIR && d != "/dev") for (auto &x : n->ent) if (x.first != b && d != "/w") violate("C02", "temp-left", desc + "; left " + d + "/" + x.first); } }
}
static int reg = (add_scenario("blogc", gen, exec), g_checks.push_back({"C01", {{"blogc", 1}}}), g_checks.push_back({"C02", {{"blogc", 1}}}), g_checks.push_back({"C03", {{"blogc", 1}}}), 0);
