// blogc-make and the commands it runs: a stand-in for blogc, built from the reference model, that talks, stalls, closes its streams, fails and dies as told (C10).
#include "mk.h"
#include <algorithm>

struct Inv { vector<string> argv; string err_before, err_after, lc, in; string extra_fds; bool print = false, started = false, done = false; int status = 0; string what; string out; bool refused = false; };
static Site *g_site; static vector<Inv> *g_inv; static vector<vector<string>> *g_spec; static bool g_def_echo; static bool g_extraw;

static bool wr(int fd, const string &s) { size_t d = 0; while (d < s.size()) { i64 r = sys_write(fd, s.data() + d, s.size() - d); if (r == -EINTR) continue; if (r <= 0) return false; d += r; } return true; }
static string blob(char tag, int idx, size_t n) { string s; size_t k = 0; while (s.size() < n) s += strf("%c%d.%zu some text of the command\n", tag, idx, k++); s.resize(n); return s; }
static string mkdirs_of(const string &p) { size_t i = 0; while ((i = p.find('/', i + 1)) != string::npos) { i64 r = sys_mkdir(p.substr(0, i), 0777); (void) r; } return p; }
static int prog_refblogc(Proc &p, vector<string> &a) {
    size_t idx = g_inv->size(); g_inv->push_back(Inv()); auto inv = [idx]() -> Inv & { return (*g_inv)[idx]; }; inv().argv = a; inv().lc = p.env.count("LC_ALL") ? p.env["LC_ALL"] : ""; inv().started = true; for (auto &f : p.fds) if (f.first > 2) inv().extra_fds += strf(" %d", f.first); for (int f = 0; f < 3; f++) if (!p.fds.count(f)) inv().extra_fds += strf(" (no %d)", f);
    vector<string> sp = idx < g_spec->size() ? (*g_spec)[idx] : vector<string>(); MSite &m = g_site->m; auto num = [](const string &s) { return atoi(s.c_str() + 1); };
    RefIn in; string tmpl, out, print; vector<string> srcs, ents; bool list = false, rd = false, bad = false;
    for (size_t i = 1; i < a.size(); i++) { const string &x = a[i]; auto val = [&]() -> string { if (x.size() > 2) return x.substr(2); if (i + 1 < a.size()) return a[++i]; bad = true; return ""; }; if (x.size() > 1 && x[0] == '-') switch (x[1]) { case 'D': { string v = val(); size_t e = v.find('='); if (e == string::npos) bad = true; else in.globals[v.substr(0, e)] = v.substr(e + 1); break; } case 'l': list = true; break; case 'i': rd = true; break; case 'e': ents.push_back(val()); break; case 't': tmpl = val(); break; case 'o': out = val(); break; case 'p': print = val(); break; default: bad = true; } else srcs.push_back(x); }
    inv().print = !print.empty(); inv().what = print.empty() ? out : "-p " + print; int xcode = -1, ksig = 0; bool noread = false; string sle;
    for (auto &s : sp) if (s[0] == 'I') noread = true;
    if (rd && !noread) { string t; char b[4096]; int lim = -1; for (auto &s : sp) if (s[0] == 'P') lim = num(s); for (;;) { size_t want = sizeof b; if (lim >= 0) { if ((int) t.size() >= lim) break; want = std::min<size_t>(want, lim - t.size()); } i64 r = sys_read(0, b, want); if (r == -EINTR) continue; if (r <= 0) break; t.append(b, r); } inv().in = t; for (auto &l : split(t, '\n')) if (!l.empty()) srcs.push_back(l); }
    auto say = [&](const string &t, bool after) { if (wr(2, t)) (after ? inv().err_after : inv().err_before) += t; };
    for (auto &s : sp) { char c = s[0]; if (c == 'E') say(blob('e', (int) idx, num(s)), false); else if (c == 'O') { string t = print.empty() ? blob('o', (int) idx, num(s)) : ""; wr(1, t); inv().out += t; } else if (c == 'Z') sys_nanosleep((i64) num(s) * MS); else if (c == 'M') for (int k = 0; k < num(s); k++) { say(blob('m', (int) idx, 40 + k % 7), false); if (print.empty()) wr(1, blob('n', k, 30)); } else if (c == 'C') sys_close(num(s)); else if (c == 'X') xcode = num(s); else if (c == 'K') ksig = num(s); }
    if (ksig) { inv().status = 128 + ksig; inv().done = true; proc_kill(&p, ksig); } if (xcode >= 0) { inv().status = xcode; inv().done = true; return xcode; }
    auto fail = [&](const string &msg, int code = 1) { inv().refused = true; say("blogc: error: " + msg + "\n", true); inv().status = code; inv().done = true; return code; };
    if (bad) return fail("bad arguments"); in.listing = list;
    for (auto &s : srcs) { string rel = starts_with(s, g_site->root + "/") ? s.substr(g_site->root.size() + 1) : s; auto it = m.src.find(rel); struct stat st; if (it == m.src.end() || sys_stat(s, &st, true) < 0) return fail("cannot read " + s); in.sources.push_back({s, it->second}); }
    for (auto &s : ents) { string rel = starts_with(s, g_site->root + "/") ? s.substr(g_site->root.size() + 1) : s; auto it = m.src.find(rel); if (it == m.src.end()) return fail("cannot read " + s); in.entries.push_back({s, it->second}); }
    if (!list && in.sources.size() != 1) return fail("one source file is required");
    string res; if (!print.empty()) { RefIn q = in; if (!ref_load(q)) return fail("posts with and without date"); if (!q.globals.count(print)) return fail("variable not found: " + print, 78); res = q.globals[print] + "\n"; if (!wr(1, res)) return fail("write"); }
    else { INode t = fs_lookup(tmpl); if (!t) return fail("no template"); bool am = !m.set("atom_template").empty() && tmpl == g_site->root + "/" + m.atmpl_path(); if (am || tmpl == g_site->root + "/" + m.tmpl_path()) { in.tver = am ? m.atver : m.tver; res = ref_render(in); } else { map<string, string> st; for (auto k : {"blog_prefix", "post_prefix", "atom_prefix", "atom_ext", "html_ext"}) st[k] = m.set(k); res = ref_atom(in, st); }
        if (res == "<<error>>") return fail("posts with and without date"); if (out.empty()) return fail("no output"); mkdirs_of(out); i64 fd = sys_open(out, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0666); if (fd < 0) return fail("cannot write " + out); bool ok = wr((int) fd, res); sys_close((int) fd); if (!ok) return fail("cannot write " + out); }
    for (auto &s : sp) { char c = s[0]; if (c == 'e') say(blob('f', (int) idx, num(s)), true); else if (c == 'z') sys_nanosleep((i64) num(s) * MS); else if (c == 'x') { inv().status = num(s); inv().done = true; return num(s); } else if (c == 'k') { inv().status = 128 + num(s); inv().done = true; proc_kill(&p, num(s)); } }
    inv().done = true; return 0;
}
static void gen(Plan &p, Rng &r) {
    p.par["dev"] = r.chance(.2) ? "1" : "0"; p.par["verbose"] = r.chance(.3) ? "1" : "0"; p.par["bin"] = strf("%d", (int) r.below(4)); gen_site(p, r, 4, true);
    if (r.chance(.5)) { static const vector<string> V = {"it's", "\"quoted\" inside", "a $HOME b", "`id` $(id)", "x; rm -rf y", "a && b || c", "tab\there", "star * ? [a]", "~ tilde", "#no comment", "trail'", "''", "a'\"'b", "!history", "caf\xc3\xa9 \xe6\x97\xa5", "-D X=Y", "> out < in | cat", "newline?no", "{a,b}", "b\\s \\n \\", "%s%n%d", "a=b=c", "a b"}; int n = r.range(1, 3); for (int i = 0; i < n; i++) { string v = "v" + r.pick(V); if (r.chance(.1)) v += string(r.range(1000, 20000), 'L'); p.op({"glob", r.chance(.6) ? strf("XVAR") : r.chance(.5) ? "SITE_TITLE" : "AUTHOR_NAME", v}); } }
    if (r.chance(.2)) { static const vector<string> L = {"C", "en_US.utf8", "pt BR", "it's"}; p.op({"set", "locale", r.pick(L)}); }
    if (r.chance(.12)) p.op({"set", "blog_prefix", r.pick(vector<string>{"100%d", "a%sb%n", "it's", "a b", "x/y", "$HOME"})}); 
    if (r.chance(.08)) { p.op({"many", strf("%d", r.range(100, 900)), strf("%d", r.range(10, 180))}); p.par["rules"] = r.chance(.5) ? "index" : r.chance(.5) ? "atom" : "index atom pagination"; p.op({"set", "posts_per_page", r.chance(.5) ? "-1" : "300"}); }
    else p.par["rules"] = r.chance(.7) ? "all" : r.pick(vector<string>{"index", "posts", "pages", "pagination", "pagination_tags", "atom", "posts pages", "tags atom_tags"});
    int n = r.range(1, 12), bigs = 0; auto size = [&]() { if (r.chance(.45)) return r.range(1, 300); if (r.chance(.6)) return r.range(300, 9000); if (bigs++ > 2) return 100; return r.range(9000, r.chance(.3) ? 400000 : 140000); };
    int fail_at = r.chance(.5) ? (int) r.below(n) : -1;
    for (int i = 0; i < n; i++) { Op o = {"child"}; int k = (int) r.below(4); for (int j = 0; j < k; j++) switch (r.below(9)) { case 0: case 1: case 2: o.push_back(strf("E%d", size())); break; case 3: o.push_back(strf("O%d", size())); break; case 4: o.push_back(strf("Z%d", r.range(1, 3000))); break; case 5: o.push_back(strf("M%d", r.range(1, 200))); break; case 6: o.push_back(strf("e%d", size())); break; case 7: o.push_back(strf("z%d", r.range(1, 2000))); break; case 8: if (r.chance(.5)) { static const vector<string> C = {"C0", "C1", "C2"}; string c = r.pick(C); o.push_back(c); } break; }
        if (i == fail_at) { int c = (int) r.below(8); static const vector<int> XC = {1, 2, 3, 70, 77, 126, 127, 129, 137, 255}; static const vector<int> SG = {SIGKILL, SIGTERM, SIGSEGV, SIGABRT, SIGPIPE, SIGHUP}; string x = c < 2 ? strf("X%d", r.pick(XC)) : c < 4 ? strf("K%d", r.pick(SG)) : c < 6 ? strf("x%d", r.pick(XC)) : strf("k%d", r.pick(SG)); if (r.chance(.5) && x[0] < 'a') o.push_back(r.chance(.5) ? "I" : strf("P%d", r.range(1, 100))); o.push_back(x); } p.op({}); p.ops.back() = o; }
    auto &k = p.k; if (r.chance(.5)) k.pipe_cap = 65536; else k.pipe_cap = 4096; if (r.chance(.4)) k.short_io = r.range(1, 5); if (r.chance(.3)) { k.stall_rate = r.range(20, 500); k.stall_ns = r.range(1, 2000) * MS; }
    if (r.chance(.3)) { int m = (int) r.below(4); k.fault_max = r.chance(.7) ? 1 : 3; if (m == 0) { k.fault_sc = {"pipe", "fork", "exec", "dup", "waitpid", "poll"}; k.fault_rate = r.range(2, 60); } else if (m == 1) { k.fault_sc = {"write", "close", "open", "mkstemp", "creat", "lseek"}; k.fault_rate = r.range(3, 100); } else if (m == 2) p.par["disk"] = strf("%d", r.range(0, 20000)); else { k.fault_sc = {"malloc"}; k.fault_rate = r.range(200, 20000); } }
    knobs_schedule(p, r, 0); k.sh_exec_last = r.chance(.5); k.step_limit = 4000000; k.compute_limit = 3000000000;
}
static void exec(const Plan &p) {
    const string prop = p.prop; Site s; s.init("/w/site", "", false); s.m.dev = p.get("dev") == "1"; fs_mkdirs("/tmp"); vector<vector<string>> spec; vector<Inv> inv; g_site = &s; g_inv = &inv; g_spec = &spec;
    S.builtins["refblogc"] = prog_refblogc; map<string, string> env = g_env; int bin = (int) p.geti("bin"); vector<string> av = {"blogc-make"}; string self = "/usr/bin/blogc-make";
    if (bin == 0) { fs_prog("/opt/it's my/blogc $x", "refblogc"); env["BLOGC"] = "/opt/it's my/blogc $x"; } else if (bin == 1) { fs_prog("/opt/b", "refblogc"); env["BLOGC"] = "/opt/b"; } else if (bin == 2) { fs_prog("/opt/my tools/blogc", "refblogc"); fs_prog("/opt/my tools/blogc-make", "blogc-make"); av[0] = "/opt/my tools/blogc-make"; } else { fs_prog("/usr/local/first/blogc", "refblogc"); env["PATH"] = "/usr/local/first:/usr/bin:/bin"; }
    for (auto &o : p.ops) { if (o[0] == "child") spec.push_back(vector<string>(o.begin() + 1, o.end()));
        else if (o[0] == "many") { Rng q(7); int n = atoi(o[1].c_str()), len = atoi(o[2].c_str()); for (int i = 0; i < n; i++) { MSrc ms; string sl = strf("m%04d", i) + string(len, 'x'); gen_msrc(q, ms, sl, i, false, true); s.m.posts.push_back(sl); string f = s.m.src_path(sl, true); s.m.src[f] = ms; s.put(f, ms.text()); } s.cfg(); }
        else { MSite before = s.m; s.apply(o, false); if (o[0] == "set" && o[1] == "blog_prefix") { map<string, MSrc> old; std::swap(old, s.m.src); for (auto &po : s.m.posts) { auto it = old.find(before.src_path(po, true)); if (it != old.end()) { s.m.src[s.m.src_path(po, true)] = it->second; s.put(s.m.src_path(po, true), it->second.text()); } } for (auto &pg : s.m.pages) { auto it = old.find(s.m.src_path(pg, false)); if (it != old.end()) s.m.src[it->first] = it->second; } if (!s.m.set("listing_entry").empty()) { MSrc ms; ms.title = "le"; ms.date = ""; string f = s.m.set("content_dir") + "/" + s.m.set("blog_prefix") + "/" + s.m.set("listing_entry") + s.m.set("source_ext"); s.m.src[f] = ms; s.put(f, ms.text()); } } } }
    if (s.m.dev) av.push_back("-D"); bool verbose = p.get("verbose") == "1"; if (verbose) av.push_back("-V"); vector<string> rules; for (auto &x : split(p.get("rules"), ' ')) rules.push_back(x); for (auto &x : rules) av.push_back(x); string lc = s.m.set("locale");
    if (p.par.count("disk")) S.k.disk_limit = S.disk_used + p.geti("disk"); S.now += 1000; Run r = launch("mk", av, "/w/site", nullptr, &env); PProc pr = r.p; S.fault_ok = [pr](Proc &q, const string &) { return q.pid == pr->pid || q.borrowed; }; S.faults_on = true; string why = sim_run([pr]() { return pr->dead; }, 7200 * SEC); S.faults_on = false; S.k.disk_limit = 0;
    bool faulted = S.st.probes.count("enospc"); for (auto &f : S.st.faults) if (f.first != "stall" && f.first != "short-read" && f.first != "short-write") faulted = true;
    string desc = strf("%s%s: %s; stderr (%zu bytes): %s", join(av, " ").c_str(), faulted ? " (with injected faults)" : "", pr->dead ? run_desc(r).c_str() : ("did not end (" + why + ")").c_str(), r.err().size(), esc(r.err().substr(0, 300), 300).c_str());
    auto bad = [&](const string &cls, const string &msg) { violate(prop, cls, desc + "; " + msg); }; auto nm = [&](size_t i) { return strf("command %zu (%s; told to: %s)", i, inv[i].what.c_str(), i < spec.size() ? join(spec[i], " ").c_str() : "do its work"); };
    if (S.stop) { bad("no-termination", why); return; } if (!pr->dead) { bad("hangs", "it waits forever; last " + (inv.empty() ? string("command: none") : nm(inv.size() - 1)) + (inv.empty() || inv.back().done ? ", which has ended" : ", which is blocked as well")); return; }
    if (!pr->memerr.empty() && !S.st.faults.count("malloc:ENOMEM")) { bad("memory-error", ""); return; }
    for (size_t i = 0; i < inv.size(); i++) { if (!inv[i].extra_fds.empty()) { bad("descriptors", nm(i) + " was started with other descriptors than its standard streams:" + inv[i].extra_fds); return; } if (inv[i].lc != lc) { bad("environment", nm(i) + strf(" ran with LC_ALL \"%s\", the settings say \"%s\"", inv[i].lc.c_str(), lc.c_str())); return; } }
    bool failed = false; size_t fi = 0; for (size_t i = 0; i < inv.size(); i++) if (inv[i].status && !(inv[i].print && inv[i].status == 78)) { failed = true; fi = i; }
    if (!r.exited()) { if (!faulted) bad("died", "blogc-make itself died"); return; }
    // whatever a command said on standard error is shown, complete and in order
    string e = r.err(); size_t at = 0; auto strip = [](const string &t) { size_t a = 0, b = t.size(); while (a < b && isspace((unsigned char) t[a])) a++; while (b > a && isspace((unsigned char) t[b - 1])) b--; return t.substr(a, b - a); };
    if (!faulted) for (size_t i = 0; i < inv.size(); i++) { string t = strip(inv[i].err_before + inv[i].err_after); if (t.empty() || (inv[i].print && (inv[i].status == 0 || inv[i].status == 78))) continue; size_t q = e.find(t, at); if (q == string::npos) { size_t k = 0; while (k < t.size() && e.find(t.substr(0, k + 64), at) != string::npos) k += 64; bad("error-output-lost", nm(i) + strf(" wrote %zu bytes to standard error, of which only about %zu were shown", t.size(), k)); return; } at = q + t.size(); probe("stderr-shown"); }
    bool sf; string w = s.check(rules, &sf); if (r.code() == 0) { probe(faulted ? "ok-despite-faults" : "ok"); if (failed) { bad("failure-ignored", nm(fi) + strf(" ended with status %d, yet it exits 0", inv[fi].status)); return; } if (!w.empty()) { bad("wrong-output", w); return; } }
    else { probe(faulted ? "fail-after-fault" : "fail"); if (!failed && !faulted && !sf) { bad("spurious-failure", "every command ended well"); return; } if (e.empty() && !faulted) { bad("failed-silently", failed ? nm(fi) + strf(" ended with status %d", inv[fi].status) : ""); return; } }
    if (inv.size() > 3) probe("many-commands"); for (auto &i : inv) { if (i.in.size() > 65536) probe("large-input"); if (i.err_before.size() > 65536) probe("large-error-output"); }
}
static int reg = (add_scenario("plumb", gen, exec), g_checks.push_back({"C10", {{"plumb", 1}}}), 0);
