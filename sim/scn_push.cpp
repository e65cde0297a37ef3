// git push deployments: the real blogc-git-receiver (login shell, pre-receive, post-receive) with the real blogc-make and blogc behind a modelled git (C15-C20, C22).
#include "mk.h"
#include <algorithm>

static const char *SHELL_ = "/usr/bin/blogc-git-receiver";
struct Commit { string name, sha, kind; map<string, string> files, tree; bool deploys = false; };
struct Repo { string name, dir, link, mirror; int mirrorkind = 0; /* 1 in the settings file, 2 in the repository */ string cur; /* deployed commit */ string pre; /* what was at the link before the first deployment */ bool litter = false; vector<string> allowed; bool live = false; };
struct Job { string what; Run r; PProc p; int repo = -1; string sel; bool sel_any = false; vector<std::pair<string, string>> refs; string before, link0; bool declined = false, ok = false, stale = false; string cmd; vector<string> oks; bool deletes = false; };

// ------------------------------------------------------------ generation
static void gen(Plan &p, Rng &r) {
    string P = p.prop; bool c15 = P == "C15", c16 = P == "C16", c17 = P == "C17", c18 = P == "C18", c19 = P == "C19", c20 = P == "C20", c22 = P == "C22", c21 = P == "C21";
    int nr = c20 ? r.range(2, 3) : !c21 && r.chance(.3) ? 2 : 1; static const vector<string> NAMES = {"site.git", "sub/blog.git", "it's.git", "a b.git", "x", "site0", "site0.git.git", "sub/site0.git", "www!.git", "$HOME.git", "q\"q.git", "www!/x.git", "it's/y", "-x.git", ".git", "git-upload-pack.git", "git-upload-archive/x.git", "repos/site0.git", "builds", "hooks/pre-receive"}; vector<string> used;
    p.par["builds"] = r.chance(.3) ? "/var/builds" : ""; p.par["base"] = r.chance(.3) ? "env" : "home"; p.par["homelink"] = r.chance(.15) ? "1" : "0"; p.par["ssh"] = r.chance(.3) ? "1" : "0"; p.par["nohooksdir"] = r.chance(.2) ? "1" : "0"; p.par["gmake"] = strf("%d", r.chance(.2) ? 1 : r.chance(.05) ? 2 : 0); p.par["nobmake"] = r.chance(.04) ? "1" : "0";
    for (int i = 0; i < nr; i++) { string n; do n = r.chance(.55) ? strf("site%d.git", i) : r.pick(NAMES); while (std::find(used.begin(), used.end(), n) != used.end()); used.push_back(n);
        string link = r.chance(.6) ? "" : r.chance(.5) ? strf("/srv/www/s%d", i) : r.chance(.8) ? "public" : "/srv/missing/x"; string pre = r.chance(c17 || c22 ? .35 : .1) ? r.pick(vector<string>{"foreign", "foreign-dash", "foreign-branch", "dangling", "dir", "file"}) : ""; string mirror; if (r.chance(c19 ? .9 : .15)) mirror = r.chance(.7) ? strf("/mnt/mirror%d.git", i) : strf("/mnt/%d", i) + r.pick(vector<string>{"/my mirror.git", "/it's.git", "/a;b.git", "/$(x).git", "/my mirrors/x y.git", "/a&b?c=d.git", "/~/m.git"}); if (!mirror.empty() && r.chance(.08)) mirror = "ssh://host/unreachable x"; p.op({"repo", n, link, pre, mirror, strf("%d", r.chance(c19 ? .5 : .7) ? 1 : 2), r.chance(c18 ? .5 : .15) ? r.pick(vector<string>{"nohooks", "bare", "otherlink", "prefixlink", "longerlink", "dangling", "file", "sample", "onlypre", "onlypost", "links"}) : ""}); }
    bool faulty = !c20 && r.chance(c18 ? .35 : .75), single = faulty && r.chance(c15 || c16 || c19 ? .6 : .4); int nc = single ? r.range(1, 2) : r.range(2, 5); static const vector<string> KINDS = {"blogc", "blogc", "make", "make", "links", "copyall", "copyall", "slow", "none", "emptymake", "fileout", "broken", "brokenmake", "brokencfg", "missing"};
    for (int i = 0; i < nc; i++) { string k = i == 0 && !r.chance(.2) ? (r.chance(single ? .15 : .5) ? "blogc" : single && r.chance(.5) ? "copyall" : "make") : r.pick(KINDS); if (c18 && r.chance(.6)) k = "make"; if (c17 && r.chance(.4)) k = r.chance(.7) ? "links" : "brokenlinks"; p.op({"commit", strf("c%d", i), k, strf("%d", (int) r.below(1000000))}); }
    if (r.chance(.06)) { p.par["builds"] = "/var/" + r.pick(vector<string>{"my builds", "b$HOME", "it's", "b`x`", "q\"q", "b\\b", "a;b&c", "$(x)", "builds/"}); for (auto &o : p.ops) if (o[0] == "commit" && o[2] != "none" && !starts_with(o[2], "broken") && o[2] != "missing") o[2] = "blogc"; for (auto &o : p.ops) if (o[0] == "commit" && (o[2] == "brokenmake" || o[2] == "brokenlinks")) o[2] = "broken"; }
    if (c21) p.par["threads"] = strf("%d", r.range(1, 4)); int np = single && c21 ? r.range(2, 3) : single ? r.range(1, 2) : r.range(1, c15 || c20 ? 6 : 4); double conc = c18 ? .6 : c20 ? .4 : .2; bool anyconc = r.chance(conc);
    auto commit = [&]() { return strf("c%d", (int) r.below(nc)); };
    auto refs = [&]() -> string { double x = r.below(1000) / 1000.; string o; vector<string> B; if (x < .6) B = {"refs/heads/master"}; else if (x < .72) B = {"refs/heads/main"}; else { static const vector<string> O = {"refs/heads/master", "refs/heads/main", "refs/heads/feat", "refs/heads/feature/master", "refs/heads/mast", "refs/heads/masters", "refs/tags/master", "refs/heads/m", "refs/tags/v1", "refs/notes/main", "refs/heads/x/refs/heads/master"}; int k = r.range(1, 6); for (int i = 0; i < k; i++) { string b = r.pick(O); if (std::find(B.begin(), B.end(), b) == B.end()) B.push_back(b); } if (r.chance(.1)) for (int i = 0; i < 60; i++) B.push_back(strf("refs/heads/branch-number-%d-%s", i, string(r.range(1, 80), 'b').c_str())); for (size_t i = B.size(); i > 1; i--) std::swap(B[i - 1], B[r.below(i)]); }
        for (auto &b : B) o += (o.empty() ? "" : "|") + b + "=" + (r.chance(.04) ? "delete" : commit()); return o; };
    for (int i = 0; i < np; i++) {
        string repo = strf("%d", (int) r.below(nr)), mode = i && anyconc && r.chance(.7) ? "conc" : "seq", at = strf("%d", r.chance(.4) ? 0 : r.chance(.5) ? r.range(0, 2000) : r.range(0, 2000000)), f = single ? (i == np - 1 ? "f" : "q") : faulty && (r.chance(.6)) ? "f" : "q";
        if (r.chance(.1)) p.op({"adv", strf("%d", r.range(1, 5000))}); if (r.chance(c15 || c20 ? .15 : .06)) p.op({"jump", strf("%d", r.chance(.7) ? -r.range(1, 4) : r.range(-100000, 100000))});
        bool again = false; if (i && !c21 && !c20 && !c22 && r.chance(c15 || c16 || c17 ? .12 : .04)) p.op({"reboot", strf("%d", r.chance(.7) ? 0 : r.range(-3, 3))}), again = r.chance(.7);
        if (c20 && r.chance(.5)) { static const vector<string> C = {"git-upload-pack '../../precious'", "git-receive-pack '../evil.git'", "git-receive-pack 'a/../../evil.git'", "git-upload-archive '/../../../precious'", "git-receive-pack 'x'; touch /precious/pwn", "git-receive-pack `touch /precious/pwn`", "git-receive-pack 'x'\\'';touch /precious/pwn;'\\'''", "git-receive-pack '$(touch /precious/pwn)'", "sh -c 'touch /precious/pwn'", "git-receive-pack ''", "git-receive-pack '//precious/evil.git'", "git-receive-pack '/'", "git-receive-pack ''\\''/../../evil.git'", "git-receive-pack '..'", "git-receive-pack 'x/../../evil2.git'", "git-receive-pack '../../precious/evil.git'", "git-receive-pack 'foo\n;touch /precious/pwn'", "git-receive-pack '..'/evil.git", "git-upload-pack '.'\\'''/../precious'", "git-receive-pack '/../evil3.git'", "git-receive-pack '.''./evil4.git'", "git-receive-pack '..''/evil5.git'", "git-receive-pack '''../evil6.git'", "git-upload-pack '/..''/../precious'", "git-upload-pack 'nothere.git'", "git-upload-archive 'nothere/x.git'"}; p.op({"cmd", mode, at, r.pick(C)}); if (r.chance(.5)) continue; }
        if (c18 && r.chance(.08)) p.op({"cmd", mode, at, "git-receive-pack '" + r.pick(vector<string>{"rel.git", "sub/rel.git", "site0.git"}) + "'", r.pick(vector<string>{"blogc-git-receiver", "./blogc-git-receiver"})});
        if (r.chance(c19 ? .2 : .02)) p.op({"mirror", "seq", at, repo, f}); else if (r.chance(c22 ? .6 : .12)) p.op({"rebuild", mode, at, repo, f, strf("%d", (int) r.below(3))}); else { string rf = refs(); if (again) for (auto &o : p.ops) if (o[0] == "push") repo = o[3], rf = o[5]; if (r.chance(c19 ? .2 : .04)) { vector<string> had; for (auto &o : p.ops) if (o[0] == "push" && o[3] == repo) for (auto &x : split(o[5], '|')) { string b = x.substr(0, x.find('=')); if (b != "refs/heads/master" && b != "refs/heads/main") had.push_back(b); } if (!had.empty()) rf = r.pick(had) + "=delete"; } p.op({"push", mode, at, repo, f, rf}); }
        if (c21) for (int v = r.range(1, 3); v > 0; v--) p.op({"visit", "conc", strf("%d", r.chance(.5) ? 0 : r.range(0, 20000)), strf("%d", (int) r.below(1000000)), strf("%d", r.range(1, 12)), strf("%d", r.chance(.6) ? r.range(0, 300) : r.range(0, 30000))});
    }
    if (c22 && r.chance(.7)) p.op({"rebuild", "seq", "0", "0", "q", "0"}); if ((c16 || c18 || c19) && faulty && r.chance(.6)) p.op({"push", "seq", "0", strf("%d", (int) r.below(nr)), "q", "refs/heads/master=" + commit()});
    if (faulty) {
        auto &k = p.k; int m = single ? 9 : (int) r.below(9); k.fault_max = r.chance(.65) ? 1 : r.range(2, 5);
        if (m == 0) { k.fault_sc = {"kill@"}; k.fault_rate = r.range(20, 3000); if (r.chance(.4)) k.fault_sc.insert("KILLPG"); } else if (m == 1) { p.par["disk"] = strf("%d", r.range(0, r.chance(.5) ? 3000 : 30000)); } else if (m == 2) { k.fault_sc = {"read", "open"}; k.fault_rate = r.range(5, 400); } else if (m == 3) { k.fault_sc = {"write", "close", "creat", "rename", "mkdir", "mkstemp", "symlink", "unlink"}; k.fault_rate = r.range(2, 80); } else if (m == 4) { k.fault_sc = {"pipe", "fork", "exec", "dup", "waitpid", "poll"}; k.fault_rate = r.range(2, 40); } else if (m == 5) { k.fault_sc = {"malloc"}; k.fault_rate = r.range(100, 10000); } else if (m == 6) { k.fault_sc = {"stat", "lstat", "opendir", "readdir", "realpath", "access", "unlink", "rmdir", "readlink", "chdir"}; k.fault_rate = r.range(2, 200); } else if (m == 7) { k.fault_sc = {"symlink", "rename", "unlink", "rmdir", "mkdir", "chdir", "realpath"}; k.fault_rate = r.range(2, 30); }
        else { k.fault_sc = {"read", "open", "write", "close", "creat", "mkdir", "stat", "lstat", "rename", "unlink", "symlink", "pipe", "fork", "exec", "malloc", "kill@", "opendir", "rmdir", "mkstemp", "access", "chdir", "realpath"}; k.fault_rate = r.range(10, 2000); }
        if (m >= 9) { static const vector<string> ONE = {"read", "open", "write", "close", "creat", "mkdir", "stat", "lstat", "rename", "unlink", "symlink", "pipe", "fork", "exec", "malloc", "kill@", "kill@", "kill@", "kill@", "opendir", "readdir", "rmdir", "mkstemp", "access", "access", "access", "realpath", "chdir", "realpath", "readlink", "waitpid", "dup"}; string x = r.pick(ONE); k.fault_sc = {x}; p.par["target"] = x == "kill@" && r.chance(.4) ? "build" : (x == "kill@" || x == "write") && r.chance(.4) ? "git" : r.pick(vector<string>{"hook", "hook", "hook", "git", "ext"}); k.fault_rate = x == "malloc" ? r.range(20, 600) : x == "kill@" ? r.range(5, 100) : r.range(2, 14); }
        if (r.chance(.2)) k.wr_chunk = r.range(1, 4000); if (m < 9 && r.chance(.5)) p.par["target"] = r.pick(vector<string>{"ext", "hook", "hook", "blogc-make", "git"}); if (m < 9 && (p.par["target"] == "git" || p.par["target"] == "hook")) k.fault_rate = m == 0 ? r.range(3, 60) : 1 + k.fault_rate / 8;
    }
    if (r.chance(.5)) p.k.short_io = r.range(1, 5); if (r.chance(.1)) p.k.pipe_cap = r.range(4096, 8192); knobs_schedule(p, r, 0); p.k.sh_exec_last = r.chance(.5); p.k.step_limit = 6000000; p.k.compute_limit = 3000000000; if (r.chance(.15)) { p.k.stall_rate = r.range(50, 3000); p.k.stall_ns = r.range(1, 1500) * MS; } if (c18 && r.chance(.5)) { p.k.stall_rate = r.range(8, 200); p.k.stall_ns = r.range(1, 5000) * 1000; }
}

// ------------------------------------------------------------ model
static string sha_of(const string &n, u64 seed) { string s; u64 h = hcomb(hstr(n), seed); for (int i = 0; i < 40; i++) { s += "0123456789abcdef"[h & 15]; h = mix(h + i + 1); } return s; }
static map<string, string> prune(const map<string, string> &t) { map<string, string> o; for (auto &x : t) if (x.second != "d") o.insert(x); return o; }
static Commit make_commit(const Op &o) {
    Commit c; c.name = o[1]; c.kind = o[2]; u64 seed = strtoull(o[3].c_str(), nullptr, 10); c.sha = sha_of(c.name, seed); Rng r(seed); auto out = [&](const string &f, const string &d) { c.tree[f] = "f:" + d; };
    bool links = c.kind == "links" || c.kind == "brokenlinks"; bool mk = c.kind == "make" || c.kind == "slow" || c.kind == "brokenmake" || links;
    if (c.kind == "blogc" || c.kind == "broken") { string tpath = "templates/main.tmpl";
        for (int t = 0; t < 20; t++) { Plan q; gen_site(q, r, 3, r.chance(.3)); Site s; fs_remove("/scratch"); s.init("/scratch", "", false); for (auto &x : q.ops) s.apply(x, false); s.m.tver = r.range(1, 9);
            map<string, string> e; if (!s.m.expect("all", e) || e.empty()) continue; for (auto &x : e) out(x.first, x.second); c.files["blogcfile"] = s.m.blogcfile(); tpath = s.m.tmpl_path(); c.files[tpath] = tmpl_text(s.m.tver); if (!s.m.set("atom_template").empty()) c.files[s.m.atmpl_path()] = tmpl_text(s.m.atver); for (auto &x : s.m.src) c.files[x.first] = x.second.text(); for (auto &x : s.m.raw) c.files[x.first] = x.second; break; }
        fs_remove("/scratch"); if (r.chance(.2)) c.files["Makefile"] = "all:\n\tfalse\n"; if (c.kind == "broken") { c.files[tpath] = "{% block listing %}x"; }
    } else if (c.kind == "brokencfg") { c.files["blogcfile"] = "[global\nbroken\n"; c.files["index.html"] = "x"; }
    else if (c.kind == "copyall") { int n = r.range(1, 8); c.files["Makefile"] = "all:\n\tmkdir -p $(OUTPUT_DIR)\n\tcp -r www $(OUTPUT_DIR)\n"; for (int i = 0; i < n; i++) { string f = strf(i % 3 ? "www/f%d" : "www/d%d/f", i), d = strf("%s file %d\n", c.name.c_str(), i) + string(r.chance(.2) ? r.range(1, 9000) : 0, 'w'); c.files[f] = d; out(f, d); } }
    else if (mk) {
        string idx = "page of " + c.name + strf(" %d\n", (int) r.below(100000)) + string(r.chance(.2) ? r.range(1, 9000) : 0, 'm'), sub = "sub of " + c.name + "\n"; c.files["index.txt"] = idx; c.files["sub.txt"] = sub; string m = "all:\n"; string at = r.chance(.5) ? "\t@" : "\t"; m += at + "mkdir -p $(OUTPUT_DIR)/sub/deep\n"; m += at + "cp index.txt $(OUTPUT_DIR)/index.html\n"; out("index.html", idx); if (c.kind == "brokenmake" && r.chance(.5)) m += "\tfalse\n"; if (c.kind == "slow") m += strf("\tsleep %d.%d\n", r.range(0, 2), r.range(0, 9)); m += at + "cp sub.txt $(OUTPUT_DIR)/sub/deep/a.txt\n"; out("sub/deep/a.txt", sub);
        if (r.chance(.3)) { m += at + "cp sub.txt $(OUTPUT_DIR)/r$(BLOGC_GIT_RECEIVER).txt\n"; out("r1.txt", sub); }
        if (r.chance(.3)) { int n = r.range(1, 6); for (int i = 0; i < n; i++) { m += at + strf("cp sub.txt $(OUTPUT_DIR)/f%d\n", i); out(strf("f%d", i), sub); } }
        if (links) { vector<std::pair<string, string>> L = {{"/precious/secret", "photos"}, {"nowhere/at/all", "gone"}, {"index.html", "home.html"}, {"/precious/file", "file"}, {"/precious", "sub/up"}, {"..", "sub/parent"}, {"/home/blogc/builds", "b"}}; for (auto &l : L) if (r.chance(.5)) { m += at + "ln -s " + l.first + " $(OUTPUT_DIR)/" + l.second + "\n"; c.tree[l.second] = "l:" + l.first; } if (r.chance(.6)) c.files["data"] = "LNK:/precious/secret"; if (r.chance(.4)) c.files["dir/lost"] = "LNK:/nowhere/x"; if (r.chance(.3)) c.files["pf"] = "LNK:/precious/file"; if (r.chance(.3)) c.files["self"] = "LNK:."; }
        if (c.kind == "brokenmake" || c.kind == "brokenlinks") m += "\tfalse\n"; c.files["Makefile"] = m;
    } else if (c.kind == "emptymake") { c.files["Makefile"] = seed % 2 ? "all:\n\tmkdir -p /tmp\n" : "all:\n\ttrue\n"; }
    else if (c.kind == "fileout") { c.files["Makefile"] = "all:\n\tcp index.txt $(OUTPUT_DIR)\n"; c.files["index.txt"] = "one file\n"; }
    else if (c.kind == "none" || c.kind == "missing") { c.files["README"] = "nothing to build\n"; if (r.chance(.3)) c.files["d/blogcfile"] = "x"; }
    // the man page names GNUMakefile, GNU make looks for GNUmakefile
    if (c.kind != "blogc" && c.files.count("Makefile") && r.chance(.15)) { string nm = r.chance(.5) ? "GNUMakefile" : "GNUmakefile"; c.files[nm] = c.files["Makefile"]; c.files.erase("Makefile"); }
    c.deploys = c.kind == "blogc" || c.kind == "make" || c.kind == "slow" || c.kind == "copyall" || c.kind == "links"; return c;
}
static string object_of(const Commit &c) { string s; vector<std::pair<u64, string>> ord; for (auto &x : c.files) ord.push_back({hcomb(hstr(c.sha), hstr(x.first)), x.first}); std::sort(ord.begin(), ord.end()); for (auto &y : ord) { auto &x = *c.files.find(y.second); s += "ENT " + x.first + strf(" %zu\n", x.second.size()) + x.second; } return s; }
static string link_of(const string &p) { INode n = fs_lookup(p, false); return !n ? "" : n->type == Inode::LINK ? "l:" + n->data : n->type == Inode::DIR ? "dir" : "file"; }

static string gitq(const string &s) { string r = "'"; for (char c : s) { if (c == '\'' || c == '!') r += string("'\\") + c + "'"; else r += c; } return r + "'"; }
struct WVer { i64 t; map<string, string> tree; bool ok; };
struct World {
    const Plan &p; string prop; string base, builds; vector<Repo> repos; map<string, Commit> commits; map<string, string> env; vector<Job> group; bool gfault = false, hook_killed = false, litter = false, receiver_killed = false; u64 nf0 = 0; int njob = 0; string hist; map<string, string> guard; std::map<Repo *, bool> young; /* did not exist when the group began: racing git inits may fail */
    // a web server on the website link of the first repository, and its visitors
    PProc web; vector<WVer> vers; string lastlink = "?"; std::shared_ptr<int> vleft = std::make_shared<int>(0); vector<string> vpaths; int nvis = 0; Run webrun;
    void track() { Repo &r = repos[0]; string l = link_of(r.link) + "|" + fs_realpath(r.link); if (l == lastlink) return; lastlink = l; INode d = fs_lookup(r.link); bool ok = d && d->type == Inode::DIR; vers.push_back({S.now, ok ? fs_tree(r.link) : map<string, string>(), ok}); }
    void maybe_serve() { if (prop != "C21" || web || S.stop) return; Repo &r = repos[0]; INode d = fs_lookup(r.link); if (!d || d->type != Inode::DIR || link_of(r.link)[0] != 'l') return; std::set<string> ps = {"/", "/index.html", "/nosuchfile"}; for (auto &c : commits) for (auto &x : c.second.tree) ps.insert("/" + x.first); vpaths.assign(ps.begin(), ps.end());
        webrun = launch("web", {"blogc-runserver", "-p", "8090", "-m", p.get("threads", "2"), r.link}, "/", nullptr, &env); web = webrun.p; auto w = web; sim_run([w]() { return w->dead || net_listening(8090); }, 20 * SEC); track(); }
    int nweb() { return web && !web->dead ? 1 : 0; }
    void visit_one(const string &path) { // on a fiber: one request, judged against the versions that were deployed while it ran
        string u; for (unsigned char c : path) u += isalnum(c) || strchr("/._-", c) ? string(1, (char) c) : strf("%%%02X", c); i64 t0 = S.now; auto c = net_connect(8090); string all, why; bool end = false; if (c) { if (net_send(*c, "GET " + u + " HTTP/1.1\r\nHost: x\r\n\r\n") >= 0) for (;;) { string b; i64 n = net_recv(*c, b, 65536, 120 * SEC); if (n == 0) end = !c->reset; if (n <= 0) break; all += b; } net_close(*c); } i64 t1 = S.now;
        size_t h = all.find("\r\n\r\n"); int code = h == string::npos || all.size() < 12 ? -1 : atoi(all.c_str() + 9); string body = h == string::npos ? "" : all.substr(h + 4); vector<WVer *> V; for (size_t i = 0; i < vers.size(); i++) if (vers[i].t <= t1 && (i + 1 >= vers.size() || vers[i + 1].t >= t0)) V.push_back(&vers[i]); auto want = [&](WVer &v, string *data) -> int { string f = path.substr(1); if (f.empty()) f = "index.html"; if (!v.ok) return -1; string pre; for (auto &x : split(f, '/')) { pre += (pre.empty() ? "" : "/") + x; auto i = v.tree.find(pre); if (i != v.tree.end() && i->second[0] == 'l') return -1; } auto i = v.tree.find(f); if (i == v.tree.end()) return path == "/" ? -1 : 404; if (i->second[0] != 'f') return -1; *data = i->second.substr(2); return 200; };
        bool known = true, okd = false; string d, expect; for (auto *v : V) { int w = want(*v, &d); if (w < 0) known = false; else if (w == 200) { if (code == 200 && body == d) okd = true; expect += strf("%zu bytes; ", d.size()); } else { if (code >= 400) okd = true; expect += "an error; "; } } if (V.size() > 1 && code >= 400) okd = true; probe(V.size() > 1 ? "visit-during-switch" : group.empty() ? "visit" : "visit-during-push");
        string cls; if (code < 0 || !end) cls = "no-answer"; else if (known && !okd) cls = V.size() > 1 ? "wrong-page-during-switch" : code >= 400 ? "page-missing" : group.empty() ? "wrong-page" : "wrong-page-during-push"; if (!cls.empty()) { string o; for (auto *v : V) for (auto &x : vers) if (&x != v && want(x, &d) == 200 && code == 200 && d == body) o = "which is another version's"; viol("C21", cls, "GET " + path + strf(" answered %d with %zu bytes %s, expected %swhile %zu versions were deployed between %lld and %lld us", code, body.size(), o.c_str(), expect.c_str(), V.size(), (long long) (t0 / 1000), (long long) (t1 / 1000)) + (web->dead ? "; the server ended: " + run_desc(webrun) : "")); }
    }
    void visit(u64 seed, int n, i64 at, i64 gap) { if (!web || web->dead) return; auto l = vleft; ++*l; harness_fiber(strf("visitor%d", nvis++), [this, seed, n, at, gap, l]() { if (at) fiber_block("visit", nullptr, S.now + at); for (int i = 0; i < n && !S.stop; i++) { visit_one(vpaths[hcomb(seed, i) % vpaths.size()]); if (gap) fiber_block("gap", nullptr, S.now + gap); } --*l; }); }
    void sweep() { if (!web || S.stop) return; auto l = vleft; sim_run([l]() { return *l == 0; }, 3600 * SEC); if (S.stop) return; if (*l) { viol("C21", "no-answer", "visitors still wait an hour after the last push ended"); return; } ++*l; harness_fiber(strf("sweep%d", nvis++), [this, l]() { int n = 0; for (auto &x : vpaths) if (hcomb(S.k.seed, hcomb(hstr(x), nvis)) % 3 == 0 && n++ < 6) visit_one(x); visit_one("/index.html"); --*l; }); sim_run([l]() { return *l == 0; }, 3600 * SEC); if (!S.stop && web->dead) viol("C21", "server-died", run_desc(webrun)); }
    explicit World(const Plan &q) : p(q), prop(q.prop) {}
    void viol(const string &pr, const string &cls, const string &msg) { if (prop == pr) violate(pr, cls, msg + "; history: " + hist); }
    u64 nf() { u64 n = 0; for (auto &f : S.st.faults) if (f.first != "stall" && f.first != "short-read" && f.first != "short-write") n += f.second; if (S.st.probes.count("enospc")) n += S.st.probes["enospc"]; return n; }
    bool fault_like(std::initializer_list<const char *> l) { for (auto &f : S.st.faults) for (auto *x : l) if (starts_with(f.first, x)) return true; return false; }
    // which commit the site shows: its name, "" nothing deployed yet, "?..." anything else
    string ident(Repo &r, string *why = nullptr) {
        string l = link_of(r.link); if (!r.live && l == r.pre) return ""; if (l.empty()) { if (why) *why = "the link is missing"; return "?missing"; } if (l[0] != 'l') { if (why) *why = "the link is no link any more"; return "?notlink"; }
        INode d = fs_lookup(r.link); if (!d) { if (why) *why = "the link dangles (" + l.substr(2) + ")"; return "?dangling"; } if (d->type != Inode::DIR) return "?notdir"; map<string, string> t = prune(fs_tree(r.link));
        for (auto &c : r.allowed) if (commits[c].tree == t) return c; for (auto &c : commits) if (c.second.tree == t && c.second.deploys) { if (why) *why = "it shows " + c.first + ", which was not pushed here"; return "?other"; }
        if (why) { string best; size_t bs = 0; for (auto &c : r.allowed) { size_t same = 0; for (auto &x : t) if (commits[c].tree.count(x.first) && commits[c].tree[x.first] == x.second) same++; if (same >= bs) bs = same, best = c; } *why = strf("what is deployed (%zu files) is no complete build; nearest is %s", t.size(), best.c_str()); if (!best.empty()) for (auto &x : commits[best].tree) if (!t.count(x.first)) { *why += ", lacking " + x.first; break; } else if (t[x.first] != x.second) { *why += ", with different " + x.first; break; } }
        return "?incomplete";
    }
    void invariant() { for (auto &r : repos) { string why, id = ident(r, &why); if (!id.empty() && id[0] == '?') viol("C15", "site-" + id.substr(1), "repository " + r.name + ": " + why + strf(" at %lld us", (long long) (S.now / 1000))); else if (!id.empty()) r.live = true; } }
    set<string> bare0; set<string> bare() { set<string> o; for (auto &x : fs_tree(base + "/repos")) if (x.first.size() > 8 && ends_with(x.first, "/objects")) o.insert(x.first.substr(0, x.first.size() - 8)); return o; } // the repositories that exist
    string guard_now() { for (auto &g : guard) { u64 h = fs_tree_hash(g.first); string s = strf("%lx", (unsigned long) h); if (s != g.second) return g.first; } return ""; }
    void setup() {
        base = "/home/blogc"; if (p.get("homelink") == "1") { fs_mkdirs("/mnt/homes/blogc"); fs_mkdirs("/home"); fs_symlink("/mnt/homes/blogc", "/home/blogc"); } else fs_mkdirs("/home/blogc"); fs_mkdirs("/tmp"); fs_mkdirs("/mnt"); fs_mkdirs("/srv/www"); fs_write("/precious/file", "precious\n"); fs_write("/precious/secret/a", "a\n"); fs_write("/precious/secret/sub/b", "b\n"); fs_write("/precious/index.html", "precious index\n"); fs_mkdirs("/precious/objects"); fs_write("/srv/old/site/index.html", "the old site\n"); fs_write("/srv/old/my-site/index.html", "the old site\n"); fs_write("/srv/old/my-site/d/x", "x\n"); fs_write("/srv/old/master-site/index.html", "the old site\n"); fs_write(base + "/.ssh/authorized_keys", "key\n"); fs_write("/etc/passwd", "root\n");
        env = {{"PATH", "/usr/bin:/bin"}, {"HOME", base}, {"SHELL", SHELL_}}; builds = base + "/builds"; if (p.get("base") == "env") { env["HOME"] = "/nonexistent"; env["BLOGC_GIT_RECEIVER_BASE_DIR"] = base; } if (!p.get("builds").empty()) { builds = p.get("builds"); env["BLOGC_GIT_RECEIVER_BUILDS_DIR"] = builds; fs_mkdirs("/var"); } if (p.get("nohooksdir") == "1") env["SIM_NO_HOOKS_DIR"] = "1"; int gm = (int) p.geti("gmake"); if (gm == 1) fs_remove("/usr/bin/gmake"); if (gm == 2) { fs_remove("/usr/bin/gmake"); fs_remove("/usr/bin/make"); } if (p.get("nobmake") == "1") fs_remove("/usr/bin/blogc-make");
        string ini; int n = 0; for (auto &o : p.ops) { if (o[0] == "commit") { Commit c = make_commit(o); if (gm == 2 && c.kind != "blogc") c.deploys = false; if (p.get("nobmake") == "1" && c.kind == "blogc") c.deploys = false; commits[c.name] = c; } if (o[0] != "repo") continue; Repo r; r.name = o[1]; r.dir = base + "/repos/" + r.name; string real = fs_realpath(base); if (real.empty()) real = base; r.link = o[2].empty() ? r.dir + "/htdocs" : o[2][0] == '/' ? o[2] : r.dir + "/" + o[2]; r.mirror = o[4]; r.mirrorkind = o[4].empty() ? 0 : atoi(o[5].c_str());
            if (!o[2].empty() || r.mirrorkind == 1) { ini += "[repo:" + r.name + "]\n"; if (!o[2].empty()) ini += "symlink = " + o[2] + "\n"; if (r.mirrorkind == 1) ini += "mirror = " + r.mirror + "\n"; ini += "\n"; }
            if (!o[3].empty() && o[2][0] == '/' && o[2] != "/srv/missing/x") { if (o[3] == "foreign") fs_symlink("/srv/old/site", r.link); else if (o[3] == "foreign-dash") fs_symlink("/srv/old/my-site", r.link); else if (o[3] == "foreign-branch") fs_symlink("/srv/old/master-site", r.link); else if (o[3] == "dangling") fs_symlink("/srv/none", r.link); else if (o[3] == "dir") fs_write(r.link + "/index.html", "a real directory"); else fs_write(r.link, "a file"); }
            if (r.mirrorkind == 2) { for (auto *s : {"/objects", "/refs/heads", "/hooks"}) fs_mkdirs(r.dir + s); fs_write(r.dir + "/config", strf("[core]\nremote.mirror.%surl=", n % 2 ? "push" : "") + r.mirror + "\n"); fs_write(r.dir + "/HEAD", "ref: refs/heads/master\n"); if (n % 3 == 2) fs_symlink("/nonexistent/old-receiver", r.dir + "/hooks/pre-receive"); }
            string st = o.size() > 6 ? o[6] : ""; if (!st.empty() && r.mirrorkind != 2) { // the repository exists already, made by hand or by another version
                for (auto *d : {"/objects", "/refs/heads"}) fs_mkdirs(r.dir + d); fs_write(r.dir + "/config", "[core]\n"); fs_write(r.dir + "/HEAD", "ref: refs/heads/master\n"); string H = r.dir + "/hooks"; if (st != "nohooks") fs_mkdirs(H); auto two = [&](const string &t) { fs_symlink(t, H + "/pre-receive"); fs_symlink(t, H + "/post-receive"); };
                if (st == "otherlink") two("/usr/bin/blogc"); else if (st == "prefixlink") two("/usr/bin/blogc-git-rec"); else if (st == "longerlink") two(string(SHELL_) + "2"); else if (st == "dangling") two("/opt/old/blogc-git-receiver"); else if (st == "file") { fs_write(H + "/pre-receive", "#!/bin/sh\nexit 1\n")->mode = 0755; fs_write(H + "/post-receive", "x")->mode = 0755; } else if (st == "sample") fs_write(H + "/pre-receive", "sample"); else if (st == "onlypre") fs_symlink(SHELL_, H + "/pre-receive"); else if (st == "onlypost") fs_symlink(SHELL_, H + "/post-receive"); else if (st == "links") two(SHELL_); }
            r.pre = link_of(r.link); repos.push_back(r); n++; }
        if (!ini.empty()) fs_write(base + "/blogc-git-receiver.ini", ini); bare0 = bare(); for (auto *g : {"/precious", "/srv/old", "/etc", "/home/blogc/.ssh", "/usr", "/bin"}) guard[g] = strf("%lx", (unsigned long) fs_tree_hash(g));
        S.on_fs = [this]() { if (prop == "C15") invariant(); if (web) track(); }; string tg = p.get("target"); S.fault_ok = [tg](Proc &q, const string &) { bool real = starts_with(q.prog, "blogc"); return q.prog != "git-shell" && q.prog != "blogc-runserver" && (tg.empty() || (tg == "ext" ? !real : tg == "build" ? q.prog == "sh" || q.prog == "make" || q.prog == "gmake" || q.prog == "blogc-make" : tg == "hook" ? q.prog == "blogc-git-receiver" : q.prog == tg)); };
        S.on_exit_ = [this](Proc &q) { if (q.prog == "blogc-git-receiver" && (q.killed || (q.status & 0x7f))) hook_killed = true; };
    }
    string old_of(Repo &r, const string &ref) { string s; return fs_read(r.dir + "/" + ref, s) ? s.substr(0, 40) : string(40, '0'); }
    void start(const Op &o) {
        Job j; j.what = o[0]; string key = strf("j%d", njob++); u64 seq = group.empty(); (void) seq;
        if (o[0] == "cmd") { j.cmd = o[3]; string in = string(40, '0') + " " + string(40, 'e') + " refs/heads/master\n\nOBJ " + string(40, 'e') + " 0\n"; if (o.size() > 4) { map<string, string> e = env; e["SSH_ORIGINAL_COMMAND"] = j.cmd; e["SHELL"] = "/bin/sh"; j.r = launch(key, {o[4]}, o[4][0] == '.' ? "/usr/bin" : base, &in, &e); j.cmd += " (as " + o[4] + ")"; } else j.r = launch(key, {"blogc-git-receiver", "-c", j.cmd}, base, &in, &env); }
        else { j.repo = atoi(o[3].c_str()) % (int) repos.size(); Repo &r = repos[j.repo]; j.link0 = link_of(r.link); if (!young.count(&r)) young[&r] = !fs_exists(r.dir + "/objects"); string why; j.before = r.cur;
            if (o[0] == "push") { string in, objs; std::set<string> sent; string ma, mi; for (auto &x : split(o[5], '|')) { size_t e = x.find('='); string ref = x.substr(0, e), cn = x.substr(e + 1); bool del = cn == "delete"; if (!del && !commits.count(cn)) continue; string sha = del ? string(40, '0') : commits[cn].sha; in += old_of(r, ref) + " " + sha + " " + ref + "\n"; j.refs.push_back({ref, cn}); if (ref == "refs/heads/master") ma = cn; if (ref == "refs/heads/main") mi = cn; if (!del && commits[cn].kind != "missing" && sent.insert(cn).second) { string ob = object_of(commits[cn]); objs += "OBJ " + sha + strf(" %zu\n", ob.size()) + ob; } } if (j.refs.empty()) return; in += "\n" + objs; j.sel = !ma.empty() ? ma : mi; if (j.sel == "delete") { j.deletes = true; j.sel = ""; }
                j.cmd = "git-receive-pack " + gitq(r.name); if (!j.sel.empty() && commits[j.sel].deploys) r.allowed.push_back(j.sel); if (p.get("ssh") == "1") { map<string, string> e = env; e["SSH_ORIGINAL_COMMAND"] = j.cmd; e["SHELL"] = "/bin/sh"; j.r = launch(key, {SHELL_}, base, &in, &e); } else j.r = launch(key, {"blogc-git-receiver", "-c", j.cmd}, base, &in, &env); }
            else if (o[0] == "mirror") { if (fs_realpath(r.dir + "/hooks/post-receive") != SHELL_) return; j.cmd = "./hooks/post-receive"; j.r = launch(key, {j.cmd}, r.dir, nullptr, &env); }
            else { if (fs_realpath(r.dir + "/hooks/pre-receive") != SHELL_) return; int f = atoi(o[5].c_str()); j.cmd = f == 0 ? "./hooks/pre-receive" : f == 1 ? fs_realpath(r.dir) + "/hooks/pre-receive" : "./pre-receive"; j.r = launch(key, {j.cmd}, f == 2 ? r.dir + "/hooks" : r.dir, nullptr, &env); } }
        hist += (hist.empty() ? "" : ", ") + o[0] + (j.repo >= 0 ? " " + repos[j.repo].name : "") + (j.sel.empty() ? "" : " " + j.sel + " (" + commits[j.sel].kind + ")") + (o[1] == "conc" ? " concurrently" : ""); j.p = j.r.p; group.push_back(j);
    }
    string desc(Job &j) { return j.what + " to " + (j.repo >= 0 ? repos[j.repo].name : "-") + ": " + j.cmd + (j.sel.empty() ? "" : " deploying " + j.sel + " (" + commits[j.sel].kind + ")") + (gfault ? ", with injected faults" : "") + ": " + (j.p->dead ? run_desc(j.r) : "did not end") + "; answer: " + esc(j.r.out().substr(0, 200)) + "; messages: " + esc(j.r.err().size() > 700 ? "..." + j.r.err().substr(j.r.err().size() - 700) : j.r.err(), 700); }
    bool join() { // wait for the whole group, then judge it
        if (group.empty()) return true; vector<PProc> ps; for (auto &j : group) ps.push_back(j.p); string w = sim_run([ps, this]() { for (auto &q : ps) if (!q->dead) return false; return leftover_children() == nweb(); }, 3600 * SEC); S.faults_on = false; S.k.disk_limit = 0; if (S.stop && !S.viol.empty()) return false; gfault = nf() != nf0; bool killed = hook_killed; hook_killed = false; bool anywarn = false; for (auto &j : group) for (auto *w : {"warning: failed to remove", "warning: failed to open", "warning: failed to find", "warning: failed to read", "warning: failed to parse"}) if (j.r.err().find(w) != string::npos) anywarn = true; if (killed || (gfault && anywarn) || fault_like({"process-kill", "malloc", "unlink", "rmdir", "opendir", "readdir", "lstat", "stat", "fstat", "closedir", "realpath", "readlink"})) litter = true;
        for (auto &j : group) if (!j.p->dead) { viol("C16", "no-termination", desc(j) + " (" + w + ")"); group.clear(); return false; } else if (!j.p->memerr.empty() && !fault_like({"malloc"})) viol(j.what == "rebuild" ? "C22" : "C16", "memory-error", desc(j));
        map<int, vector<Job *>> by; for (auto &j : group) if (j.repo >= 0) by[j.repo].push_back(&j);
        for (auto &kv : by) { Repo &r = repos[kv.first]; auto &v = kv.second; for (auto *j : v) if (j->what == "push") for (auto &l : split(j->r.out(), '\n')) { if (starts_with(l, "ok ")) j->ok = true, j->oks.push_back(l.substr(3)); if (l.find("pre-receive hook declined") != string::npos) j->declined = true; if (l.find("failed to update") != string::npos) j->stale = true; }
            string why, now = ident(r, &why); if (v.size() > 1) litter = true; bool bad = !now.empty() && now[0] == '?'; if (bad) { viol("C15", "site-" + now.substr(1), "repository " + r.name + ": " + why + "; last " + desc(*v.back())); for (auto *j : v) if (v.size() == 1 && j->what == "push" && j->link0 != link_of(r.link)) viol("C16", j->ok ? "accepted-not-deployed" : "declined-but-deployed", desc(*j) + "; " + why); r.cur = now; r.live = true; continue; } if (!now.empty()) r.live = true;
            bool linkbad = r.pre == "dir" || r.pre == "file" || r.link == "/srv/missing/x"; auto want = [&](Job *j) { return !j->sel.empty() && commits[j->sel].deploys; };
            if (v.size() == 1) { Job &j = *v[0]; bool moved = link_of(r.link) != j.link0; bool warned = false; for (auto &l : split(j.r.err(), '\n')) if (starts_with(l, "warning: failed to find") || starts_with(l, "warning: failed to read") || starts_with(l, "warning: failed to parse")) warned = true; // its settings were not read
                if (j.what == "push") { if (S.st.probes.count("push-without-pre-receive-hook") && j.ok && want(&j) && now != j.sel) viol("C18", "accepted-without-hook", desc(j));
                    if (j.ok && want(&j) && (now != j.sel || !moved) && !(gfault && warned)) viol("C16", "accepted-not-deployed", desc(j) + "; the site shows " + (now.empty() ? "nothing" : now)); if (j.ok && !j.sel.empty() && !commits[j.sel].deploys && commits[j.sel].kind != "none") viol("C16", "broken-accepted", desc(j)); if (j.ok && !want(&j) && moved) viol("C16", "deployed-something-else", desc(j)); if (!j.ok && !killed && moved) viol("C16", "declined-but-deployed", desc(j) + "; the site shows " + now);
                    if (!j.ok && !killed && j.r.err().empty()) viol("C16", "declined-silently", desc(j)); if (!j.ok && !killed && j.r.out().empty() && j.r.exited() && j.r.code() == 0) viol("C16", "unserved-push-succeeds", desc(j)); bool valid = (want(&j) && !linkbad) || (j.sel.empty() && !j.deletes) || (!j.sel.empty() && commits[j.sel].kind == "none"); if (!j.ok && !gfault && valid) viol(j.declined ? "C16" : "C18", j.declined ? "valid-push-declined" : "valid-push-fails", desc(j));
                    if (j.ok && !killed && !gfault) { for (auto *h : {"pre-receive", "post-receive"}) if (link_of(r.dir + "/hooks/" + h) != string("l:") + SHELL_) viol("C18", "hook-not-installed", desc(j) + "; hooks/" + h + " is " + link_of(r.dir + "/hooks/" + h)); if (!litter) for (auto &x : fs_tree(r.dir + "/hooks")) if (x.first != "pre-receive" && x.first != "post-receive") viol("C18", "hook-litter", desc(j) + "; left hooks/" + x.first); }
                } else if (j.what == "mirror") { if (moved || now != j.before) viol("C19", "mirroring-changes-site", desc(j)); } else { bool had = !j.before.empty() && j.before[0] != '?'; bool ok = j.r.exited() && j.r.code() == 0; if (ok && (now != j.before || !moved) && !(gfault && warned)) viol("C22", had ? "rebuild-changes-site" : "rebuild-of-nothing-succeeds", desc(j) + "; before it showed " + j.before + ", now " + now); if (!ok && !killed && moved) viol("C22", "failed-rebuild-changes-site", desc(j)); if (!ok && !gfault && had && !linkbad) viol("C22", "rebuild-fails", desc(j)); if (!ok && !killed && j.r.err().empty()) viol("C22", "rebuild-fails-silently", desc(j)); if (killed && now != j.before) viol("C22", "killed-rebuild-changes-site", desc(j)); }
            } else { bool some = false, match = now == v[0]->before, hit = false; bool novel = true; for (auto *j : v) { if (j->what == "push" && want(j)) { if (j->sel == now) match = hit = true; if (j->ok || (j->stale && !j->declined)) some = true; } if (j->before.empty() && !linkbad) novel = novel && j->what == "push"; }
                if (!match) viol("C16", "concurrent-deployed-something-else", desc(*v.back())); if (some && !hit && !gfault) { bool reb = false; for (auto *j : v) if (j->what == "rebuild") reb = true; if (!reb) viol(S.st.probes.count("push-without-pre-receive-hook") ? "C18" : "C16", "concurrent-accepted-not-deployed", desc(*v.back())); }
                for (auto *j : v) { if (j->what != "push" || gfault) continue; bool valid = (want(j) && !linkbad) || (j->sel.empty() && !j->deletes); if (!j->ok && !j->stale && valid) { if (!young[&r]) viol("C18", j->declined ? "concurrent-valid-push-declined" : "concurrent-valid-push-fails", desc(*j)); } } }
            if (now.empty() && !r.live) { } r.cur = now; r.allowed.clear(); if (!now.empty()) r.allowed.push_back(now); if (!r.mirror.empty()) judge_mirror(r, v, killed);
        }
        for (auto &r : repos) { bool in = false; for (auto &kv : by) if (&repos[kv.first] == &r) in = true; if (in) continue; string why, now = ident(r, &why); if (now != r.cur) viol("C20", "other-repository-changed", "repository " + r.name + " was not pushed to, yet " + (now[0] == '?' ? why : "it shows " + now) + "; last " + desc(group.back())); }
        string g = guard_now(); if (!g.empty()) { viol("C17", "outside-touched", "files under " + g + " changed; last " + desc(group.back())); viol("C20", "outside-touched", "files under " + g + " changed; last " + desc(group.back())); }
        bool cmd = false; for (auto &j : group) if (j.what == "cmd" && !starts_with(j.cmd, "git-upload-")) cmd = true; for (auto &j : group) if (j.what == "cmd" && S.st.probes.count("push-without-pre-receive-hook") && starts_with(j.r.out(), "ok ")) viol("C18", "accepted-without-hook", desc(j)); for (auto &x : bare()) if (!cmd && !bare0.count(x)) { bool mine = false; for (auto &j : group) if (j.repo >= 0 && repos[j.repo].name == x) mine = true; if (!mine) viol("C20", "other-repository-created", "created a repository named " + x + "; last " + desc(group.back())); } bare0 = bare();
        for (auto &x : fs_lookup(base)->ent) { static const std::set<string> OK = {".ssh", "repos", "builds", "blogc-git-receiver.ini"}; if (!OK.count(x.first)) viol("C20", "escaped", "created " + base + "/" + x.first + "; last " + desc(group.back())); }
        for (auto &j : group) if (j.what == "cmd") for (auto &l : split(j.r.out(), '\n')) if (starts_with(l, "served ") && l.find("/../") != string::npos) viol("C20", "served-outside", desc(j));
        if (!litter) { std::set<string> tg; for (auto &r : repos) { string l = link_of(r.link); if (!l.empty() && l[0] == 'l') tg.insert(fs_realpath(r.link)); } INode b = fs_lookup(builds); if (b && b->type == Inode::DIR) for (auto &x : b->ent) if (!tg.count(fs_realpath(builds) + "/" + x.first)) viol("C17", "build-left", "left " + builds + "/" + x.first + "; last " + desc(group.back())); for (auto &x : fs_lookup("/tmp")->ent) viol("C17", "temporary-left", "left /tmp/" + x.first + "; last " + desc(group.back())); if (!gfault) for (auto &r : repos) { INode d = fs_lookup(r.link.substr(0, r.link.rfind('/'))); static const std::set<string> OK = {"objects", "refs", "hooks", "config", "HEAD", "htdocs", "public", "s0", "s1", "s2"}; if (d && d->type == Inode::DIR) for (auto &x : d->ent) if (!OK.count(x.first)) viol("C17", "litter-beside-link", "left " + x.first + " beside " + r.link + "; last " + desc(group.back())); } }
        for (auto &j : group) probe(j.what == "cmd" ? "cmd" : j.what == "mirror" ? "manual-mirror" : j.what == "rebuild" ? (j.r.exited() && j.r.code() == 0 ? "rebuild-ok" : "rebuild-fail") : j.ok ? (gfault ? "push-ok-despite-faults" : "push-ok") : gfault ? "push-fail-fault" : "push-fail"); group.clear(); young.clear(); maybe_serve(); sweep(); if (S.stop && !S.viol.empty()) return false; S.st.probes.erase("push-without-pre-receive-hook"); return true;
    }
    void judge_mirror(Repo &r, vector<Job *> &v, bool killed) {
        if (v.size() != 1 || v[0]->what == "rebuild" || (v[0]->what == "push" && !v[0]->ok) || killed) return; Job &j = *v[0]; bool warned = j.r.err().find("warning:") != string::npos || (gfault && j.r.err().find("error:") != string::npos); if (r.mirror[0] != '/') { if (!gfault && !warned) viol("C19", "unreachable-mirror-unreported", desc(j)); return; }
        map<string, string> a = prune(fs_tree(r.dir + "/refs/heads")), b = prune(fs_tree(r.mirror + "/refs/heads")); for (auto it = a.begin(); it != a.end();) it = it->first.find('/') != string::npos ? a.erase(it) : std::next(it); if (a != b && !(gfault && warned)) viol("C19", gfault ? "mirror-stale-unreported" : "mirror-stale", desc(j) + strf("; the mirror has %zu branches, the repository %zu", b.size(), a.size()));
    }
    // a machine without a battery-backed clock: process ids and the time start over where they were before
    int boot_pid = 0; i64 boot_wall = 0; void reboot(int d) { if (!boot_pid || web) return; for (auto it = S.procs.begin(); it != S.procs.end();) if (it->first != 1 && it->second->dead) it = S.procs.erase(it); else ++it; if (S.procs.size() > 1) return; S.nextpid = std::max(2, boot_pid + d); S.clock_skew = boot_wall - S.now - 1000; probe("reboot"); hist += ", reboot"; sim_log("reboot"); }
    void run() {
        setup(); maybe_serve(); for (auto &o : p.ops) { if (S.stop) return; const string &c = o[0]; if (c == "repo" || c == "commit") continue; if (c == "visit") { visit(strtoull(o[3].c_str(), nullptr, 10), atoi(o[4].c_str()), atoll(o[2].c_str()) * 1000, atoll(o[5].c_str()) * 1000); continue; } if (c == "adv") { if (!join()) return; S.now += atoll(o[1].c_str()) * MS; continue; } if (c == "reboot") { if (!join()) return; reboot(atoi(o[1].c_str())); continue; } if (c == "jump") { if (!join()) return; S.clock_skew += atoll(o[1].c_str()) * SEC; hist += strf(", clock jumps by %s s", o[1].c_str()); continue; }
            bool conc = o[1] == "conc" && !group.empty(); i64 at = atoll(o[2].c_str()) * 1000; if (!conc) { if (!join()) return; } else { i64 t = S.now + at; sim_run([]() { return false; }, at); if (S.now < t && !S.stop) S.now = t; if (S.stop && !S.viol.empty()) return; }
            if (!conc) { nf0 = nf(); bool f = c != "cmd" && o[4] == "f"; S.faults_on = f; if (f && p.par.count("disk")) S.k.disk_limit = S.disk_used + p.geti("disk") + 1; S.now += 1000; boot_pid = S.nextpid; boot_wall = S.now + S.clock_skew; } start(o); }
        join();
    }
};
static void exec(const Plan &p) { World w(p); if (p.ops.empty()) return; bool any = false; for (auto &o : p.ops) if (o[0] == "repo") any = true; if (!any) return; w.run(); S.on_fs = nullptr; S.on_exit_ = nullptr; S.fault_ok = nullptr; }
static int reg = (add_scenario("push", gen, exec), [] { for (auto *c : {"C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"}) g_checks.push_back({c, {{"push", 1}}}); return 0; }());
