// Stand-ins for the external programs the code under test runs: sh, git, git-shell, tar, make and a few utilities.
// They run as simulated processes on the same system-call layer (so faults, kills and scheduling apply to them).
#include "core.h"
#include <dirent.h>
#include <algorithm>

static void put(int fd, const string &s) { size_t d = 0; while (d < s.size()) { i64 r = sys_write(fd, s.data() + d, s.size() - d); if (r == -EINTR) continue; if (r <= 0) return; d += r; } }
static bool put_ok(int fd, const string &s) { size_t d = 0; while (d < s.size()) { i64 r = sys_write(fd, s.data() + d, s.size() - d); if (r == -EINTR) continue; if (r <= 0) return false; d += r; } return true; }
static bool slurp_fd(int fd, string &o) { char b[4096]; for (;;) { i64 r = sys_read(fd, b, sizeof b); if (r == -EINTR) continue; if (r < 0) return false; if (r == 0) return true; o.append(b, r); } }
static bool slurp(const string &p, string &o, int *err = nullptr) { i64 fd = sys_open(p, O_RDONLY, 0); if (fd < 0) { if (err) *err = (int) -fd; return false; } bool ok = slurp_fd((int) fd, o); sys_close((int) fd); if (!ok && err) *err = EIO; return ok; }
static bool spit(const string &p, const string &d, bool app = false) { i64 fd = sys_open(p, O_WRONLY | O_CREAT | (app ? O_APPEND : O_TRUNC), 0666); if (fd < 0) return false; bool ok = put_ok((int) fd, d); if (sys_close((int) fd) < 0) ok = false; return ok; }
static int wait_status(int st) { return (st & 0x7f) ? 128 + (st & 0x7f) : (st >> 8) & 0xff; }
static i64 xwait(int pid, int *st) { i64 r; do r = sys_waitpid(pid, st, 0); while (r == -EINTR); return r; }

// ---------------------------------------------------------------- sh
struct Sh { vector<string> params; int last = 0; bool exiting = false; int depth = 0; set<string> exported; map<string, string> local; };
struct Tok { enum K { WORD, OP } k; string s; }; // WORD keeps its quoting; expanded later
static bool lex(const string &in, vector<Tok> &out) {
    size_t i = 0, n = in.size();
    while (i < n) {
        char c = in[i]; if (c == ' ' || c == '\t') { i++; continue; } if (c == '#' && (i == 0 || strchr(" \t\n;", in[i - 1]))) { while (i < n && in[i] != '\n') i++; continue; } if (c == '\\' && i + 1 < n && in[i + 1] == '\n') { i += 2; continue; }
        if (c == '\n') { out.push_back({Tok::OP, ";"}); i++; continue; }
        if (isdigit(c) && i + 1 < n && (in[i + 1] == '>' || in[i + 1] == '<')) { string op(1, c); op += in[i + 1]; i += 2; if (i < n && in[i] == '>' ) { op += '>'; i++; } else if (i < n && in[i] == '&') { op += '&'; i++; } out.push_back({Tok::OP, op}); continue; }
        static const char *ops[] = {"&&", "||", ">>", ">&", "<&", "&>", ">", "<", "|", ";", "(", ")", "&"}; bool f = false; for (auto *o : ops) { size_t l = strlen(o); if (in.compare(i, l, o) == 0) { out.push_back({Tok::OP, o}); i += l; f = true; break; } } if (f) continue;
        string w; while (i < n) { c = in[i]; if (strchr(" \t\n;|&<>()", c)) break; if (c == '\\') { w += c; if (i + 1 < n) w += in[i + 1]; i += 2; continue; } if (c == '\'') { size_t e = in.find('\'', i + 1); if (e == string::npos) return false; w += in.substr(i, e - i + 1); i = e + 1; continue; } if (c == '"') { w += c; i++; while (i < n && in[i] != '"') { if (in[i] == '\\' && i + 1 < n) w += in[i++]; w += in[i++]; } if (i >= n) return false; w += '"'; i++; continue; } if (c == '$' && i + 1 < n && in[i + 1] == '(') { int d = 0; while (i < n) { if (in[i] == '(') d++; if (in[i] == ')') d--; w += in[i++]; if (d == 0 && w.back() == ')') break; } continue; } w += c; i++; }
        out.push_back({Tok::WORD, w});
    }
    return true;
}
static string getvar(Sh &sh, Proc &p, const string &n) { if (n == "?") return std::to_string(sh.last); if (n == "#") return std::to_string(sh.params.empty() ? 0 : sh.params.size() - 1); if (n == "@" || n == "*") { vector<string> v(sh.params.begin() + (sh.params.empty() ? 0 : 1), sh.params.end()); return join(v, " "); } if (n.size() == 1 && isdigit(n[0])) { size_t k = n[0] - '0'; return k < sh.params.size() ? sh.params[k] : ""; } auto l = sh.local.find(n); if (l != sh.local.end()) return l->second; auto it = p.env.find(n); return it == p.env.end() ? "" : it->second; }
static string dollar(Sh &sh, Proc &p, const string &w, size_t &i) { // w[i]=='$'
    i++; if (i >= w.size()) return "$"; if (w[i] == '{') { size_t e = w.find('}', i); string n = w.substr(i + 1, e - i - 1); i = e + 1; size_t d = n.find(":-"); if (d != string::npos) { string v = getvar(sh, p, n.substr(0, d)); return v.empty() ? n.substr(d + 2) : v; } return getvar(sh, p, n); } if (strchr("?#@*0123456789", w[i])) { string n(1, w[i]); i++; return getvar(sh, p, n); } size_t s = i; while (i < w.size() && (isalnum(w[i]) || w[i] == '_')) i++; if (s == i) return "$"; return getvar(sh, p, w.substr(s, i - s)); }
static vector<string> expand(Sh &sh, Proc &p, const string &w, bool split_ok = true) {
    vector<string> out; string cur; bool have = false; size_t i = 0;
    while (i < w.size()) {
        char c = w[i];
        if (c == '\'') { size_t e = w.find('\'', i + 1); cur += w.substr(i + 1, e - i - 1); i = e + 1; have = true; }
        else if (c == '"') { i++; have = true; while (i < w.size() && w[i] != '"') { if (w[i] == '\\' && i + 1 < w.size() && strchr("$`\"\\", w[i + 1])) { cur += w[i + 1]; i += 2; } else if (w[i] == '$') cur += dollar(sh, p, w, i); else cur += w[i++]; } i++; }
        else if (c == '\\') { if (i + 1 < w.size()) cur += w[i + 1]; i += 2; have = true; }
        else if (c == '$') { string v = dollar(sh, p, w, i); if (!split_ok) { cur += v; have = true; } else { for (char x : v) { if (x == ' ' || x == '\t' || x == '\n') { if (!cur.empty() || have) { out.push_back(cur); cur.clear(); have = false; } } else { cur += x; have = true; } } } }
        else { cur += c; i++; have = true; }
    }
    if (have || !cur.empty()) out.push_back(cur); return out;
}
struct Cmd { vector<string> words; vector<std::pair<string, string>> redir; bool sub = false; vector<Tok> body; };
static int run_list(Proc &p, Sh &sh, const vector<Tok> &t, size_t a, size_t b, bool last_exec);
static int sh_test(Proc &, vector<string> v) { if (!v.empty() && v[0] == "[") { if (v.back() != "]") return 2; v.pop_back(); } v.erase(v.begin()); if (v.size() && v[0] == "!") { v.erase(v.begin()); v.insert(v.begin(), "test"); Proc &q = *S.cur->proc; int r = sh_test(q, v); return r > 1 ? r : !r; } struct stat st; if (v.size() == 1) return v[0].empty(); if (v.size() == 2) { if (v[0] == "-n") return v[1].empty(); if (v[0] == "-z") return !v[1].empty(); i64 r = sys_stat(v[1], &st, !(v[0] == "-h" || v[0] == "-L")); if (r < 0) return 1; if (v[0] == "-f") return !S_ISREG(st.st_mode); if (v[0] == "-d") return !S_ISDIR(st.st_mode); if (v[0] == "-h" || v[0] == "-L") return !S_ISLNK(st.st_mode); return 0; } if (v.size() == 3) { if (v[1] == "=") return v[0] != v[2]; if (v[1] == "!=") return v[0] == v[2]; if (v[1] == "-eq") return atoi(v[0].c_str()) != atoi(v[2].c_str()); if (v[1] == "-ne") return atoi(v[0].c_str()) == atoi(v[2].c_str()); } return 2; }
static bool is_builtin(const string &s) { static const set<string> b = {"cd", "exit", "echo", "test", "[", "true", "false", ":", "export", "exec", "set", "printf", "trap", "umask", "wait", "unset"}; return b.count(s); }
static int apply_redir(Proc &p, Sh &sh, Cmd &c, map<int, int> &m, vector<int> &opened) { // fdmap: child fd -> our fd
    for (auto &r : c.redir) {
        string op = r.first; int fd = -1; if (isdigit(op[0])) { fd = op[0] - '0'; op = op.substr(1); }
        vector<string> e = expand(sh, p, r.second, false); string f = e.empty() ? "" : e[0];
        if (op == ">&" || op == "<&") { int t = atoi(f.c_str()); if (fd < 0) fd = op == ">&" ? 1 : 0; if (f == "-") m.erase(fd); else m[fd] = m.count(t) ? m[t] : t; continue; }
        int fl = op == "<" ? O_RDONLY : O_WRONLY | O_CREAT | (op == ">>" ? O_APPEND : O_TRUNC); i64 n = sys_open(f, fl | O_CLOEXEC, 0666); if (n < 0) { put(2, "sh: cannot open " + f + "\n"); return 2; }
        i64 hi = sys_dup((int) n, 10); if (hi >= 0) { sys_close((int) n); n = hi; p.cloexec[(int) n] = true; } opened.push_back((int) n); if (op == "&>") { m[1] = (int) n; m[2] = (int) n; } else m[fd < 0 ? (op == "<" ? 0 : 1) : fd] = (int) n;
    }
    return 0;
}
static int run_builtin(Proc &p, Sh &sh, vector<string> &w, int ofd) {
    const string &c = w[0]; if (c == "true" || c == ":" || c == "trap" || c == "umask" || c == "wait") return 0; if (c == "false") return 1; if (c == "cd") { string d = w.size() > 1 ? w[1] : getvar(sh, p, "HOME"); i64 r = sys_chdir(d); if (r < 0) { put(2, "sh: cd: can't cd to " + d + "\n"); return 2; } return 0; }
    if (c == "exit") { sh.exiting = true; return w.size() > 1 ? atoi(w[1].c_str()) : sh.last; } if (c == "test" || c == "[") return sh_test(p, w); if (c == "unset") { for (size_t i = 1; i < w.size(); i++) { p.env.erase(w[i]); sh.local.erase(w[i]); } return 0; }
    if (c == "echo" || c == "printf") { vector<string> v(w.begin() + 1, w.end()); bool nl = c == "echo"; if (nl && !v.empty() && v[0] == "-n") { nl = false; v.erase(v.begin()); } string s = join(v, " "); if (c == "printf") { string t; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\\' && i + 1 < s.size() && s[i + 1] == 'n') { t += '\n'; i++; } else t += s[i]; } s = t; } if (ofd >= 0) return put_ok(ofd, s + (nl ? "\n" : "")) ? 0 : 1; return 1; }
    if (c == "export") { for (size_t i = 1; i < w.size(); i++) { size_t e = w[i].find('='); string n = w[i].substr(0, e); if (e != string::npos) p.env[n] = w[i].substr(e + 1); else if (sh.local.count(n)) p.env[n] = sh.local[n]; sh.local.erase(n); } return 0; }
    if (c == "set") { for (auto &a : w) if (a == "pipefail") { put(2, "sh: set: Illegal option -o pipefail\n"); sh.exiting = true; return 2; } return 0; } return 0;
}
static bool is_assign(const string &w) { size_t e = w.find('='); if (e == string::npos || e == 0) return false; for (size_t i = 0; i < e; i++) if (!(isalnum(w[i]) || w[i] == '_')) return false; return !isdigit(w[0]); }
// start one simple command; returns pid, or -1 with *st set when it ran in the shell itself
static i64 start_cmd(Proc &p, Sh &sh, Cmd &c, map<int, int> m, bool in_pipe, int *st, bool exec_ok) {
    vector<int> opened; auto done = [&]() { for (int f : opened) sys_close(f); }; *st = 0;
    if (c.sub) { // subshell: run as an extra shell process on the literal text
        if (apply_redir(p, sh, c, m, opened)) { done(); *st = 2; return -1; } string txt; for (auto &t : c.body) txt += t.s + " "; i64 pid = sys_spawn({"/bin/sh", "-c", txt}, p.env, m); done(); if (pid < 0) { *st = 2; return -1; } return pid; }
    map<string, string> env = p.env; size_t k = 0; vector<std::pair<string, string>> as; while (k < c.words.size() && is_assign(c.words[k])) { size_t e = c.words[k].find('='); vector<string> v = expand(sh, p, c.words[k].substr(e + 1), false); as.push_back({c.words[k].substr(0, e), v.empty() ? "" : v[0]}); k++; }
    vector<string> w; for (; k < c.words.size(); k++) { auto v = expand(sh, p, c.words[k]); w.insert(w.end(), v.begin(), v.end()); }
    if (apply_redir(p, sh, c, m, opened)) { done(); *st = 2; return -1; }
    if (w.empty()) { for (auto &a : as) { if (p.env.count(a.first)) p.env[a.first] = a.second; else sh.local[a.first] = a.second; } done(); return -1; }
    bool ex = false; if (w[0] == "exec" && w.size() > 1) { w.erase(w.begin()); ex = true; }
    if (w[0] == "command") w.erase(w.begin());
    for (auto &a : as) env[a.first] = a.second;
    if (is_builtin(w[0])) {
        if (in_pipe) { string txt; for (auto &x : w) txt += shq(x) + " "; i64 pid = sys_spawn({"/bin/sh", "-c", txt}, env, m); done(); if (pid < 0) { *st = 2; return -1; } return pid; }
        *st = run_builtin(p, sh, w, m.count(1) ? m[1] : -1); done(); return -1; }
    string path = w[0].find('/') != string::npos ? w[0] : find_in_path(w[0], env);
    auto fail = [&](int e, const char *msg) { int efd = m.count(2) ? m[2] : -1; if (efd >= 0) put(efd, "sh: 1: " + w[0] + ": " + msg + "\n"); done(); *st = e; return (i64) -1; };
    if (path.empty()) return fail(127, "not found");
    (void) ex; vector<string> argv = w; 
    if ((exec_ok && S.k.sh_exec_last) || ex) { // replace the shell
        for (auto &x : m) if (x.first != x.second) sys_dup2(x.second, x.first); if (!m.count(0)) sys_close(0); done(); i64 r = sys_exec(path, argv, env); put(2, "sh: 1: " + w[0] + (r == -ENOENT ? ": not found\n" : ": cannot execute\n")); *st = r == -ENOENT ? 127 : 126; return -1; }
    i64 pid = sys_spawn([&] { vector<string> a = argv; a[0] = path; return a; }(), env, m); if (pid == -ENOENT) return fail(127, "not found"); if (pid == -EACCES || pid == -ENOEXEC) return fail(126, "Permission denied"); if (pid < 0) return fail(2, "Cannot fork"); done(); return pid;
}
static int run_pipeline(Proc &p, Sh &sh, const vector<Tok> &t, size_t a, size_t b, bool last_exec) {
    bool neg = false; if (a < b && t[a].k == Tok::WORD && t[a].s == "!") { neg = true; a++; last_exec = false; }
    vector<Cmd> cmds(1); int d = 0;
    for (size_t i = a; i < b; i++) {
        if (t[i].k == Tok::OP && t[i].s == "(") { if (d++ == 0) { cmds.back().sub = true; continue; } } else if (t[i].k == Tok::OP && t[i].s == ")") { if (--d == 0) continue; }
        if (d > 0) { cmds.back().body.push_back(t[i]); continue; }
        if (t[i].k == Tok::OP) { if (t[i].s == "|") { cmds.emplace_back(); continue; } if (i + 1 < b) { cmds.back().redir.push_back({t[i].s, t[i + 1].s}); i++; } continue; }
        cmds.back().words.push_back(t[i].s);
    }
    int st = 0;
    if (cmds.size() == 1) { map<int, int> m; for (int i = 0; i < 3; i++) if (p.fds.count(i)) m[i] = i; i64 pid = start_cmd(p, sh, cmds[0], m, false, &st, last_exec && !neg); if (pid >= 0) { int s = 0; st = xwait((int) pid, &s) < 0 ? 1 : wait_status(s); } return neg ? !st : st; }
    vector<i64> pids; int prev = -1;
    for (size_t i = 0; i < cmds.size(); i++) {
        int pf[2] = {-1, -1}; if (i + 1 < cmds.size()) { if (sys_pipe(pf, O_CLOEXEC) < 0) { put(2, "sh: Cannot create pipe\n"); sh.exiting = true; return 2; } for (int k = 0; k < 2; k++) { i64 hi = sys_dup(pf[k], 10); if (hi >= 0) { sys_close(pf[k]); pf[k] = (int) hi; p.cloexec[pf[k]] = true; } } }
        map<int, int> m; if (prev >= 0) m[0] = prev; else if (p.fds.count(0)) m[0] = 0; if (pf[1] >= 0) m[1] = pf[1]; else if (p.fds.count(1)) m[1] = 1; if (p.fds.count(2)) m[2] = 2;
        int s1 = 0; i64 pid = start_cmd(p, sh, cmds[i], m, true, &s1, false); pids.push_back(pid); if (pid < 0 && i + 1 == cmds.size()) st = s1;
        if (prev >= 0) sys_close(prev); if (pf[1] >= 0) sys_close(pf[1]); prev = pf[0];
    }
    for (size_t i = 0; i < pids.size(); i++) if (pids[i] >= 0) { int s = 0; if (xwait((int) pids[i], &s) >= 0 && i + 1 == pids.size()) st = wait_status(s); }
    return neg ? !st : st;
}
static int run_list(Proc &p, Sh &sh, const vector<Tok> &t, size_t a, size_t b, bool last_exec) {
    size_t i = a; bool skip = false; string conn;
    while (i < b && !sh.exiting) {
        size_t s = i; int d = 0; while (i < b) { if (t[i].k == Tok::OP) { if (t[i].s == "(") d++; else if (t[i].s == ")") d--; else if (d == 0 && (t[i].s == ";" || t[i].s == "&&" || t[i].s == "||" || t[i].s == "&")) break; } i++; }
        string op = i < b ? t[i].s : ""; bool only_seps = true; for (size_t k = i; k < b; k++) if (!(t[k].k == Tok::OP && t[k].s == ";")) only_seps = false;
        if (s < i) { skip = (conn == "&&" && sh.last != 0) || (conn == "||" && sh.last == 0); if (!skip) sh.last = run_pipeline(p, sh, t, s, i, last_exec && only_seps && conn.empty() && a == s); }
        conn = (op == "&&" || op == "||") ? op : ""; i++;
    }
    return sh.last;
}
static int prog_sh(Proc &p, vector<string> &argv) {
    Sh sh; string text; if (argv.size() >= 3 && argv[1] == "-c") { text = argv[2]; for (size_t i = 3; i < argv.size(); i++) sh.params.push_back(argv[i]); if (sh.params.empty()) sh.params.push_back("sh"); }
    else if (argv.size() >= 2) { int e = 0; if (!slurp(argv[1], text, &e)) { put(2, "sh: can't open " + argv[1] + "\n"); return 127; } for (size_t i = 1; i < argv.size(); i++) sh.params.push_back(argv[i]); } else { if (!slurp_fd(0, text)) return 1; }
    vector<Tok> t; if (!lex(text, t)) { put(2, "sh: Syntax error: Unterminated quoted string\n"); return 2; } 
    return run_list(p, sh, t, 0, t.size(), argv.size() >= 3 && argv[1] == "-c");
}

// ---------------------------------------------------------------- small utilities
static string sdir(const string &p) { size_t i = p.rfind('/'); return i == string::npos ? "" : i == 0 ? "/" : p.substr(0, i); }
static int mkdirp(const string &p) { if (p.empty() || p == "/") return 0; struct stat st; if (sys_stat(p, &st, true) == 0) return S_ISDIR(st.st_mode) ? 0 : EEXIST; int e = mkdirp(sdir(p)); if (e) return e; i64 r = sys_mkdir(p, 0777); return r < 0 && r != -EEXIST ? (int) -r : 0; }
static int prog_mkdir(Proc &, vector<string> &a) { int rc = 0; bool pp = false; for (size_t i = 1; i < a.size(); i++) { if (a[i] == "-p") { pp = true; continue; } int e = pp ? mkdirp(a[i]) : (int) -sys_mkdir(a[i], 0777); if (e) { put(2, "mkdir: cannot create " + a[i] + ": " + strerror(e) + "\n"); rc = 1; } } return rc; }
static int rmr(const string &p) { struct stat st; i64 r = sys_stat(p, &st, false, "lstat"); if (r < 0) return r == -ENOENT ? 0 : (int) -r; if (!S_ISDIR(st.st_mode)) return (int) -sys_unlink(p); vector<std::pair<string, int>> v; r = sys_readdir_all(p, v); if (r < 0) return (int) -r; int e = 0; for (auto &x : v) if (x.first != "." && x.first != "..") { int q = rmr(p + "/" + x.first); if (q) e = q; } if (e) return e; return (int) -sys_rmdir(p); }
static int prog_rm(Proc &, vector<string> &a) { int rc = 0; bool r = false, f = false; for (size_t i = 1; i < a.size(); i++) { if (a[i][0] == '-' && a[i] != "--") { if (a[i].find('r') != string::npos || a[i].find('R') != string::npos) r = true; if (a[i].find('f') != string::npos) f = true; continue; } if (a[i] == "--") continue; int e = r ? rmr(a[i]) : (int) -sys_unlink(a[i]); if (e == ENOENT && f) e = 0; if (e) { put(2, "rm: cannot remove " + a[i] + "\n"); rc = 1; } } return rc; }
static int prog_cat(Proc &, vector<string> &a) { int rc = 0; if (a.size() == 1) { char b[4096]; for (;;) { i64 r = sys_read(0, b, sizeof b); if (r <= 0) return r < 0; if (!put_ok(1, string(b, r))) return 1; } } for (size_t i = 1; i < a.size(); i++) { string s; if (!slurp(a[i], s)) { put(2, "cat: " + a[i] + ": error\n"); rc = 1; continue; } if (!put_ok(1, s)) rc = 1; } return rc; }
static int cp1(const string &s, const string &d) { string c; int e = 0; if (!slurp(s, c, &e)) return e; return spit(d, c) ? 0 : EIO; }
static int cpr(const string &s, const string &d) { struct stat st; if (sys_stat(s, &st, true) < 0) return ENOENT; if (!S_ISDIR(st.st_mode)) return cp1(s, d); i64 r = sys_mkdir(d, 0777); if (r < 0 && r != -EEXIST) return (int) -r; vector<std::pair<string, int>> v; r = sys_readdir_all(s, v); if (r < 0) return (int) -r; for (auto &x : v) if (x.first != "." && x.first != "..") { int e = cpr(s + "/" + x.first, d + "/" + x.first); if (e) return e; } return 0; }
static int prog_cp(Proc &, vector<string> &a) { bool r = false; vector<string> f; for (size_t i = 1; i < a.size(); i++) { if (a[i][0] == '-') { if (a[i].find_first_of("rRa") != string::npos) r = true; } else f.push_back(a[i]); } if (f.size() < 2) return 1; string d = f.back(); f.pop_back(); struct stat st; int dr = sys_stat(d, &st, true); if (dr < 0 && dr != -ENOENT) { put(2, "cp: cannot stat " + d + "\n"); return 1; } bool dd = dr == 0 && S_ISDIR(st.st_mode); for (auto &s : f) { size_t q = s.rfind('/'); string t = dd ? d + "/" + (q == string::npos ? s : s.substr(q + 1)) : d; int e = r ? cpr(s, t) : cp1(s, t); if (e) { put(2, "cp: cannot copy " + s + "\n"); return 1; } } return 0; }
static int prog_mv(Proc &, vector<string> &a) { vector<string> f; for (size_t i = 1; i < a.size(); i++) if (a[i][0] != '-') f.push_back(a[i]); if (f.size() != 2) return 1; string d = f[1]; struct stat st; bool T = false; for (auto &x : a) if (x[0] == '-' && x.find('T') != string::npos) T = true; int dr = T ? -ENOENT : sys_stat(d, &st, true); if (dr < 0 && dr != -ENOENT) { put(2, "mv: cannot stat\n"); return 1; } if (dr == 0 && S_ISDIR(st.st_mode)) { size_t q = f[0].rfind('/'); d += "/" + (q == string::npos ? f[0] : f[0].substr(q + 1)); } i64 r = sys_rename(f[0], d); if (r < 0) { put(2, "mv: failed\n"); return 1; } return 0; }
static int prog_ln(Proc &, vector<string> &a) { vector<string> f; bool s = false, fo = false; for (size_t i = 1; i < a.size(); i++) { if (a[i][0] == '-') { if (a[i].find('s') != string::npos) s = true; if (a[i].find('f') != string::npos) fo = true; } else f.push_back(a[i]); } if (f.size() != 2) return 1; if (fo) sys_unlink(f[1]); return (s ? sys_symlink(f[0], f[1]) : sys_link(f[0], f[1])) < 0; }
static int prog_touch(Proc &, vector<string> &a) { for (size_t i = 1; i < a.size(); i++) { struct stat st; if (sys_stat(a[i], &st, true) == 0) sys_utimens(a[i], S.now); else if (!spit(a[i], "")) return 1; } return 0; }
static int prog_sleep(Proc &, vector<string> &a) { sys_nanosleep((i64) (atof(a.size() > 1 ? a[1].c_str() : "0") * 1e9)); return 0; }
static int prog_true(Proc &, vector<string> &) { return 0; }
static int prog_false(Proc &, vector<string> &) { return 1; }
// noise: a chatty child. noise [-o N] [-e N] [-O text] [-E text] [-x code] [-r] [-R N] [-s ms] [-k sig] : writes N bytes on stdout/stderr, reads stdin (or N bytes of it)...
static int prog_noise(Proc &p, vector<string> &a) {
    for (size_t i = 1; i < a.size(); i++) { string o = a[i], v = i + 1 < a.size() ? a[i + 1] : ""; auto blob = [&](char tag, size_t n) { string s; while (s.size() < n) s += strf("%c%07zu\n", tag, s.size() / 9); s.resize(n); return s; };
        if (o == "-o") { put(1, blob('o', atoi(v.c_str()))); i++; } else if (o == "-e") { put(2, blob('e', atoi(v.c_str()))); i++; } else if (o == "-O") { put(1, v); i++; } else if (o == "-E") { put(2, v); i++; } else if (o == "-r") { string s; slurp_fd(0, s); } else if (o == "-c") { string s; slurp_fd(0, s); put(1, s); } else if (o == "-R") { size_t n = atoi(v.c_str()), g = 0; char b[512]; while (g < n) { i64 r = sys_read(0, b, std::min<size_t>(sizeof b, n - g)); if (r <= 0) break; g += r; } i++; } else if (o == "-s") { sys_nanosleep((i64) atoi(v.c_str()) * MS); i++; } else if (o == "-x") return atoi(v.c_str()); else if (o == "-k") { proc_kill(&p, atoi(v.c_str())); } else if (o == "-C") { sys_close(atoi(v.c_str())); i++; } }
    return 0;
}

// ---------------------------------------------------------------- archive stream: "ENT <path> <len>\n" + data, "END\n"; git objects hold the same text
static string git_obj(const string &sha, int *err) { string s; if (!slurp("objects/" + sha, s, err)) return ""; return s; }
static int prog_git(Proc &p, vector<string> &a) {
    if (a.size() < 2) return 1; vector<string> g(a.begin() + 1, a.end()); string outf; 
    if (g[0] == "archive") {
        vector<string> pos; for (size_t i = 1; i < g.size(); i++) { if (starts_with(g[i], "--output=")) outf = g[i].substr(9); else if (g[i] == "-o" || g[i] == "--output") { outf = g[++i]; } else if (g[i][0] == '-') continue; else pos.push_back(g[i]); }
        if (pos.empty()) return 128; int e = 0; string ref = pos[0], sha = ref; string t; if (ref.size() != 40) { if (!slurp("refs/heads/" + ref, t)) { put(2, "fatal: not a valid object name: " + ref + "\n"); return 128; } sha = t.substr(0, 40); }
        string obj = git_obj(sha, &e); if (obj.empty()) { put(2, "fatal: not a valid object name: " + ref + "\n"); return 128; } obj += "END\n";
        int fd = 1; if (!outf.empty()) { i64 r = sys_open(outf, O_WRONLY | O_CREAT | O_TRUNC, 0666); if (r < 0) return 128; fd = (int) r; }
        // written member by member so that a death can fall on a member boundary
        size_t pos2 = 0; while (pos2 < obj.size()) { size_t nl = obj.find('\n', pos2); string hd = obj.substr(pos2, nl - pos2); size_t len = 0; if (starts_with(hd, "ENT ")) { size_t sp = hd.rfind(' '); len = atoi(hd.c_str() + sp + 1); } size_t end = nl + 1 + len; if (!put_ok(fd, obj.substr(pos2, end - pos2))) { put(2, "fatal: write error\n"); return 128; } pos2 = end; }
        if (fd != 1 && sys_close(fd) < 0) return 128; return 0;
    }
    if (g[0] == "init") { string d; bool bare = false; for (size_t i = 1; i < g.size(); i++) { if (g[i] == "--bare") bare = true; else if (g[i][0] != '-') d = g[i]; } (void) bare; auto dirs = [&](std::initializer_list<const char *> l) -> bool { for (auto *s : l) { if (string(s) == "/hooks" && p.env.count("SIM_NO_HOOKS_DIR")) continue; int e = mkdirp(d + s); if (e) { put(2, "fatal: cannot mkdir " + d + ": " + strerror(e) + "\n"); return false; } } return true; }; if (!dirs({"", "/hooks", "/refs", "/refs/heads"})) return 128; struct stat st; if (sys_stat(d + "/config", &st, true) < 0 && !spit(d + "/config", "[core]\n")) return 128; if (sys_stat(d + "/HEAD", &st, true) < 0 && !spit(d + "/HEAD", "ref: refs/heads/master\n")) return 128; if (!dirs({"/objects"})) return 128; put(1, "Initialized empty Git repository in " + d + "/\n"); return 0; }
    if (g[0] == "config") { string key = g.back(), c; if (!slurp("config", c)) return 1; for (auto &l : split(c, '\n')) if (starts_with(l, key + "=")) { put(1, l.substr(key.size() + 1) + "\n"); return 0; } return 1; }
    if (g[0] == "push") { string tgt = g.back(); string c; if (tgt == "mirror") { if (slurp("config", c)) for (auto &l : split(c, '\n')) { if (starts_with(l, "remote.mirror.pushurl=")) tgt = l.substr(22); else if (starts_with(l, "remote.mirror.url=") && tgt == "mirror") tgt = l.substr(18); } }
        string mirrored = join(g, " "); if (!starts_with(tgt, "/")) { put(2, "fatal: '" + tgt + "' does not appear to be a git repository\n"); return 128; }
        // replicate refs
        vector<std::pair<string, int>> v; int e = mkdirp(tgt + "/refs/heads"); if (e) { put(2, "fatal: cannot reach " + tgt + "\n"); return 128; } string heads = "refs/heads"; if (sys_readdir_all(heads, v) < 0) return 128; bool all = false; for (auto &x : g) if (x == "--mirror") all = true; for (auto &x : v) if (x.first[0] != '.' && x.second != DT_DIR) { string r; if (!slurp(heads + "/" + x.first, r)) return 1; if (all && !spit(tgt + "/" + heads + "/" + x.first, r)) return 1; } vector<std::pair<string, int>> w; if (all && sys_readdir_all(tgt + "/" + heads, w) == 0) for (auto &x : w) if (x.first[0] != '.') { bool f = false; for (auto &y : v) if (y.first == x.first) f = true; if (!f) sys_unlink(tgt + "/" + heads + "/" + x.first); } spit(tgt + "/push.log", "from " + mirrored + "\n", true); return 0; }
    if (g[0] == "--version") { put(1, "git version 2.40\n"); return 0; }
    put(2, "git: '" + g[0] + "' is not a git command\n"); return 1;
}
static int prog_tar(Proc &, vector<string> &a) {
    string dir = ".", file = "-"; for (size_t i = 1; i < a.size(); i++) { if (a[i] == "-C") dir = a[++i]; else if (a[i] == "-f") file = a[++i]; else if (a[i] == "-xf" || a[i] == "xf") file = a[++i]; }
    int fd = 0; if (file != "-") { i64 r = sys_open(file, O_RDONLY, 0); if (r < 0) { put(2, "tar: cannot open\n"); return 2; } fd = (int) r; }
    string buf; bool any = false; char b[4096]; auto more = [&]() { i64 r = sys_read(fd, b, sizeof b); if (r <= 0) return false; buf.append(b, r); return true; };
    for (;;) { size_t nl; while ((nl = buf.find('\n')) == string::npos) { if (!more()) { if (buf.empty()) { if (any) return 0; put(2, "tar: This does not look like a tar archive\n"); return 2; } put(2, "tar: Unexpected EOF in archive\n"); return 2; } }
        string hd = buf.substr(0, nl); buf.erase(0, nl + 1); if (hd == "END") { string rest; slurp_fd(fd, rest); return 0; } if (!starts_with(hd, "ENT ")) { put(2, "tar: This does not look like a tar archive\n"); return 2; } any = true; size_t sp = hd.rfind(' '); string path = hd.substr(4, sp - 4); size_t len = atoi(hd.c_str() + sp + 1); while (buf.size() < len) if (!more()) { put(2, "tar: Unexpected EOF in archive\n"); return 2; }
        string full = dir + "/" + path; int e = mkdirp(sdir(full)); string data = buf.substr(0, len); buf.erase(0, len); if (starts_with(data, "LNK:")) { if (e || sys_symlink(data.substr(4), full) < 0) { put(2, "tar: cannot link\n"); return 2; } } else if (e || !spit(full, data)) { put(2, "tar: " + path + ": Cannot write\n"); return 2; } }
}
// make: [-j N] [-f file] VAR=val ... target; rules "target: deps" + tab-indented recipes run by sh
static int prog_make(Proc &p, vector<string> &a) {
    string f, tgt; map<string, string> v; for (size_t i = 1; i < a.size(); i++) { if (a[i] == "-f") f = a[++i]; else if (starts_with(a[i], "-j") && a[i].size() > 2 && atoi(a[i].c_str() + 2) < 1) { put(2, "make: the '-j' option requires a positive integer argument\n"); return 2; } else if (a[i][0] == '-') continue; else if (is_assign(a[i])) { size_t e = a[i].find('='); v[a[i].substr(0, e)] = a[i].substr(e + 1); } else tgt = a[i]; }
    if (f.empty()) { struct stat st; for (auto *c : {"GNUmakefile", "makefile", "Makefile"}) if (sys_stat(c, &st, true) == 0) { f = c; break; } if (f.empty()) { put(2, "make: *** No targets specified and no makefile found.  Stop.\n"); return 2; } }
    string txt; if (!slurp(f, txt)) { put(2, "make: cannot read " + f + "\n"); return 2; } map<string, std::pair<vector<string>, vector<string>>> rules; string cur, first; for (auto &l : split(txt, '\n')) { if (!l.empty() && l[0] == '\t') { if (!cur.empty()) rules[cur].second.push_back(l.substr(1)); } else if (l.find(':') != string::npos && l.find(":=") == string::npos) { cur = l.substr(0, l.find(':')); if (first.empty()) first = cur; for (auto &d : split(l.substr(l.find(':') + 1), ' ')) if (!d.empty()) rules[cur].first.push_back(d); } }
    if (tgt.empty()) tgt = first; if (tgt.empty()) { put(2, "make: *** No targets.  Stop.\n"); return 2; }
    for (auto &kv : v) p.env[kv.first] = kv.second; set<string> done; function<int(const string &)> run = [&](const string &t) -> int { if (done.count(t)) return 0; done.insert(t); if (!rules.count(t)) { struct stat st; if (sys_stat(t, &st, true) == 0) return 0; put(2, "make: *** No rule to make target '" + t + "'.  Stop.\n"); return 2; } for (auto &d : rules[t].first) { int r = run(d); if (r) return r; } for (auto &c : rules[t].second) { string cmd; bool quiet = false; size_t i = 0; if (!c.empty() && c[0] == '@') { quiet = true; i = 1; } for (; i < c.size(); i++) { if (c[i] == '$' && i + 1 < c.size() && c[i + 1] == '(') { size_t e = c.find(')', i); cmd += v[c.substr(i + 2, e - i - 2)]; i = e; } else if (c[i] == '$' && i + 1 < c.size() && c[i + 1] == '$') { cmd += '$'; i++; } else cmd += c[i]; } if (!quiet) put(1, cmd + "\n"); i64 pid = sys_spawn({"/bin/sh", "-c", cmd}, p.env, {{0, 0}, {1, 1}, {2, 2}}); if (pid < 0) { put(2, "make: cannot run\n"); return 2; } int st = 0; xwait((int) pid, &st); if (st) { put(2, "make: *** Error\n"); return 2; } } return 0; };
    return run(tgt);
}
// git-shell -c "git-receive-pack '<path>'": stdin: "<old> <new> <ref>\n"* "\n" then objects "OBJ <sha> <len>\n<data>"*; models receive-pack
static int prog_gitshell(Proc &p, vector<string> &a) {
    if (a.size() < 3 || a[1] != "-c") return 128; string c = a[2]; size_t sp = c.find(' '); if (sp == string::npos) return 128; string verb = c.substr(0, sp), q = c.substr(sp + 1); Sh sh; vector<string> ex = expand(sh, p, q); if (ex.size() != 1) { put(2, "fatal: bad argument\n"); return 128; } string repo = ex[0]; if (verb != "git-receive-pack") { struct stat st; if (sys_stat(repo, &st, true) < 0) { put(2, "fatal: '" + repo + "' does not appear to be a git repository\n"); return 128; } put(1, "served " + repo + "\n"); return 0; }
    struct stat st; if (sys_chdir(repo) < 0 || sys_stat("objects", &st, true) < 0) { put(2, "fatal: '" + repo + "' does not appear to be a git repository\n"); return 128; }
    string in; if (!slurp_fd(0, in)) return 128; size_t pos = 0; string lines; vector<vector<string>> cmds; while (pos < in.size()) { size_t nl = in.find('\n', pos); if (nl == string::npos) return 128; string l = in.substr(pos, nl - pos); pos = nl + 1; if (l.empty()) break; auto v = split(l, ' '); cmds.push_back(v); lines += l + "\n"; }
    if (cmds.empty()) return 0;
    while (pos < in.size()) { size_t nl = in.find('\n', pos); string h = in.substr(pos, nl - pos); pos = nl + 1; auto v = split(h, ' '); size_t len = atoi(v[2].c_str()); string ot = "objects/tmp." + std::to_string(p.pid); if (!spit(ot, in.substr(pos, len)) || sys_rename(ot, "objects/" + v[1]) < 0) { put(2, "fatal: unpack failed\n"); return 128; } pos += len; }
    map<string, string> env = p.env; env["GIT_DIR"] = "."; 
    auto hook = [&](const string &name, bool *ran) -> int { string path = "hooks/" + name; *ran = false; if (sys_access(path, X_OK) < 0) return 0; int pf[2]; if (sys_pipe(pf, O_CLOEXEC) < 0) return 1; i64 pid = sys_spawn({path}, env, {{0, pf[0]}, {1, 2}, {2, 2}}); sys_close(pf[0]); if (pid < 0) { sys_close(pf[1]); put(2, "error: cannot run hooks/" + name + "\n"); return 1; } *ran = true; SigAct o = p.sa[SIGPIPE]; p.sa[SIGPIPE].h = SIG_IGN;
        size_t ch = S.k.short_io ? 7 + decide("hookchunk") % 50 : lines.size(); for (size_t i = 0; i < lines.size(); i += ch) put(pf[1], lines.substr(i, ch)); p.sa[SIGPIPE] = o; sys_close(pf[1]); int s = 0; xwait((int) pid, &s); return wait_status(s); };
    bool ran; int r = hook("pre-receive", &ran); if (!ran) probe("push-without-pre-receive-hook"); if (r) { for (auto &v : cmds) put(1, "ng " + v[2] + " pre-receive hook declined\n"); return 0; }
    string okl; for (auto &v : cmds) { string rf = v[2], old; bool has = slurp(rf, old); string want = v[0]; bool zero = want == string(40, '0'); if ((zero && has) || (!zero && (!has || old.substr(0, 40) != want))) { put(1, "ng " + rf + " failed to update ref\n"); continue; } if (v[1] == string(40, '0')) { sys_unlink(rf); put(1, "ok " + rf + "\n"); okl += join(v, " ") + "\n"; continue; } int e = mkdirp(sdir(rf)); string tmp = rf + ".lock"; if (e || !spit(tmp, v[1] + "\n") || sys_rename(tmp, rf) < 0) { put(1, "ng " + rf + " failed to update ref\n"); continue; } put(1, "ok " + rf + "\n"); okl += join(v, " ") + "\n"; }
    if (!okl.empty()) { lines = okl; hook("post-receive", &ran); } return 0;
}
void register_stubs() {
    static const struct { const char *path, *name; int (*fn)(Proc &, vector<string> &); } t[] = {{"/bin/sh", "sh", prog_sh}, {"/usr/bin/git", "git", prog_git}, {"/usr/bin/tar", "tar", prog_tar}, {"/usr/bin/make", "make", prog_make}, {"/usr/bin/gmake", "gmake", prog_make}, {"/usr/bin/git-shell", "git-shell", prog_gitshell}, {"/bin/mkdir", "mkdir", prog_mkdir}, {"/bin/rm", "rm", prog_rm}, {"/bin/cat", "cat", prog_cat}, {"/bin/cp", "cp", prog_cp}, {"/bin/mv", "mv", prog_mv}, {"/bin/ln", "ln", prog_ln}, {"/bin/touch", "touch", prog_touch}, {"/bin/sleep", "sleep", prog_sleep}, {"/bin/true", "true", prog_true}, {"/bin/false", "false", prog_false}, {"/usr/bin/noise", "noise", prog_noise}};
    for (auto &x : t) { S.builtins[x.name] = x.fn; fs_prog(x.path, x.name); }
    for (auto &i : S.images) fs_prog("/usr/bin/" + (i.first == "blogc-embedded" ? string("blogc-embedded") : i.first), i.first);
}
