// blogc-runserver under concurrent, slow, cut-off and hostile clients, request segmentation, and failing system calls (C12, C13, C14).
#include "mk.h"
#include <algorithm>

// ---------------------------------------------------------------- content and names
static string content(const string &tag, size_t n) { // n bytes, different for every tag
    string s = "<" + tag + ">"; u64 h = hstr(tag); while (s.size() < n) { h = mix(h + 1); s += strf("%06x%c", (unsigned) (h & 0xffffff), (h >> 32) % 9 ? ' ' : (h >> 40) % 3 ? '\n' : '\0'); } s.resize(n); return s;
}
static const vector<string> NAMES = {"a", "b", "post", "page", "x y", "\xc3\xa9t\xc3\xa9", "50%", "a+b", "q?x", "h#h", "%41", "c&d", ".hid", "~t", "sub.d", "www", "a:b", "d=e;f"};
static const vector<string> EXTS = {".html", ".html", ".txt", ".css", ".png", ".xml", "", ".foo", ".jpg", ".tar.gz", ".svg"};
static const vector<string> INDEX = {"index.html", "index.htm", "index.shtml", "index.xml", "index.txt", "index.xhtml"};
static const map<string, string> TYPES = {{"html", "text/html"}, {"txt", "text/plain"}, {"css", "text/css"}, {"png", "image/png"}, {"jpg", "image/jpeg"}, {"svg", "image/svg+xml"}};
static string ext_of(const string &p) { size_t s = p.rfind('/'); string b = s == string::npos ? p : p.substr(s + 1); size_t d = b.rfind('.'); return d == string::npos ? "" : b.substr(d + 1); }
static string enc(Rng &r, const string &path, double extra) { // URL spelling of a path
    string o; for (unsigned char c : path) { bool safe = isalnum(c) || strchr("/._-~=;:&", c); if (c == ' ' && r.chance(.3)) { o += '+'; continue; } if (safe && !r.chance(c == '/' ? extra / 4 : extra)) { o += (char) c; continue; } o += strf(r.chance(.5) ? "%%%02x" : "%%%02X", c); } return o;
}
static string dec(const string &t, bool *nul = nullptr) { string s = t.substr(0, t.find('?')), o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '%' && i + 2 < s.size() && isxdigit((unsigned char) s[i + 1]) && isxdigit((unsigned char) s[i + 2])) { char c = (char) strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); if (!c && nul) *nul = true; o += c; i += 2; } else o += s[i] == '+' ? ' ' : s[i]; } return o; }

// ---------------------------------------------------------------- generation
struct Tree { vector<string> dirs = {""}, files; vector<string> links; };
static Tree gen_tree(Plan &p, Rng &r) {
    Tree t; int nd = r.range(0, 4), nf = r.range(1, 7); set<string> used;
    for (int i = 0; i < nd; i++) { string d = r.pick(t.dirs) + "/" + r.pick(NAMES); if (used.insert(d).second) { t.dirs.push_back(d); p.op({"dir", d}); } }
    auto size = [&]() { double x = r.below(100); return x < 5 ? 0 : x < 10 ? 1 : x < 60 ? r.range(2, 900) : x < 85 ? r.range(900, 20000) : r.range(20000, 300000); };
    for (int i = 0; i < nf; i++) { string f = r.pick(t.dirs) + "/" + r.pick(NAMES) + r.pick(EXTS); if (used.insert(f).second) { t.files.push_back(f); p.op({"file", f, strf("%d", size()), strf("v%d", i)}); } }
    for (auto &d : t.dirs) if (r.chance(.6)) { string f = d + "/" + r.pick(INDEX); if (used.insert(f).second) { t.files.push_back(f); p.op({"file", f, strf("%d", size()), "i" + d}); if (r.chance(.2)) { string g = d + "/" + r.pick(INDEX); if (used.insert(g).second) { t.files.push_back(g); p.op({"file", g, strf("%d", size()), "j" + d}); } } } }
    int nl = r.chance(p.prop == "C13" ? .9 : .3) ? r.range(1, 4) : 0;
    for (int i = 0; i < nl; i++) {
        string d = r.pick(t.dirs), f = d + "/" + (r.chance(.3) ? INDEX[r.below(2)] : r.pick(NAMES) + (r.chance(.5) ? ".html" : "")); if (!used.insert(f).second) continue;
        static const vector<string> OUT = {"/srv/www2/secret.txt", "/etc/secret.txt", "/srv/www2", "/srv", "/", "/srv/www2/index.html", "/srv/wwwx.html", "/srv/www2/sub", "/etc"}; string up; for (char c : d) if (c == '/') up += "../"; string tgt;
        double x = r.below(100); if (x < 25) tgt = "/srv/www" + r.pick(t.files); else if (x < 40) { string q = r.pick(t.files); tgt = (up.empty() ? "." : up.substr(0, up.size() - 1)) + q; } else if (x < 50) tgt = "/srv/www" + r.pick(t.dirs); else if (x < 55) tgt = "nowhere"; else if (x < 58) { tgt = f.substr(f.rfind('/') + 1); } else if (x < 75) tgt = (up + "../www2") + (r.chance(.5) ? "/secret.txt" : ""); else tgt = r.pick(OUT);
        t.links.push_back(f); p.op({"link", f, tgt});
    }
    return t;
}
static string gen_target(Plan &p, Rng &r, const Tree &t) {
    string f; double x = r.below(100); bool out = p.prop == "C13" ? r.chance(.6) : r.chance(.08);
    if (out) {
        static const vector<string> O = {"/../www2/secret.txt", "/../secret.html", "/../www2/", "/../www2", "/../../etc/secret.txt", "../www2/secret.txt", "..", "/..", "/../", "/../www2/sub/", "/../wwwx.html", "/../www2/sub/deep.txt", "//etc/secret.txt", "/../../../../../../../../etc/secret.txt", "/./../www2/secret.txt"};
        f = r.pick(O); if (r.chance(.3) && t.dirs.size() > 1) { string d = r.pick(t.dirs), up; for (char c : d) if (c == '/') up += "/.."; f = d + up + (f[0] == '/' ? f : "/" + f); } if (!t.links.empty() && r.chance(.5)) { f = r.pick(t.links); if (r.chance(.6)) f += r.chance(.4) ? "/" : r.chance(.5) ? "/secret.txt" : "/www2/secret.txt"; }
        string e = enc(r, f, r.chance(.3) ? .3 : 0); if (p.prop != "C13" && f[0] == '/' && e[0] != '/') e = "/" + e.substr(3); return e;
    }
    if (x < 60) f = r.pick(t.files); else if (x < 80) { f = r.pick(t.dirs); if (r.chance(.5) || f.empty()) f += "/"; } else if (x < 88 && !t.links.empty()) f = r.pick(t.links); else if (x < 94) f = r.pick(t.dirs) + "/" + "missing" + r.pick(EXTS); else { f = r.pick(t.files); size_t s = f.find('/', 1); string d = r.pick(t.dirs), up; for (char c : d) if (c == '/') up += "/.."; (void) s; f = d + up + f; }
    if (r.chance(.06)) f = "/" + f; if (r.chance(.05)) f = "/." + f;
    string e = enc(r, f, r.chance(.2) ? .3 : 0); if (e[0] != '/') e = "/" + e.substr(3); if (r.chance(.12)) e += "?" + string(r.chance(.5) ? "x=1&y=%20" : "../../etc"); return e;
}
static void gen_http(Plan &p, Rng &r) {
    auto &k = p.k; knobs_schedule(p, r, 1); k.step_limit = 3000000; k.compute_limit = 3000000000; static const vector<string> ROOT = {"/srv/www", "/srv/www", "/srv/www/", "www", "/srv/./www", "/srv/cur", "../srv/www//"}; p.par["root"] = r.pick(ROOT); p.par["threads"] = strf("%d", r.chance(.4) ? r.range(1, 2) : r.range(1, 6)); p.par["how"] = strf("%d", (int) (r.chance(.7) ? r.range(0, 3) : r.range(4, 10))); if (r.chance(.3)) p.par["mj"] = "1";
    if (p.prop == "C13" && r.chance(.15)) p.par["late"] = strf("%d", r.range(1, 5)); k.sock_cap = r.chance(.5) ? 65536 : r.range(500, 20000); if (r.chance(.5)) k.short_io = r.range(1, 6); p.par["rst"] = r.chance(.5) ? "1" : "0"; if (r.chance(.1)) { k.stall_rate = r.range(20, 2000); k.stall_ns = r.range(1, 800) * MS; }
    Tree t = gen_tree(p, r); int n = r.range(1, p.prop == "C14" ? 6 : 9); bool burst = r.chance(.6), rush = p.prop == "C12" && r.chance(.3); auto when = [&]() { return strf("%d", rush ? (int) r.below(3) : burst ? (int) r.below(3000) : (int) r.below(3000000)); };
    vector<string> same; if (rush) { p.par["threads"] = strf("%d", r.range(2, 6)); n = r.range(3, 10); k.short_io = 0; k.stall_rate = 0; double x = r.below(100); if (x < 60) for (auto &d : t.dirs) { same.push_back(d + "/"); if (!d.empty() && r.chance(.3)) same.push_back(d); } else if (x < 80) same = t.files; } // requests of one kind that all arrive together
    auto seg = [&]() { string s; if (!rush && r.chance(.5)) { int m = r.range(1, 4); for (int i = 0; i < m; i++) s += strf("%s%d:%d", i ? "," : "", r.chance(.3) ? r.range(1, 20) : r.range(1, 2000), r.chance(.5) ? r.range(0, 500) : r.range(500, 2000000)); } return s; };
    for (int i = 0; i < n; i++) {
        string rd = strf("%d", r.chance(.6) ? 65536 : r.range(200, 5000)), gap = strf("%d", r.chance(.7) ? 0 : r.range(1, 20000)); bool bad = r.chance(p.prop == "C12" ? same.empty() ? .12 : .04 : .05);
        if (bad) { static const vector<string> B = {"GET  HTTP/1.0\r\n\r\n", "GET /\r\n\r\n", "GET\r\n\r\n", " \r\n\r\n", "FOO / HTTP/1.0\r\n\r\n", "GETX / HTTP/1.0\r\n\r\n", "GE / HTTP/1.0\r\n\r\n", "POST / HTTP/1.0\r\n\r\n", "get / HTTP/1.0\r\n\r\n", "  / HTTP/1.0\r\n\r\n", "HEAD / HTTP/1.1\r\nHost: x\r\n\r\n", "GET\t/\tHTTP/1.0\r\n\r\n"}; p.op({"bad", when(), r.pick(B), seg(), rd, gap}); }
        else p.op({"get", when(), !same.empty() && r.chance(.85) ? enc(r, r.pick(same), 0) : gen_target(p, r, t), seg(), rd, gap, strf("%d", r.range(0, 5)), strf("%d", r.range(0, 3000))});
        if (p.prop == "C13" && r.chance(.04)) p.op({"noroot", when(), strf("%d", r.range(100, 100000))});
        if (r.chance(.05)) p.op({"suspend", when(), strf("%d", r.chance(.5) ? r.range(1, 5000) : r.range(5000, 4000000))});
        if (r.chance(.12)) p.op({"edit", when(), r.pick(t.files), strf("%d", r.range(0, 30000)), strf("e%d", i)});
    }
    if (r.chance(p.prop == "C14" ? .9 : .2)) { // hostile or unlucky clients
        int m = r.range(1, p.prop == "C14" ? 8 : 3); bool forever = p.prop == "C14" && r.chance(.4);
        for (int i = 0; i < m; i++) {
            string hold = strf("%d", forever && r.chance(.6) ? -1 : r.chance(.5) ? (int) r.below(2000) : (int) r.below(5000000)), end = strf("%d", (int) r.below(3)); double x = r.below(100); string b;
            if (x < 20) b = ""; else if (x < 35) { b = "GET " + gen_target(p, r, t) + " HTTP/1.1\r\nHost: x\r\n\r\n"; b = b.substr(0, r.below(b.size() + 1)); } else if (x < 50) { p.op({"noread", when(), r.pick(t.files), hold, end}); continue; }
            else { static const vector<string> J = {"GET  HTTP/1.0\r\n\r\n", "\r\n\r\n", string(3, '\0'), string(10000, 'A'), "GET /%00 HTTP/1.0\r\n\r\n", "GET /%zz HTTP/1.0\r\n\r\n", "GET /% HTTP/1.0\r\n\r\n", "GET ? HTTP/1.0\r\n\r\n", "GET ?? HTTP/1.0\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 90000\r\n\r\n" + string(7000, 'x'), string(2048, 'G'), "GET / HTTP/1.1\r\n" + string(2032, 'h'), "\xff\xfe\x00\x80", "   ", "GET %s%n%n HTTP/1.0\r\n\r\n", "GET /" + string(3000, 'a') + "/.. HTTP/1.0\r\n\r\n", "GET " + string(5000, '/') + " HTTP/1.0\r\n\r\n"}; b = r.pick(J); }
            p.op({"raw", when(), b, hold, end});
        }
    }
    if (p.prop == "C14" ? r.chance(.6) : r.chance(.25)) { int m = (int) r.below(p.prop == "C14" ? 5 : 3); if (m == 0) k.fault_sc = {"open", "read", "stat", "realpath", "access"}; else if (m == 1) k.fault_sc = {"sread", "swrite"}; else if (m == 2) k.fault_sc = {"open", "read", "stat", "sread", "swrite", "realpath"}; else if (m == 3) k.fault_sc = {"accept", "pthread_create"}; else k.fault_sc = {"accept", "pthread_create", "sread", "swrite", "open", "read", "stat", "realpath", "access"}; k.fault_rate = r.range(1, 25); k.fault_max = r.chance(.5) ? r.range(1, 3) : r.range(3, 12); }
}

// ---------------------------------------------------------------- model
struct Ver { i64 t; string data; };
struct Web { map<u64, vector<Ver>> ver; string root; /* real path */ vector<string> secrets; }; // versions by key of real path
static u64 wkey(const string &path) { return hstr(path); }
struct Want { int kind = 0, code = 0; /* 0 any 1 error 2 content 3 redirect 4: 404 */ vector<string> paths; string url; }; // paths: acceptable files (first is the right one)
static bool inside(const Web &w, const string &real) { return real == w.root || starts_with(real, w.root == "/" ? "/" : w.root + "/"); }
static Want want_of(const Web &w, const string &target, int depth = 0) {
    Want e; bool nul = false; string path = dec(target, &nul); e.url = target; if (nul) return e; INode n = fs_lookup(w.root + "/" + path); 
    if (!n) { INode par = fs_lookup(w.root + "/" + path, false); e.kind = 1; if (!par) { // distinguish plainly missing names
        bool plain = true; string cur = w.root; for (auto &c : split(path, '/')) { cur += "/" + c; INode q = fs_lookup(cur, false); if (q && q->type != Inode::DIR) plain = false; if (!q) break; } if (plain) e.kind = 4; } return e; }
    string real = fs_realpath(w.root + "/" + path); if (!inside(w, real)) { e.kind = 1; return e; }
    if (n->type == Inode::FILE) { if (!path.empty() && path.back() == '/') { e.kind = 0; return e; } e.kind = 2; e.paths = {real}; return e; }
    for (auto &i : INDEX) { INode x = fs_lookup(real + "/" + i); if (!x) continue; if (x->type != Inode::FILE) { e.kind = e.paths.empty() ? 0 : e.kind; if (e.paths.empty()) return e; continue; } string xr = fs_realpath(real + "/" + i); if (!inside(w, xr)) { if (e.paths.empty()) e.kind = 1; continue; } e.paths.push_back(xr); }
    if (e.paths.empty() || e.kind == 1) { if (e.kind != 1) { bool none = true; for (auto &i : INDEX) if (fs_lookup(real + "/" + i, false)) none = false; if (none) e.code = 403; } e.kind = 1; return e; } if (!path.empty() && path.back() != '/') e.kind = 3; else e.kind = 2; (void) depth; return e;
}

// ---------------------------------------------------------------- clients
struct Resp { string raw; int code = -1; string head, body; map<string, string> h; bool complete = false, reset = false, timeout = false, refused = false; i64 t0 = 0, t1 = 0; };
static void parse_resp(Resp &r) {
    size_t e = r.raw.find("\r\n\r\n"); if (e == string::npos) return; r.head = r.raw.substr(0, e); r.body = r.raw.substr(e + 4); vector<string> l = split(r.head, '\n'); if (l[0].size() > 12 && starts_with(l[0], "HTTP/1.") && l[0][8] == ' ') r.code = atoi(l[0].c_str() + 9);
    for (size_t i = 1; i < l.size(); i++) { size_t c = l[i].find(':'); if (c == string::npos) { r.code = -2; continue; } string k = l[i].substr(0, c), v = l[i].substr(c + 1); for (auto &x : k) x = tolower(x); while (!v.empty() && (v.back() == '\r' || v.back() == ' ')) v.pop_back(); while (!v.empty() && v[0] == ' ') v.erase(0, 1); r.h[k] = v; }
    r.complete = r.code > 0 && (r.h.count("content-length") ? (size_t) atoll(r.h["content-length"].c_str()) == r.body.size() : !r.reset);
}
struct Http { Web w; int port = 8080; bool rst = false, faults = false; PProc pr; Run r; int left = 0, forever = 0; string fail, failcls; bool stop_hold = false, late = false; i64 paused = 0; vector<shared_ptr<Conn>> conns; i64 limit = 0; string av; };
typedef shared_ptr<Http> PHttp;
static void secret_check(PHttp h, const string &what, const string &raw) { if (raw.find("SECRET-") != string::npos && h->failcls.empty()) { size_t i = raw.find("SECRET-"); h->failcls = "escaped"; h->fail = what + " was answered with a file from outside of the document root: " + esc(raw.substr(0, std::min<size_t>(i + 40, 400)), 400); } }
static Resp talk(PHttp h, const string &req, const string &seg, size_t rd, i64 gap, bool shut) { // a client that sends everything, reads everything and waits for the end
    Resp r; r.t0 = S.now; auto c = net_connect(h->port); if (!c) { r.refused = true; return r; } h->conns.push_back(c); size_t pos = 0; bool dead = false;
    for (auto &s : split(seg, ',')) { if (s.empty()) continue; size_t n = atoi(s.c_str()), at = s.find(':'); if (pos + n >= req.size()) break; if (net_send(*c, req.substr(pos, n)) < 0) { dead = true; break; } pos += n; h->paused += atoll(s.c_str() + at + 1) * 1000; fiber_block("client gap", nullptr, S.now + atoll(s.c_str() + at + 1) * 1000); }
    if (!dead && net_send(*c, req.substr(pos)) < 0) dead = true; if (shut && !dead) net_shutdown_wr(*c); i64 end = S.now + h->limit;
    for (;;) { if (h->rst && c->reset && !c->buf[1].empty()) { S.st.faults["tcp-reset-loses-data"]++; c->buf[1].clear(); } i64 n = net_recv(*c, r.raw, rd, end - S.now); if (n == -ETIMEDOUT) { r.timeout = true; break; } if (n < 0) { r.reset = true; break; } if (n == 0) { if (c->reset) r.reset = true; break; } if (gap) { h->paused += gap * 1000; fiber_block("client read gap", nullptr, S.now + gap * 1000); } }
    r.t1 = S.now; net_close(*c); parse_resp(r); return r;
}
static string req_text(const Op &o) { const string &t = o[2]; int v = atoi(o[6].c_str()), pad = atoi(o[7].c_str()); if (v == 1) return "GET " + t + " HTTP/1.0\r\n\r\n"; if (v == 2) return "GET " + t + " HTTP/1.0\n\n"; if (v == 5) return "GET " + t + " HTTP/1.0\r\n"; string b = "GET " + t + " HTTP/1.1\r\nHost: x\r\n"; if (v == 3) b += "X-Pad: " + string(pad, 'p') + "\r\n"; if (v == 4) { string q = b + "X-Pad: " + "\r\n\r\n"; size_t tot = (q.size() / 2048 + 1) * 2048; b += "X-Pad: " + string(tot - q.size(), 'p') + "\r\n"; } return b + "\r\n"; }
static string rdesc(const Resp &r) { return r.refused ? "the connection was refused" : r.timeout && r.code < 0 ? strf("no complete answer within the time limit (%zu bytes came)", r.raw.size()) : r.raw.empty() ? (r.reset ? "the connection was reset without an answer" : "the connection was closed without an answer") : strf("answer %d, %zu body bytes%s%s: %s", r.code, r.body.size(), r.h.count("content-length") ? (" of " + r.h.at("content-length")).c_str() : "", r.reset ? ", then the connection was reset" : r.timeout ? ", then nothing until the time limit" : "", esc(r.raw.substr(0, 240), 240).c_str()); }
static string judge(PHttp h, const Want &e, Resp &r) { // "" when the answer is right
    bool soft = h->faults; // faults may have hit this request: an error or a broken connection is acceptable, a wrong answer is not
    if (soft && (!r.complete || r.code >= 400)) return ""; if (!r.complete) return "expected a complete answer";
    if (e.kind == 1 && !(soft && r.code < 400 && !e.paths.empty())) return e.code && r.code != e.code && !soft ? strf("expected status %d", e.code) : r.code >= 400 && r.code < 600 ? "" : "expected an error status"; if (e.kind == 4) return r.code == 404 ? "" : "expected status 404"; if (e.kind == 0) return r.code >= 200 && r.code < 600 ? "" : "expected an HTTP answer";
    if (e.kind == 3 || (e.kind == 1 && r.code != 200)) { if (r.code != 301 && r.code != 302 && r.code != 307 && r.code != 308) return "expected a redirection to the directory's own URL"; string loc = r.h.count("location") ? r.h["location"] : ""; if (loc.empty() || loc[0] != '/' || (loc.size() > 1 && loc[1] == '/')) return "expected a redirection within the site"; bool ok = dec(loc) == dec(e.url) + "/" || (fs_lookup(h->w.root + "/" + dec(loc)) && fs_lookup(h->w.root + "/" + dec(loc)) == fs_lookup(h->w.root + "/" + dec(e.url)) && dec(loc).back() == '/'); return ok ? "" : "expected a redirection to the same directory with a final slash"; }
    if (r.code != 200) return "expected status 200"; if (!r.h.count("content-length")) return "expected a Content-Length"; 
    string why = "expected the content of " + e.paths[0]; for (size_t i = 0; i < (soft ? e.paths.size() : 1); i++) { auto &v = h->w.ver[wkey(e.paths[i])]; bool ok = false; for (size_t j = 0; j < v.size(); j++) if (v[j].t <= r.t1 && (j + 1 >= v.size() || v[j + 1].t >= r.t0) && v[j].data == r.body) ok = true; if (!ok) continue; auto ty = TYPES.find(ext_of(e.paths[i])); if (ty != TYPES.end() && !starts_with(r.h["content-type"], ty->second)) return "expected Content-Type " + ty->second; return ""; }
    return why;
}
static void note(PHttp h, const string &cls, const string &msg) { if (h->failcls.empty()) { h->failcls = cls; h->fail = msg; } }
static void client(PHttp h, const Op &o, bool check, int id) {
    i64 at = atoll(o[1].c_str()) * 1000 + S.now; h->left++; bool fe = (o[0] == "raw" || o[0] == "noread") && o[3] == "-1"; if (fe) h->forever++;
    harness_fiber(strf("client%d", id), [h, o, at, check, fe]() {
        if (at > S.now) fiber_block("client start", nullptr, at);
        if (o[0] == "get" || o[0] == "bad") {
            bool get = o[0] == "get"; Want e; if (get) e = want_of(h->w, o[2]); else { e.kind = starts_with(o[2], "GET  ") ? 0 : 1; string l1 = o[2].substr(0, o[2].find_first_of(string("\r\n\0", 3))); auto w = split(l1, ' '); bool plain = !w.empty(); for (auto &x : w) if (x.empty()) plain = false; if (plain && e.kind == 1) e.code = w.size() < 3 ? 400 : w[0] != "GET" ? 405 : 0; } string rq = get ? req_text(o) : o[2]; Resp r = talk(h, rq, o[3], atoi(o[4].c_str()), atoll(o[5].c_str()), get && o[6] == "5"); secret_check(h, esc(rq.substr(0, 200), 200), r.raw);
            if (!check) probe(r.code > 0 ? strf("answered-%dxx", r.code / 100) : "no-answer"); if (check) { string why = judge(h, e, r); if (why.empty() && h->late && r.t1 - r.t0 > h->paused + 5 * SEC) { note(h, "late-answer", strf("request %s (sent in pieces %s) was answered %.1f seconds after the connection was opened, all of the clients together paused for %.1f seconds: ", esc(rq.substr(0, 200), 200).c_str(), o[3].c_str(), (r.t1 - r.t0) / 1e9, h->paused / 1e9) + rdesc(r)); } else if (!why.empty()) note(h, r.timeout || r.raw.empty() ? "no-answer" : !r.complete ? "incomplete-answer" : "wrong-answer", "request " + esc(rq.substr(0, 200), 200) + " (sent in pieces " + o[3] + "): " + why + "; " + rdesc(r)); else probe(r.code == 200 ? "served" : r.code >= 400 ? "error-answer" : r.code > 0 ? "redirected" : "no-answer-under-faults"); }
        } else if (o[0] == "edit") { string f = h->w.root + o[2]; INode n = fs_lookup(f, false); if (n && n->type == Inode::FILE) { bool hk = S.in_hook; S.in_hook = true; string d = content(o[4], atoi(o[3].c_str())); h->w.ver[wkey(f)].push_back({S.now, d}); fs_remove(f); fs_write(f, d); S.in_hook = hk; sim_log("edit %s", f.c_str()); } }
        else if (o[0] == "noroot") { INode par = fs_lookup("/srv"), w = par->ent.count("www") ? par->ent["www"] : nullptr; if (w) { par->ent.erase("www"); sim_log("root moved away"); fiber_block("noroot", nullptr, S.now + atoll(o[2].c_str()) * 1000); par->ent["www"] = w; sim_log("root back"); } }
        else if (o[0] == "suspend") { if (!h->pr->dead && !h->pr->stopped) { post_signal(h->pr.get(), SIGSTOP); fiber_block("suspended", nullptr, S.now + atoll(o[2].c_str()) * 1000); post_signal(h->pr.get(), SIGCONT); probe("suspended"); } }
        else { // misbehaving
            auto c = net_connect(h->port); if (c) { h->conns.push_back(c); string b = o[0] == "raw" ? o[2] : "GET " + o[2] + " HTTP/1.0\r\n\r\n"; i64 hold = atoll(o[3].c_str()); sim_log("misbehave %s %zu", o[0].c_str(), b.size()); probe(o[0] == "raw" ? "misbehaving-client" : "client-not-reading");
                net_send(*c, b); if (hold < 0) { auto cc = c; fiber_block("hold", [h]() { return h->stop_hold; }); } else fiber_block("hold", nullptr, S.now + hold * 1000); if (o[0] == "raw") { string x; while (!c->buf[1].empty()) if (net_recv(*c, x, 65536, 0) <= 0) break; secret_check(h, esc(b.substr(0, 200), 200), x); }
                if (o[4] == "0") net_close(*c); else if (o[4] == "1") net_reset(*c); else { net_shutdown_wr(*c); string x; for (;;) if (net_recv(*c, x, 65536, 200 * SEC) <= 0) break; net_close(*c); } }
        }
        h->left--; if (fe) h->forever--;
    });
}

static void exec_http(const Plan &p) {
    auto h = std::make_shared<Http>(); const string &prop = p.prop; Web &w = h->w; w.root = "/srv/www"; fs_mkdirs("/srv/www"); fs_mkdirs("/tmp");
    for (auto &x : vector<std::pair<string, string>>{{"/srv/www2/secret.txt", "a"}, {"/srv/www2/index.html", "b"}, {"/srv/www2/sub/index.html", "c"}, {"/srv/www2/sub/deep.txt", "d"}, {"/srv/secret.html", "e"}, {"/srv/wwwx.html", "f"}, {"/etc/secret.txt", "g"}, {"/srv/index.html", "h"}, {"/index.html", "i"}, {"/etc/index.html", "j"}}) { size_t s = x.first.rfind('/'); if (s) fs_mkdirs(x.first.substr(0, s)); fs_write(x.first, "SECRET-" + x.second + " " + x.first); }
    for (auto &o : p.ops) { if (o[0] == "dir") fs_mkdirs(w.root + o[1]); else if (o[0] == "file") { string f = w.root + o[1]; fs_mkdirs(f.substr(0, f.rfind('/'))); string d = content(o[3] + o[1], atoi(o[2].c_str())); fs_write(f, d); w.ver[wkey(f)].push_back({0, d}); } else if (o[0] == "link") { fs_mkdirs((w.root + o[1]).substr(0, (w.root + o[1]).rfind('/'))); if (!fs_exists(w.root + o[1], false)) fs_symlink(o[2], w.root + o[1]); } }
    fs_symlink("www", "/srv/cur"); string root = p.get("root"); int threads = (int) p.geti("threads", 1), how = (int) p.geti("how"); map<string, string> env = g_env; vector<string> av = {"blogc-runserver"}; h->port = 8080; string addr = "127.0.0.1";
    if (how == 1) { av.push_back("-p"); av.push_back("9001"); h->port = 9001; } else if (how == 2) { av.push_back("-p9002"); h->port = 9002; av.push_back("-t127.0.0.1"); } else if (how == 3) { env["BLOGC_RUNSERVER_DEFAULT_PORT"] = "9003"; h->port = 9003; } else if (how == 4 || how == 5) { av.push_back("-t"); av.push_back(addr = how == 4 ? "0.0.0.0" : "::1"); } else if (how == 6 || how == 7) { env["BLOGC_RUNSERVER_DEFAULT_HOST"] = how == 6 ? (addr = "0.0.0.0") : "192.0.2.1"; if (how == 7) { av.push_back("-p"); av.push_back("9001"); h->port = 9001; av.push_back("-t"); av.push_back("127.0.0.1"); env["BLOGC_RUNSERVER_DEFAULT_PORT"] = "1"; } } else if (how >= 8) { av.push_back("-tlocalhost"); S.v6 = how - 8; addr = how == 8 ? "::1" : "127.0.0.1"; probe("host-with-two-addresses"); }
    bool last = p.get("mj") == "1"; if (last) av.push_back(root); if (threads % 2) { av.push_back("-m"); av.push_back(strf("%d", threads)); } else av.push_back(strf("-m%d", threads)); if (!last) av.push_back(root); h->av = join(av, " "); h->rst = p.get("rst") == "1";
    h->r = launch("srv", av, "/srv", nullptr, &env); PProc pr = h->pr = h->r.p; S.faults_on = false; int port = h->port; int late = p.par.count("late") ? (int) p.geti("late") : 0; INode hid, par = fs_lookup("/srv"); if (late == 1) { hid = par->ent["www"]; par->ent.erase("www"); } else if (late > 1) S.persist[late == 2 ? "realpath" : late == 3 ? "stat" : late == 4 ? "access" : "opendir"] = "EACCES"; // the document root is not there yet, or cannot be looked up, when the server starts
    if (late) { sim_run([pr, port]() { return pr->dead || net_listening(port); }, 20 * SEC); S.persist.clear(); if (hid) par->ent["www"] = hid; probe("late-root"); if (pr->dead && prop != "C14") return; }
    sim_run([pr, port]() { return pr->dead || net_listening(port); }, 20 * SEC); if (S.stop) return;
    auto tail = [h]() { string e = h->r.err(); return h->av + ": " + (h->pr->dead ? run_desc(h->r) : "running") + "; stderr: " + esc(e.size() > 600 ? "..." + e.substr(e.size() - 600) : e, 600); };
    auto bad = [&](const string &cls, const string &msg) { violate(prop, cls, msg + "; " + tail()); };
    auto died = [&]() { if (!pr->dead) return false; if (prop == "C14" || (prop == "C12" && !pr->memerr.empty())) bad(pr->memerr.empty() ? "server-died" : "memory-error", "the server ended while serving"); return true; };
    if (pr->dead || !net_listening(port)) { if (prop == "C14") bad("not-started", "the server did not start listening"); return; }
    for (auto &l : S.listeners) if (l->port == port && l->addr != addr && !(how == 8 && l->addr == "127.0.0.1") && prop == "C14") { bad("wrong-address", "the server listens on " + l->addr + " instead of " + addr); return; }
    int adversaries = 0; for (auto &o : p.ops) if (o[0] == "raw" || o[0] == "noread") adversaries++; i64 unit = 150 * SEC; h->limit = (adversaries + 1) * unit + 300 * SEC;
    auto run_all = [&](i64 lim) { sim_run([h, pr]() { return h->left <= h->forever || pr->dead; }, lim); }; auto settle = [&]() { auto q = [pr]() { return pr->dead || pr->fibers.empty() || (pr->fibers.size() == 1 && pr->fibers[0]->st == Fiber::BLOCKED && pr->fibers[0]->delayed <= S.now); /* waiting for clients, not stalled */ }; for (int i = 0; i < 60; i++) { sim_run(q, 400 * SEC); sim_run(nullptr, SEC); if (q() || S.stop) break; } };
    string probe_file; for (auto &o : p.ops) if (o[0] == "file" && probe_file.empty() && o[1].find_first_of("%?+# &") == string::npos && fs_lookup(w.root + o[1], false)) { bool ascii = true; for (unsigned char c : o[1]) if (c > 126) ascii = false; INode n = fs_lookup(w.root + o[1]); if (ascii && n && fs_realpath(w.root + o[1]) == w.root + o[1]) probe_file = o[1]; }
    int id = 0; auto good = [&](int n, const char *cls, i64 lim) -> bool { for (int i = 0; i < n; i++) { auto ok = std::make_shared<string>("the client did not finish"); auto done = std::make_shared<bool>(false); string f = probe_file.empty() ? "/nosuchfile" : probe_file; i64 ol = h->limit; h->limit = lim; bool fl = h->faults; h->faults = false; harness_fiber(strf("probe%d", id++), [h, ok, done, f]() { Want e = want_of(h->w, f); Resp r = talk(h, "GET " + f + " HTTP/1.1\r\nHost: x\r\n\r\n", "", 65536, 0, false); string why = judge(h, e, r); *ok = why.empty() ? "" : why + "; " + rdesc(r); *done = true; }); sim_run([done, pr]() { return *done || pr->dead; }, lim + 10 * SEC); h->limit = ol; h->faults = fl; if (S.stop || died()) return false; if (!ok->empty()) { bad(cls, "GET " + f + ": " + *ok); return false; } } return true; };
    u64 live0 = 0; size_t fds0 = 0; bool leak = prop == "C14"; if (leak) { if (!good(threads + 1, "not-serving", (p.k.stall_rate ? 60 : 5) * SEC)) return; settle(); live0 = pr->heap->live; fds0 = pr->fds.size(); }
    h->faults = p.k.fault_rate || !p.faults.empty(); if (h->faults) S.faults_on = true; bool check = prop == "C12"; int cid = 0; h->late = !h->faults && !p.k.stall_rate; for (auto &o : p.ops) if (o[0] == "suspend" || o[0] == "raw" || o[0] == "noread") h->late = false; for (auto &o : p.ops) if (o[0] == "get" || o[0] == "bad" || o[0] == "edit" || o[0] == "noroot" || o[0] == "suspend" || o[0] == "raw" || o[0] == "noread") client(h, o, check, cid++);
    run_all(h->limit + 100 * SEC); S.faults_on = false; if (S.stop) return; if (died()) return;
    if (!h->failcls.empty() && (prop == "C13") == (h->failcls == "escaped") && prop != "C14") { bad(h->failcls, h->fail); return; }
    if (prop != "C14") return; if (h->left > h->forever) { bad("clients-stuck", strf("%d clients have neither an answer nor an end of their connection %lld simulated seconds after they started", h->left - h->forever, (long long) (h->limit / SEC + 100))); return; }
    // everybody else misbehaves or is gone, and nothing fails any more: a plain request must be answered
    if (!good(threads * 2 + 2, "not-available", (adversaries + 1) * unit)) return; probe("available"); if (h->forever) probe("available-despite-stalled-clients"); h->stop_hold = true; run_all(400 * SEC); settle(); if (S.stop || died()) return;
    if (pr->fds.size() > fds0) { bad("descriptor-leak", strf("%zu descriptors open before, %zu after all clients are gone", fds0, pr->fds.size())); return; }
    if (pr->heap->live > live0) { bad("memory-leak", strf("%llu bytes allocated before, %llu after all clients are gone", (unsigned long long) live0, (unsigned long long) pr->heap->live)); return; }
    if (pr->thr.size() > (size_t) threads) { bad("thread-leak", strf("%zu threads not collected, with a maximum of %d", pr->thr.size(), threads)); return; } probe("no-leak");
}
static int reg = (add_scenario("http", gen_http, exec_http), g_checks.push_back({"C12", {{"http", 1}}}), g_checks.push_back({"C13", {{"http", 1}}}), g_checks.push_back({"C14", {{"http", 1}}}), 0);
