// Pages that describe their own build: predefined variables, which depend on clock, host, environment, resource usage and /proc (C23).
#include "scn.h"
#include "model.h"
#include <cmath>
#include <time.h>

static const vector<string> V = {"BLOGC_SYSINFO_DATETIME", "BLOGC_RUSAGE_CPU_TIME", "BLOGC_RUSAGE_MEMORY", "BLOGC_SYSINFO_HOSTNAME", "BLOGC_SYSINFO_USERNAME", "BLOGC_SYSINFO_INSIDE_DOCKER", "BLOGC_VERSION"};
static void gen(Plan &p, Rng &r) {
    bool listing = r.chance(.5); p.par["listing"] = listing ? "1" : "0"; int n = listing ? r.range(0, 4) : 1;
    for (int i = 0; i < n; i++) p.op({"src", strf("s%d.txt", i), r.chance(.15) ? V[3 + r.below(3)] : ""});
    static const vector<i64> T = {0, 86400 - 1, 951782399, 951782400, 951868800, 946684799, 1709164799, 1709251199, 1735689599, 2147483647, 2147483648LL, 4102444799LL, 68169599, 1230767999};
    p.par["wall"] = strf("%lld", (long long) (r.chance(.4) ? r.pick(T) : (i64) r.below(5000000000ULL))); p.par["step"] = strf("%d", r.chance(.5) ? 0 : r.chance(.8) ? r.range(1, 100000) : -r.range(1, 100000)); p.par["frac"] = strf("%d", (int) r.below(1000));
    static const vector<string> Z = {"UTC", "XST5", "XST-9", "IST-5:30", "NPT-5:45", "AAA12", "BBB-14", "GMT0"}; if (r.chance(.6)) p.par["tz"] = r.pick(Z);
    static const vector<string> H = {"simhost", "h", "web-01", "MixedCase", "localhost", "a.b", "0"}; string h = r.chance(.1) ? string(r.range(50, 64), 'h') : r.pick(H); p.par["host"] = h; int hm = (int) r.below(6); if (hm == 0) p.par["hostfail"] = "1"; else if (hm == 1) p.par["dnsfail"] = "1"; else if (hm == 2) p.par["fqdn"] = h + ".example.org";
    static const vector<string> U = {"rafael", "u", "www-data", "caf\xc3\xa9", "with space", "user@host", "0"}; if (r.chance(.8)) p.par["user"] = r.pick(U); if (r.chance(.5)) p.par["user2"] = "someone_else";
    static const vector<string> D = {"", "none", "dir", "12:pids:/docker/0123abcd\n0::/\n", "1:name=systemd:/docker/\n", "0::/\n", "0::/user.slice/docker.service\n", "0::/docker\n", "3:cpu:/kubepods/docker/x\n", "0::/xdocker/\n", "0::/dockerx/docker\n", "0::/Docker/x\n", "\xff\xfe\n1:x:/docker/y\n", "/docker/"};
    p.par["cgroup"] = r.pick(D); if (r.chance(.3)) p.par["cgpad"] = strf("%d", r.chance(.5) ? r.range(1, 200) : r.range(1000, 20000)); if (r.chance(.5)) p.par["procfs"] = "1";
    if (r.chance(.15)) p.par["rufail"] = "1"; static const vector<i64> CPU = {0, 1, 999, 1000, 1001, 1500, 2000, 12345, 999999, 1000000, 1000001, 1999999, 12345678, 61000000}; p.par["cpu"] = strf("%lld", (long long) (r.chance(.6) ? r.pick(CPU) : (i64) r.below(100000000))); static const vector<i64> MEM = {0, 1, 1023, 1024, 1025, 2048, 1048575, 1048576, 1048577, 5000000}; p.par["mem"] = strf("%lld", (long long) (r.chance(.6) ? r.pick(MEM) : (i64) r.below(4000000)));
    if (r.chance(.7)) { p.par["dcpu"] = strf("%d", r.chance(.5) ? 1000 : r.range(1, 100000)); p.par["dmem"] = strf("%d", r.range(0, 3000)); }
    for (int i = 3; i < 6; i++) if (r.chance(.12)) p.op({"var", V[i], r.chance(.4) ? "given" : r.chance(.5) ? "x y" : ""});
    p.par["lead"] = r.chance(.3) ? "1" : "0"; int m = r.range(0, 14);
    for (int i = 0; i < m; i++) { string v = V[r.below(r.chance(.5) ? 7 : 1 + r.below(7))]; p.op({"f", strf("%d", (int) r.below(8)), v, strf("%d", r.chance(.7) ? r.range(1, 24) : r.range(1, 100)), strf("%d", (int) r.below(4))}); }
    p.par["order"] = strf("%d", (int) r.below(1000));
    if (r.chance(.35)) { auto &k = p.k; k.fault_max = r.range(1, 2); int f = (int) r.below(3); if (f == 0) { k.fault_sc = {"malloc"}; k.fault_rate = r.range(20, 400); } else if (f == 1) { k.fault_sc = {"read", "open"}; k.fault_rate = r.range(2, 12); } else k.short_io = r.range(1, 3); }
    if (r.chance(.3)) p.k.short_io = r.range(1, 3);
    knobs_schedule(p, r, 0); p.k.step_limit = 2000000; p.k.compute_limit = 200000000;
}
// what a value says, in microseconds or kilobytes, and the size of half of its last digit
static bool parse_unit(const string &s, bool mem, double &val, double &tol) {
    size_t i = 0; while (i < s.size() && (isdigit((unsigned char) s[i]) || s[i] == '.')) i++; if (!i) return false; string num = s.substr(0, i), u = s.substr(i); char *e; val = strtod(num.c_str(), &e); if (*e) return false; size_t d = num.find('.'); double digits = d == string::npos ? 0 : (double) (num.size() - d - 1), f = 0;
    if (mem) f = u == "KB" ? 1 : u == "MB" ? 1024 : u == "GB" ? 1048576 : 0; else f = u == "us" ? 1 : u == "ms" ? 1000 : u == "s" ? 1000000 : 0; if (f == 0) return false; tol = .5 * pow(10, -digits) * f; val *= f; return true;
}
struct Val { bool def = false; string s; };
static string frag_text(const Op &o) { // f kind var num
    const string &v = o[2]; switch (atoi(o[1].c_str())) { case 0: return "{{ " + v + " }}"; case 1: return "{% ifdef " + v + " %}Y{% else %}N{% endif %}"; case 2: return "{% ifndef " + v + " %}N{% else %}Y{% endif %}"; case 3: return "{{ " + v + "_" + o[3] + " }}"; case 4: return "{% if " + v + " == \"1\" %}E{% else %}D{% endif %}"; case 5: return "{% if " + v + " == SAME %}E{% else %}D{% endif %}"; case 6: return "{% foreach " + v + " %}<{{ FOREACH_ITEM }}>{% endforeach %}"; default: return "{% ifdef " + v + " %}{{ " + v + " }}{% endif %}"; }
}
static string frag_eval(const Op &o, const map<string, Val> &m) {
    Val v; auto it = m.find(o[2]); if (it != m.end()) v = it->second; string s = v.def ? v.s : ""; switch (atoi(o[1].c_str())) { case 0: return s; case 1: case 2: return v.def ? "Y" : "N"; case 3: return s.substr(0, atoi(o[3].c_str())); case 4: return v.def && s == "1" ? "E" : "D"; case 5: return v.def && s == "simhost" ? "E" : "D"; case 6: { string r; for (auto &w : split(s, ' ')) if (!w.empty()) r += "<" + w + ">"; return r; } default: return s; }
}
static void exec(const Plan &p) {
    bool listing = p.get("listing") == "1"; fs_mkdirs("/w/out"); fs_mkdirs("/proc/1"); vector<Op> fr; map<string, string> D; D["SAME"] = "simhost"; vector<string> srcs; map<string, string> loc;
    for (auto &o : p.ops) { if (o[0] == "f") fr.push_back(o); else if (o[0] == "var") D[o[1]] = o[2]; else if (o[0] == "src") { string t = "TITLE: t\n"; if (!o[2].empty()) { t += o[2] + ": local value\n"; loc[o[1]] = o[2]; } fs_write("/w/" + o[1], t + "-----\n\nBody.\n"); srcs.push_back(o[1]); } }
    if (!listing && srcs.empty()) { fs_write("/w/s.txt", "TITLE: t\n-----\n\nBody.\n"); srcs.push_back("s.txt"); } if (!listing) srcs.resize(1);
    string cg = p.get("cgroup", "none"), cgt = cg == "none" || cg == "dir" ? "" : string(p.geti("cgpad"), 'p') + "\n" + cg; if (cg == "dir") fs_mkdirs("/proc/1/cgroup"); else if (cg != "none") { INode n = fs_write("/proc/1/cgroup", cgt); n->procfs = p.get("procfs") == "1"; }
    if (!loc.empty()) for (auto &o : fr) if (o[4] == "0") o[4] = listing ? "2" : "1"; // what a local value means outside of blocks is not claimed
    // the page: every variable once ("the summary"), and fragments before, after, and within blocks
    string sum; for (auto &v : V) sum += "{% ifdef " + v + " %}={{ " + v + " }}{% endif %}|"; bool lead = p.get("lead") == "1" || !loc.empty(); auto inblk = [](const Op &o) { return atoi(o[4].c_str()); }; static const char *blk[] = {"", "entry", "listing", "listing_once"};
    string tm; if (lead) tm += "@" + sum + "@\n"; for (auto &o : fr) { int b = inblk(o); tm += "[" + (b ? strf("{%% block %s %%}", blk[b]) + "(" + frag_text(o) + ")" + "{% endblock %}" : frag_text(o)) + "]\n"; } if (!lead) tm += "@" + sum + "@\n"; tm += "END\n"; fs_write("/w/t.tmpl", tm);
    map<string, string> env = g_env; env.erase("LOGNAME"); env.erase("USER"); if (p.par.count("user")) env["LOGNAME"] = p.get("user"); if (p.par.count("user2")) env["USER"] = env["USERNAME"] = p.get("user2"); if (p.par.count("tz")) env["TZ"] = p.get("tz");
    i64 wall = p.geti("wall"); S.clock_skew = wall * SEC + p.geti("frac") * MS - S.now; S.clk_step = p.geti("step") * SEC; if (wall + 64 * p.geti("step") < 0) S.clk_step = 0;
    S.host = p.get("host", "simhost"); S.host_fqdn = p.get("fqdn"); S.host_fail = p.par.count("hostfail"); S.dns_fail = p.par.count("dnsfail"); S.ru_fail = p.par.count("rufail"); S.ru_cpu = p.geti("cpu", 1000); S.ru_mem = p.geti("mem", 2048); S.ru_dcpu = p.geti("dcpu"); S.ru_dmem = p.geti("dmem");
    vector<string> argv = {"blogc", "-t", "t.tmpl", "-o", "out/x.html"}; if (listing) argv.push_back("-l"); for (auto &d : D) { argv.push_back("-D"); argv.push_back(d.first + "=" + d.second); } for (auto &s : srcs) argv.push_back(s);
    i64 w0 = S.now + S.clock_skew; Run r; r.o = std::make_shared<Pipe>(); r.e = std::make_shared<Pipe>(); r.o->cap = r.e->cap = 1ULL << 40; r.ro = of_pipe_r(r.o); r.re = of_pipe_r(r.e); r.p = spawn_proc("blogc", argv, env, "/w", of_null(), of_pipe_w(r.o), of_pipe_w(r.e), nullptr); PProc pr = r.p; S.faults_on = true;
    string why = sim_run([pr]() { return pr->dead; }, 3600 * SEC); S.faults_on = false; i64 w1 = S.now + S.clock_skew; bool faulted = false; for (auto &f : S.st.faults) if (f.first != "stall" && f.first.find("SHORT") == string::npos) faulted = true;
    string got; bool gex = fs_read("/w/out/x.html", got); string desc = strf("blogc [%s]%s: %s; stderr: %s", join(argv, " ").c_str(), faulted ? " (with injected faults)" : "", !pr->dead ? ("did not terminate (" + why + ")").c_str() : run_desc(r).c_str(), esc(r.err(), 200).c_str());
    auto bad = [&](const char *c, const string &m) { violate("C23", c, desc + "; " + m); };
    if (S.clk_step) S.st.faults["clock-jump"]++; if (S.host_fail) S.st.faults["gethostname:EPERM"]++; if (S.dns_fail) S.st.faults["gethostbyname:NULL"]++; if (S.ru_fail) S.st.faults["getrusage:EFAULT"]++; if (cg == "none") S.st.faults["cgroup:ENOENT"]++; if (cg == "dir") S.st.faults["cgroup:EISDIR"]++;
    if (!pr->dead) { bad("no-termination", ""); return; } if (!pr->memerr.empty()) { bad("memory-error", pr->memerr); return; }
    if (!r.exited() || r.code() != 0) { probe("fail"); if (!faulted) bad("spurious-failure", "a page using predefined variables could not be built"); return; }
    probe(faulted ? "ok-despite-faults" : "ok"); if (!gex) { bad("page-missing", ""); return; }
    size_t a = lead ? 0 : got.rfind("\n@"), b; if (!lead && a != string::npos) a++; else if (!lead && starts_with(got, "@")) a = 0; if (a == string::npos || got[a] != '@' || (b = got.find("@\n", a + 1)) == string::npos || (p.get("user").find('@') != string::npos && (b = lead ? got.find("|@\n", a + 1) + 1 : got.rfind("|@\n") + 1) == 0)) { bad("page-damaged", "no summary in: " + esc(got, 300)); return; }
    vector<string> q = split(got.substr(a + 1, b - a - 1), '|'); map<string, Val> m; if (q.size() != V.size() + 1) { bad("page-damaged", strf("%zu fields in the summary: ", q.size()) + esc(got, 300)); return; }
    for (size_t i = 0; i < V.size(); i++) { Val v; if (!q[i].empty()) { if (q[i][0] != '=') { bad("page-damaged", "summary: " + esc(got, 300)); return; } v.def = true; v.s = q[i].substr(1); } m[V[i]] = v; }
    auto show = [](const Val &v) { return v.def ? "'" + v.s + "'" : string("undefined"); };
    // each value against what the simulated system reported
    { Val &v = m[V[0]]; bool ok = false; i64 lo = std::min(w0, w1) / SEC, hi = std::max(w0, w1) / SEC; if (v.def) { struct tm t; memset(&t, 0, sizeof t); char x[64]; if (strptime(v.s.c_str(), "%Y-%m-%d %H:%M:%S", &t)) { time_t c = timegm(&t); struct tm t2; gmtime_r(&c, &t2); strftime(x, sizeof x, "%Y-%m-%d %H:%M:%S", &t2); ok = v.s == x && c >= lo && c <= hi; } }
      if (!ok) { time_t l = lo, h = hi; struct tm t; char x[64], y[64]; gmtime_r(&l, &t); strftime(x, 64, "%F %T", &t); gmtime_r(&h, &t); strftime(y, 64, "%F %T", &t); bad("wrong-datetime", "the page says " + show(v) + " but the build ran from " + x + " to " + y + " GMT" + (p.par.count("tz") ? " (TZ=" + p.get("tz") + ")" : "")); } }
    for (int i = 1; i < 3; i++) { Val &v = m[V[i]]; if (S.ru_fail) { if (v.def) bad("wrong-usage", V[i] + " is " + show(v) + " though the resource usage is not available"); continue; } bool ok = false; double x, t; string rep; if (v.def && parse_unit(v.s, i == 2, x, t)) for (auto &u : S.ru) { double want = (double) (i == 1 ? u.first : u.second); rep += strf(" %.0f", want); if (fabs(x - want) <= t * 1.0001 + want * 2e-7) ok = true; } if (!ok) bad("wrong-usage", V[i] + " is " + show(v) + ", the system reported" + (rep.empty() ? " nothing" : rep)); }
    { Val &v = m[V[3]]; if (D.count(V[3])) { if (!v.def || v.s != D[V[3]]) bad("given-value-ignored", V[3] + " is " + show(v) + ", given was '" + D[V[3]] + "'"); } else if (S.host_fail ? v.def : !v.def || (v.s != S.host && (v.s != S.host_fqdn || S.host_fqdn.empty() || S.dns_fail))) bad("wrong-hostname", "the page says " + show(v) + " on host " + (S.host_fail ? "without name" : S.host)); }
    { Val &v = m[V[4]]; if (D.count(V[4])) { if (!v.def || v.s != D[V[4]]) bad("given-value-ignored", V[4] + " is " + show(v) + ", given was '" + D[V[4]] + "'"); } else if (p.par.count("user") ? !v.def || v.s != p.get("user") : v.def) bad("wrong-username", "the page says " + show(v) + ", LOGNAME is " + (p.par.count("user") ? p.get("user") : string("not set"))); }
    { Val &v = m[V[5]]; bool in = cgt.find("/docker/") != string::npos; if (D.count(V[5])) { if (!v.def || v.s != D[V[5]]) bad("given-value-ignored", V[5] + " is " + show(v) + ", given was '" + D[V[5]] + "'"); } else if (in ? (v.def ? v.s != "1" : !faulted) : v.def) bad("wrong-docker", "the page says " + show(v) + " with /proc/1/cgroup " + (cg == "none" || cg == "dir" ? "not readable" : esc(cgt.substr(cgt.size() > 60 ? cgt.size() - 60 : 0), 80))); }
    { Val &v = m[V[6]]; if (!v.def || v.s != "0.0.0") bad("wrong-version", "the page says " + show(v)); }
    // one page, one value
    string want; string sumv; for (auto &v : V) sumv += (m[v].def ? "=" + m[v].s : "") + "|"; if (lead) want += "@" + sumv + "@\n";
    for (auto &o : fr) { int k = inblk(o); want += "["; if (!k) want += frag_eval(o, m); else if (k == 1 ? !listing : k == 3 ? listing : false) { auto mm = m; if (k == 1 && loc.count(srcs[0])) mm[loc[srcs[0]]] = Val{true, "local value"}; want += "(" + frag_eval(o, mm) + ")"; } else if (k == 2 && listing) for (auto &s : srcs) { auto mm = m; if (loc.count(s)) mm[loc[s]] = Val{true, "local value"}; want += "(" + frag_eval(o, mm) + ")"; } want += "]\n"; }
    if (!lead) want += "@" + sumv + "@\n"; want += "END\n"; if (got != want) bad("inconsistent-page", "a page must use one value per variable, everywhere; " + diff_str(want, got));
    if (!S.ru.empty() && S.ru.size() > 1) probe("usage-read-again");
}
static int reg = (add_scenario("meta", gen, exec), g_checks.push_back({"C23", {{"meta", 1}}}), 0);
