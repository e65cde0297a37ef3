// Scenarios: a plan is generated from a seed, then executed; the plan (plus recorded faults and preemptions) is the replay file.
#pragma once
#include "core.h"

typedef vector<string> Op;
struct Plan {
    string scn, prop; u64 seed = 1; Knobs k; map<string, string> par; vector<Op> ops; vector<FaultSpec> faults; vector<Preempt> pre; bool xplicit = false; string cls; u64 hash = 0;
    string get(const string &n, const string &d = "") const { auto it = par.find(n); return it == par.end() ? d : it->second; }
    i64 geti(const string &n, i64 d = 0) const { auto it = par.find(n); return it == par.end() ? d : atoll(it->second.c_str()); }
    void op(std::initializer_list<string> l) { ops.push_back(Op(l)); }
};
struct Scenario { string name; function<void(Plan &, Rng &)> gen; function<void(const Plan &)> exec; };
void add_scenario(const string &name, function<void(Plan &, Rng &)> gen, function<void(const Plan &)> exec);
struct CheckDef { string prop; vector<std::pair<string, int>> scns; }; // scenario name, weight
extern vector<CheckDef> g_checks;
extern map<string, Scenario> g_scns;
string plan_write(const Plan &p); bool plan_read(const string &text, Plan &p);

// ------------------------------------------------------------ shared helpers for scenarios
struct Cap { string out, err; int status = -1; bool exited = false; PProc p; string memerr; };
// capture of a process's standard output/error, without blocking (an unbounded pipe read by nobody)
struct Run { PProc p; shared_ptr<Pipe> o, e; OFile ro, re; bool done() const { return p->dead; } string out() const { return o->buf; } string err() const { return e->buf; }
    bool exited() const { return p->dead && (p->status & 0x7f) == 0; } int code() const { return exited() ? (p->status >> 8) & 0xff : 128 + (p->status & 0x7f); } };
extern map<string, string> g_env;
Run launch(const string &key, const vector<string> &argv, const string &cwd, const string *in = nullptr, const map<string, string> *env = nullptr);
Run run_wait(const string &key, const vector<string> &argv, const string &cwd, const string *in = nullptr, i64 limit = 3600 * SEC, string *why = nullptr);
void knobs_schedule(Plan &p, Rng &r, int level); // random scheduling policy
bool run_is_crash(const Run &r); string run_desc(const Run &r);
int leftover_children(); // live processes other than the harness
string prog_path(const string &name);
