// A site on the simulated disk together with its reference model; edits are applied to both.
#pragma once
#include "scn.h"
#include "model.h"

struct Site {
    MSite m; string root, outabs, outenv; bool outset = false; u64 linkseed = 0; /* some files are symbolic links to files elsewhere */ map<string, int> tmplfiles; u64 dirty = 0; std::set<string> ever; // ever: every output path (relative to outabs) any configuration so far declares
    void init(const string &r, const string &outenv_, bool set);
    bool apply(const Op &o, bool live); // returns false for unknown ops; live: advances the clock so that the edit is visible in modification times
    void put(const string &rel, const string &data, bool atomic = false); void cfg(); void tmpl();
    map<string, string> expected(const vector<string> &rules, bool *ok, string *why = nullptr) const;
    std::function<bool()> whole_cfg; // true while the configuration must be replaced atomically
    // compare outputs of the rules with the disk; "" when they agree
    string check(const vector<string> &rules, bool *should_fail) const; void note_ever();
};
void gen_site(Plan &p, Rng &r, int size, bool odd);        // initial site as operations
Op gen_edit(Plan &p, Rng &r, Site &s);                      // one edit (applied to s by the caller)
struct Snap { map<string, std::pair<u64, i64>> f; }; // path -> (inode, gen/mtime)
Snap snap_tree(const string &dir); string snap_diff(const Snap &a, const Snap &b, const std::set<string> *allowed = nullptr);
bool only_procs_left(int n);
