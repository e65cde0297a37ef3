// Small executable reference models: what blogc must print for a given set of sources, and what a site must contain.
#pragma once
#include "core.h"

struct MSrc { // a source file, restricted to content whose rendering is unambiguous
    string title, date, tags; u64 bseed = 1; int bsize = 3; bool crlf = false, bom = false, rich = false; map<string, string> extra;
    string text() const; string content() const; map<string, string> locals(const string &path, const map<string, string> &globals) const; /* every variable of the source */ vector<string> paras() const;
};
string msrc_pack(const MSrc &s); MSrc msrc_unpack(const string &s);
string ref_filename(const string &path);
string ref_date(const string &date, const string &fmt);

struct RefIn { vector<std::pair<string, MSrc>> sources; /* path, source */ vector<std::pair<string, MSrc>> entries; map<string, string> globals; bool listing = false; int tver = 1; };
string tmpl_text(int ver);              // the template used everywhere (ver makes edits visible)
bool ref_load(RefIn &in);               // applies filters/paging, sets the paging globals; false: inputs are an error
string rtmpl_text(u64 seed, int size, bool listing); string rtmpl_eval(u64 seed, int size, RefIn in); // random templates
string ref_render(RefIn in);            // expected output of blogc with tmpl_text(ver)
string ref_atom(RefIn in, const map<string, string> &st); // expected output of the default atom template

struct MSite { // a blogc-make site
    map<string, string> globals, settings; vector<string> posts, pages, tags, copy; // copy: files or directories
    map<string, MSrc> src; map<string, string> raw; // path -> source / raw bytes (static files)
    int tver = 1, atver = 1; /* versions of the main and of the atom template */ u64 style = 0; /* how the settings file is written */ bool dev = false; string outdir = "_build";
    string set(const string &k) const; // with defaults
    string blogcfile() const; string src_path(const string &slug, bool post) const; string le_path() const, tmpl_path() const, atmpl_path() const; string out_path(const string &kind, const string &a = "", const string &b = "") const;
    RefIn rin(const string &rule, bool listing) const;
    vector<string> copy_files() const;
    // expected output files of a rule ("all" = every build rule): path relative to outdir -> content; false when the build must fail
    bool expect(const string &rule, map<string, string> &out, string *why = nullptr) const;
    bool has_tag(const MSrc &s, const string &t) const;
};
void gen_msrc(Rng &r, MSrc &s, const string &name, int idx, bool big, bool tags);
string diff_str(const string &want, const string &got);
string garbage(const string &kind, u64 seed, int size); // hostile input: "src", "tmpl", "conf"
