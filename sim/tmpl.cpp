// Random templates and what they must render, from the documentation in blogc-template(7).
#include "model.h"
#include <algorithm>

enum { T_TEXT, T_VAR, T_IF, T_FOR, T_BLOCK };
struct TN { int k; string a, op, b, ev; bool has_else = false; vector<TN> body, els; string raw; };
struct Gen {
    Rng r; int budget; bool listing;
    string ws() { static const vector<string> W = {" ", "  ", "\t", "\n", " \n"}; return r.chance(.8) ? " " : W[r.below(W.size())]; }
    string var(bool local, bool fe, bool block) { string v = var0(local, fe, block); if (!isdigit((unsigned char) v.back()) && r.chance(.15)) v += r.chance(.1) ? r.pick(vector<string>{"_0", "_09", "_007", "_99", "_190", "_1999"}) : strf("_%d", (int) r.range(1, 29)); return v; }
    string var0(bool local, bool fe, bool block) {
        static const vector<string> G = {"SITE_TITLE", "XVAR", "UNDEF", "FILENAME_FIRST", "FILENAME_LAST", "DATE_FIRST", "DATE_FIRST_FORMATTED", "DATE_LAST_FORMATTED", "CURRENT_PAGE", "LAST_PAGE", "NEXT_PAGE", "PREVIOUS_PAGE", "FIRST_PAGE", "SITE_TITLE_2", "XVAR_5", "XVAR_1000", "DATE_LAST_FORMATTED_4", "SITE_TITLE_FORMATTED", "LIST", "FILTER_TAG", "LIST__A_B"};
        static const vector<string> L = {"TITLE", "DATE", "DATE_FORMATTED", "DATE_FORMATTED_6", "DATE_4", "FILENAME", "TAGS", "EXTRA", "CONTENT", "DESCRIPTION", "FIRST_HEADER", "EXCERPT", "TOCTREE"};
        static const vector<string> F = {"FOREACH_ITEM", "FOREACH_VALUE", "FOREACH_ITEM_2", "FOREACH_VALUE_3"};
        if (fe && r.chance(.5)) return F[r.below(4)]; if (local && r.chance(.6)) return L[r.below(L.size())]; if (r.chance(.03)) return F[r.below(4)]; if (block && !local && r.chance(.4)) return L[r.below(L.size())]; return G[r.below(G.size())];
    }
    void seq(vector<TN> &v, int depth, bool block, bool local, bool fe) {
        int n = r.range(depth ? 0 : 2, depth ? 4 : 9); bool text = false;
        for (int i = 0; i < n && budget > 0; i++) { budget--; TN t; double p = r.below(100) / 100.0; if (!depth && r.chance(.3)) p = .95;
            if (p < .35 && !text) { static const vector<string> X = {"\n", " ", "<p>x</p>", "a  b", "{", "}", "{ a }", "%}", "}}", "p{}", "\t\n", " caf\xc3\xa9 ", "\n\n  x\n", "{a", "50%", "\"q\"", "endblock"}; t.k = T_TEXT; t.a = X[r.below(X.size())]; if (r.chance(.3)) t.a += X[r.below(X.size())]; for (size_t q; (q = t.a.find("{%")) != string::npos || (q = t.a.find("{{")) != string::npos; ) t.a.erase(q, 1); if (t.a.back() == '{') t.a += " "; text = true; v.push_back(t); continue; }
            if (p < .6 || (depth > 3 && p < .9)) { t.k = T_VAR; t.a = var(local, fe, block); }
            else if (p < .8) { t.k = T_IF; t.a = var(local, fe, block); int o = (int) r.below(8); static const char *OP[] = {"==", "!=", "<", ">", "<=", ">="}; if (o < 2) t.op = o ? "ifdef" : "ifndef"; else { t.op = OP[o - 2]; static const vector<string> S = {"Site", "", "1", "2", "foo", "v=1 x", "20", "Title of s0", "s1", "zz"}; t.b = r.chance(.6) ? "\"" + S[r.below(S.size())] + "\"" : var(local, fe, block); } seq(t.body, depth + 1, block, local, fe); if (r.chance(.5)) { t.has_else = true; seq(t.els, depth + 1, block, local, fe); } }
            else if (p < .88 && !fe) { t.k = T_FOR; static const vector<string> S = {"LIST", "UNDEF", "XVAR", "SITE_TITLE", "EMPTYLIST"}; t.a = local && r.chance(.6) ? "TAGS" : S[r.below(S.size())]; seq(t.body, depth + 1, block, local, true); }
            else if (!block) { t.k = T_BLOCK; static const vector<string> S = {"entry", "listing", "listing", "listing_once", "listing_empty", "listing_entry"}; t.a = r.chance(.4) ? (listing ? "listing" : "entry") : listing && r.chance(.2) ? "listing_entry" : S[r.below(S.size())]; seq(t.body, depth + 1, true, t.a == "entry" || t.a == "listing" || t.a == "listing_entry", fe); }
            else { t.k = T_VAR; t.a = var(local, fe, block); }
            text = false; v.push_back(t); }
    }
    struct Tok { string s; TN *text; bool stmt; }; vector<Tok> toks;
    string st(const string &body) { return body; }
    void flat(vector<TN> &v) {
        for (auto &t : v) switch (t.k) {
            case T_TEXT: toks.push_back({t.a, &t, false}); break;
            case T_VAR: { string l = r.chance(.8) ? " " : r.chance(.5) ? "" : ws(), e = r.chance(.8) ? " " : r.chance(.5) ? "" : ws(); toks.push_back({"{{" + l + t.a + e + "}}", nullptr, false}); break; }
            case T_IF: toks.push_back({t.op[0] == 'i' ? t.op + ws() + t.a : "if" + ws() + t.a + ws() + t.op + ws() + t.b, nullptr, true}); flat(t.body); if (t.has_else) { toks.push_back({"else", nullptr, true}); flat(t.els); } toks.push_back({"endif", nullptr, true}); break;
            case T_FOR: toks.push_back({"foreach" + ws() + t.a, nullptr, true}); flat(t.body); toks.push_back({"endforeach", nullptr, true}); break;
            case T_BLOCK: toks.push_back({"block" + ws() + t.a, nullptr, true}); flat(t.body); toks.push_back({"endblock", nullptr, true}); break; }
    }
};
static string lstrip(const string &s) { size_t i = 0; while (i < s.size() && strchr(" \t\n\v\f\r", s[i])) i++; return s.substr(i); }
static string rstrip(const string &s) { size_t n = s.size(); while (n && strchr(" \t\n\v\f\r", s[n - 1])) n--; return s.substr(0, n); }
static void build(u64 seed, int size, bool listing, vector<TN> &ast, string &text) {
    Gen g{Rng(seed * 1009 + 3), size, listing}; g.seq(ast, 0, false, false, false); if (ast.empty()) { TN t; t.k = T_TEXT; t.a = "x"; ast.push_back(t); } g.flat(ast); std::function<void(vector<TN> &)> init = [&](vector<TN> &v) { for (auto &t : v) { t.ev = t.a; init(t.body); init(t.els); } }; init(ast);
    auto &T = g.toks; for (size_t i = 0; i < T.size(); i++) { if (!T[i].stmt) { text += T[i].s; continue; } bool l = i && T[i - 1].text && g.r.chance(.25), rr = i + 1 < T.size() && T[i + 1].text && g.r.chance(.25); text += l ? "{%-" : "{%"; text += g.r.chance(.9) ? " " : g.ws(); text += T[i].s + (g.r.chance(.9) ? " " : g.ws()) + (rr ? "-%}" : "%}"); if (l) T[i - 1].text->ev = rstrip(T[i - 1].text->ev); if (rr) T[i + 1].text->ev = lstrip(T[i + 1].text->ev); }
}
struct Ev {
    RefIn &in; size_t next_entry = 0; string out; string fname, fitem; bool infor = false;
    const string *raw(const string &n, const map<string, string> *L) { if (L) { auto i = L->find(n); if (i != L->end()) return &i->second; } auto i = in.globals.find(n); return i == in.globals.end() ? nullptr : &i->second; }
    bool get(const string &name, const map<string, string> *L, string &v) {
        auto special = [&](const string &n, bool &ok) -> bool { if (n == "FOREACH_ITEM") { ok = infor; if (ok) v = fitem; return true; } if (n == "FOREACH_VALUE") { ok = false; if (infor) { string k = fname + "__" + fitem; for (auto &c : k) c = (c >= 'a' && c <= 'z') ? (char) (c - 32) : (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') ? c : '_'; if (auto q = raw(k, L)) { v = *q; ok = true; } } return true; } return false; };
        if (auto q = raw(name, L)) { v = *q; return true; } bool ok; if (special(name, ok)) return ok;
        string n = name; long len = -1; size_t i = n.size(); while (i && isdigit((unsigned char) n[i - 1])) i--; if (i < n.size() && i > 1 && n[i - 1] == '_') { len = atol(n.c_str() + i); n.resize(i - 1); } bool fmt = false; if (n.size() > 10 && n.compare(n.size() - 10, 10, "_FORMATTED") == 0) { fmt = true; n.resize(n.size() - 10); }
        if (special(n, ok)) { if (!ok) return false; } else { auto q = raw(n, L); if (!q) return false; v = *q; } if (fmt && starts_with(name, "DATE_")) { auto f = raw("DATE_FORMAT", L); if (f) v = ref_date(v, *f); } if (len > 0 && v.size() > (size_t) len) v.resize(len); return true;
    }
    void run(vector<TN> &v, const map<string, string> *L) {
        for (auto &t : v) { string a, b; switch (t.k) {
            case T_TEXT: out += t.ev; break; case T_VAR: if (get(t.a, L, a)) out += a; break;
            case T_IF: { bool da = get(t.a, L, a), ok; if (t.op == "ifdef") ok = da; else if (t.op == "ifndef") ok = !da; else { bool db = true; if (t.b[0] == '"') b = t.b.substr(1, t.b.size() - 2); else db = get(t.b, L, b); int c = a.compare(b); ok = da && db && (t.op == "==" ? c == 0 : t.op == "!=" ? c != 0 : t.op == "<" ? c < 0 : t.op == ">" ? c > 0 : t.op == "<=" ? c <= 0 : c >= 0); } run(ok ? t.body : t.els, L); break; }
            case T_FOR: { auto q = raw(t.a, L); if (!q) break; string l = *q; infor = true; fname = t.a; for (auto &w : split(l, ' ')) if (!w.empty()) { fitem = w; run(t.body, L); } infor = false; break; }
            case T_BLOCK: if (t.a == "entry") { if (!in.listing && !in.sources.empty()) { auto M = in.sources[0].second.locals(in.sources[0].first, in.globals); run(t.body, &M); } } else if (t.a == "listing_entry") { const std::pair<string, MSrc> *e = next_entry < in.entries.size() ? &in.entries[next_entry] : nullptr; if (in.listing || 1) next_entry++; if (in.listing && e && !e->first.empty()) { auto M = e->second.locals(e->first, in.globals); run(t.body, &M); } } else if (in.listing) { if (t.a == "listing_once") run(t.body, nullptr); else if (t.a == "listing_empty") { if (in.sources.empty()) run(t.body, nullptr); } else for (auto &s : in.sources) { auto M = s.second.locals(s.first, in.globals); run(t.body, &M); } } break; } }
    }
};
string rtmpl_text(u64 seed, int size, bool listing) { vector<TN> a; string t; build(seed, size, listing, a, t); return t; }
string rtmpl_eval(u64 seed, int size, RefIn in) { if (!ref_load(in)) return "<<error>>"; vector<TN> a; string t; build(seed, size, in.listing, a, t); Ev e{in}; e.run(a, nullptr); return e.out; }
