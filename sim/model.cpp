#include "model.h"
#include <tuple>
#include <time.h>
#include <algorithm>
#include <cmath>

static const char *WORDS[] = {"alpha", "beta", "gamma", "delta", "lorem", "ipsum", "dolor", "sit", "amet", "caf\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "na\xc3\xafve", "zeta", "omega", "\xf0\x9f\x98\x80", "word"};
vector<string> MSrc::paras() const {
    vector<string> v; Rng r(bseed * 31 + 7); int left = bsize; if (left < 1) left = 1;
    while (left > 0) { int n = r.range(1, 24); if (n > left) n = left; string p; for (int i = 0; i < n; i++) { if (i) p += (i % 9 == 8) ? "\n" : " "; p += WORDS[r.below(16)]; } v.push_back(p); left -= n; }
    return v;
}
// ---- rich bodies: every documented block and inline element, in unambiguous positions
struct RBody { string src, html, desc, header; vector<std::tuple<int, string, string>> heads; long excerpt = -1; };
static string ents(const string &s) { string r; for (char c : s) switch (c) { case '&': r += "&amp;"; break; case '<': r += "&lt;"; break; case '>': r += "&gt;"; break; case '"': r += "&quot;"; break; case '\'': r += "&#x27;"; break; case '/': r += "&#x2F;"; break; default: r += c; } return r; }
static string stripw(const string &t) { size_t a = 0, b = t.size(); while (a < b && strchr(" \t\r\n\v\f", t[a])) a++; while (b > a && strchr(" \t\r\n\v\f", t[b - 1])) b--; return t.substr(a, b - a); }
static string descr(const string &para) { string r; bool any = false; for (auto &l : split(para, '\n')) { if (any) r += " "; any = true; r += stripw(l); } return ents(stripw(r)); }
static string plain_words(Rng &r, int n) { string s; for (int i = 0; i < n; i++) s += string(i ? " " : "") + WORDS[r.below(16)]; return s; }
static void inl_token(Rng &r, string &s, string &h) {
    auto put = [&](const string &a, const string &b) { s += a; h += b; }; string w = plain_words(r, r.range(1, 3));
    switch (r.below(22)) {
    case 0: put("**" + w + "**", "<strong>" + w + "</strong>"); break; case 1: put("*" + w + "*", "<em>" + w + "</em>"); break; case 2: put("_" + w + "_", "<em>" + w + "</em>"); break; case 3: put("__" + w + "__", "<strong>" + w + "</strong>"); break;
    case 4: put("`" + w + " a<b>&c*d*_e_`", "<code>" + w + " a&lt;b&gt;&amp;c*d*_e_</code>"); break; case 5: put("``" + w + "`x``", "<code>" + w + "`x</code>"); break;
    case 6: put("[" + w + "](http://e.x/p?q=1&r=2#f)", "<a href=\"http://e.x/p?q=1&r=2#f\">" + w + "</a>"); break; case 7: put("[**" + w + "** x](/u/v.html)", "<a href=\"/u/v.html\"><strong>" + w + "</strong> x</a>"); break; case 8: put("![" + w + "](pic.jpg)", "<img src=\"pic.jpg\" alt=\"" + w + "\">"); break; case 9: put("[[http://a.b/c]]", "<a href=\"http://a.b/c\">http://a.b/c</a>"); break; case 10: put("[![" + w + "](p.png)](http://z)", "<a href=\"http://z\"><img src=\"p.png\" alt=\"" + w + "\"></a>"); break;
    case 11: put("--", "&ndash;"); break; case 12: put("---", "&mdash;"); break; case 13: { string t = w + "<&>\"'/" + w; put(t, ents(t)); break; }
    case 14: { static const vector<string> E = {"\\*", "\\_", "\\[", "\\\\", "\\`", "\\<"}; string e = E[r.below(E.size())]; put("x" + e + "y", "x" + ents(e.substr(1)) + "y"); break; }
    case 15: put("*__" + w + "__*", "<em><strong>" + w + "</strong></em>"); break; case 16: put("_**" + w + "**_", "<em><strong>" + w + "</strong></em>"); break; case 17: put("**_" + w + "_**", "<strong><em>" + w + "</em></strong>"); break; case 18: put("[" + w + "] (http://s.p)", "<a href=\"http://s.p\">" + w + "</a>"); break; case 19: put(w + "! so-so", w + "! so-so"); break; default: put(w, w); }
}
static void inl(Rng &r, int n, bool lines, string &s, string &h, const string &indent = "") { // starts and ends with a word
    auto word = [&]() { string w = plain_words(r, 1); s += w; h += w; }; word(); for (int i = 0; i < n; i++) { string sep = " ", hs = " "; if (lines && r.chance(.15)) { sep = "\n"; hs = "\n"; if (r.chance(.3)) { sep = string(r.range(2, 4), ' ') + "\n"; hs = "<br />\n"; } sep += indent; if (indent.size()) hs += ""; } s += sep; h += hs; if (i + 1 == n) word(); else inl_token(r, s, h); }
    if (n == 0) { s += " "; h += " "; word(); }
}
static RBody rich_body(u64 seed, int size, int depth = 0, int first = -1) {
    Rng r(seed * 77 + 13); RBody b; int left = size < 1 ? 1 : size, nb = 0; bool exc = false;
    while (left > 0) {
        string s, h; int k = nb == 0 && first >= 0 ? first : (int) r.below(12); int n = r.range(0, 8); left -= n + 3;
        if (k == 0) { int lv = r.range(1, 6); string t, th; inl(r, r.range(0, 3), false, t, th); string slug; for (char c : t) slug += c >= 'A' && c <= 'Z' ? (char) (c + 32) : (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') ? c : '-'; s = string(lv, '#') + string(r.range(1, 3), ' ') + t + "\n"; h = strf("<h%d id=\"%s\">", lv, slug.c_str()) + th + strf("</h%d>\n", lv); b.heads.push_back({lv, slug, th}); if (b.header.empty()) b.header = ents(t); }
        else if (k == 1) { string ind = r.chance(.7) ? string(r.range(1, 6), ' ') : "\t"; h = "<pre><code>"; int m = r.range(1, 5); for (int i = 0; i < m; i++) { string l = (i && r.chance(.3) ? string(r.range(1, 4), ' ') : "") + plain_words(r, r.range(1, 3)) + " <&> **x** \\* 'q'"; s += ind + l + "\n"; h += (i ? "\n" : "") + ents(l); } h += "</code></pre>\n"; }
        else if (k == 2) { static const char M[] = "*-+"; string m(1, M[r.below(3)]); m += string(r.range(1, 3), ' '); string ind(m.size(), ' '); h = "<ul>\n"; int c = r.range(1, 5); for (int i = 0; i < c; i++) { string a, e; inl(r, r.range(0, 4), false, a, e); if (r.chance(.3)) { string a2, e2; inl(r, r.range(0, 3), false, a2, e2); a += "\n" + ind + a2; e += "\n" + e2; } s += m + a + "\n"; h += "<li>" + e + "</li>\n"; } h += "</ul>\n"; }
        else if (k == 3) { int c = r.range(1, 12), w = r.range(4, 6); h = "<ol>\n"; for (int i = 0; i < c; i++) { string m = strf("%d.", r.chance(.8) ? i + 1 : (int) r.below(100)); m += string(w - m.size(), ' '); string a, e; inl(r, r.range(0, 4), false, a, e); if (r.chance(.3)) { string a2, e2; inl(r, r.range(0, 3), false, a2, e2); a += "\n" + string(w, ' ') + a2; e += "\n" + e2; } s += m + a + "\n"; h += "<li>" + e + "</li>\n"; } h += "</ol>\n"; }
        else if (k == 4) { static const char M[] = "*-+"; s = string(r.range(3, 9), M[r.below(3)]) + "\n"; h = "<hr />\n"; }
        else if (k == 5) { int m = r.range(1, 4); s = "<div class=\"a\">\n"; for (int i = 0; i < m; i++) s += string(r.below(3), ' ') + "<b>" + plain_words(r, 2) + "</b> & *x* \\z\n"; s += "</div>\n"; h = s; }
        else if (k == 6 && depth < 2) { RBody q = rich_body(r.below(1000000), r.range(1, 12), depth + 1, 11); string pre = ">" + string(r.range(1, 2), ' '); auto ls = split(q.src, '\n'); if (!ls.empty() && ls.back().empty()) ls.pop_back(); for (auto &l : ls) s += pre + l + "\n"; h = "<blockquote>" + q.html + "</blockquote>\n"; }
        else if (k == 7 && !exc && nb && depth == 0) { exc = true; s = string(r.range(2, 5), '.') + "\n"; b.excerpt = b.html.size(); }
        else { string t, th; inl(r, n, true, t, th); s = t + "\n"; h = "<p>" + th + "</p>\n"; if (b.desc.empty()) b.desc = descr(t); }
        if (nb) b.src += "\n" + string(r.below(10) == 0 ? "\n" : ""); b.src += s; b.html += h; nb++;
    }
    if (b.excerpt >= 0 && b.src.size() > 1 && b.src[b.src.size() - 2] == '.') b.src += "\nend here\n", b.html += "<p>end here</p>\n", b.desc = b.desc.empty() ? "end here" : b.desc;
    return b;
}
static string toctree(const vector<std::tuple<int, string, string>> &hs, int depth) {
    if (hs.empty() || depth == 0) return ""; int lo = 99; for (auto &h : hs) lo = std::min(lo, std::get<0>(h)); string o = "<ul>\n"; int cur = lo; auto ind = [&](int lv) { return string(4 * (lv - lo + 1), ' '); };
    for (auto &h : hs) { int lv = std::get<0>(h); if (depth > 0 && lv - lo >= depth) continue; while (cur > lv) { cur--; o += ind(cur) + "</ul>\n"; } while (cur < lv) { o += ind(cur) + "<ul>\n"; cur++; } o += ind(lv) + "<li><a href=\"#" + std::get<1>(h) + "\">" + std::get<2>(h) + "</a></li>\n"; }
    while (cur > lo) { cur--; o += ind(cur) + "</ul>\n"; } return o + "</ul>\n";
}
static string nl(const string &s, bool crlf) { if (!crlf) return s; string r; for (char c : s) { if (c == '\n') r += '\r'; r += c; } return r; }
string MSrc::text() const {
    string t = bom ? "\xef\xbb\xbf" : ""; t += nl("TITLE: " + title + "\n", crlf); if (!date.empty()) t += nl("DATE: " + date + "\n", crlf); if (!tags.empty()) t += nl("TAGS: " + tags + "\n", crlf); for (auto &e : extra) t += nl(e.first + ": " + e.second + "\n", crlf);
    t += nl("---------\n\n", crlf); if (rich) return t + nl(rich_body(bseed, bsize).src, crlf); auto ps = paras(); for (size_t i = 0; i < ps.size(); i++) t += nl((i ? "\n" : "") + ps[i] + "\n", crlf); return t;
}
string MSrc::content() const { if (rich) return nl(rich_body(bseed, bsize).html, crlf); string c; for (auto &p : paras()) c += nl("<p>" + p + "</p>\n", crlf); return c; }
map<string, string> MSrc::locals(const string &path, const map<string, string> &globals) const {
    map<string, string> L = extra; L["TITLE"] = title; if (!date.empty()) L["DATE"] = date; if (!tags.empty()) L["TAGS"] = tags; L["FILENAME"] = ref_filename(path); L["CONTENT"] = content(); L["EXCERPT"] = L["CONTENT"];
    if (!rich) { auto ps = paras(); if (!L.count("DESCRIPTION")) L["DESCRIPTION"] = descr(ps[0]); return L; }
    RBody b = rich_body(bseed, bsize); if (!b.desc.empty() && !L.count("DESCRIPTION")) L["DESCRIPTION"] = b.desc; if (!b.header.empty() && !L.count("FIRST_HEADER")) L["FIRST_HEADER"] = b.header; if (b.excerpt > 0) L["EXCERPT"] = nl(b.html.substr(0, b.excerpt), crlf);
    int depth = -1; if (globals.count("TOCTREE_MAXDEPTH")) depth = atoi(globals.at("TOCTREE_MAXDEPTH").c_str()); if (extra.count("TOCTREE_MAXDEPTH")) depth = atoi(extra.at("TOCTREE_MAXDEPTH").c_str()); if (!extra.count("TOCTREE")) { string t = toctree(b.heads, depth); if (!t.empty()) L["TOCTREE"] = nl(t, crlf); } return L;
}
string msrc_pack(const MSrc &s) { string e; for (auto &x : s.extra) e += (e.empty() ? "" : ";") + x.first + "=" + x.second; return s.title + "|" + s.date + "|" + s.tags + strf("|%lu|%d|%d|%d|", (unsigned long) s.bseed, s.bsize, s.crlf, s.bom) + e + (s.rich ? "|rich" : ""); }
MSrc msrc_unpack(const string &t) { MSrc s; auto f = split(t, '|'); f.resize(9); s.rich = !f[8].empty(); s.title = f[0]; s.date = f[1]; s.tags = f[2]; s.bseed = strtoull(f[3].c_str(), nullptr, 10); s.bsize = atoi(f[4].c_str()); s.crlf = f[5] == "1"; s.bom = f[6] == "1"; if (!f[7].empty()) for (auto &x : split(f[7], ';')) { size_t q = x.find('='); if (q != string::npos) s.extra[x.substr(0, q)] = x.substr(q + 1); } return s; }
string ref_filename(const string &p) { string f = p.substr(p.rfind('/') == string::npos ? 0 : p.rfind('/') + 1); size_t d = f.rfind('.'); return d == string::npos ? f : f.substr(0, d); }
static time_t parse_date(const string &d) { struct tm t; memset(&t, 0, sizeof t); int Y, M, D, h = 0, m = 0, s = 0; sscanf(d.c_str(), "%d-%d-%d %d:%d:%d", &Y, &M, &D, &h, &m, &s); t.tm_year = Y - 1900; t.tm_mon = M - 1; t.tm_mday = D; t.tm_hour = h; t.tm_min = m; t.tm_sec = s; return timegm(&t); }
string ref_date(const string &d, const string &fmt) { if (d.empty()) return ""; time_t t = parse_date(d); struct tm tm; gmtime_r(&t, &tm); char b[256]; size_t n = strftime(b, sizeof b, fmt.c_str(), &tm); return string(b, n); }

string tmpl_text(int v) {
    if (v < 0) return ""; // an empty template is valid
    string x = v % 2 ? "" : "|{{ DESCRIPTION }}|{{ FIRST_HEADER }}|{{ EXCERPT }}|{{ TOCTREE }}|";
    return strf("T%d|{{ SITE_TITLE }}|{{ SITE_TAGLINE }}|{{ AUTHOR_NAME }}|{{ MAKE_RULE }}|{{ MAKE_TYPE }}|{{ MAKE_SLUG }}|{{ MAKE_TAGS }}|{{ MAKE_ENV }}|{{ MAKE_ENV_DEV }}|{{ IS_POST }}|{{ FILTER_TAG }}|{{ DATE_FIRST_FORMATTED }}|{{ FILENAME_FIRST }}|{{ DATE_LAST }}|{{ FILENAME_LAST }}|{{ XVAR }}\n", v)
        + (v % 2 ? "" : "S|{{ SITE_TITLE_3 }}|{% if SITE_TITLE == \"Site\" %}site{% else %}other{% endif %}\n")
        + "{% block entry %}E|{{ TITLE }}|{{ FILENAME }}|{% ifdef DATE %}{{ DATE_FORMATTED }}{% else %}nodate{% endif %}|{% foreach TAGS %}<{{ FOREACH_ITEM }}>{% endforeach %}|{{ EXTRA }}|{{ CONTENT }}" + x + "{% endblock %}\n"
        + "{% block listing_once %}O|{{ CURRENT_PAGE }}/{{ LAST_PAGE }}|{{ FIRST_PAGE }}|{{ PREVIOUS_PAGE }}|{{ NEXT_PAGE }}{% endblock %}\n"
        + "{% block listing_entry %}X|{{ TITLE }}|{{ CONTENT }}" + x + "{% endblock %}\n"
        + "{% block listing_empty %}EMPTY{% endblock %}\n"
        + "{% block listing %}L|{{ TITLE }}|{{ FILENAME }}|{{ DATE_FORMATTED }}|{% foreach TAGS %}<{{ FOREACH_ITEM }}>{% endforeach %}|{{ EXTRA }}|{{ CONTENT }}" + x + "{% endblock %}\nEND\n";
}
static bool truthy(const map<string, string> &m, const string &k) { auto it = m.find(k); if (it == m.end()) return false; string v = it->second; for (auto &c : v) c = tolower(c); return v == "1" || v == "y" || v == "yes" || v == "true" || v == "on"; }
static string g(const map<string, string> &m, const string &k) { auto it = m.find(k); return it == m.end() ? "" : it->second; }
static vector<string> words(const string &s) { vector<string> v; for (auto &w : split(s, ' ')) if (!w.empty()) v.push_back(w); return v; }
bool ref_load(RefIn &in) {
    size_t wd = 0; for (auto &s : in.sources) if (!s.second.date.empty()) wd++; if (wd && wd < in.sources.size()) return false; if (truthy(in.globals, "FILTER_SORT") && wd < in.sources.size()) return false;
    auto &v = in.sources; bool rev = truthy(in.globals, "FILTER_REVERSE");
    if (truthy(in.globals, "FILTER_SORT")) std::stable_sort(v.begin(), v.end(), [rev](const std::pair<string, MSrc> &a, const std::pair<string, MSrc> &b) { time_t x = parse_date(a.second.date), y = parse_date(b.second.date); return rev ? x < y : x > y; });
    else if (rev) std::reverse(v.begin(), v.end());
    vector<std::pair<string, MSrc>> o; bool paged = in.globals.count("FILTER_PAGE"), tagged = in.globals.count("FILTER_TAG"); long page = atol(g(in.globals, "FILTER_PAGE").c_str()), per = in.globals.count("FILTER_PER_PAGE") ? atol(in.globals["FILTER_PER_PAGE"].c_str()) : 10; if (page <= 0) page = 1; if (per < 0) per = 0; long cnt = 0;
    for (auto &s : v) { if (tagged) { auto w = words(s.second.tags); if (std::find(w.begin(), w.end(), in.globals["FILTER_TAG"]) == w.end()) continue; } if (paged) { long c = cnt++; if (c < (page - 1) * per || c >= page * per) continue; } o.push_back(s); }
    v = o;
    if (!v.empty()) { auto put = [&](const string &sfx, const std::pair<string, MSrc> &s) { if (!s.second.date.empty()) in.globals["DATE_" + sfx] = s.second.date; in.globals["FILENAME_" + sfx] = ref_filename(s.first); }; put("FIRST", v.front()); put("LAST", v.back()); }
    if (paged) { long last = per > 0 ? (cnt + per - 1) / per : 0; in.globals["CURRENT_PAGE"] = strf("%ld", page); if (page > 1) in.globals["PREVIOUS_PAGE"] = strf("%ld", page - 1); if (page < last) in.globals["NEXT_PAGE"] = strf("%ld", page + 1); if (!v.empty()) in.globals["FIRST_PAGE"] = "1"; if (last > 0) in.globals["LAST_PAGE"] = strf("%ld", last); }
    return true;
}
static string lv(const MSrc &s, const map<string, string> &gl, const string &k) { if (k == "TITLE") return s.title; auto it = s.extra.find(k); if (it != s.extra.end()) return it->second; return g(gl, k); }
string ref_render(RefIn in) {
    if (!ref_load(in)) return "<<error>>"; if (in.tver < 0) return ""; auto &G = in.globals; auto df = [&](const string &d) { return G.count("DATE_FORMAT") ? ref_date(d, G["DATE_FORMAT"]) : d; };
    string o = strf("T%d|", in.tver) + g(G, "SITE_TITLE") + "|" + g(G, "SITE_TAGLINE") + "|" + g(G, "AUTHOR_NAME") + "|" + g(G, "MAKE_RULE") + "|" + g(G, "MAKE_TYPE") + "|" + g(G, "MAKE_SLUG") + "|" + g(G, "MAKE_TAGS") + "|" + g(G, "MAKE_ENV") + "|" + g(G, "MAKE_ENV_DEV") + "|" + g(G, "IS_POST") + "|" + g(G, "FILTER_TAG") + "|" + (G.count("DATE_FIRST") ? df(G["DATE_FIRST"]) : "") + "|" + g(G, "FILENAME_FIRST") + "|" + g(G, "DATE_LAST") + "|" + g(G, "FILENAME_LAST") + "|" + g(G, "XVAR") + "\n"; if (in.tver % 2 == 0) { string st = g(G, "SITE_TITLE"); o += "S|" + st.substr(0, 3) + "|" + (st == "Site" ? "site" : "other") + "\n"; }
    auto ext = [&](const std::pair<string, MSrc> &s) -> string { if (in.tver % 2) return ""; auto L = s.second.locals(s.first, G); auto v = [&](const char *k) { return L.count(k) ? L[k] : g(G, k); }; return "|" + v("DESCRIPTION") + "|" + v("FIRST_HEADER") + "|" + v("EXCERPT") + "|" + v("TOCTREE") + "|"; };
    auto tags = [&](const MSrc &s) { string r; for (auto &w : words(s.tags)) r += "<" + w + ">"; return r; };
    if (!in.listing) { if (!in.sources.empty()) { auto &s = in.sources[0]; o += "E|" + s.second.title + "|" + ref_filename(s.first) + "|" + (s.second.date.empty() ? "nodate" : df(s.second.date)) + "|" + tags(s.second) + "|" + lv(s.second, G, "EXTRA") + "|" + s.second.content() + ext(s); } return o + "\n\n\n\n\nEND\n"; }
    o += "\n"; o += "O|" + g(G, "CURRENT_PAGE") + "/" + g(G, "LAST_PAGE") + "|" + g(G, "FIRST_PAGE") + "|" + g(G, "PREVIOUS_PAGE") + "|" + g(G, "NEXT_PAGE") + "\n";
    if (!in.entries.empty()) if (!in.entries[0].first.empty()) o += "X|" + in.entries[0].second.title + "|" + in.entries[0].second.content() + ext(in.entries[0]); o += "\n";
    if (in.sources.empty()) o += "EMPTY"; o += "\n";
    for (auto &s : in.sources) o += "L|" + s.second.title + "|" + ref_filename(s.first) + "|" + (s.second.date.empty() ? "" : df(s.second.date)) + "|" + tags(s.second) + "|" + lv(s.second, G, "EXTRA") + "|" + s.second.content() + ext(s);
    return o + "\nEND\n";
}
static string gen_path(const string &dir, const string &gp, const string &pre, const string &name, const string &ext) { // documented layout: dir/blog_prefix/prefix/name + ext
    string r = dir; if (!gp.empty()) r += "/" + gp; if (!pre.empty()) r += "/" + pre; bool idx = name == "index" && ext[0] == '/' && pre.empty(); if (!name.empty() && !idx) r += "/" + name; if (name.empty() && ext[0] != '/' && pre.empty()) r += "/index"; return r + ext;
}
string ref_atom(RefIn in, const map<string, string> &st) {
    if (!ref_load(in)) return "<<error>>"; auto &G = in.globals; auto df = [&](const string &d) { return d.empty() ? "" : ref_date(d, g(G, "DATE_FORMAT")); }; string base = g(G, "BASE_DOMAIN") + g(G, "BASE_URL"); auto s = [&](const string &k) { return g(st, k); };
    string tag = g(G, "FILTER_TAG"), url = (s("blog_prefix").empty() ? "" : "/" + s("blog_prefix")) + (s("atom_prefix").empty() ? "" : "/") + s("atom_prefix") + (!tag.empty() ? "/" + tag : s("atom_prefix").empty() && s("atom_ext")[0] != '/' ? "/index" : "") + s("atom_ext");
    string o = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<feed xmlns=\"http://www.w3.org/2005/Atom\">\n  <title type=\"text\">" + g(G, "SITE_TITLE") + (tag.empty() ? "" : " - " + tag) + "</title>\n  <id>" + base + url + "</id>\n  <updated>" + df(g(G, "DATE_FIRST")) + "</updated>\n  <link href=\"" + base + "/\" />\n  <link href=\"" + base + url + "\" rel=\"self\" />\n  <author>\n    <name>" + g(G, "AUTHOR_NAME") + "</name>\n    <email>" + g(G, "AUTHOR_EMAIL") + "</email>\n  </author>\n  <subtitle type=\"text\">" + g(G, "SITE_TAGLINE") + "</subtitle>";
    for (auto &x : in.sources) { string pu = gen_path("", s("blog_prefix"), s("post_prefix"), ref_filename(x.first), s("html_ext")); o += "\n  <entry>\n    <title type=\"text\">" + x.second.title + "</title>\n    <id>" + base + pu + "</id>\n    <updated>" + df(x.second.date) + "</updated>\n    <published>" + df(x.second.date) + "</published>\n    <link href=\"" + base + pu + "\" />\n    <author>\n      <name>" + g(G, "AUTHOR_NAME") + "</name>\n      <email>" + g(G, "AUTHOR_EMAIL") + "</email>\n    </author>\n    <content type=\"html\"><![CDATA[" + x.second.content() + "]]></content>\n  </entry>"; }
    return o + "\n</feed>\n";
}

// ------------------------------------------------------------ site
static const map<string, string> DEF = {{"content_dir", "content"}, {"template_dir", "templates"}, {"main_template", "main.tmpl"}, {"source_ext", ".txt"}, {"pagination_prefix", "page"}, {"posts_per_page", "10"}, {"atom_posts_per_page", "10"}, {"html_ext", "/index.html"}, {"index_prefix", ""}, {"post_prefix", "post"}, {"tag_prefix", "tag"}, {"html_order", "DESC"}, {"atom_prefix", "atom"}, {"atom_template", ""}, {"atom_ext", ".xml"}, {"atom_order", "DESC"}, {"date_format", "%b %d, %Y, %I:%M %p GMT"}};
string MSite::set(const string &k) const { auto it = settings.find(k); if (it != settings.end()) return it->second; auto d = DEF.find(k); return d == DEF.end() ? "" : d->second; }
string MSite::blogcfile() const {
    Rng q(style * 131 + 5); bool fancy = style != 0; string nlc = fancy && q.chance(.15) ? "\r\n" : "\n"; const char *G = fancy && q.chance(.1) ? "environment" : "global", *CP = fancy && q.chance(.15) ? "copy_files" : "copy";
    auto ws = [&](double p) { return fancy && q.chance(p) ? string(q.range(1, 4), q.chance(.8) ? ' ' : '\t') : string(); };
    auto val = [&](const string &v) { bool need = v.empty() || strchr("\"#;[", v[0]) || isspace((unsigned char) v[0]) || isspace((unsigned char) v.back()) || v.find('\n') != string::npos; bool lead = fancy && !v.empty() && strchr("\"#;[", v[0]) && v.find('\n') == string::npos && !isspace((unsigned char) v.back()) && q.chance(.4); if (!lead && ((need && !v.empty()) || (fancy && q.chance(.2)))) { string o = "\""; for (char c : v) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\"" + ws(.2); } string o = lead ? "\\" : ""; for (char c : v) { if (c == '\\' ) o += '\\'; o += c; } return o + (v.empty() ? "" : ws(.2)); };
    auto noise = [&]() -> string { if (!fancy || !q.chance(.15)) return ""; static const vector<string> N = {"", "# comment", "; comment", "  # [posts]", "   ", "#", "\t;x = y"}; return N[q.below(N.size())] + nlc; };
    vector<string> secs; { string r = string("[") + G + "]" + nlc; for (auto &x : globals) r += noise() + ws(.2) + x.first + (fancy && q.chance(.3) ? ws(.4) + "=" + ws(.4) : " = ") + val(x.second) + nlc; secs.push_back(r); r = "[settings]" + nlc; for (auto &x : settings) r += noise() + ws(.2) + x.first + (fancy && q.chance(.3) ? ws(.4) + "=" + ws(.4) : " = ") + val(x.second) + nlc; secs.push_back(r); }
    auto sec = [&](const char *n, const vector<string> &v) { if (v.empty()) return; string r = string("[") + n + "]" + nlc; for (auto &x : v) r += noise() + ws(.2) + val(x) + nlc; secs.push_back(r); }; sec("posts", posts); sec("pages", pages); sec("tags", tags); sec(CP, copy);
    if (fancy && q.chance(.5)) for (size_t i = secs.size(); i > 1; i--) std::swap(secs[i - 1], secs[q.below(i)]); string r = fancy && q.chance(.1) ? "\xef\xbb\xbf" : ""; for (size_t i = 0; i < secs.size(); i++) r += (i ? nlc : "") + secs[i]; if (fancy && q.chance(.15) && r.size() > 2) { while (r.back() == '\n' || r.back() == '\r') r.pop_back(); } return r;
}
string MSite::src_path(const string &slug, bool post) const { return post ? gen_path(set("content_dir"), set("blog_prefix"), set("post_prefix"), slug, set("source_ext")) : gen_path(set("content_dir"), "", "", slug, set("source_ext")); }
string MSite::le_path() const { return gen_path(set("content_dir"), set("blog_prefix"), "", set("listing_entry").empty() ? "entry" : set("listing_entry"), set("source_ext")); }
string MSite::tmpl_path() const { return set("template_dir") + "/" + set("main_template"); }
string MSite::atmpl_path() const { return set("template_dir") + "/" + set("atom_template"); }
string MSite::out_path(const string &k, const string &a, const string &b) const {
    string p;
    if (k == "index") p = gen_path("", set("blog_prefix"), set("index_prefix"), "", set("html_ext")); else if (k == "atom") p = gen_path("", set("blog_prefix"), set("atom_prefix"), a, set("atom_ext")); else if (k == "page") p = gen_path("", set("blog_prefix"), set("pagination_prefix"), a, set("html_ext"));
    else if (k == "tagpage") p = gen_path("", set("blog_prefix"), (set("tag_prefix").empty() ? "" : set("tag_prefix") + "/") + a + (set("pagination_prefix").empty() ? "" : "/" + set("pagination_prefix")), b, set("html_ext")); else if (k == "post") p = gen_path("", set("blog_prefix"), set("post_prefix"), a, set("html_ext")); else if (k == "tag") p = gen_path("", set("blog_prefix"), set("tag_prefix"), a, set("html_ext")); else if (k == "pg") p = gen_path("", "", "", a, set("html_ext")); else if (k == "copy") p = "/" + a;
    return p.substr(1);
}
bool MSite::has_tag(const MSrc &s, const string &t) const { auto w = words(s.tags); return std::find(w.begin(), w.end(), t) != w.end(); }
RefIn MSite::rin(const string &rule, bool listing) const {
    RefIn in; in.listing = listing; in.tver = tver; in.globals = globals; if (!tags.empty()) in.globals["MAKE_TAGS"] = join(tags, " "); if (dev) { in.globals["MAKE_ENV"] = "dev"; in.globals["MAKE_ENV_DEV"] = "1"; }
    in.globals["MAKE_RULE"] = rule; bool atom = starts_with(rule, "atom"); in.globals["MAKE_TYPE"] = atom ? "atom" : rule == "pages" ? "page" : "post"; in.globals["DATE_FORMAT"] = atom ? "%Y-%m-%dT%H:%M:%SZ" : set("date_format");
    if (rule != "pages") { string o = set(atom ? "atom_order" : "html_order"); for (auto &c : o) c = tolower(c); bool asc = o == "asc", sort = truthy(settings, "posts_sort"); if (sort) in.globals["FILTER_SORT"] = "1"; if (sort == asc) in.globals["FILTER_REVERSE"] = "1"; }
    if (rule == "posts") in.globals["IS_POST"] = "1";
    if (listing) { string pp = set(atom ? "atom_posts_per_page" : "posts_per_page"); if (atol(pp.c_str()) >= 0) { in.globals["FILTER_PAGE"] = "1"; in.globals["FILTER_PER_PAGE"] = pp; } }
    return in;
}
vector<string> MSite::copy_files() const { vector<string> v; for (auto &c : copy) for (auto &r : raw) if (r.first == c || starts_with(r.first, c + "/")) v.push_back(r.first); return v; }
bool MSite::expect(const string &rule, map<string, string> &out, string *why) const {
    static const std::set<string> RULES = {"all", "index", "atom", "atom_tags", "pagination", "pagination_tags", "posts", "tags", "pages", "copy", "clean"}; if (!RULES.count(rule)) { if (why) *why = "unknown rule " + rule; return false; }
    bool all = rule == "all"; vector<std::pair<string, MSrc>> ps; bool missing = false;
    for (auto &p : posts) { string f = src_path(p, true); auto it = src.find(f); if (it == src.end()) { missing = true; if (why) *why = "missing " + f; continue; } ps.push_back({f, it->second}); }
    bool anyposts = !posts.empty(); auto need = [&]() { return !missing; }; vector<std::pair<string, MSrc>> ent; string le = set("listing_entry");
    bool badle = false; if (!le.empty()) { string f = le_path(); auto it = src.find(f); if (it == src.end()) badle = true; else ent.push_back({f, it->second}); }
    { RefIn t; t.sources = ps; if (truthy(settings, "posts_sort")) t.globals["FILTER_SORT"] = "1"; if (anyposts && !ref_load(t)) { if (why) *why = "posts with and without date"; if (rule != "pages" && rule != "copy" && rule != "posts") return false; } }
    long pp = atol(set("posts_per_page").c_str()), app = atol(set("atom_posts_per_page").c_str());
    auto pages_of = [&](const string &tag) { long n = 0; for (auto &p : ps) if (tag.empty() || has_tag(p.second, tag)) n++; return pp > 0 ? (n + pp - 1) / pp : 0; };
    auto lst = [&](const string &ru, const string &tag, long page) { RefIn in = rin(ru, true); in.sources = ps; if (!starts_with(ru, "atom")) in.entries = ent; if (!tag.empty()) in.globals["FILTER_TAG"] = tag; if (page) { in.globals["FILTER_PAGE"] = strf("%ld", page); in.globals["FILTER_PER_PAGE"] = set("posts_per_page"); } if (starts_with(ru, "atom") && !set("atom_template").empty()) { in.tver = atver; return ref_render(in); } if (starts_with(ru, "atom")) { map<string, string> st; for (auto k : {"blog_prefix", "post_prefix", "atom_prefix", "atom_ext", "html_ext"}) st[k] = set(k); return ref_atom(in, st); } return ref_render(in); };
    if (anyposts) {
        if ((all || rule == "index") && pp != 0) { if (!need() || badle) return false; out[out_path("index")] = lst("index", "", 0); }
        if ((all || rule == "atom") && app != 0) { if (!need()) return false; out[out_path("atom")] = lst("atom", "", 0); }
        if ((all || rule == "atom_tags") && app != 0) for (auto &t : tags) { if (!need()) return false; out[out_path("atom", t)] = lst("atom_tags", t, 0); }
        if ((all || rule == "pagination") && pp != 0) { if (!need() || (badle && pages_of(""))) return false; for (long i = 1; i <= pages_of(""); i++) out[out_path("page", strf("%ld", i))] = lst("pagination", "", i); }
        if ((all || rule == "pagination_tags") && pp != 0) for (auto &t : tags) { if (!need() || (badle && pages_of(t))) return false; for (long i = 1; i <= pages_of(t); i++) out[out_path("tagpage", t, strf("%ld", i))] = lst("pagination_tags", t, i); }
        if (all || rule == "posts") { if (!need()) return false; for (size_t i = 0; i < posts.size(); i++) { RefIn in = rin("posts", false); in.sources = {ps[i]}; in.globals["MAKE_SLUG"] = posts[i]; out[out_path("post", posts[i])] = ref_render(in); } }
        if ((all || rule == "tags") && pp != 0) for (auto &t : tags) { if (!need() || badle) return false; out[out_path("tag", t)] = lst("tags", t, 0); }
    }
    if (all || rule == "pages") for (auto &p : pages) { string f = src_path(p, false); auto it = src.find(f); if (it == src.end()) { if (why) *why = "missing " + f; return false; } RefIn in = rin("pages", false); in.sources = {{f, it->second}}; in.globals["MAKE_SLUG"] = p; out[out_path("pg", p)] = ref_render(in); }
    if (all || rule == "copy") for (auto &f : copy_files()) out[f] = raw.at(f);
    return true;
}
void gen_msrc(Rng &r, MSrc &s, const string &name, int idx, bool big, bool tags) {
    s.title = "Title of " + name + strf(" r%d", (int) r.below(1000)); s.date = strf("%04d-%02d-%02d %02d:%02d:%02d", r.chance(.9) ? 2010 + (int) r.below(20) : 1901 + (int) r.below(200), 1 + (int) r.below(12), 1 + (int) r.below(28), (int) r.below(24), idx % 60, (int) r.below(60)); s.bseed = r.below(1000000); s.bsize = big ? r.range(50, 1500) : r.range(1, 30); s.tags = "";
    if (tags) { vector<string> t; for (auto w : {"foo", "bar", "baz"}) if (r.chance(.5)) t.push_back(w); for (auto w : {"foobar", "fo", "it's"}) if (r.chance(.08)) t.insert(t.begin() + r.below(t.size() + 1), w); s.tags = join(t, r.chance(.1) ? "  " : " "); } if (r.chance(.12)) s.date = strf("2015-06-%02d 00:00:00", 1 + (int) r.below(3)); if (r.chance(.15)) s.crlf = true; if (r.chance(.1)) s.bom = true; if (r.chance(.3)) s.extra["EXTRA"] = "x" + strf("%d", (int) r.below(100)); if (r.chance(.1)) s.extra[r.pick(vector<string>{"ZED", "A", "Z9", "AZ_09", "Q_", "LISTING", "TITLE_", "DAT"})] = r.pick(vector<string>{"v", "with: colon", "a  b", "-----", "<b>&amp;", "caf\xc3\xa9", "{{ TITLE }}"}); if (r.chance(.35)) { s.rich = true; if (r.chance(.15)) s.extra["TOCTREE_MAXDEPTH"] = strf("%d", r.range(-1, 3)); if (r.chance(.1)) s.extra[r.chance(.5) ? "DESCRIPTION" : "FIRST_HEADER"] = "own <text> here"; }
}
string diff_str(const string &w, const string &g) { size_t i = 0; while (i < w.size() && i < g.size() && w[i] == g[i]) i++; size_t a = i > 40 ? i - 40 : 0; return strf("differ at byte %zu (expected %zu bytes, got %zu): expected ...%s, got ...%s", i, w.size(), g.size(), esc(w.substr(a, 120)).c_str(), esc(g.substr(a, 120)).c_str()); }
