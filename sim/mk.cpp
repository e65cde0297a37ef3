#include "mk.h"
#include <algorithm>

void Site::init(const string &r, const string &oe, bool set) {
    root = r; outenv = oe; outset = set; string d = set && !oe.empty() ? oe : "_build"; while (d.size() > 1 && d.back() == (char) 47) d.pop_back(); if (starts_with(d, "./")) d = d.substr(2); m.outdir = d; outabs = d[0] == '/' ? d : root + "/" + d;
    m.globals = {{"AUTHOR_NAME", "An Author"}, {"AUTHOR_EMAIL", "a@example.org"}, {"SITE_TITLE", "Site"}, {"SITE_TAGLINE", "Tag line"}, {"BASE_DOMAIN", "http://example.org"}}; fs_mkdirs(root); tmpl(); cfg();
}
void Site::put(const string &rel, const string &data, bool atomic) { string f = root + "/" + rel; fs_mkdirs(f.substr(0, f.rfind('/'))); if (atomic) fs_remove(f); else if (linkseed && rel != "blogcfile" && hcomb(linkseed, hstr(rel)) % 3 == 0 && !fs_exists(f, false)) { string t = strf("/store/%llx", (unsigned long long) hstr(rel)); fs_mkdirs("/store"); fs_write(t, data); fs_symlink(t, f); probe("linked-source"); } string rf = atomic ? "" : fs_realpath(f); fs_write(rf.empty() ? f : rf, data); INode n = fs_lookup(f); if (n) n->mtime = n->ctime = S.now; }
void Site::tmpl() { put(m.tmpl_path(), tmpl_text(m.tver)); if (!m.set("atom_template").empty()) put(m.atmpl_path(), tmpl_text(m.atver)); }
void Site::cfg() { put("blogcfile", m.blogcfile(), whole_cfg && whole_cfg()); note_ever(); }
void Site::note_ever() { map<string, string> o; m.expect("all", o); for (auto &x : o) ever.insert(x.first); MSite c = m; c.settings["listing_entry"] = ""; c.settings.erase("listing_entry"); o.clear(); c.expect("all", o); for (auto &x : o) ever.insert(x.first); for (int i = 1; i < 40 && !m.posts.empty(); i++) { ever.insert(m.out_path("page", strf("%d", i))); for (auto &t : m.tags) ever.insert(m.out_path("tagpage", t, strf("%d", i))); } for (auto &t : m.posts) ever.insert(m.out_path("post", t)); for (auto &t : m.tags) ever.insert(m.out_path("tag", t)), ever.insert(m.out_path("atom", t)); for (auto &t : m.pages) ever.insert(m.out_path("pg", t)); for (auto &c2 : m.copy_files()) ever.insert(c2); }
static void addu(vector<string> &v, const string &s) { if (std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s); }
static void delv(vector<string> &v, const string &s) { v.erase(std::remove(v.begin(), v.end(), s), v.end()); }
bool Site::apply(const Op &o, bool live) {
    const string &c = o[0]; if (live) { S.now += 1000; dirty++; }
    auto src = [&](const string &path, const MSrc &s, bool at) { m.src[path] = s; put(path, s.text(), at); };
    if (c == "set") { m.settings[o[1]] = o[2]; if (o[1] == "template_dir" || o[1] == "main_template" || o[1] == "atom_template") tmpl(); cfg(); } else if (c == "style") { m.style = strtoull(o[1].c_str(), nullptr, 10); cfg(); } else if (c == "lesrc") src(m.le_path(), msrc_unpack(o[1]), false); else if (c == "atmpl") { m.atver = atoi(o[1].c_str()); if (!m.set("atom_template").empty()) put(m.atmpl_path(), tmpl_text(m.atver)); } else if (c == "unset") { m.settings.erase(o[1]); cfg(); } else if (c == "glob") { m.globals[o[1]] = o[2]; cfg(); }
    else if (c == "post+" || c == "page+") { bool p = c == "post+"; addu(p ? m.posts : m.pages, o[1]); string f = m.src_path(o[1], p); if (o.size() > 2) src(f, msrc_unpack(o[2]), false); cfg(); }
    else if (c == "post" || c == "page" || c == "post!" || c == "page!") src(m.src_path(o[1], c[1] == 'o'), msrc_unpack(o[2]), c.back() == '!');
    else if (c == "post-") { delv(m.posts, o[1]); cfg(); } else if (c == "page-") { delv(m.pages, o[1]); cfg(); } else if (c == "tag+") { addu(m.tags, o[1]); cfg(); } else if (c == "tag-") { delv(m.tags, o[1]); cfg(); } else if (c == "copy+") { m.copy.push_back(o[1]); cfg(); } else if (c == "copy-") { delv(m.copy, o[1]); cfg(); }
    else if (c == "src") src(o[1], msrc_unpack(o[2]), false); else if (c == "raw") { m.raw[o[1]] = o[2]; put(o[1], o[2]); note_ever(); } else if (c == "dirlink") { fs_mkdirs(o[2]); fs_mkdirs((root + "/" + o[1]).substr(0, (root + "/" + o[1]).rfind('/'))); if (!fs_exists(root + "/" + o[1], false)) fs_symlink(o[2], root + "/" + o[1]); } else if (c == "emptydir") fs_mkdirs(root + "/" + o[1]); else if (c == "rawlink") { put("assets/" + o[2], o[3]); m.raw[o[1]] = o[3]; fs_mkdirs((root + "/" + o[1]).substr(0, (root + "/" + o[1]).rfind('/'))); if (!fs_exists(root + "/" + o[1], false)) fs_symlink(o[4], root + "/" + o[1]); note_ever(); } else if (c == "rmraw") { m.raw.erase(o[1]); fs_remove(root + "/" + o[1]); }
    else if (c == "rmsrc") { m.src.erase(o[1]); fs_remove(root + "/" + o[1]); } else if (c == "tmpl") { m.tver = atoi(o[1].c_str()); put(m.tmpl_path(), tmpl_text(m.tver)); } else if (c == "tmpl!") { m.tver = atoi(o[1].c_str()); put(m.tmpl_path(), tmpl_text(m.tver), true); }
    else if (c == "touch") { INode n = fs_lookup(root + "/" + o[1]); if (n) n->mtime = S.now; } else if (c == "order") { if (m.posts.size() > 1) std::reverse(m.posts.begin(), m.posts.end()); cfg(); } else return false;
    return true;
}
map<string, string> Site::expected(const vector<string> &rules, bool *ok, string *why) const { map<string, string> o; *ok = true; for (auto &r : rules) if (!m.expect(r, o, why)) *ok = false; return o; }
string Site::check(const vector<string> &rules, bool *should_fail) const {
    bool ok; string why; auto e = expected(rules, &ok, &why); *should_fail = !ok; if (!ok) return "the sources are in error (" + why + ")";
    for (auto &x : e) { string g; if (!fs_read(outabs + "/" + x.first, g)) return "output " + x.first + " is missing"; if (g != x.second) return "output " + x.first + ": " + diff_str(x.second, g); } return "";
}
void gen_site(Plan &p, Rng &r, int size, bool odd) {
    auto chance = [&](double x) { return r.chance(x); }; static const vector<string> ODD = {"a b", "it's", "x$HOME", "caf\xc3\xa9", "semi;colon", "q\"q", "-dash", "star*", "back`tick"};
    if (chance(.4)) p.op({"set", "blog_prefix", "blog"}); if (chance(.25)) p.op({"set", "html_ext", ".html"}); if (chance(.3)) p.op({"set", "html_order", chance(.5) ? "ASC" : "DESC"}); if (chance(.2)) p.op({"set", "atom_order", "ASC"}); if (chance(.2)) p.op({"set", "posts_sort", "1"}); if (chance(.5)) p.op({"set", "posts_per_page", chance(.15) ? "0" : strf("%d", r.range(1, 4))}); if (chance(.3)) p.op({"set", "atom_posts_per_page", chance(.2) ? "0" : strf("%d", r.range(1, 3))}); if (chance(.15)) p.op({"set", "post_prefix", "p"}); if (chance(.15)) p.op({"set", "pagination_prefix", "pp"}); if (chance(.2)) p.op({"set", "date_format", "%d/%m/%Y"}); if (chance(.15)) p.op({"set", "index_prefix", "idx"}); if (chance(.1)) p.op({"set", "posts_per_page", "-1"}); if (chance(.1)) p.op({"set", "source_ext", ".md"});
    if (chance(.5)) { // further settings
        p.op({"style", strf("%d", 1 + (int) r.below(100000))}); auto S = [&](double q, const char *k, vector<string> v) { if (chance(q)) p.op({"set", k, v[r.below(v.size())]}); };
        S(.2, "content_dir", {"src", "my content", "a/b/src"}); S(.2, "template_dir", {"tpl", "my templates", "x/y"}); S(.2, "main_template", {"site.html", "m/main.tmpl", "it's.tmpl"}); S(.2, "source_ext", {".blogc", ".a.b"}); S(.2, "atom_prefix", {"feed", "", "f/g"}); S(.2, "atom_ext", {".atom", "/atom.xml", "/index.xml"}); S(.2, "tag_prefix", {"tags", "", "t/u"}); S(.15, "pagination_prefix", {"", "pages", "p/q"}); S(.15, "post_prefix", {"", "posts/all"}); S(.15, "html_ext", {".htm", "/i.html", "/x/index.html"}); S(.1, "blog_prefix", {"a/b", "my blog", "x.y"}); S(.3, "atom_template", {"atom.tmpl", "feeds/a.tmpl"}); S(.1, "posts_sort", {"true", "0", "no", "YES"}); S(.1, "html_order", {"desc", "asc", "Asc"}); S(.1, "date_format", {"100%% %Y", "%H:%M \\ %d", "[%Y]", "it's %Y"}); S(.05, "unknown_setting", {"x"});
        if (chance(.3)) p.op({"glob", "BASE_URL", r.pick(vector<string>{"/sub", "/a/b", ""})}); if (odd && chance(.3)) p.op({"glob", "SITE_TAGLINE", r.pick(vector<string>{"a \\ backslash", "\"quoted\"", " padded ", "# hash", "[brackets]", "a = b", "50% off", "; semi", "\\n", "end\\", "\" spaced", "#  two", "\\"})});
    }
    if (chance(.35)) { MSrc s; gen_msrc(r, s, "le", 1, false, false); if (chance(.8)) p.op({"set", "listing_entry", "entry"}); p.op({"lesrc", msrc_pack(s)}); }
    if (chance(.3)) p.op({"glob", "XVAR", odd && chance(.4) ? "it's a \"x\" $y `z`" : "xv"});
    if (chance(.06)) { const string k = r.pick(vector<string>{"DATE_FORMAT", "MAKE_RULE", "MAKE_SLUG", "MAKE_ENV", "MAKE_TYPE", "IS_POST", "FILTER_REVERSE", "FILTER_PER_PAGE", "FIRST_PAGE", "FILENAME_LAST", "TITLE", "CONTENT", "BASE_DOMAIN"}); p.op({"glob", k, k[0] == 'D' ? "%Y" : "1"}); } // variables that blogc-make or blogc set themselves
    bool many = size >= 3 && chance(.02);
    vector<string> tg; if (!many) for (auto t : {"foo", "bar", "baz"}) if (chance(.4)) tg.push_back(t); if (chance(.1)) tg.push_back("foobar"); if (chance(.06)) tg.push_back("z"); if (odd && chance(.15)) tg.push_back("it's"); if (odd && chance(.1)) tg.push_back("c++"); for (auto &t : tg) p.op({"tag+", t});
    int n = many ? 11 + (int) r.below(3) : r.range(0, size); if (many) p.op({"set", "posts_per_page", "1"}); for (int i = 0; i < n; i++) { string sl = strf("post%d", i); if (odd && chance(.12)) sl = r.pick(ODD) + strf("%d", i); MSrc s; gen_msrc(r, s, sl, i, chance(.1), true); p.op({"post+", sl, msrc_pack(s)}); }
    n = r.range(n ? 0 : 1, 2); for (int i = 0; i < n; i++) { string sl = i == 0 && chance(.3) && true ? "about/sub" : strf("page%d", i); if (odd && chance(.12)) sl = r.pick(ODD) + strf("g%d", i); MSrc s; gen_msrc(r, s, sl, i, chance(.1), false); p.op({"page+", sl, msrc_pack(s)}); }
    bool pre = false; for (auto &o : p.ops) if (o[0] == "set" && (o[1] == "blog_prefix" || o[1] == "index_prefix") && !o[2].empty()) pre = true; if (pre && chance(.3)) { MSrc s; gen_msrc(r, s, "index", 2, false, false); p.op({"page+", "index", msrc_pack(s)}); }
    if (chance(.07)) { p.op({"emptydir", "void"}); p.op({"copy+", "void"}); }
    if (chance(.6)) { p.op({"copy+", "static"}); int k = r.range(0, 3); for (int i = 0; i < k; i++) p.op({"raw", chance(.6) ? strf("static/f%d.bin", i) : chance(.3) ? r.pick(vector<string>{"static/.htaccess", "static/.well-known/x", "static/a.tmp", "static/b.css~", "static/sub0/.h/i"}) : strf("static/sub%d/g.css", i), chance(.2) ? string(r.range(3000, 20000), 'z') + strf("%d", (int) r.below(99)) : chance(.1) ? "" : strf("raw %d\n", (int) r.below(10000))}); if (odd && chance(.15)) p.op({"copy+", "static"}); if (chance(.1)) p.op({"emptydir", chance(.5) ? "static" : "static/empty/er"}); if (chance(.08)) { p.op({"dirlink", "static/dl", "/store/dl"}); p.op({"raw", "static/dl/in.txt", strf("inside %d\n", (int) r.below(1000))}); } if (chance(.06)) p.op({"rawlink", "static/lnk.dat", "t.dat", strf("linked %d", (int) r.below(1000)), "../assets/t.dat"}); if (chance(.3)) { p.op({"raw", "robots.txt", "robots\n"}); p.op({"copy+", "robots.txt"}); } }
}
Op gen_edit(Plan &p, Rng &r, Site &s) {
    (void) p; MSite &m = s.m; MSrc ms; if (!m.set("atom_template").empty() && r.chance(.15)) return {"atmpl", strf("%d", m.atver + 1)}; if (!m.set("listing_entry").empty() && r.chance(.12)) { gen_msrc(r, ms, "le", (int) r.below(60), false, false); return {"lesrc", msrc_pack(ms)}; } for (int tries = 0; tries < 50; tries++) { int c = (int) r.below(20);
        if (c < 5 && !m.posts.empty()) { string sl = r.pick(m.posts); gen_msrc(r, ms, sl, (int) r.below(60), r.chance(.1), true); return {r.chance(.7) ? "post" : "post!", sl, msrc_pack(ms)}; }
        if (c < 7 && !m.pages.empty()) { string sl = r.pick(m.pages); gen_msrc(r, ms, sl, (int) r.below(60), r.chance(.1), false); return {r.chance(.7) ? "page" : "page!", sl, msrc_pack(ms)}; }
        if (c == 7 && !m.set("atom_template").empty() && r.chance(.4)) return {"atmpl", strf("%d", m.atver + 1)}; if (c == 7 && !m.set("listing_entry").empty() && r.chance(.5)) { gen_msrc(r, ms, "le", (int) r.below(60), false, false); return {"lesrc", msrc_pack(ms)}; } if (c == 7) return {r.chance(.7) ? "tmpl" : "tmpl!", strf("%d", (abs(m.tver) + 1) * (m.tver > 0 && r.chance(.15) ? -1 : 1))}; if (c == 8) { string sl = strf("new%d", (int) r.below(1000)); gen_msrc(r, ms, sl, (int) r.below(60), false, true); return {"post+", sl, msrc_pack(ms)}; }
        if (c == 9 && !m.posts.empty()) return {"post-", r.pick(m.posts)}; if (c == 10) return {"glob", r.chance(.5) ? "SITE_TITLE" : "XVAR", strf("value %d", (int) r.below(1000))}; if (c == 11 && m.src.count(m.le_path()) && r.chance(.3)) { if (m.set("listing_entry").empty()) return {"set", "listing_entry", "entry"}; return {"unset", "listing_entry"}; } if (c == 11) return r.chance(.5) ? Op{"set", "posts_per_page", strf("%d", r.range(0, 4))} : Op{"set", "html_order", r.chance(.5) ? "ASC" : "DESC"};
        if (c == 12) { vector<string> T = {"foo", "bar", "baz"}; return {r.chance(.6) ? "tag+" : "tag-", r.pick(T)}; } if (c >= 13 && c < 16 && !m.raw.empty()) { vector<string> k; for (auto &x : m.raw) k.push_back(x.first); return {"raw", r.pick(k), r.chance(.1) ? string() : strf("edited raw %d\n", (int) r.below(100000)) + string(r.chance(.1) ? 9000 : 0, 'y')}; }
        if (c == 16) return {"raw", r.chance(.15) ? "static/.hidden" : strf("static/n%d.txt", (int) r.below(30)), strf("new raw %d\n", (int) r.below(1000))}; if (c == 17 && !m.raw.empty()) { vector<string> k; for (auto &x : m.raw) if (std::find(m.copy.begin(), m.copy.end(), x.first) == m.copy.end()) k.push_back(x.first); if (!k.empty()) return {"rmraw", r.pick(k)}; }
        if (c == 18) return {"order"}; if (c == 19) { string sl = strf("pgn%d", (int) r.below(1000)); gen_msrc(r, ms, sl, (int) r.below(60), false, false); return {"page+", sl, msrc_pack(ms)}; } }
    return {"tmpl", strf("%d", abs(m.tver) + 1)};
}
static void snap_r(const string &base, const string &rel, INode n, Snap &s) { if (!n) return; if (n->type == Inode::DIR) { if (!rel.empty()) s.f[rel + "/"] = {n->ino, 0}; for (auto &x : n->ent) snap_r(base, rel.empty() ? x.first : rel + "/" + x.first, x.second, s); } else s.f[rel] = {n->ino, n->mtime + (i64) (n->gen * 1000003)}; }
Snap snap_tree(const string &dir) { Snap s; snap_r(dir, "", fs_lookup(dir), s); return s; }
string snap_diff(const Snap &a, const Snap &b, const std::set<string> *al) { string r; int n = 0; auto add = [&](const string &w, const string &p) { if (al && al->count(p)) return; if (n++ < 6) r += (r.empty() ? "" : ", ") + w + " " + p; }; for (auto &x : a.f) { auto it = b.f.find(x.first); if (it == b.f.end()) add("removed", x.first); else if (it->second != x.second) add("rewritten", x.first); } for (auto &x : b.f) if (!a.f.count(x.first)) add("created", x.first); return r; }
