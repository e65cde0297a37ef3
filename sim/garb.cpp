// Hostile but bounded input: unmatched, truncated and nested markup, statements and configuration. Nothing is known about the
// result except that it is produced or refused in time, in order, with a message.
#include "model.h"
string garbage(const string &kind, u64 seed, int size) {
    Rng r(seed * 2654435761u + hstr(kind)); string o; static const vector<string> W = {"a", "word", " ", "  ", "\n", "\n\n", "\t", "caf\xc3\xa9", "\xe6\x97\xa5", "\xf0\x9f\x98\x80", "0", "-", "\"", "'", "\\", "&", "/", ":", ";", "%", "$", "#", "\r\n", "\r"};
    static const vector<string> M = {"*", "**", "_", "__", "`", "``", "[", "[[", "](", "]", ")", "]]", "![", "!", "(", "  \n", "---", "--", "<div>", "</div>", "<", ">", "\n> ", "\n> > ", "\n* ", "\n- ", "\n+ ", "\n1. ", "\n23.  ", "\n   ", "\n\t", "\n# ", "\n###### ", "\n#", "\n....", "\n***", "\n\n    ", "\\", "\\*", "\\\n", "\n*", "\n1", "\n1.", "\n>", "\n<"};
    static const vector<string> T = {"{{", "}}", "{%", "%}", "{%-", "-%}", "{{ TITLE }}", "{{ X", "{{", "{% if ", "{% ifdef TITLE %}", "{% ifndef X %}", "{% else %}", "{% endif %}", "{% block entry %}", "{% block listing %}", "{% block x %}", "{% endblock %}", "{% foreach TAGS %}", "{% endforeach %}", "{% foreach", "if A == \"", "if A == B", "\"b\"", "TITLE", "FOREACH_ITEM", "block ", "listing_once", "==", "<=", ">", "!=", "{", "}", "%", "{{ TITLE_99999999999999999999 }}", "{{ DATE_FORMATTED }}", "{{ _ }}", "{{ TITLE_ }}", "{{ _FORMATTED }}", "{{ FOREACH_VALUE }}", "{{ TITLE_0 }}", "{{ TITLE_-1 }}"};
    static const vector<string> P = {"TITLE: x\n", "DATE: 2011-02-30 25:61:61\n", "DATE: 2011-01-01\n", "DATE:\n", "TAGS:  a  b \n", "lower: x\n", "NOVALUE\n", "K:", "A B: c\n", ": v\n", "KEY:v\n", "  X: y\n", "-----\n", "---", "-\n", "\n", "# c\n", "TITLE: y\n", "CONTENT: z\n", "A__B: c\n", "TITLE_FORMATTED: f\n", "FILENAME: q\n", "DATE_FORMAT: %Y%%%q%\n", "TOCTREE_MAXDEPTH: 99999999999999999999\n", "TOCTREE_MAXDEPTH: x\n", "\xef\xbb\xbf"};
    static const vector<string> C = {"[", "]", "[global]\n", "[settings]\n", "[posts]\n", "[pages]\n", "[tags]\n", "[copy]\n", "[unknown]\n", "[global", "[]\n", "A = b\n", "A=\n", "= b\n", "A\n", "a = b\n", "post1\n", "# comment\n", "  \n", "\"", "\"quoted\"\n", "\"open\n", "\\", "\\n", "K = \"v\" x\n", "K = a = b\n", "posts_per_page = x\n", "posts_per_page = -99999999999999\n", "html_order = q\n", "\xef\xbb\xbf", "A = \xc3\xa9\n"};
    auto deep = [&](const vector<string> &open) { int n = r.range(2, 60); string t = open[r.below(open.size())], f = W[r.below(4)]; for (int i = 0; i < n; i++) o += t + (r.chance(.9) ? f : ""); if (r.chance(.3)) for (int i = 0; i < n; i++) o += r.chance(.5) ? "](u)" : ")"; };
    auto some = [&](const vector<string> &v, double p, int n) { for (int i = 0; i < n; i++) { o += r.chance(p) ? v[r.below(v.size())] : W[r.below(W.size())]; if (r.chance(.01)) { char q = "ab \n*_[`>"[r.below(9)]; o += string(r.range(50, strchr("_[>*", q) ? 150 : 3000), q); } } };
    if (kind == "src") { if (r.chance(.75)) o += "TITLE: garbage\nDATE: 2012-03-04 05:06:07\n"; if (r.chance(.35)) some(P, .9, r.range(0, 6)); if (r.chance(.85)) o += "-----\n\n"; if (r.chance(.5)) deep({"[", "![", "*[", "_[", "**[", "`", "*", "_", "__", "**", "> ", "[[", "* ", "*_", "\n> ", "\n* "}); if (r.chance(.25)) { static const vector<string> U = {"*", "_", "**", "__", "[", "![", "a", " ", "`", "](", ")", "\n> ", "\n* "}; string t; for (int i = r.range(2, 6); i > 0; i--) t += U[r.below(U.size())]; for (int i = r.range(8, 40); i > 0; i--) o += t; } some(M, r.chance(.5) ? .8 : .4, size); if (r.chance(.2)) deep({"[", "![", "*[a", "**[", "[![", "> "}); }
    else if (kind == "tmpl") { if (r.chance(.3)) deep({"{% ifdef TITLE %}", "{% if TITLE == \"x\" %}", "{% ifndef X %}{% else %}"}); some(T, r.chance(.5) ? .9 : .5, size); }
    else some(C, r.chance(.7) ? .95 : .5, size);
    if (r.chance(.15)) { size_t at = r.below(o.size() + 1); static const vector<string> B = {"\xff", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80"}; o.insert(at, r.chance(.3) ? string(1, '\0') : B[r.below(B.size())]); }
    if (r.chance(.2) && !o.empty()) o.resize(r.below(o.size() + 1)); return o;
}
