// C05: every text is split into the rows and fields its dialect defines, however it arrives in chunks.
#include "da.hpp"
#include "csv_reader.hpp"
#include "read_csv.hpp"
#include "parser.hpp"
#include <unistd.h>
typedef std::string S;
typedef std::vector<std::vector<S>> Rows;
struct Dialect {
    char delim = ',', quote = '"', esc = 0, comment = '#', term = 0;
    bool ws = false, dbl = false, skip_empty = false, skip_space = false;
    int row_start = 0;
    std::vector<int> skip;
    S str() const {
        char b[200];
        snprintf(b, sizeof b, "delimiter=%s quote=%c escape=%c comment=%c terminator=%c double quote=%d skip empty lines=%d skip initial space=%d row start=%d skip rows=", ws ? "whitespace" : delim == '\t' ? "tab" : S(1, delim).c_str(), quote ? quote : '-', esc ? esc : '-', comment ? comment : '-', term ? term : '-', dbl, skip_empty, skip_space, row_start);
        S s = b;
        for (int k : skip) s += std::to_string(k) + " ";
        return s;
    }
};
S show(const S &t) {
    S r = "\"";
    for (unsigned char ch : t) switch (ch) { case '\n': r += "\\n"; break; case '\r': r += "\\r"; break; case '\t': r += "\\t"; break; case '"': r += "\\\""; break; case '\\': r += "\\\\"; break; default: if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\x%02x", ch); r += b; } else r += (char)ch; }
    return r + "\"";
}
S show(const Rows &r) {
    S s;
    for (auto &row : r) { s += "["; for (size_t i = 0; i < row.size(); i++) s += (i ? "|" : "") + show(row[i]); s += "]"; }
    return s.empty() ? "no rows" : s;
}
// The dialect, written as a recursive reader of records. false: the text ends inside a quoted field or an escape.
struct Ref {
    const Dialect &d;
    const S &t;
    size_t i = 0;
    Rows rows;
    bool vague = false; // reads differently depending on an undocumented detail
    bool eol(size_t k) const { return k < t.size() && (d.term ? t[k] == d.term : t[k] == '\n' || t[k] == '\r'); }
    static bool blank(char c) { return c == ' ' || c == '\t'; }
    bool isdelim(size_t k) const { return k < t.size() && (d.ws ? blank(t[k]) : t[k] == d.delim); }
    bool is(size_t k, char c) const { return c && k < t.size() && t[k] == c; }
    void take_eol() { if (i >= t.size()) return; if (!d.term && t[i] == '\r' && i + 1 < t.size() && t[i + 1] == '\n') i++; i++; }
    bool end(size_t k) const { return k >= t.size() || eol(k); }
    void blanks() { while (i < t.size() && blank(t[i])) i++; }
    void drop_line() { while (!end(i)) i++; take_eol(); }
    bool field(S &f) {
        if (!d.ws && d.skip_space) while (i < t.size() && t[i] == ' ' && t[i] != d.term && t[i] != d.quote) i++;
        if (end(i)) return true;
        if (is(i, d.quote)) {
            for (i++;;) {
                if (i >= t.size()) return false;
                if (is(i, d.esc)) { if (++i >= t.size()) return false; f += t[i++]; }
                else if (is(i, d.quote)) {
                    i++;
                    if (!d.dbl) break;
                    if (is(i, d.quote)) { f += t[i++]; continue; }
                    if (!end(i) && !isdelim(i)) f += t[i++]; // what follows a closing quote is literal text
                    break;
                } else f += t[i++];
            }
        }
        while (!end(i) && !isdelim(i) && !is(i, d.comment)) {
            if (is(i, d.esc)) { if (++i >= t.size()) return false; }
            f += t[i++];
        }
        return true;
    }
    void row(std::vector<S> r) {
        if (!rows.empty()) while (r.size() < rows.back().size()) r.push_back("");
        rows.push_back(std::move(r));
    }
    bool read() {
        if (t.compare(0, 3, "\xef\xbb\xbf") == 0) i = 3;
        for (int line = 0; i < t.size(); line++) {
            bool skip = line < d.row_start;
            for (int k : d.skip) skip |= k == line;
            if (skip) { // a skipped record: only its quoting matters
                for (bool start = true; !end(i);) {
                    if (is(i, d.comment) || is(i, d.esc)) vague = true; // whether these hide a quote or a line end here is not documented
                    if (start && is(i, d.quote)) {
                        for (i++; i < t.size(); i++) { if (is(i, d.esc)) vague = true; if (is(i, d.quote)) { if (d.dbl && is(i + 1, d.quote)) i++; else break; } }
                        if (i < t.size()) i++;
                        start = false;
                    } else { start = isdelim(i); i++; if (start && d.skip_space && is(i, ' ')) vague = true; }
                }
                take_eol();
                continue;
            }
            if (end(i)) { if (!d.skip_empty) row({}); take_eol(); continue; }
            if (is(i, d.comment)) { drop_line(); continue; }
            std::vector<S> r;
            if (d.ws) {
                size_t from = i;
                blanks();
                if (end(i) && i > from) { if (!d.skip_empty) row({}); take_eol(); continue; }
                while (!end(i) && !is(i, d.comment)) {
                    r.emplace_back();
                    if (!field(r.back())) return false;
                    blanks();
                }
            } else {
                size_t k = i;
                while (k < t.size() && blank(t[k]) && t[k] != d.delim && !eol(k)) k++;
                if (d.skip_empty && end(k)) { i = k; take_eol(); continue; }
                for (;;) {
                    r.emplace_back();
                    if (!field(r.back())) return false;
                    if (!isdelim(i)) break;
                    i++;
                }
            }
            row(r);
            drop_line(); // a comment, if any
        }
        return true;
    }
};
// a parser whose bytes arrive in pieces of our choosing
struct Source { const S *t; std::vector<size_t> cuts; size_t next = 0, piece = 0; };
void *feed(void *src, size_t, size_t *n, int *status, const char *) {
    Source *s = (Source *)src;
    size_t to = s->piece < s->cuts.size() ? s->cuts[s->piece++] : s->t->size();
    *n = to - s->next;
    *status = *n ? 0 : REACHED_EOF;
    char *b = (char *)malloc(*n); // exactly as large as the piece, so that reading past it is seen
    if (*n) memcpy(b, s->t->data() + s->next, *n);
    s->next = to;
    return b ? b : malloc(1);
}
struct Parser {
    parser_t *p = nullptr;
    Parser() { if (da_csv::da_parser_init(&p)) abort(); p->cb_io = feed; p->cb_cleanup = nullptr; }
    ~Parser() { da_csv::da_parser_destroy(&p); }
    void dialect(const Dialect &d) {
        p->delimiter = d.delim; p->delim_whitespace = d.ws; p->quotechar = d.quote; p->escapechar = d.esc; p->commentchar = d.comment; p->lineterminator = d.term;
        p->doublequote = d.dbl; p->skip_empty_lines = d.skip_empty; p->skipinitialspace = d.skip_space; p->skip_first_N_rows = d.row_start - 1;
        if (p->skipset) { kh_destroy_int64((kh_int64_t *)p->skipset); p->skipset = nullptr; }
        for (int k : d.skip) parser_add_skiprow(p, k);
    }
    bool run(const S &t, const std::vector<size_t> &cuts, Rows &r) {
        Source s{&t, cuts};
        if (parser_reset(p)) abort();
        p->source = &s;
        int st = tokenize_all_rows(p, nullptr);
        r.clear();
        if (st == 0) for (uint64_t i = 0; i < p->lines; i++) {
            r.emplace_back();
            for (int64_t j = p->line_start[i]; j < p->line_start[i] + p->line_fields[i]; j++) r.back().push_back(p->words[j]);
        }
        uint64_t words = 0;
        for (auto &x : r) words += x.size();
        bool odd = st == 0 && words != p->words_len;
        p->source = nullptr;
        if (p->skipped_lines) { kh_destroy_int64((kh_int64_t *)p->skipped_lines); p->skipped_lines = nullptr; }
        if (odd) r.push_back({"(fields outside the rows)"});
        return st == 0;
    }
};
void check(mc::Ctx &c, const Dialect &d, const S &t, int chunks) {
    static thread_local Parser P;
    P.dialect(d);
    Ref ref{d, t};
    bool ok = ref.read();
    if (ref.vague) return;
    auto one = [&](const std::vector<size_t> &cuts, const char *how) {
        Rows got;
        bool g = P.run(t, cuts, got);
        c.op();
        if (g != ok) c.fail(g ? "csv:accepted" : "csv:refused", "%s: the text %s with %s is %s but must be %s", how, show(t).c_str(), d.str().c_str(), g ? ("read as " + show(got)).c_str() : "refused", ok ? ("read as " + show(ref.rows)).c_str() : "refused");
        if (ok && got != ref.rows) c.fail("csv:rows", "%s: the text %s with %s is read as %s, must be %s", how, show(t).c_str(), d.str().c_str(), show(got).c_str(), show(ref.rows).c_str());
    };
    one({}, "in one piece");
    bool bom = !t.empty() && t[0] == '\xef';
    if (t.size() < 2) return;
    if (chunks >= 1 && !bom) {
        std::vector<size_t> b;
        for (size_t k = 1; k <= t.size(); k++) b.push_back(k);
        one(b, "byte by byte");
    }
    // (pieces are 256 KiB, so a byte order mark never arrives alone)
    if (chunks >= 2) for (size_t k = bom ? 4 : 1; k < t.size(); k++) one({k}, "in two pieces");
    if (ok) c.out(ref.rows.size());
}
// every text of up to `len` characters over an alphabet, for every setting of a dialect's switches
void texts(mc::Ctx &c, Dialect d, const S &alpha, int len, int chunks, bool skips, const S &head = "") {
    d.dbl = c.choose(2), d.skip_empty = c.choose(2);
    if (!d.ws) d.skip_space = c.choose(2);
    if (skips) switch (c.choose(5)) { case 0: break; case 1: d.row_start = 1; break; case 2: d.skip = {0}; break; case 3: d.skip = {1}; break; case 4: d.row_start = 1; d.skip = {2, 3}; break; }
    S t = head;
    for (int i = 0; i < len; i++) { int k = c.choose(alpha.size() + 1); if (!k) break; t += alpha[k - 1]; }
    check(c, d, t, chunks);
}
// rows of many fields between short ones: how much room the reader must make
void wide(mc::Ctx &c, int parts) {
    Dialect d;
    S t;
    const char *what[] = {",", ",,,,,,", ",,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,", "1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16", "\n", "\n\n\n\n\n\n\n", "\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n", "12345678901234567890123456789012345678901234567890", "#c\n", "\r", "\"\""};
    d.skip_empty = c.choose(2);
    d.esc = c.choose(2) ? '\\' : 0;
    for (int i = 0; i < parts; i++) t += what[c.choose(11)];
    check(c, d, t, 2);
}
// the same through the public interface, from a file, twice with the same store
struct File {
    S path;
    File() { char b[64]; snprintf(b, 64, "/tmp/.c05.%d.%p", (int)getpid(), (void *)this); path = b; }
    ~File() { unlink(path.c_str()); }
    void put(const S &t) { FILE *f = fopen(path.c_str(), "wb"); if (!f || fwrite(t.data(), 1, t.size(), f) != t.size()) abort(); fclose(f); }
};
void options(da_datastore st, const Dialect &d, bool header, bool footer, bool rm) {
    auto I = [&](const char *n, da_int v) { if (da_datastore_options_set_int(st, n, v)) abort(); };
    auto T = [&](const char *n, const S &v) { if (da_datastore_options_set_string(st, n, v.c_str())) abort(); };
    T("delimiter", S(1, d.delim)); T("quote character", S(1, d.quote)); T("escape character", d.esc ? S(1, d.esc) : ""); T("comment", d.comment ? S(1, d.comment) : ""); T("line terminator", d.term ? S(1, d.term) : "");
    I("double quote", d.dbl); I("skip empty lines", d.skip_empty); I("skip initial space", d.skip_space); I("whitespace delimiter", d.ws); I("row start", d.row_start);
    S sk;
    for (int k : d.skip) sk += (sk.empty() ? "" : ", ") + std::to_string(k);
    T("skip rows", sk);
    I("use header row", header); I("skip footer", footer); T("storage order", rm ? "row-major" : "column-major");
}
S trim(S s, bool lead) { // string fields are stored without trailing white space
    while (lead && !s.empty() && strchr(" \t\r\n\v\f", s[0])) s.erase(0, 1);
    while (!s.empty() && strchr(" \t\r\n\v\f", s.back())) s.pop_back();
    return s;
}
struct Want { bool ok; Rows rows; std::vector<S> head; };
Want expect(const Dialect &d, const S &t, bool header, bool footer, bool &vague) {
    Ref r{d, t};
    Want w{r.read(), r.rows, {}};
    vague = r.vague;
    if (!w.ok) return w;
    if (footer && !w.rows.empty()) w.rows.pop_back();
    for (auto &x : w.rows) if (x.size() != w.rows[0].size()) { w.ok = false; return w; }
    if (w.rows.empty()) { w.ok = false; return w; }
    if (header) { w.head = w.rows[0]; w.rows.erase(w.rows.begin()); if (w.rows.empty()) { w.ok = false; return w; } }
    for (auto *v : {&w.head}) for (auto &f : *v) f = trim(f, d.skip_space);
    for (auto &x : w.rows) for (auto &f : x) f = trim(f, d.skip_space);
    return w;
}
void read_once(mc::Ctx &c, da_datastore st, const File &f, const Dialect &d, const S &t, bool header, bool footer, bool rm, const char *when) {
    bool vague;
    Want w = expect(d, t, header, footer, vague);
    if (vague) return;
    options(st, d, header, footer, rm);
    char **a = (char **)0x10, **h = nullptr; // whatever the variables held before must not matter
    da_int n = 7, m = 3;
    if (w.ok || !header) a = nullptr;
    da_status s = da_read_csv_string(st, f.path.c_str(), &a, &n, &m, &h);
    c.op();
    auto desc = [&] { return S(when) + ": the text " + show(t) + " with " + d.str() + " header=" + std::to_string(header) + " footer=" + std::to_string(footer) + (rm ? " row" : " column") + "-major"; };
    if (w.ok != (s == da_status_success)) c.fail(w.ok ? "csv:file-refused" : "csv:file-accepted", "%s gives status %d, must be %s", desc().c_str(), (int)s, w.ok ? ("read as " + show(w.rows)).c_str() : "refused");
    if (s) {
        if (s != da_status_parsing_error) c.fail("csv:file-status", "%s gives status %d instead of a parsing error", desc().c_str(), (int)s);
        if (h && m > 0) da_delete_string_array(&h, m);
        return;
    }
    Rows got((size_t)n, std::vector<S>((size_t)m));
    for (da_int i = 0; i < n; i++) for (da_int j = 0; j < m; j++) got[i][j] = a[rm ? i * m + j : j * n + i];
    std::vector<S> gh;
    if (header && h) for (da_int j = 0; j < m; j++) gh.push_back(h[j]);
    if (h && m > 0) da_delete_string_array(&h, m); else free(h);
    if (n * m > 0) da_delete_string_array(&a, n * m); else free(a);
    if (got != w.rows) c.fail("csv:file-rows", "%s is read as %s, must be %s", desc().c_str(), show(got).c_str(), show(w.rows).c_str());
    if (gh != w.head) c.fail("csv:file-headings", "%s has the headings %s, must be %s", desc().c_str(), show(Rows{gh}).c_str(), show(Rows{w.head}).c_str());
}
void files(mc::Ctx &c, const S &alpha, int len) {
    static thread_local File f;
    Dialect d, e;
    d.esc = '\\';
    d.skip_empty = c.choose(2);
    int k = c.choose(5);
    if (k == 1) d.row_start = 1; else if (k == 2) d.skip = {0}; else if (k == 3) d.skip = {1}; else if (k == 4) d.dbl = d.skip_space = true;
    bool header = c.choose(2), footer = c.choose(2), rm = c.choose(2);
    S t;
    for (int i = 0; i < len; i++) { int q = c.choose(alpha.size() + 1); if (!q) break; t += alpha[q - 1]; }
    f.put(t);
    da_datastore st = nullptr;
    if (da_datastore_init(&st)) abort();
    struct G { da_datastore &s; ~G() { da_datastore_destroy(&s); } } g{st};
    read_once(c, st, f, d, t, header, footer, rm, "first reading");
    read_once(c, st, f, e, t, false, false, !rm, "second reading with the same store and the default options");
}
// the reader takes files in pieces of 256 KiB: short texts across that boundary
void boundary(mc::Ctx &c, const S &alpha, int before, int after, bool ws) {
    static thread_local File f;
    Dialect d;
    d.esc = '\\';
    d.ws = ws;
    d.dbl = c.choose(2), d.skip_empty = c.choose(2);
    if (!ws) d.skip_space = c.choose(2);
    S t;
    int at = c.choose(before) + 1, kind = c.choose(2), n = at + 1 + c.choose(after);
    for (int i = 0; i < n; i++) t += alpha[c.choose(alpha.size())];
    const size_t B = 256 * 1024;
    S fill;
    if (kind == 0) fill = "#" + S(B - at - 2, 'x') + "\n"; // a comment line
    else { fill = S(B - at, 'y'); }                       // one long field
    t = fill + t;
    f.put(t);
    Ref ref{d, t};
    bool ok = ref.read();
    if (ref.vague) return;
    static thread_local da_datastore st = nullptr;
    if (!st && da_datastore_init(&st)) abort();
    bool vague;
    Want w = expect(d, t, false, false, vague);
    options(st, d, false, false, true);
    char **a = nullptr;
    da_int nr = 0, m = 0;
    da_status s = da_read_csv_string(st, f.path.c_str(), &a, &nr, &m, nullptr);
    c.op();
    auto tail = [&] { return show(t.substr(fill.size())) + " after " + std::to_string(fill.size()) + " bytes of " + (kind ? "field" : "comment") + " with " + d.str(); };
    if (w.ok != !s) c.fail("csv:boundary-status", "the text %s gives status %d but must be %s", tail().c_str(), (int)s, w.ok ? "read" : "refused");
    if (s) return;
    Rows got((size_t)nr, std::vector<S>((size_t)m));
    for (da_int i = 0; i < nr; i++) for (da_int j = 0; j < m; j++) got[i][j] = a[i * m + j];
    if (nr * m > 0) da_delete_string_array(&a, nr * m); else free(a);
    for (auto *r : {&got, &w.rows}) if (kind && !r->empty() && !(*r)[0].empty()) { S &x = (*r)[0][0]; x = std::to_string(x.size()) + x.substr(x.size() - std::min<size_t>(x.size(), 8)); }
    if (got != w.rows) c.fail("csv:boundary-rows", "the text %s is read as %s, must be %s", tail().c_str(), show(got).c_str(), show(w.rows).c_str());
    (void)ok;
}
void mc::register_all() {
    bool t = thorough(), l = lite();
    int n = t ? 6 : l ? 4 : 5;
    Dialect d, e, w, u, k, tab;
    e.esc = '\\';
    w.ws = true, w.esc = '\\';
    u.term = ';', u.esc = '\\';
    k.delim = ';', k.quote = '\'', k.esc = '!', k.comment = '%';
    tab.delim = '\t';
    add("standard", 4, [=](mc::Ctx &c) { texts(c, e, "1,\"\\# \r\n", n + (t ? 1 : 0), n > 5 ? 1 : 2, false); });
    if (t) add("standard-pieces", 4, [=](mc::Ctx &c) { texts(c, e, "1,\"\\# \r\n", n, 2, false); });
    add("standard-skips", 5, [=](mc::Ctx &c) { texts(c, d, "1,\" \r\n", n, 2, true); });
    add("whitespace", 4, [=](mc::Ctx &c) { texts(c, w, "1 \t\"\\#\r\n", n, 2, true); });
    add("terminator", 4, [=](mc::Ctx &c) { texts(c, u, "1,\";\r\n #", n, 2, true); });
    add("renamed", 4, [=](mc::Ctx &c) { texts(c, k, "1;'!%\n\"", n, 2, false); });
    add("tab", 4, [=](mc::Ctx &c) { texts(c, tab, "1\t \"\r\n#", n, 2, true); });
    add("utf8-mark", 4, [=](mc::Ctx &c) { texts(c, d, "\xef\xbb\xbf" "1,\n", n, 2, false); });
    add("after-mark", 4, [=](mc::Ctx &c) { texts(c, d, "\xef\xbb\xbf" "1\n", n - 2, 2, false, "\xef\xbb\xbf"); });
    add("wide", 4, [=](mc::Ctx &c) { wide(c, t ? 6 : l ? 3 : 4); });
    add("files", 5, [=](mc::Ctx &c) { files(c, "1,\"#\n", t ? 6 : l ? 2 : 4); });
    if (!l || t) {
        add("boundary", 4, [=](mc::Ctx &c) { boundary(c, "1 ,\"\r\n", t ? 3 : 2, 1, false); });
        add("boundary-whitespace", 4, [=](mc::Ctx &c) { boundary(c, "1 \"\r\n", t ? 3 : 2, 1, true); });
        add("boundary-mark", 4, [=](mc::Ctx &c) { boundary(c, "\xef\xbb\xbf" "1", 2, t ? 3 : 2, false); });
    }
}
