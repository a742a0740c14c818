// C06: each CSV field is converted to the number it spells or refused; columns get the narrowest type.
#include "da.hpp"
#include "csv_reader.hpp"
#include "read_csv.hpp"
#include "parser.hpp"
#include <climits>
#include <unistd.h>
typedef std::string S;
typedef long double L;
S show(const S &t) { S r = "\""; for (unsigned char ch : t) if (ch < 33 || ch > 126) { char b[8]; snprintf(b, 8, ch == 32 ? " " : "\\x%02x", ch); r += b; } else r += (char)ch; return r + "\""; }
struct Num { char dec = '.', sep = 0, sci = 'e'; S str() const { return S("decimal=") + (dec ? S(1, dec) : "none") + " thousands=" + (sep ? S(1, sep) : "none") + " scientific=" + (sci ? S(1, sci) : "none"); } };
enum Verdict { Bad, Good, Vague };
bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
bool dg(char c) { return c >= '0' && c <= '9'; }
S strip(const S &t) { size_t a = 0, b = t.size(); while (a < b && sp(t[a])) a++; while (b > a && sp(t[b - 1])) b--; return t.substr(a, b - a); }
// The digits of an integer part with single separators between digits. Separators elsewhere: not documented.
Verdict digits(const S &t, size_t &i, char sep, S &out) {
    Verdict v = Good;
    while (i < t.size() && (dg(t[i]) || (sep && t[i] == sep))) {
        if (dg(t[i])) out += t[i];
        else if (out.empty() || !dg(t[i - 1]) || i + 1 >= t.size() || !dg(t[i + 1])) v = Vague;
        i++;
    }
    return v;
}
// spelled value of an integer field as sign and digits
Verdict ref_int(const S &field, const Num &n, S &norm) {
    S t = strip(field);
    size_t i = 0;
    bool neg = false;
    if (i < t.size() && (t[i] == '-' || t[i] == '+')) neg = t[i++] == '-';
    S d;
    Verdict v = digits(t, i, n.sep, d);
    if (v == Vague) return Vague;
    if (d.empty() || i < t.size()) return Bad;
    norm = (neg ? "-" : "") + d;
    return Good;
}
Verdict ref_real(const S &field, const Num &n, S &norm) {
    S t = strip(field);
    size_t i = 0;
    S sign, d, f, e;
    if (i < t.size() && (t[i] == '-' || t[i] == '+')) { if (t[i] == '-') sign = "-"; i++; }
    Verdict v = digits(t, i, n.sep, d);
    if (v == Vague) return Vague;
    if (n.dec && i < t.size() && t[i] == n.dec) { i++; while (i < t.size() && dg(t[i])) f += t[i++]; if (n.sep && i < t.size() && t[i] == n.sep) return Vague; }
    if (d.empty() && f.empty()) return Bad;
    if (n.sci && i < t.size() && tolower(t[i]) == tolower(n.sci)) {
        i++;
        e = "e";
        if (i < t.size() && (t[i] == '-' || t[i] == '+')) e += t[i++];
        size_t k = i;
        while (i < t.size() && dg(t[i])) e += t[i++];
        if (k == i) return Bad;
    }
    if (i < t.size()) return Bad;
    norm = sign + (d.empty() ? "0" : d) + (f.empty() ? "" : "." + f) + e;
    return Good;
}
struct Parser {
    parser_t *p = nullptr;
    Parser() { if (da_csv::da_parser_init(&p)) abort(); p->cb_cleanup = nullptr; }
    ~Parser() { da_csv::da_parser_destroy(&p); }
    void set(const Num &n) { p->decimal = n.dec; p->thousands = n.sep; p->sci = n.sci; }
};
// runs the conversion on a copy followed by text that must not be read (the next field in the reader's buffer)
template <class T> bool convert(Parser &P, const S &t, T &v) {
    S buf = t;
    buf.push_back('\0');
    buf += "5e5.5";
    std::vector<char> b(buf.begin(), buf.end());
    b.push_back('\0');
    char *end = nullptr;
    return da_csv::char_to_num(P.p, b.data(), &end, &v, nullptr) == da_status_success;
}
template <class T> void check_int(mc::Ctx &c, Parser &P, const S &t, const Num &n) {
    S norm;
    Verdict v = ref_int(t, n, norm);
    if (v == Vague) return;
    // exact value, with everything beyond the type's range refused
    bool ok = v == Good;
    __int128 x = 0;
    if (ok) {
        size_t k = norm[0] == '-';
        for (; k < norm.size(); k++) { x = x * 10 + (norm[k] - '0'); if (x > ((__int128)1 << 70)) x = (__int128)1 << 70; }
        if (norm[0] == '-') x = -x;
        if (x > (__int128)std::numeric_limits<T>::max() || x < (__int128)std::numeric_limits<T>::min()) ok = false;
    }
    T got = 77;
    bool g = convert<T>(P, t, got);
    c.op();
    if (g != ok || (g && (__int128)got != x)) c.fail(ok ? "num:int" : "num:int-accepted", "the field %s read as a %d-bit integer (%s) %s, must be %s", show(t).c_str(), (int)sizeof(T) * 8, n.str().c_str(), g ? ("gives " + std::to_string(got)).c_str() : "is refused", ok ? std::to_string((long long)x).c_str() : "refused");
}
template <class T> void check_real(mc::Ctx &c, Parser &P, const S &t, const Num &n) {
    S norm;
    Verdict v = ref_real(t, n, norm);
    if (v == Vague) return;
    T got = 77;
    bool g = convert<T>(P, t, got);
    c.op();
    const char *ty = sizeof(T) == 8 ? "double" : "float";
    auto bad = [&](const char *key, const S &must) { char b[40]; snprintf(b, 40, "gives %.17g", (double)got); c.fail(key, "the field %s read as a %s (%s) %s, must be %s", show(t).c_str(), ty, n.str().c_str(), g ? b : "is refused", must.c_str()); };
    if (v == Bad) { if (g) bad("num:real-accepted", "refused"); return; }
    L x = strtold(norm.c_str(), nullptr), mx = (L)std::numeric_limits<T>::max();
    L tol = 16 * (L)std::numeric_limits<T>::epsilon() * fabsl(x) + 2 * (L)std::numeric_limits<T>::denorm_min();
    if (fabsl(x) > mx * (1 + 4 * (L)std::numeric_limits<T>::epsilon())) { if (g) bad("num:real-overflow", "refused"); return; }
    if (fabsl(x) > mx * (1 - 16 * (L)std::numeric_limits<T>::epsilon()) && !g) return; // at the very limit either is right
    char b[60];
    snprintf(b, 60, "%.21Lg", x);
    if (!g || !(fabsl((L)got - x) <= tol)) bad("num:real", b);
    if (g && x == 0 && got != 0) bad("num:real", b);
}
void check_bool(mc::Ctx &c, Parser &P, const S &t) {
    S s = strip(t);
    for (auto &ch : s) ch = (char)tolower(ch);
    bool ok = s == "true" || s == "false";
    uint8_t got = 77;
    bool g = convert<uint8_t>(P, t, got);
    c.op();
    if (g != ok || (g && got != (s == "true"))) c.fail("num:bool", "the field %s read as a boolean %s, must be %s", show(t).c_str(), g ? (got ? "is true" : "is false") : "is refused", ok ? s.c_str() : "refused");
}
void all(mc::Ctx &c, const S &t, const Num &n) {
    static thread_local Parser P;
    P.set(n);
    check_int<int32_t>(c, P, t, n);
    check_int<int64_t>(c, P, t, n);
    check_real<double>(c, P, t, n);
    check_real<float>(c, P, t, n);
    check_bool(c, P, t);
}
std::vector<Num> nums() { return {{'.', 0, 'e'}, {',', 0, 'g'}, {'.', ',', 'E'}, {',', '.', 'e'}, {0, 0, 0}, {'.', '_', 0}, {0, '\'', 'd'}}; }
// every short field over an alphabet
void fields(mc::Ctx &c, const S &alpha, int len) {
    static const std::vector<Num> N = nums();
    Num n = N[c.choose(N.size())];
    S t, a = alpha;
    for (int i = 0; i < len; i++) {
        int k = c.choose(a.size() + 4);
        if (!k) break;
        if (k == 1) t += n.dec ? n.dec : '.';
        else if (k == 2) t += n.sep ? n.sep : ',';
        else if (k == 3) t += n.sci ? n.sci : 'e';
        else t += a[k - 4];
    }
    all(c, t, n);
}
// values around the limits of the integer types, however written
void limits(mc::Ctx &c) {
    static const std::vector<Num> N = nums();
    Num n = N[c.choose(N.size())];
    __int128 one = 1, bases[] = {0, 9, 99, one << 24, (one << 31) - 1, one << 31, one << 32, (one << 53), (one << 63) - 1, one << 63, one << 64, (one << 31) * 10, (one << 63) * 10};
    __int128 x = bases[c.choose(13)] + (c.choose(41) - 20);
    bool neg = c.choose(2);
    if (x < 0) x = -x, neg = !neg;
    S d;
    do d = (char)('0' + (int)(x % 10)) + d, x /= 10; while (x);
    d = S(c.choose(3), '0') + d;
    if (n.sep && c.choose(2)) for (int k = (int)d.size() - 3; k > 0; k -= 3) d.insert(k, 1, n.sep);
    S t = (neg ? "-" : c.choose(2) ? "+" : "") + d;
    const char *tails[] = {"", " ", "x", "0", "\t\n"};
    t = (c.choose(2) ? " " : "") + t + tails[c.choose(5)];
    all(c, t, n);
}
// magnitudes: every exponent, digits before and after the point
void magnitudes(mc::Ctx &c, bool th) {
    Num n;
    std::vector<S> mant{"0", "1", "9.99", "1.7976931348623157", "1.7976931348623159", "3.4028234", "3.4028236", "2.2250738585072014", "4.9406564584124654", "1.4012984", "123456789012345678901234567890", "0.000001", "0.00000000000000000000000000000000000000001234567890123456789", "100000000000000000000", "16777217", "9007199254740993", ".5", "5.", "0.1", "0.30000000000000004", "000000000000000000000000000001.5"};
    S t = (c.choose(2) ? "-" : "") + mant[c.choose(mant.size())];
    int span = th ? 700 : 400, e = c.choose(2 * span + 1) - span, form = c.choose(3);
    if (form == 0) t += "e" + std::to_string(e);
    else if (form == 1) t += S("E") + (e < 0 ? "-" : "+") + S(c.choose(2) * 20, '0') + std::to_string(abs(e));
    else { // the same magnitude written out
        if (t.find('.') != S::npos || abs(e) > 400) return;
        if (e >= 0) t += S(e, '0'); else { bool neg = t[0] == '-'; t = (neg ? "-0." : "0.") + S(-e - 1, '0') + t.substr(neg); }
    }
    all(c, t, n);
}
void exponents(mc::Ctx &c) { // exponents too long for any integer
    const char *e[] = {"99999999999", "2147483647", "2147483648", "4294967296", "9223372036854775807", "18446744073709551617", "99999999999999999999999999999", "00000000000000000000000000000001"};
    const char *m[] = {"0", "0.0", "1", "1.5", "-1", "000", "123456789012345678901"};
    all(c, S(m[c.choose(7)]) + (c.choose(2) ? "e-" : "e") + e[c.choose(8)] + (c.choose(2) ? "x" : ""), Num());
}
struct File {
    S path;
    File() { char b[64]; snprintf(b, 64, "/tmp/.c06.%d.%p", (int)getpid(), (void *)this); path = b; }
    ~File() { unlink(path.c_str()); }
    void put(const S &t) { FILE *f = fopen(path.c_str(), "wb"); if (!f || fwrite(t.data(), 1, t.size(), f) != t.size()) abort(); fclose(f); }
};
typedef std::vector<std::vector<S>> Table;
S text(const Table &t, const std::vector<S> *head = nullptr) {
    S r;
    if (head) { for (size_t j = 0; j < head->size(); j++) r += (j ? "," : "") + (*head)[j]; r += "\n"; }
    for (auto &row : t) { for (size_t j = 0; j < row.size(); j++) r += (j ? "," : "") + (row[j].empty() && row.size() == 1 ? S("\"\"") : row[j]); r += "\n"; }
    return r;
}
struct Store {
    da_datastore s = nullptr;
    Store() { if (da_datastore_init(&s)) abort(); }
    ~Store() { da_datastore_destroy(&s); }
    void I(const char *n, da_int v) { if (da_datastore_options_set_int(s, n, v)) abort(); }
    void T(const char *n, const char *v) { if (da_datastore_options_set_string(s, n, v)) abort(); }
};
template <class T> bool value(const S &cell, T &v) { // value of a cell of a plain dialect, or false
    Num n;
    S norm;
    if constexpr (std::is_same_v<T, uint8_t>) { S s = strip(cell); for (auto &ch : s) ch = (char)tolower(ch); v = s == "true"; return s == "true" || s == "false"; }
    else if constexpr (std::is_integral_v<T>) { if (ref_int(cell, n, norm) != Good || norm.size() > 18) return false; long long x = atoll(norm.c_str()); v = (T)x; return x >= std::numeric_limits<T>::min() && x <= std::numeric_limits<T>::max(); }
    else { if (ref_real(cell, n, norm) != Good) return false; L x = strtold(norm.c_str(), nullptr); v = (T)x; return !std::isinf(v); }
}
template <class T> bool same(T a, T b) { if constexpr (std::is_floating_point_v<T>) return (std::isnan(a) && std::isnan(b)) || fabsl((L)a - (L)b) <= 8 * (L)std::numeric_limits<T>::epsilon() * fabsl((L)b); else return a == b; }
template <class T> T missing() { if constexpr (std::is_floating_point_v<T>) return std::numeric_limits<T>::quiet_NaN(); else return std::numeric_limits<T>::max(); }
template <class T> da_status extract(da_datastore s, da_int j, da_int n, T *v) {
    if constexpr (std::is_same_v<T, da_int>) return da_data_extract_column_int(s, j, n, v);
    else if constexpr (std::is_same_v<T, double>) return da_data_extract_column_real_d(s, j, n, v);
    else if constexpr (std::is_same_v<T, float>) return da_data_extract_column_real_s(s, j, n, v);
    else return da_data_extract_column_uint8(s, j, n, v);
}
// a typed read of a small table, into an array and into a store
template <class T> void typed(mc::Ctx &c, const char *ty, const std::vector<S> &cells, int maxrows) {
    static thread_local File f;
    int n = 1 + c.choose(maxrows), m = 1 + c.choose(2);
    bool warn = c.choose(2), rm = c.choose(2), head = c.choose(2);
    Table t((size_t)n, std::vector<S>((size_t)m));
    for (auto &r : t) for (auto &x : r) x = cells[c.choose(cells.size())];
    std::vector<S> h{"first", "second col"};
    h.resize((size_t)m);
    f.put(text(t, head ? &h : nullptr));
    bool fits = true;
    std::vector<T> want((size_t)(n * m));
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { T v; if (!value<T>(t[i][j], v)) { fits = false; v = missing<T>(); } want[rm ? i * m + j : j * n + i] = v; }
    da_status must = fits ? da_status_success : warn ? da_status_missing_data : da_status_parsing_error;
    auto desc = [&] { return S(ty) + " read of " + show(text(t)) + (warn ? " with" : " without") + " permission for missing data, " + (rm ? "row" : "column") + "-major" + (head ? ", header" : ""); };
    {
        Store s;
        s.I("warn for missing data", warn); s.T("storage order", rm ? "row-major" : "column-major"); s.I("use header row", head);
        T *a = nullptr;
        da_int nr = -1, nc = -1;
        char **hd = nullptr;
        da_status st;
        if constexpr (std::is_same_v<T, da_int>) st = da_read_csv_int(s.s, f.path.c_str(), &a, &nr, &nc, &hd);
        else if constexpr (std::is_same_v<T, double>) st = da_read_csv_d(s.s, f.path.c_str(), &a, &nr, &nc, &hd);
        else if constexpr (std::is_same_v<T, float>) st = da_read_csv_s(s.s, f.path.c_str(), &a, &nr, &nc, &hd);
        else st = da_read_csv_uint8(s.s, f.path.c_str(), &a, &nr, &nc, &hd);
        c.op();
        if (st != must) c.fail("csv:typed-status", "%s gives status %d, must be %d", desc().c_str(), (int)st, (int)must);
        if (must != da_status_parsing_error) {
            if (nr != n || nc != m || !a) c.fail("csv:typed-size", "%s gives %dx%d, must be %dx%d", desc().c_str(), (int)nr, (int)nc, n, m);
            for (size_t k = 0; k < want.size(); k++) if (!same(a[k], want[k])) c.fail("csv:typed-value", "%s: element %d is %g, must be %g", desc().c_str(), (int)k, (double)a[k], (double)want[k]);
            if (head) for (int j = 0; j < m; j++) if (!hd || S(hd[j]) != h[j]) c.fail("csv:typed-heading", "%s: heading %d is wrong", desc().c_str(), j);
        }
        free(a);
        if (hd && nc > 0) da_delete_string_array(&hd, nc);
    }
    {
        Store s;
        s.I("warn for missing data", warn); s.T("storage order", rm ? "row-major" : "column-major"); s.I("use header row", head); s.T("datatype", ty);
        da_status st = da_data_load_from_csv(s.s, f.path.c_str());
        c.op();
        if (st != must) c.fail("csv:store-status", "%s into a store gives status %d, must be %d", desc().c_str(), (int)st, (int)must);
        if (must == da_status_parsing_error) return;
        std::vector<T> col((size_t)n);
        for (int j = 0; j < m; j++) {
            if (extract<T>(s.s, j, n, col.data())) c.fail("csv:store-column", "%s: column %d cannot be extracted", desc().c_str(), j);
            for (int i = 0; i < n; i++) if (!same(col[i], want[rm ? i * m + j : j * n + i])) c.fail("csv:store-value", "%s: element (%d,%d) of the store is %g, must be %g", desc().c_str(), i, j, (double)col[i], (double)want[rm ? i * m + j : j * n + i]);
            if (head) { char lab[50]; da_int sz = 50; if (da_data_get_col_label(s.s, j, &sz, lab) || h[j] != lab) c.fail("csv:store-label", "%s: label %d is wrong", desc().c_str(), j); }
        }
    }
    c.out(must * 10 + n);
}
// detection: every column gets the narrowest type that represents all its fields
void detect(mc::Ctx &c, const std::vector<S> &cells, int n, int m) {
    static thread_local File f;
    bool fp = c.choose(2), dbl = c.choose(2), rm = c.choose(2), head = c.choose(2);
    Table t((size_t)n, std::vector<S>((size_t)m));
    for (auto &r : t) for (auto &x : r) x = cells[c.choose(cells.size())];
    std::vector<S> h{"first", "2", "third"};
    h.resize((size_t)m);
    f.put(text(t, head ? &h : nullptr));
    Store s;
    s.I("integers as floats", fp); s.T("datastore precision", dbl ? "double" : "single"); s.T("storage order", rm ? "row-major" : "column-major"); s.I("use header row", head);
    auto desc = [&] { return "detection in " + show(text(t)) + " (integers as floats=" + std::to_string(fp) + (dbl ? " double" : " single") + (rm ? " row-major" : " column-major") + ")"; };
    da_status st = da_data_load_from_csv(s.s, f.path.c_str());
    c.op();
    if (st) c.fail("detect:status", "%s gives status %d", desc().c_str(), (int)st);
    da_int nr = -1, nc = -1;
    da_data_get_n_rows(s.s, &nr), da_data_get_n_cols(s.s, &nc);
    if (nr != n || nc != m) c.fail("detect:size", "%s gives %dx%d", desc().c_str(), (int)nr, (int)nc);
    for (int j = 0; j < m; j++) {
        bool i_ok = !fp, d_ok = true, b_ok = true;
        std::vector<da_int> iv; std::vector<double> dv; std::vector<float> sv; std::vector<uint8_t> bv;
        for (int i = 0; i < n; i++) {
            da_int a = 0; double d = 0; float g = 0; uint8_t b = 0;
            i_ok &= value<da_int>(t[i][j], a); b_ok &= value<uint8_t>(t[i][j], b);
            if (dbl) d_ok &= value<double>(t[i][j], d); else d_ok &= value<float>(t[i][j], g);
            iv.push_back(a), dv.push_back(d), sv.push_back(g), bv.push_back(b);
        }
        auto wrong = [&](const char *what) { c.fail("detect:column", "%s: column %d must be %s", desc().c_str(), j, what); };
        auto test = [&](auto &want, const char *what) {
            auto got = want;
            if (extract(s.s, j, n, got.data())) wrong(what);
            for (int i = 0; i < n; i++) if (!same(got[i], want[i])) c.fail("detect:value", "%s: element (%d,%d) is %g, must be %g", desc().c_str(), i, j, (double)got[i], (double)want[i]);
        };
        if (i_ok) test(iv, "integers");
        else if (d_ok && dbl) test(dv, "double");
        else if (d_ok) test(sv, "float");
        else if (b_ok) test(bv, "boolean");
        else {
            std::vector<char *> got((size_t)n, nullptr);
            if (da_data_extract_column_str(s.s, j, n, got.data())) wrong("strings");
            for (int i = 0; i < n; i++) { S w = t[i][j]; while (!w.empty() && sp(w.back())) w.pop_back(); if (!got[i] || w != got[i]) c.fail("detect:string", "%s: element (%d,%d) is %s, must be %s", desc().c_str(), i, j, got[i] ? show(got[i]).c_str() : "null", show(w).c_str()); }
        }
        if (head) { char lab[50]; da_int sz = 50; if (da_data_get_col_label(s.s, j, &sz, lab) || h[j] != lab) c.fail("detect:label", "%s: label %d is wrong", desc().c_str(), j); }
    }
    c.out(n * 10 + m);
}
void mc::register_all() {
    bool t = thorough(), l = lite();
    add("fields", 3, [=](mc::Ctx &c) { fields(c, "019-+ x", t ? 6 : l ? 4 : 5); });
    add("limits", 3, limits);
    add("magnitudes", 2, [=](mc::Ctx &c) { magnitudes(c, t); });
    add("exponents", 1, exponents);
    add("booleans", 2, [=](mc::Ctx &c) {
        static thread_local Parser P;
        const char *base[] = {"true", "false", "TRUE", "False", "tRuE", "tru", "fals", "yes", "1", "0", "truefalse", "t", ""}, *pre[] = {"", " ", "x", "-", "\t "}, *post[] = {"", " ", "x", " x", "e", " true", "\t"};
        check_bool(c, P, S(pre[c.choose(5)]) + base[c.choose(13)] + post[c.choose(7)]);
    });
    std::vector<S> iv{"1", "-2147483648", "2147483647", "2147483648", "1.0", "", " 7 ", "x", "1x", "+3"}, rv{"1", "-2.5", "1e3", "", " .5 ", "x", "1.5x", "nan", "1e39", "2020-01-02"}, bv{"true", "FALSE", " True ", "", "1", "truex", "true x", "false"};
    int r = t ? 3 : l ? 1 : 2;
    add("typed-integer", 5, [=](mc::Ctx &c) { typed<da_int>(c, "integer", iv, r); });
    add("typed-double", 5, [=](mc::Ctx &c) { typed<double>(c, "double", rv, r); });
    add("typed-float", 5, [=](mc::Ctx &c) { typed<float>(c, "float", rv, r); });
    add("typed-boolean", 5, [=](mc::Ctx &c) { typed<uint8_t>(c, "boolean", bv, r); });
    std::vector<S> dv{"1", "-7", "2.5", "2147483648", "1e39", "true", "False", "abc", "", "1x", "2020-01-02", " 3", "16777217"};
    add("detect-column", 5, [=](mc::Ctx &c) { int n = 1 + c.choose(t ? 4 : l ? 1 : 3); detect(c, dv, n, 1); });
    if (!l) add("detect-table", 6, [=](mc::Ctx &c) { detect(c, {"1", "2.5", "true", "x"}, 2, 2 + (t ? c.choose(2) : 0)); });
}
