// C03: the datastore against a plain in-memory table, all operation sequences up to a depth.
#include "da.hpp"
#include <climits>
#include <map>
#include <memory>
#include <set>
enum Ty { TI, TD, TS, TB, TC, NTY };
static const char *tyn[] = {"int", "double", "float", "uint8", "string"};
// one value in every type: element k of the run, or missing
struct Val { int k; bool missing; };
static da_int vi(Val v) { return v.missing ? std::numeric_limits<da_int>::max() : v.k; }
template <class T> static T vr(Val v) { return v.missing ? NANV<T>() : (T)(v.k + 0.5); }
static uint8_t vb(Val v) { return v.missing ? 255 : (uint8_t)(v.k % 250); }
static std::string vc(Val v) { return "s" + std::to_string(v.k); }
struct Col { Ty t; std::vector<Val> v; std::string label; };
struct Sel { bool allr = true, allc = true; std::set<int> r, c; bool touched_r = false, touched_c = false; };
struct Table {
    std::vector<Col> col;
    std::vector<int> ends; // last column of each loaded interval
    int m = 0;             // complete rows
    int part = 0, pn = 0;  // columns of the unfinished rows loaded so far, their number
    std::map<std::string, Sel> sel;
    int n() const { return col.size(); }
    std::string show() const {
        std::string s = std::to_string(m) + " rows, columns";
        for (auto &c : col) s += std::string(" ") + tyn[c.t] + (c.label.empty() ? "" : "=" + c.label);
        if (part) s += ", " + std::to_string(pn) + " rows pending from column " + std::to_string(part);
        for (auto &k : sel) {
            s += ", " + k.first + "{rows";
            if (k.second.allr) s += " all"; for (int x : k.second.r) s += " " + std::to_string(x);
            s += "; cols";
            if (k.second.allc) s += " all"; for (int x : k.second.c) s += " " + std::to_string(x);
            s += "}";
        }
        return s;
    }
};
static int counter;
static Val fresh(bool miss) { return Val{++counter, miss}; }
// arrays handed to the library without a copy live as long as the run
struct Arrays {
    std::vector<std::unique_ptr<std::vector<da_int>>> i; std::vector<std::unique_ptr<std::vector<double>>> d;
    std::vector<std::unique_ptr<std::vector<float>>> f; std::vector<std::unique_ptr<std::vector<uint8_t>>> b;
};
struct Store {
    da_datastore s = nullptr;
    Store() { da_datastore_init(&s); }
    ~Store() { if (s) da_datastore_destroy(&s); }
    Store(const Store &) = delete;
};
// load nr x nc values (given by columns) as rows or columns
static da_status load(da_datastore s, Arrays &A, Ty t, const std::vector<std::vector<Val>> &v, int nr, da_order o, bool rows, bool copy) {
    int nc = v.size();
    auto at = [&](int k) { int i = o == row_major ? k / nc : k % nr, j = o == row_major ? k % nc : k / nr; return v[j][i]; };
    int N = nr * nc, cp = copy;
    switch (t) {
    case TI: { auto p = std::make_unique<std::vector<da_int>>(); for (int k = 0; k < N; k++) p->push_back(vi(at(k))); auto q = p->data(); if (!copy) A.i.push_back(std::move(p)); auto st = rows ? da_data_load_row_int(s, nr, nc, q, o, cp) : da_data_load_col_int(s, nr, nc, q, o, cp); return st; }
    case TD: { auto p = std::make_unique<std::vector<double>>(); for (int k = 0; k < N; k++) p->push_back(vr<double>(at(k))); auto q = p->data(); if (!copy) A.d.push_back(std::move(p)); return rows ? da_data_load_row_real_d(s, nr, nc, q, o, cp) : da_data_load_col_real_d(s, nr, nc, q, o, cp); }
    case TS: { auto p = std::make_unique<std::vector<float>>(); for (int k = 0; k < N; k++) p->push_back(vr<float>(at(k))); auto q = p->data(); if (!copy) A.f.push_back(std::move(p)); return rows ? da_data_load_row_real_s(s, nr, nc, q, o, cp) : da_data_load_col_real_s(s, nr, nc, q, o, cp); }
    case TB: { auto p = std::make_unique<std::vector<uint8_t>>(); for (int k = 0; k < N; k++) p->push_back(vb(at(k))); auto q = p->data(); if (!copy) A.b.push_back(std::move(p)); return rows ? da_data_load_row_uint8(s, nr, nc, q, o, cp) : da_data_load_col_uint8(s, nr, nc, q, o, cp); }
    default: {
        std::vector<std::string> st; std::vector<const char *> p;
        for (int k = 0; k < N; k++) st.push_back(vc(at(k)));
        for (auto &x : st) p.push_back(x.c_str());
        return rows ? da_data_load_row_str(s, nr, nc, p.data(), o) : da_data_load_col_str(s, nr, nc, p.data(), o);
    }
    }
}
// ---- observations
template <class T> static Ty tyof() { if constexpr (std::is_same_v<T, da_int>) return TI; else if constexpr (std::is_same_v<T, double>) return TD; else if constexpr (std::is_same_v<T, float>) return TS; else return TB; }
template <class T> static T conv(Val v) { if constexpr (std::is_same_v<T, da_int>) return vi(v); else if constexpr (std::is_same_v<T, uint8_t>) return vb(v); else return vr<T>(v); }
static da_status xcol(da_datastore s, int j, int d, da_int *p) { return da_data_extract_column_int(s, j, d, p); }
static da_status xcol(da_datastore s, int j, int d, double *p) { return da_data_extract_column_real_d(s, j, d, p); }
static da_status xcol(da_datastore s, int j, int d, float *p) { return da_data_extract_column_real_s(s, j, d, p); }
static da_status xcol(da_datastore s, int j, int d, uint8_t *p) { return da_data_extract_column_uint8(s, j, d, p); }
static da_status xsel(da_datastore s, const char *k, da_order o, double *p, da_int l) { return da_data_extract_selection_real_d(s, k, o, p, l); }
static da_status xsel(da_datastore s, const char *k, da_order o, float *p, da_int l) { return da_data_extract_selection_real_s(s, k, o, p, l); }
static da_status xsel(da_datastore s, const char *k, da_order o, uint8_t *p, da_int l) { return da_data_extract_selection_uint8(s, k, o, p, l); }
static da_status xsel(da_datastore s, const char *k, da_order o, da_int *p, da_int l) { return da_data_extract_selection_int(s, k, o, p, l); }
static da_status get1(da_datastore s, int i, int j, da_int *p) { return da_data_get_element_int(s, i, j, p); }
static da_status get1(da_datastore s, int i, int j, double *p) { return da_data_get_element_real_d(s, i, j, p); }
static da_status get1(da_datastore s, int i, int j, float *p) { return da_data_get_element_real_s(s, i, j, p); }
static da_status get1(da_datastore s, int i, int j, uint8_t *p) { return da_data_get_element_uint8(s, i, j, p); }
static da_status set1(da_datastore s, int i, int j, da_int p) { return da_data_set_element_int(s, i, j, p); }
static da_status set1(da_datastore s, int i, int j, double p) { return da_data_set_element_real_d(s, i, j, p); }
static da_status set1(da_datastore s, int i, int j, float p) { return da_data_set_element_real_s(s, i, j, p); }
static da_status set1(da_datastore s, int i, int j, uint8_t p) { return da_data_set_element_uint8(s, i, j, p); }
template <class T> static bool eq(T a, T b) { return a == b || (a != a && b != b); }
static const char *KEYS[] = {"K", "L"};
template <class T> static void see(mc::Ctx &c, da_datastore s, const Table &t, const std::string &log) {
    const T mark = (T)111;
    Ty ty = tyof<T>();
    // columns
    for (int j = -1; j <= t.n(); j++) {
        std::vector<T> v(t.m + t.pn + 2, mark);
        bool legal = j >= 0 && j < t.n() && t.col[j].t == ty && !t.part;
        da_status st = xcol(s, j, t.m, v.data());
        if (legal ? st != da_status_success : st == da_status_success) c.fail("store:column-status", "extracting column %d as %s gave status %d; %s; table: %s", j, tyn[ty], (int)st, log.c_str(), t.show().c_str());
        if (t.part && j >= 0 && j < t.n() && st != da_status_missing_block) c.fail("store:locked", "extracting column %d of a store with unfinished rows gave status %d; %s; table: %s", j, (int)st, log.c_str(), t.show().c_str());
        for (int i = 0; i < (int)v.size(); i++) {
            T want = legal && i < t.m ? conv<T>(t.col[j].v[i]) : mark;
            if (!eq(v[i], want)) c.fail("store:column", "column %d as %s: entry %d is %g, expected %g; %s; table: %s", j, tyn[ty], i, (double)v[i], (double)want, log.c_str(), t.show().c_str());
        }
        // elements
        for (int i = -1; i <= t.m + t.pn; i++) {
            T e = mark;
            bool typed = j >= 0 && j < t.n() && t.col[j].t == ty && i >= 0;
            bool full = typed && i < t.m, pend = typed && i >= t.m && i < t.m + t.pn && j < t.part;
            st = get1(s, i, j, &e);
            if (full ? st != da_status_success : (!pend && st == da_status_success)) c.fail("store:element-status", "reading element (%d,%d) as %s gave status %d; %s; table: %s", i, j, tyn[ty], (int)st, log.c_str(), t.show().c_str());
            T want = st ? mark : conv<T>(t.col[j].v[i]);
            if (!eq(e, want)) c.fail("store:element", "element (%d,%d) as %s is %g, expected %g; %s; table: %s", i, j, tyn[ty], (double)e, (double)want, log.c_str(), t.show().c_str());
        }
    }
    // selections
    for (const char *k : KEYS) for (int o = 0; o < 2; o++) for (int pad = -1; pad < 2; pad++) {
        da_order ord = o ? row_major : column_major;
        auto it = t.sel.find(k);
        Sel x;
        bool known = it != t.sel.end() || t.sel.empty();
        if (it != t.sel.end()) x = it->second;
        std::vector<int> R, C;
        for (int i = 0; i < t.m; i++) if (x.allr || x.r.count(i)) R.push_back(i);
        for (int j = 0; j < t.n(); j++) if (x.allc || x.c.count(j)) C.push_back(j);
        bool legal = known && !t.part && R.size() && C.size() && pad >= 0;
        for (int j : C) if (t.col[j].t != ty) legal = false;
        int ld = (o ? C.size() : R.size()) + pad, lines = (o ? R.size() : C.size());
        std::vector<T> v((size_t)std::max(ld, 1) * lines + 3, mark), w(v);
        da_status st = xsel(s, k, ord, v.data(), (da_int)ld);
        da_status want = it == t.sel.end() ? da_status_full_extraction : da_status_success;
        if (legal ? st != want : (st == da_status_success || st == da_status_full_extraction)) c.fail("store:selection-status", "extracting selection %s (%zu x %zu, ld %d, %s) as %s gave status %d; %s; table: %s", k, R.size(), C.size(), ld, ordn(ord), tyn[ty], (int)st, log.c_str(), t.show().c_str());
        if (legal) for (size_t a = 0; a < R.size(); a++) for (size_t b = 0; b < C.size(); b++) w[o ? a * ld + b : b * ld + a] = conv<T>(t.col[C[b]].v[R[a]]);
        for (size_t q = 0; q < v.size(); q++) if (!eq(v[q], w[q])) c.fail("store:selection", "selection %s (%zu x %zu, ld %d, %s) as %s: entry %zu is %g, expected %g (status %d); %s; table: %s", k, R.size(), C.size(), ld, ordn(ord), tyn[ty], q, (double)v[q], (double)w[q], (int)st, log.c_str(), t.show().c_str());
    }
}
static void observe(mc::Ctx &c, da_datastore s, const Table &t, const std::string &log) {
    da_int n = -1, m = -1;
    da_data_get_n_rows(s, &m); da_data_get_n_cols(s, &n);
    if (n != t.n() || (m != t.m && m != t.m + t.pn)) c.fail("store:size", "%d x %d reported; %s; table: %s", (int)m, (int)n, log.c_str(), t.show().c_str());
    see<da_int>(c, s, t, log); see<double>(c, s, t, log); see<uint8_t>(c, s, t, log); see<float>(c, s, t, log);
    for (int j = 0; j < t.n(); j++) if (!t.part && t.col[j].t == TC) {
        std::vector<char *> v(t.m, nullptr);
        if (da_data_extract_column_str(s, j, t.m, v.data())) c.fail("store:column-status", "string column %d refused; %s; table: %s", j, log.c_str(), t.show().c_str());
        for (int i = 0; i < t.m; i++) if (!v[i] || vc(t.col[j].v[i]) != v[i]) c.fail("store:column", "string column %d entry %d is '%s'; %s; table: %s", j, i, v[i] ? v[i] : "null", log.c_str(), t.show().c_str());
    }
    for (int j = -1; j <= t.n(); j++) {
        char b[8] = "#######"; da_int z = 1;
        bool in = j >= 0 && j < t.n();
        da_int z0 = z;
        da_status st = da_data_get_col_label(s, j, &z, b);
        std::string want = in ? t.col[j].label : "";
        if (in && !want.empty()) {
            if (!st || z != (da_int)want.size() + 1 || b[0] != '#') c.fail("store:label-size", "label of column %d into one byte: status %d size %d; %s; table: %s", j, (int)st, (int)z, log.c_str(), t.show().c_str());
            st = da_data_get_col_label(s, j, &z, b);
        }
        (void)z0;
        if (in ? (st || want != b || b[want.size() + 1] != '#') : !st) c.fail("store:label", "label of column %d: status %d '%.7s', expected '%s'; %s; table: %s", j, (int)st, b, want.c_str(), log.c_str(), t.show().c_str());
    }
    for (const char *l : {"a", "bb"}) {
        da_int j = -5; bool any = false;
        for (auto &x : t.col) any |= x.label == l;
        da_status st = da_data_get_col_idx(s, l, &j);
        if (any ? st || j < 0 || j >= t.n() || t.col[j].label != l : !st || j != -5) c.fail("store:label-index", "column labelled %s: status %d index %d; %s; table: %s", l, (int)st, (int)j, log.c_str(), t.show().c_str());
    }
}
// missing pattern of a new block: none, the first entry, everything in its last row
static std::vector<std::vector<Val>> block(int nr, int nc, int miss) {
    std::vector<std::vector<Val>> v(nc);
    for (int j = 0; j < nc; j++) for (int i = 0; i < nr; i++) v[j].push_back(fresh(miss == 1 ? i + j == 0 : miss == 2 && i == nr - 1));
    return v;
}
struct World {
    mc::Ctx &c; Store s; Arrays A; Table t; std::string log;
    std::vector<std::unique_ptr<Store>> dead;
    explicit World(mc::Ctx &c_) : c(c_) { counter = 0; }
    void say(const char *f, ...) { char b[200]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); log += log.empty() ? b : std::string("; ") + b; }
    void bad(const char *key, da_status st) { c.fail(key, "status %d from the last of: %s; table: %s", (int)st, log.c_str(), t.show().c_str()); }
    void cols(Ty ty, int nr, int nc, int miss, da_order o, bool copy) { // as columns
        auto v = block(nr, nc, miss);
        say("load_col %s %dx%d %s", tyn[ty], nr, nc, ordn(o)); c.op();
        bool ok = !t.part && (t.n() == 0 || t.m == nr);
        da_status st = load(s.s, A, ty, v, nr, o, false, copy);
        if (ok != (st == da_status_success)) bad("store:load-col", st);
        if (ok) addcols(ty, v, nr);
    }
    void addcols(Ty ty, const std::vector<std::vector<Val>> &v, int nr) {
        for (auto &x : v) t.col.push_back(Col{ty, x, ""});
        t.ends.push_back(t.n() - 1); t.m = nr;
    }
    void rows(Ty ty, int nr, int nc, int miss, da_order o, bool copy) {
        auto v = block(nr, nc, miss);
        say("load_row %s %dx%d %s", tyn[ty], nr, nc, ordn(o)); c.op();
        da_status st = load(s.s, A, ty, v, nr, o, true, copy);
        if (t.n() == 0) { if (st) bad("store:load-row", st); addcols(ty, v, nr); return; }
        int a = t.part, e = a + nc - 1;
        bool types = e < t.n();
        for (int j = a; types && j <= e; j++) types = t.col[j].t == ty;
        bool edge = std::count(t.ends.begin(), t.ends.end(), e) > 0;
        bool run = e + 1 == t.n() || (types && t.col[e + 1].t != ty);
        bool must = types && (run && edge) && (!t.part || nr == t.pn), may = types && edge && (!t.part || nr == t.pn);
        if (must ? st != da_status_success : !may && st == da_status_success) bad("store:load-row", st);
        if (st) return;
        for (int j = 0; j < nc; j++) for (auto &x : v[j]) t.col[a + j].v.push_back(x);
        if (e + 1 == t.n()) { t.m += nr; t.part = t.pn = 0; } else { t.part = e + 1; t.pn = nr; }
    }
    void hconcat(int kind, Ty ty, int nr) { // with another store of one or two row blocks, with itself
        c.op();
        if (kind == 3) { say("hconcat self"); da_datastore h = s.s; da_status st = da_data_hconcat(&s.s, &s.s); if (!st || s.s != h) { s.s = h; bad("store:hconcat", st); } return; }
        Store q; Table u;
        auto add = [&](Ty y, int r, int w) { auto v = block(r, w, 0); load(q.s, A, y, v, r, column_major, false, true); for (auto &x : v) u.col.push_back(Col{y, x, ""}); u.ends.push_back(u.n() - 1); u.m = r; };
        if (kind != 2) {
            int first = kind == 1 && nr > 1 ? nr - 1 : nr;
            add(ty, first, 1); add(TI, first, 2);
            da_data_label_column(q.s, "bb", 2); u.col[2].label = "bb";
            if (first < nr) {
                auto v = block(1, ty == TI ? 3 : 1, 0); load(q.s, A, ty, v, 1, row_major, true, true);
                for (size_t j = 0; j < v.size(); j++) u.col[j].v.push_back(v[j][0]);
                if (ty != TI) { v = block(1, 2, 0); load(q.s, A, TI, v, 1, row_major, true, true); for (size_t j = 0; j < 2; j++) u.col[j + 1].v.push_back(v[j][0]); }
                u.m = nr;
            }
        }
        say("hconcat with %d rows", u.m);
        bool ok = !t.part && t.m == u.m;
        da_status st = da_data_hconcat(&s.s, &q.s);
        if (ok != (st == da_status_success)) bad("store:hconcat", st);
        if (ok && q.s) c.fail("store:hconcat", "the second store remains");
        if (!ok && q.s) { auto l = log; log += " (the refused store)"; observe(c, q.s, u, log); log = l; }
        if (ok) { for (int e : u.ends) t.ends.push_back(t.n() + e); for (auto &x : u.col) t.col.push_back(x); }
    }
    void label(int j, const char *l) { c.op(); say("label %d %s", j, l); da_status st = da_data_label_column(s.s, l, j); bool ok = j >= 0 && j < t.n(); if (ok != !st) bad("store:label", st); if (ok) t.col[j].label = l; }
    template <class T> void set(int i, int j) {
        c.op(); Val v = fresh(false); say("set (%d,%d) %s", i, j, tyn[tyof<T>()]);
        da_status st = set1(s.s, i, j, conv<T>(v));
        bool typed = i >= 0 && j >= 0 && j < t.n() && t.col[j].t == tyof<T>(), full = typed && i < t.m, pend = typed && i >= t.m && i < t.m + t.pn && j < t.part;
        if (full ? st != da_status_success : !pend && st == da_status_success) bad("store:set", st);
        if (!st) t.col[j].v[i] = v;
    }
    // kind: 0 rows 1 columns 2 both; add or remove
    void select(const char *k, int kind, int l, int u, bool remove) {
        c.op(); say("%s %s %s [%d,%d]", remove ? "remove" : "select", k, kind == 0 ? "rows" : kind == 1 ? "columns" : "slice", l, u);
        int l2 = std::max(0, l - 1), u2 = std::max(0, u - 1);
        da_status st = remove ? (kind == 0 ? da_data_select_remove_rows(s.s, k, l, u) : da_data_select_remove_columns(s.s, k, l, u))
                       : kind == 0 ? da_data_select_rows(s.s, k, l, u) : kind == 1 ? da_data_select_columns(s.s, k, l, u) : da_data_select_slice(s.s, k, l, u, l2, u2);
        bool ok = !t.part && l >= 0 && u >= l && u < (kind == 1 ? t.n() : t.m);
        if (kind == 2) ok = ok && u2 >= l2 && u2 < t.n();
        if (remove && !t.sel.count(k)) ok = false;
        if (ok != !st) bad("store:select", st);
        if (t.part && st != da_status_missing_block) bad("store:locked", st);
        if (!ok) return;
        Sel &x = t.sel[k];
        if (remove) {
            if (kind == 0) { if (!x.allr) for (int i = l; i <= u; i++) x.r.erase(i); }
            else if (!x.allc) for (int i = l; i <= u; i++) x.c.erase(i);
            return;
        }
        if (kind != 1) { x.allr = false; for (int i = l; i <= u; i++) x.r.insert(i); }
        if (kind == 1) { x.allc = false; for (int i = l; i <= u; i++) x.c.insert(i); }
        if (kind == 2) { x.allc = false; for (int i = l2; i <= u2; i++) x.c.insert(i); }
    }
    void nonmissing(const char *k, bool full) {
        c.op(); say("non_missing %s %d", k, (int)full);
        da_status st = da_data_select_non_missing(s.s, k, full);
        bool ok = !t.part && (t.n() > 0 || t.sel.count(k));
        if (ok != !st) bad("store:nonmissing", st);
        if (!ok) return;
        Sel &x = t.sel[k];
        if (x.allr) { x.allr = false; for (int i = 0; i < t.m; i++) x.r.insert(i); }
        for (int i = 0; i < t.m; i++) {
            bool miss = false;
            for (int j = 0; j < t.n(); j++) if (full || x.allc || x.c.count(j)) miss |= t.col[j].t != TC && t.col[j].v[i].missing;
            if (miss) x.r.erase(i);
        }
    }
};
// the tables the sequences start from
static void start(World &w, int k) {
    switch (k) {
    case 0: break;
    case 1: w.cols(TI, 2, 2, 1, column_major, true); break;
    case 2: w.cols(TI, 2, 1, 0, row_major, false); w.cols(TI, 2, 2, 2, row_major, true); w.cols(TD, 2, 1, 1, column_major, true); break;
    case 3: w.rows(TD, 1, 3, 0, row_major, true); w.rows(TD, 2, 3, 2, column_major, false); w.cols(TB, 3, 1, 0, column_major, true); break;
    case 4: w.cols(TC, 2, 1, 0, column_major, true); w.cols(TS, 2, 2, 1, row_major, true); break;
    case 5: w.cols(TI, 1, 2, 0, row_major, true); w.cols(TI, 1, 1, 0, row_major, true); w.rows(TI, 1, 3, 1, row_major, true); w.rows(TI, 2, 2, 0, column_major, true); w.rows(TI, 2, 1, 0, column_major, true); break;
    default: w.cols(TI, 1, 1, 0, row_major, true); w.cols(TD, 1, 1, 0, row_major, true); w.rows(TI, 2, 1, 2, row_major, true); break; // left unfinished
    }
}
void mc::register_all() {
    // loading, joining, labelling and editing
    for (int slim = 0; slim < 2; slim++) mc::add(slim ? "structure in depth" : "structure", 2, [slim](mc::Ctx &c) {
        World w(c);
        start(w, c.choose(7, "start"));
        int depth = (mc::thorough() ? 3 : 2) + (slim && !mc::lite()) - (!slim && mc::lite());
        for (int step = 0; step < depth; step++) {
            bool last = step == depth - 1;
            // the deeper exploration takes every kind of step with fewer arguments
            auto ch = [&](int n, int fewer) { return c.choose(slim ? fewer : n); };
            switch (c.choose(7, "op")) {
            case 0: { Ty t = Ty(ch(NTY, 2)); int nr = w.t.m ? w.t.m + (ch(2, 1)) : 1; w.cols(t, nr, 1 + ch(2, 2), last, ch(2, 1) ? row_major : column_major, t != TD); break; }
            case 1: { Ty t = Ty(ch(NTY, 2)); int nc = 1 + ch(4, 3); int nr = 1 + ch(2, 2); w.rows(t, nr, nc, last, nc % 2 ? row_major : column_major, t != TI); break; }
            case 2: { int k = ch(4, 2); w.hconcat(k, Ty(ch(k < 2 ? 2 : 1, 1)), k == 2 ? 0 : std::max(1, w.t.m + ch(k < 2 ? 2 : 1, 1))); break; }
            case 3: w.label(slim ? 2 * c.choose(2) : c.choose(4), c.choose(2) ? "a" : "bb"); break;
            case 4: { int i = ch(3, 1), j = ch(3, 2); if (ch(2, 1)) w.set<double>(i, j); else w.set<da_int>(i, j); break; }
            case 5: { int j = ch(3, 2); w.select("K", c.choose(2), j == 2, 1 + (j == 1), false); break; }
            default: w.nonmissing("K", c.choose(2)); break;
            }
            if (last) observe(c, w.s.s, w.t, w.log);
        }
    });
    // selections over fixed tables
    mc::add("selections", 2, [](mc::Ctx &c) {
        World w(c);
        start(w, 1 + c.choose(6, "start"));
        int depth = mc::thorough() ? 4 : mc::lite() ? 2 : 3;
        bool look = c.choose(2, "look after each step");
        for (int step = 0; step < depth; step++) {
            const char *k = KEYS[mc::lite() || step == 0 ? 0 : c.choose(2)];
            int op = c.choose(6, "op");
            switch (op) {
            case 0: case 1: case 2: case 3: case 4: { int r = c.choose(4); w.select(k, op % 3, r == 3 ? 2 : r / 2, r == 3 ? 2 : r == 0 ? 0 : 1 + (r == 2 && op == 1), op >= 3); break; }
            default: w.nonmissing(k, c.choose(2)); break;
            }
            if (look || step == depth - 1) observe(c, w.s.s, w.t, w.log);
        }
    });
    // wide tables split into many selected pieces
    mc::add("pieces", 1, [](mc::Ctx &c) {
        World w(c);
        int cm = c.choose(63) + 1, rm = c.choose(15) + 1, form = c.choose(4);
        if (form == 0) w.cols(TI, 4, 6, 0, row_major, true);
        if (form == 1) { w.cols(TI, 4, 2, 0, column_major, true); w.cols(TI, 4, 1, 0, row_major, true); w.cols(TI, 4, 3, 0, row_major, true); }
        if (form == 2) { w.rows(TI, 1, 6, 0, row_major, true); w.rows(TI, 2, 6, 0, column_major, true); w.rows(TI, 1, 6, 0, row_major, false); }
        if (form == 3) { w.cols(TI, 1, 2, 0, row_major, true); w.cols(TI, 1, 4, 0, row_major, true); w.rows(TI, 1, 6, 0, column_major, true); w.rows(TI, 1, 2, 0, row_major, true); w.rows(TI, 1, 4, 0, row_major, true); w.rows(TI, 1, 6, 0, column_major, true); }
        for (int j = 0; j < 6; j++) if (cm >> j & 1) w.select("K", 1, j, j, false);
        for (int i = 0; i < 4; i++) if (rm >> i & 1) w.select("K", 0, i, i, false);
        see<da_int>(c, w.s.s, w.t, w.log);
    });
}
