// C01: the documented option tables of every handle kind and of the datastore, enumerated through the public setters and getters.
#include "da.hpp"
#include <climits>
#include <cfloat>
#include <map>
struct Row { int kind; const char *name; char type; double def; const char *sdef; double lo; int lt; double hi; int ut; std::vector<const char *> labels; };
static const std::vector<Row> ROWS = {
#include "options.inc"
};
static const int KINDS[] = {da_handle_linmod, da_handle_pca, da_handle_kmeans, da_handle_dbscan, da_handle_decision_tree, da_handle_decision_forest, da_handle_nlls, da_handle_nn, da_handle_svm, da_handle_interpolation, da_handle_approx_nn, da_handle_kernel_pca, da_handle_tsne, -1};
static std::vector<int> rows_of(int kind) { std::vector<int> r; for (size_t i = 0; i < ROWS.size(); i++) if (ROWS[i].kind == kind) r.push_back(i); return r; }
static const da_int IMAX = std::numeric_limits<da_int>::max(), IMIN = std::numeric_limits<da_int>::min();
// a handle or a datastore
template <class T> struct Obj {
    int kind; da_handle h = nullptr; da_datastore s = nullptr;
    explicit Obj(mc::Ctx &c, int k) : kind(k) {
        da_status st = k < 0 ? da_datastore_init(&s) : da_handle_init<T>(&h, da_handle_type(k));
        if (st) c.fail("option:init", "initialising kind %d gave status %d", k, (int)st);
    }
    ~Obj() { if (h) da_handle_destroy(&h); if (s) da_datastore_destroy(&s); }
    Obj(const Obj &) = delete;
    da_status seti(const char *o, da_int v) { return s ? da_datastore_options_set_int(s, o, v) : da_options_set_int(h, o, v); }
    da_status sets(const char *o, const char *v) { return s ? da_datastore_options_set_string(s, o, v) : da_options_set_string(h, o, v); }
    da_status geti(const char *o, da_int *v) { return s ? da_datastore_options_get_int(s, o, v) : da_options_get_int(h, o, v); }
    da_status gets(const char *o, char *v, da_int *n) { return s ? da_datastore_options_get(s, o, v, n) : da_options_get_string(h, o, v, n); }
    template <class R> da_status setr(const char *o, R v) {
        if constexpr (std::is_same_v<R, double>) return s ? da_datastore_options_set_real_d(s, o, v) : da_options_set_real_d(h, o, v);
        else return s ? da_datastore_options_set_real_s(s, o, v) : da_options_set_real_s(h, o, v);
    }
    template <class R> da_status getr(const char *o, R *v) {
        if constexpr (std::is_same_v<R, double>) return s ? da_datastore_options_get_real_d(s, o, v) : da_options_get_real_d(h, o, v);
        else return s ? da_datastore_options_get_real_s(s, o, v) : da_options_get_real_s(h, o, v);
    }
};
struct Value { da_int i = 0; double r = 0; std::string s; };
static bool operator==(const Value &a, const Value &b) { return a.i == b.i && (a.r == b.r || (a.r != a.r && b.r != b.r)) && a.s == b.s; }
template <class T> static Value read(mc::Ctx &c, Obj<T> &o, const Row &r, const char *name = nullptr) {
    Value v; da_status st;
    const char *n = name ? name : r.name;
    if (r.type == 'i') st = o.geti(n, &v.i);
    else if (r.type == 'r') { T x = 0; st = o.getr(n, &x); v.r = x; }
    else { char b[128]; da_int z = 128; st = o.gets(n, b, &z); if (!st) v.s = b; }
    if (st) c.fail("option:get", "reading documented option '%s' of kind %d gave status %d", n, r.kind, (int)st);
    return v;
}
template <class T> static std::map<int, Value> snapshot(mc::Ctx &c, Obj<T> &o) { std::map<int, Value> m; for (int i : rows_of(o.kind)) m[i] = read(c, o, ROWS[i]); return m; }
template <class T> static void same(mc::Ctx &c, Obj<T> &o, const std::map<int, Value> &want, const std::string &what) {
    for (auto &p : want) {
        Value v = read(c, o, ROWS[p.first]);
        if (!(v == p.second)) c.fail("option:value", "after %s option '%s' of kind %d is %d/%.17g/'%s', expected %d/%.17g/'%s'", what.c_str(), ROWS[p.first].name, o.kind, (int)v.i, v.r, v.s.c_str(), (int)p.second.i, p.second.r, p.second.s.c_str());
    }
}
static std::string norm(const std::string &s) { // trimmed, blanks collapsed, lower case
    std::string r;
    for (char ch : s) {
        if (isspace((unsigned char)ch)) { if (!r.empty() && r.back() != ' ') r += ' '; } else r += (char)tolower(ch);
    }
    while (!r.empty() && r.back() == ' ') r.pop_back();
    return r;
}
template <class T> static bool inside(const Row &r, double v) {
    if (v != v) return !r.lt && !r.ut; // any value is legal without constraints
    if (r.lt == 1 && !(v > (T)r.lo)) return false;
    if (r.lt == 2 && !(v >= (T)r.lo)) return false;
    if (r.ut == 1 && !(v < (T)r.hi)) return false;
    if (r.ut == 2 && !(v <= (T)r.hi)) return false;
    return true;
}
// candidate values of a row: at and around each bound, the extremes, the labels and near misses of labels
template <class T> static std::vector<Value> candidates(const Row &r, bool few) {
    std::vector<Value> out;
    auto I = [&](da_int v) { Value x; x.i = v; out.push_back(x); };
    auto R = [&](double v) { Value x; x.r = (T)v; out.push_back(x); };
    auto S = [&](const std::string &v) { Value x; x.s = v; out.push_back(x); };
    if (r.type == 'i') {
        std::vector<da_int> b{0};
        if (r.lt) b.push_back((da_int)r.lo);
        if (r.ut) b.push_back(r.hi >= 2e9 ? IMAX - 1 : (da_int)r.hi);
        for (da_int v : b) { I(v - 1); I(v); I(v + 1); }
        if (!few) { I(IMAX); I(IMIN); I(17); I(-12345); }
    } else if (r.type == 'r') {
        std::vector<T> b;
        if (r.lt) b.push_back((T)r.lo);
        if (r.ut) b.push_back((T)r.hi);
        for (T v : b) { R(v); R(std::nextafter(v, (T)INFINITY)); R(std::nextafter(v, (T)-INFINITY)); }
        if (!few) for (double v : {0.0, 0.5, -0.5, 1.5, 12345.678, -1e30, 1e30, (double)std::numeric_limits<T>::max(), (double)std::numeric_limits<T>::denorm_min(), (double)NAN}) R(v);
        else { R(0.5); R(NAN); }
    } else {
        for (auto l : r.labels) {
            std::string s = l, u, p = "  ";
            S(s);
            for (char ch : s) { u += (char)toupper(ch); p += ch == ' ' ? std::string(" \t ") : std::string(1, ch); }
            if (few) { S(u); continue; }
            S(u); S(p + " "); S("\t" + u + "\n"); S(s + "x"); S(s.substr(0, s.size() - 1)); S(s.substr(1)); S(s + " " + s); S(s + "\v");
            std::string w = s; for (auto &ch : w) if (ch == ' ') ch = '-'; S(w);
            w = s; for (auto &ch : w) if (ch == '-') ch = ' '; S(w);
        }
        S(""); S(few ? "zzz" : " "); if (!few) { S("zzz"); S(";"); S(std::string(100, 'a')); }
    }
    return out;
}
static bool label_of(const Row &r, const std::string &s, std::string &canon) {
    if (r.labels.empty()) { canon = s; return true; } // free text is kept as given
    canon = norm(s);
    for (auto l : r.labels) if (canon == l) return true;
    return false;
}
// apply one value; updates the reference
template <class T> static void apply(mc::Ctx &c, Obj<T> &o, int ri, const Value &v, const char *name, std::map<int, Value> &ref) {
    const Row &r = ROWS[ri];
    c.op();
    da_status st; bool ok; Value want = v; std::string canon;
    if (r.type == 'i') { ok = inside<double>(r, (double)v.i); st = o.seti(name, v.i); }
    else if (r.type == 'r') { ok = inside<T>(r, v.r); st = o.setr(name, (T)v.r); }
    else { ok = label_of(r, v.s, canon); want.s = canon; st = o.sets(name, v.s.c_str()); }
    if (ok ? st != da_status_success : st != da_status_option_invalid_value) c.fail("option:domain", "kind %d: setting '%s' to %d/%.17g/'%s' gave status %d (documented domain %s%g..%g%s)", r.kind, name, (int)v.i, v.r, v.s.c_str(), (int)st, r.lt == 1 ? "(" : "[", r.lt ? r.lo : -INFINITY, r.ut ? r.hi : INFINITY, r.ut == 1 ? ")" : "]");
    if (ok) ref[ri] = want;
}
static const std::vector<std::array<const char *, 4>> SYN = { // option, label, label, must they be alike
    {"storage order", "c", "row-major", "1"}, {"storage order", "f", "column-major", "1"}, {"storage order", "fortran", "column-major", "1"}, {"storage order", "c", "column-major", "0"},
    {"scaling", "no", "none", "1"}, {"scaling", "scale", "scale only", "1"}, {"scaling", "standardise", "standardize", "1"}, {"scaling", "centering", "scale", "0"},
    {"optim method", "chol", "cholesky", "1"}, {"optim method", "lbfgs", "bfgs", "1"}, {"optim method", "lbfgs", "lbfgsb", "1"}, {"optim method", "cg", "sparse_cg", "1"}, {"optim method", "svd", "qr", "0"}, {"optim method", "coord", "cg", "0"},
};
template <class T> static void kinds_body(mc::Ctx &c, void (*f)(mc::Ctx &, Obj<T> &)) {
    int k = KINDS[c.choose(14, "kind")];
    if (rows_of(k).empty()) c.prune();
    Obj<T> o(c, k);
    f(c, o);
}
template <class T> static void domain(mc::Ctx &c, Obj<T> &o) {
    auto rows = rows_of(o.kind);
    int ri = rows[c.choose(rows.size(), "option")];
    const Row &r = ROWS[ri];
    auto ref = snapshot(c, o);
    if (r.type == 'i' && r.def == r.def && ref[ri].i != (da_int)r.def) c.fail("option:default", "'%s' of kind %d starts at %d, documented %g", r.name, r.kind, (int)ref[ri].i, r.def);
    if (r.type == 'r' && r.def == r.def && std::fabs(ref[ri].r - r.def) > 1e-6 * std::fabs(r.def)) c.fail("option:default", "'%s' of kind %d starts at %g, documented %g", r.name, r.kind, ref[ri].r, r.def);
    if (r.type == 's' && ref[ri].s != r.sdef) c.fail("option:default", "'%s' of kind %d starts at '%s', documented '%s'", r.name, r.kind, ref[ri].s.c_str(), r.sdef);
    auto cand = candidates<T>(r, false);
    const Value &v = cand[c.choose(cand.size(), "value")];
    apply(c, o, ri, v, r.name, ref);
    same(c, o, ref, std::string("setting ") + r.name);
}
template <class T> static void names(mc::Ctx &c, Obj<T> &o) {
    auto rows = rows_of(o.kind);
    int ri = rows[c.choose(rows.size(), "option")];
    const Row &r = ROWS[ri];
    auto ref = snapshot(c, o);
    std::string n = r.name, U, P = " \t";
    for (char ch : n) { U += (char)toupper(ch); P += ch == ' ' ? std::string("  \n ") : std::string(1, ch); }
    int k = c.choose(20, "name");
    auto cand = candidates<T>(r, true);
    std::string nm;
    c.op();
    switch (k) {
    case 0: nm = U; break; case 1: nm = P + "  "; break; case 2: nm = " " + U + "\r\n"; break;
    case 3: nm = n + "x"; break; case 4: nm = n.substr(1); break; case 5: nm = n.substr(0, n.size() - 1); break; case 6: nm = ""; break; case 7: nm = n + " " + n; break; case 8: nm = "no such option"; break;
    case 9: { std::string q = n; bool any = false; for (auto &ch : q) if (ch == ' ') { ch = '_'; any = true; } if (!any) c.prune(); nm = q; break; }
    }
    if (k <= 2) {
        for (auto &v : cand) { apply(c, o, ri, v, nm.c_str(), ref); Value x = read(c, o, r, nm.c_str()); if (!(x == ref[ri])) c.fail("option:name", "option '%s' reads differently as '%s'", n.c_str(), nm.c_str()); }
    } else if (k <= 9) {
        for (int i : rows) if (norm(ROWS[i].name) == norm(nm)) c.prune();
        da_int iv = 77; double dv = 77; float fv = 77; char b[4] = "~~~"; da_int z = 4;
        da_status a[] = {o.seti(nm.c_str(), 1), o.setr(nm.c_str(), (T)0.5), o.sets(nm.c_str(), "yes"), o.geti(nm.c_str(), &iv), o.gets(nm.c_str(), b, &z)};
        for (da_status st : a) if (st != da_status_option_not_found) c.fail("option:unknown", "using unknown option '%s' gave status %d", nm.c_str(), (int)st);
        da_status g = std::is_same_v<T, double> ? o.template getr<double>(nm.c_str(), &dv) : o.template getr<float>(nm.c_str(), &fv);
        if (g != da_status_option_not_found || iv != 77 || dv != 77 || fv != 77 || strcmp(b, "~~~") || z != 4) c.fail("option:unknown", "reading unknown option '%s' gave status %d or wrote", nm.c_str(), (int)g);
    } else {
        // the wrong type, the wrong precision, null pointers
        da_int iv = 77; double dv = 77; float fv = 77; char b[4] = "~~~"; da_int z = 4;
        typedef std::conditional_t<std::is_same_v<T, double>, float, double> W;
        W wv = 77; T tv = 77;
        da_status st = da_status_success; bool relevant = true; da_status want = da_status_option_wrong_type;
        const char *nul = nullptr;
        switch (k) {
        case 10: relevant = r.type != 'i'; st = o.seti(r.name, 1); break;
        case 11: relevant = r.type != 'r'; st = o.setr(r.name, (T)1); break;
        case 12: relevant = r.type != 's'; st = o.sets(r.name, "yes"); break;
        case 13: relevant = r.type != 'i'; st = o.geti(r.name, &iv); break;
        case 14: relevant = r.type != 'r'; st = o.getr(r.name, &tv); break;
        case 15: relevant = r.type != 's'; st = o.gets(r.name, b, &z); break;
        case 16: relevant = o.h; want = da_status_wrong_type; st = o.h ? o.template setr<W>(r.name, (W)0.5) : want; break;
        case 17: relevant = o.h; want = da_status_wrong_type; st = o.h ? o.template getr<W>(r.name, &wv) : want; break;
        case 18: want = da_status_invalid_pointer;
            for (da_status x : {o.seti(nul, 1), o.setr(nul, (T)1), o.sets(nul, "yes"), o.sets(r.name, nul), o.geti(nul, &iv), o.geti(r.name, nullptr), o.getr(nul, &tv), o.template getr<T>(r.name, nullptr), o.gets(nul, b, &z), o.gets(r.name, nullptr, &z), o.gets(r.name, b, nullptr)}) if (!x) st = da_status_success; else st = want;
            if (!st) c.fail("option:null", "a null pointer was accepted for '%s'", r.name);
            break;
        default: want = o.s ? da_status_store_not_initialized : da_status_handle_not_initialized;
            st = o.s ? da_datastore_options_set_int(nullptr, r.name, 1) : da_options_set_int(nullptr, r.name, 1);
        }
        if (!relevant && k < 16) c.prune();
        if (relevant && st != want) c.fail("option:refusal", "case %d on '%s' of kind %d gave status %d, expected %d", k, r.name, o.kind, (int)st, (int)want);
        if (iv != 77 || dv != 77 || fv != 77 || strcmp(b, "~~~") || z != 4 || wv != 77 || tv != 77) c.fail("option:refusal", "a refused read of '%s' wrote its output", r.name);
    }
    same(c, o, ref, "using " + nm);
}
template <class T> static void buffers(mc::Ctx &c, Obj<T> &o) {
    auto rows = rows_of(o.kind);
    int ri = rows[c.choose(rows.size(), "option")];
    const Row &r = ROWS[ri];
    if (r.type != 's') c.prune();
    std::vector<std::string> vals; for (auto l : r.labels) vals.push_back(l);
    if (vals.empty()) vals = {"", ";", "abcdefgh"};
    std::string v = vals[c.choose(vals.size(), "value")];
    if (o.sets(r.name, v.c_str())) c.fail("option:domain", "'%s' refused '%s'", r.name, v.c_str());
    int L = (int)v.size(), len = c.choose(L + 5, "length") - 2; // -2 .. n+2
    if (len == -2) len = INT_MIN;
    std::vector<char> b(L + 8, '#');
    da_int z = len, key = -99;
    c.op();
    da_status st = o.s || c.choose(2, "key") ? o.gets(r.name, b.data(), &z) : da_options_get_string_key(o.h, r.name, b.data(), &z, &key);
    bool fits = len > L;
    if (fits ? st != da_status_success || v != b.data() : st != da_status_invalid_input || z != L + 1) c.fail("option:buffer", "reading '%s'='%s' into %d bytes: status %d, size now %d", r.name, v.c_str(), len, (int)st, (int)z);
    for (size_t i = fits ? L + 1 : 0; i < b.size(); i++) if (b[i] != '#') c.fail("option:buffer", "reading '%s'='%s' with length %d wrote byte %zu", r.name, v.c_str(), len, i);
}
template <class T> static void sequences(mc::Ctx &c, Obj<T> &o) {
    auto rows = rows_of(o.kind);
    auto ref = snapshot(c, o);
    int depth = 2;
    for (int s = 0; s < depth; s++) {
        int ri = rows[c.choose(rows.size(), "option")];
        auto cand = candidates<T>(ROWS[ri], true);
        if (!mc::thorough() && s == 0 && cand.size() > 4) cand.resize(4);
        apply(c, o, ri, cand[c.choose(cand.size(), "value")], ROWS[ri].name, ref);
    }
    same(c, o, ref, "a sequence of settings");
}
void mc::register_all() {
    mc::add("domain", 2, [](mc::Ctx &c) { if (c.choose(2, "single")) kinds_body<float>(c, domain<float>); else kinds_body<double>(c, domain<double>); });
    mc::add("names", 2, [](mc::Ctx &c) { if (c.choose(2, "single")) kinds_body<float>(c, names<float>); else kinds_body<double>(c, names<double>); });
    mc::add("buffers", 2, [](mc::Ctx &c) { if (c.choose(2, "single")) kinds_body<float>(c, buffers<float>); else kinds_body<double>(c, buffers<double>); });
    mc::add("sequences", 2, [](mc::Ctx &c) { if (!mc::lite() && c.choose(2, "single")) kinds_body<float>(c, sequences<float>); else kinds_body<double>(c, sequences<double>); });
    // synonyms share the key the algorithms branch on
    mc::add("synonyms", 1, [](mc::Ctx &c) {
        int k = KINDS[c.choose(13)];
        auto &p = SYN[c.choose(SYN.size())];
        Obj<double> o(c, k);
        for (int i : rows_of(k)) if (!strcmp(ROWS[i].name, p[0])) {
            char b[64]; da_int z = 64, a = -7, d = -8;
            da_status s1 = o.sets(p[0], p[1]), s2 = da_options_get_string_key(o.h, p[0], b, &z, &a);
            if (s1) return; // not a label of this kind
            z = 64;
            da_status s3 = o.sets(p[0], p[2]);
            if (s3 && p[3][0] == '0') return; // a label of another kind
            da_status s4 = da_options_get_string_key(o.h, p[0], b, &z, &d);
            if (s2 || s3 || s4 || (a == d) != (p[3][0] == '1')) c.fail("option:synonym", "kind %d option '%s': '%s' is %d and '%s' is %d", k, p[0], p[1], (int)a, p[2], (int)d);
        }
    });
}
