// C24: train/test splitting and shuffled indices.
#include "da.hpp"
#include <omp.h>
template <class T> const char *tn() { return std::is_same_v<T, da_int> ? "int" : sizeof(T) == 8 ? "double" : "float"; }
template <class T> void split_one(mc::Ctx &c, int m, int n, int tr, int te, da_order o, int pad, const std::vector<da_int> &sh, int nt) {
    Mat<T> X(m, n, o, pad), A(tr, n, o, pad), B(te, n, o, 2 * pad);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) X(i, j) = (T)(i * 64 + j + 1);
    Mat<T> X0 = X;
    omp_set_num_threads(nt);
    da_status s = da_train_test_split<T>(o, m, n, X.p(), X.ld, tr, te, sh.empty() ? nullptr : sh.data(), A.p(), A.ld, B.p(), B.ld);
    omp_set_num_threads(1);
    c.op();
    auto desc = [&] { char b[200]; snprintf(b, 200, "%s %s-major m=%d n=%d train=%d test=%d pad=%d threads=%d indices=", tn<T>(), ordn(o), m, n, tr, te, pad, nt); return b + str(sh); };
    if (s) c.fail("split:status", "status %d for %s", (int)s, desc().c_str());
    if (!A.pad_ok() || !B.pad_ok()) c.fail("split:padding", "wrote outside the outputs: %s", desc().c_str());
    if (hvec(X.v) != hvec(X0.v)) c.fail("split:input", "changed its input: %s", desc().c_str());
    for (int i = 0; i < tr + te; i++) {
        int src = sh.empty() ? i : (int)sh[i];
        for (int j = 0; j < n; j++) {
            T got = i < tr ? A(i, j) : B(i - tr, j);
            if (got != X(src, j)) c.fail("split:rows", "%s row %d column %d is %g, must be row %d of the input (%g): %s", i < tr ? "train" : "test", i < tr ? i : i - tr, j, (double)got, src, (double)X(src, j), desc().c_str());
        }
    }
    c.out(tr * 100 + te);
}
// every size, every split, every order in which to take the rows
template <class T> void splits(mc::Ctx &c, int mmax, std::vector<int> ns) {
    int m = 2 + c.choose(mmax - 1);
    int n = c.pick(ns);
    da_order o = c.choose(2) ? row_major : column_major;
    int tr = 1 + c.choose(m - 1), te = 1 + c.choose(m - tr), nt = c.pick({1, 2, 3}), pad = c.choose(2);
    std::vector<da_int> sh;
    if (c.choose(2)) {
        std::vector<da_int> left;
        for (int i = 0; i < m; i++) left.push_back(i);
        for (int i = 0; i < tr + te; i++) { int q = c.choose(left.size()); sh.push_back(left[q]); left.erase(left.begin() + q); }
    }
    split_one<T>(c, m, n, tr, te, o, pad, sh, nt);
}
// sizes around the vector widths
template <class T> void splits_big(mc::Ctx &c, std::vector<int> ms, int nmax) {
    int m = c.pick(ms), n = 1 + c.choose(nmax), tr = 1 + c.choose(m - 1);
    da_order o = c.choose(2) ? row_major : column_major;
    int te = std::max(1, m - tr - c.choose(2)), nt = c.pick({1, 4}), pad = c.choose(2), k = c.choose(4);
    std::vector<da_int> sh;
    if (k) for (int i = 0; i < m; i++) sh.push_back(k == 1 ? m - 1 - i : k == 2 ? (i + m / 2) % m : (i * 7 + 3) % m); // the last may repeat rows
    split_one<T>(c, m, n, tr, te, o, pad, sh, nt);
}
template <class T> void refused(mc::Ctx &c) {
    da_order o = c.choose(2) ? row_major : column_major;
    int m = 4, n = 3;
    Mat<T> X(m, n, o), A(2, n, o), B(2, n, o), A0 = A, B0 = B;
    X.fill((T)1);
    da_int am = c.pick({4, 1, 0, -1}), an = c.pick({3, 0, -1}), tr = c.pick({2, 0, -1, 3, INT32_MAX, INT32_MAX - 1, INT32_MIN}), te = c.pick({2, 0, -1, 3, INT32_MAX, INT32_MIN});
    int lx = c.choose(2), la = c.choose(2), lb = c.choose(2), nul = c.choose(4);
    std::vector<da_int> sh{0, 1, 2, 3};
    bool shn = c.choose(2);
    // when sizes are absurd the leading dimensions of a column-major call could never be right: make them large
    auto ld = [&](int bad, const Mat<T> &M, int want) { return (da_int)(bad ? (o == row_major ? n : want) - 1 : o == row_major ? M.ld : std::max(M.ld, want)); };
    da_int ldx = lx ? (o == row_major ? n : m) - 1 : X.ld, lda = ld(la, A, std::max<int>(tr, 1)), ldb = ld(lb, B, std::max<int>(te, 1));
    std::vector<da_status> ok;
    bool size_bad = am < 2 || an < 1, sel_bad = tr < 1 || te < 1 || (long long)tr + te > am;
    if (size_bad) ok.push_back(da_status_invalid_array_dimension);
    if (sel_bad) ok.push_back(da_status_invalid_input);
    if (nul) ok.push_back(da_status_invalid_pointer);
    if ((o == row_major && (ldx < an || lda < an || ldb < an)) || (o == column_major && (ldx < am || lda < tr || ldb < te))) ok.push_back(da_status_invalid_leading_dimension);
    if (ok.empty()) ok.push_back(da_status_success);
    da_status s = da_train_test_split<T>(o, am, an, nul == 1 ? nullptr : X.p(), ldx, tr, te, shn ? nullptr : sh.data(), nul == 2 ? nullptr : A.p(), lda, nul == 3 ? nullptr : B.p(), ldb);
    c.op();
    if (std::find(ok.begin(), ok.end(), s) == ok.end())
        c.fail("split:refused", "%s-major m=%d n=%d train=%d test=%d ldx=%d ldx_train=%d ldx_test=%d null=%d gave status %d", ordn(o), (int)am, (int)an, (int)tr, (int)te, (int)ldx, (int)lda, (int)ldb, nul, (int)s);
    if (s && (hvec(A.v) != hvec(A0.v) || hvec(B.v) != hvec(B0.v))) c.fail("split:refused-wrote", "a refused call wrote its outputs");
}
// --- shuffled indices
template <class T> std::string sdesc(int m, int seed, int tr, int te, int prec, const std::vector<T> &cl) {
    char b[160]; snprintf(b, 160, "%s m=%d seed=%d train=%d test=%d precision=%d classes=", tn<T>(), m, seed, tr, te, prec);
    return b + str(cl);
}
void perms(mc::Ctx &c, int m, int seeds) {
    std::vector<da_int> first;
    std::map<std::vector<da_int>, int> seen;
    for (int seed = 0; seed < seeds; seed++) {
        std::vector<da_int> v(m + 1, -7), w(m + 1, -9);
        da_status s = da_get_shuffled_indices<double>(m, seed, -3, 900, 0, nullptr, v.data()), s2 = da_get_shuffled_indices<da_int>(m, seed, 0, 0, 10, nullptr, w.data());
        c.op(2);
        if (s || s2) c.fail("shuffle:status", "status %d, %d for m=%d seed=%d without classes", (int)s, (int)s2, m, seed);
        if (v[m] != -7 || w[m] != -9) c.fail("shuffle:overrun", "wrote past %d indices", m);
        v.pop_back(), w.pop_back();
        if (v != w) c.fail("shuffle:repeat", "m=%d seed=%d gave %s and then %s", m, seed, str(v).c_str(), str(w).c_str());
        auto o = v; std::sort(o.begin(), o.end());
        for (int i = 0; i < m; i++) if (o[i] != i) c.fail("shuffle:permutation", "m=%d seed=%d gave %s", m, seed, str(v).c_str());
        seen[v]++;
    }
    size_t want = 1; for (int i = 2; i <= m && want < 100000; i++) want *= i;
    if (m <= 4 && seen.size() != want) c.fail("shuffle:reach", "%d seeds give only %d of the %d orders of %d rows", seeds, (int)seen.size(), (int)want, m);
    std::vector<da_int> v(m, -1);
    if (da_get_shuffled_indices<float>(m, -1, 0, 0, 10, nullptr, v.data())) c.fail("shuffle:status", "seed -1 refused");
    std::sort(v.begin(), v.end());
    for (int i = 0; i < m; i++) if (v[i] != i) c.fail("shuffle:permutation", "m=%d seed=-1 is no permutation", m);
}
template <class T> void strat_one(mc::Ctx &c, const std::vector<T> &cl, const std::vector<int> &cls, int ncls, int tr, int te, int prec, int seed) {
    int m = cl.size();
    std::vector<int> cnt(ncls), ctr(ncls), cte(ncls);
    for (int x : cls) cnt[x]++;
    int present = 0, mn = m; for (int x : cnt) if (x) present++, mn = std::min(mn, x);
    bool bad = present < 2 || mn < 2 || tr + te > m || tr < present || te < present;
    std::vector<da_int> v(m, -7), w(m, -7);
    da_status s = da_get_shuffled_indices<T>(m, seed, tr, te, prec, cl.data(), v.data());
    c.op();
    auto d = [&] { return sdesc(m, seed, tr, te, prec, cl); };
    if (bad) {
        if (s != da_status_invalid_input) c.fail("strat:refuse", "status %d, must be refused: %s", (int)s, d().c_str());
        for (auto x : v) if (x != -7) c.fail("strat:refused-wrote", "a refused call wrote its output: %s", d().c_str());
        return;
    }
    if (s) c.fail("strat:status", "status %d: %s", (int)s, d().c_str());
    std::vector<char> used(m);
    for (int i = 0; i < tr + te; i++) {
        if (v[i] < 0 || v[i] >= m || used[v[i]]) c.fail("strat:permutation", "gave %s: %s", str(v).c_str(), d().c_str());
        used[v[i]] = 1;
        (i < tr ? ctr : cte)[cls[v[i]]]++;
    }
    for (int k = 0; k < ncls; k++) {
        double a = (double)cnt[k] * tr / m, b = m == tr ? 0 : (double)(cnt[k] - ctr[k]) * te / (m - tr);
        if (std::fabs(ctr[k] - a) >= 1 - 1e-9) c.fail("strat:train-share", "class %d has %d of %d training rows, its share is %g: %s", k, ctr[k], tr, a, d().c_str());
        if (std::fabs(cte[k] - b) >= 1 - 1e-9) c.fail("strat:test-share", "class %d has %d of %d test rows, its share of the remaining rows is %g: %s", k, cte[k], te, b, d().c_str());
    }
    da_get_shuffled_indices<T>(m, seed, tr, te, prec, cl.data(), w.data());
    if (!std::equal(v.begin(), v.begin() + tr + te, w.begin())) c.fail("strat:repeat", "the same seed gave different results: %s", d().c_str());
}
// every assignment of classes to rows
template <class T> void strat(mc::Ctx &c, int m, int ncls) {
    std::vector<int> cls(m); std::vector<T> cl(m);
    // values whose classes are distinct at the precision used, signs and gaps mixed
    const double val[] = {2, -1, 7, 0}, fval[] = {0.05, -0.05, 1.25, 1.35};
    int mode = std::is_integral_v<T> ? 0 : c.choose(2);
    for (int i = 0; i < m; i++) cls[i] = c.choose(ncls), cl[i] = (T)(mode ? fval[cls[i]] : val[cls[i]]);
    for (int tr = 0; tr <= m; tr++) for (int te = 0; te + tr <= m + 1; te++) for (int seed = 0; seed < 2; seed++) strat_one<T>(c, cl, cls, ncls, tr, te, 10, seed);
}
// every vector of class counts
void counts(mc::Ctx &c, int total, int ncls) {
    std::vector<int> cnt; int left = total;
    for (int k = 0; k < ncls - 1; k++) { int x = 2 + c.choose(std::max(1, left - 2 * (ncls - k - 1) - 1)); cnt.push_back(x); left -= x; }
    cnt.push_back(left);
    if (left < 2) c.prune();
    std::vector<int> cls; for (int k = 0; k < ncls; k++) for (int i = 0; i < cnt[k]; i++) cls.push_back(k);
    int m = cls.size();
    std::vector<da_int> cl(cls.begin(), cls.end());
    for (int tr = ncls; tr < m; tr++) for (int te : {ncls, (m - tr) / 2, m - tr - 1, m - tr}) if (te >= 1) strat_one<da_int>(c, cl, cls, ncls, tr, te, 10, tr & 1);
}
void shuffle_refused(mc::Ctx &c) {
    da_int m = c.pick({6, 1, 0, -1}), seed = c.pick({0, -1, -2, INT32_MIN, INT32_MAX});
    da_int tr = c.pick({3, 0, -1, 2, 1, INT32_MAX, INT32_MIN}), te = c.pick({3, 0, -1, 2, 4, INT32_MAX, INT32_MIN}), prec = c.pick({10, 0, -1});
    int kind = c.choose(4), nul = c.choose(2); // none, int, float, double classes
    std::vector<da_int> out(6, -7), ci{0, 1, 0, 1, 0, 1}; std::vector<float> cf(ci.begin(), ci.end()); std::vector<double> cd(ci.begin(), ci.end());
    std::vector<da_status> ok;
    if (m <= 1) ok.push_back(da_status_invalid_array_dimension);
    if (seed < -1) ok.push_back(da_status_invalid_input);
    if (nul) ok.push_back(da_status_invalid_pointer);
    if (kind && (tr < 2 || te < 2 || (long long)tr + te > m || (kind > 1 && prec < 1))) ok.push_back(da_status_invalid_input);
    if (ok.empty()) ok.push_back(da_status_success);
    da_int *p = nul ? nullptr : out.data();
    da_status s = kind == 0 ? da_get_shuffled_indices<da_int>(m, seed, tr, te, prec, nullptr, p) : kind == 1 ? da_get_shuffled_indices<da_int>(m, seed, tr, te, prec, ci.data(), p)
                  : kind == 2 ? da_get_shuffled_indices<float>(m, seed, tr, te, prec, cf.data(), p) : da_get_shuffled_indices<double>(m, seed, tr, te, prec, cd.data(), p);
    c.op();
    if (std::find(ok.begin(), ok.end(), s) == ok.end()) c.fail("shuffle:refused", "m=%d seed=%d train=%d test=%d precision=%d classes kind %d output null %d gave status %d", (int)m, (int)seed, (int)tr, (int)te, (int)prec, kind, nul, (int)s);
    if (s) for (auto x : out) if (x != -7) c.fail("shuffle:refused-wrote", "a refused call wrote its output");
}
void mc::register_all() {
    bool t = thorough(), l = lite();
    add("splits<int>", 3, [=](mc::Ctx &c) { splits<da_int>(c, t ? 6 : l ? 4 : 5, {1, 3}); });
    add("splits<float>", 3, [=](mc::Ctx &c) { splits<float>(c, t ? 6 : l ? 4 : 5, {1, 2, 3}); });
    add("splits<double>", 3, [=](mc::Ctx &c) { splits<double>(c, t ? 7 : l ? 4 : 5, {2}); });
    std::vector<int> ms = t ? std::vector<int>{8, 15, 16, 17, 31, 33, 64, 65} : l ? std::vector<int>{9} : std::vector<int>{9, 16, 33};
    add("vectors<int>", 3, [=](mc::Ctx &c) { splits_big<da_int>(c, ms, l ? 9 : 20); });
    add("vectors<float>", 3, [=](mc::Ctx &c) { splits_big<float>(c, ms, l ? 9 : 20); });
    add("vectors<double>", 3, [=](mc::Ctx &c) { splits_big<double>(c, ms, l ? 9 : 20); });
    add("refused<int>", 3, refused<da_int>);
    add("refused<float>", 3, refused<float>);
    add("refused<double>", 3, refused<double>);
    add("permutations", 1, [=](mc::Ctx &c) { perms(c, 2 + c.choose(t ? 60 : 20), t ? 2000 : 400); });
    for (int m = 2; m <= (t ? 9 : l ? 5 : 7); m++) {
        std::string s = std::to_string(m);
        add("stratified-m" + s + "<int>", 3, [=](mc::Ctx &c) { strat<da_int>(c, m, m > 7 ? 2 : 3); });
        add("stratified-m" + s + "<float>", 3, [=](mc::Ctx &c) { strat<float>(c, m, m > 7 ? 2 : 3); });
        add("stratified-m" + s + "<double>", 3, [=](mc::Ctx &c) { strat<double>(c, m, m > 7 ? 2 : m == 4 ? 4 : 3); });
    }
    for (int k = 2; k <= 4; k++) for (int m = 2 * k; m <= (t ? 40 : l ? 10 : 24); m++) add("counts-" + std::to_string(k) + "-" + std::to_string(m), 2, [=](mc::Ctx &c) { counts(c, m, k); });
    add("shuffle-refused", 3, shuffle_refused);
}
