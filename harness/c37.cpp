// C37: index sorting helpers of the decision trees, all small inputs.
#include "mc.hpp"
#include <cstring>
#include <cmath>
#include "common/idx_sorting.hpp"
using namespace ARCH::da_decision_forest;
// kind 0 heap, 1 intro, 2 bucket
template <class T> void verify(mc::Ctx &c, std::vector<T> vals, int pre, int post, int kind, int depth, int extra_buckets) {
    int n = vals.size();
    std::vector<T> v; std::vector<da_int> idx;
    for (int i = 0; i < pre; i++) v.push_back((T)(90 - i));
    v.insert(v.end(), vals.begin(), vals.end());
    for (int i = 0; i < post; i++) v.push_back((T)(-50 + i));
    // indices: sample numbers; sample s has feature value of its position
    for (size_t i = 0; i < v.size(); i++) idx.push_back((da_int)((i * 5 + 3) % 64 + (i / 64) * 64));
    std::vector<std::pair<da_int, T>> orig;
    for (size_t i = 0; i < v.size(); i++) orig.push_back({idx[i], v[i]});
    c.op();
    if (kind == 0) { if constexpr (!std::is_same_v<T, da_int>) multi_range_heap_sort(idx, v, (da_int)pre, (da_int)n); }
    else if (kind == 1) multi_range_intro_sort(idx, v, (da_int)pre, (da_int)n, (da_int)depth);
    else if constexpr (!std::is_same_v<T, da_int>) {
        int ncat = extra_buckets;
        for (auto x : vals) ncat = std::max(ncat, (int)std::lround((double)x) + 1);
        int ld = n + depth;
        std::vector<da_int> buckets(std::max(1, ld * ncat), -1), bi(std::max(ncat, 1), 77);
        bucket_sort_samples(idx, v, (da_int)ncat, (da_int)pre, (da_int)n, (da_int)ld, buckets, bi);
    }
    if (v.size() != orig.size() || idx.size() != orig.size()) c.fail("sort:size", "sizes changed");
    for (int i = 0; i < pre; i++) if (v[i] != orig[i].second || idx[i] != orig[i].first) c.fail("sort:outside", "entry %d before the range changed", i);
    for (size_t i = pre + n; i < v.size(); i++) if (v[i] != orig[i].second || idx[i] != orig[i].first) c.fail("sort:outside", "entry %zu after the range changed", i);
    std::vector<std::pair<da_int, T>> a(orig.begin() + pre, orig.begin() + pre + n), b;
    for (int i = pre; i < pre + n; i++) b.push_back({idx[i], v[i]});
    for (int i = pre + 1; i < pre + n; i++) if (v[i] < v[i - 1]) c.fail("sort:order", "values %g, %g out of order (kind %d)", (double)v[i - 1], (double)v[i], kind);
    auto A = a, B = b;
    if (kind == 2) for (auto &p : A) p.second = (T)std::round((double)p.second);
    std::sort(A.begin(), A.end()); std::sort(B.begin(), B.end());
    if (A != B) c.fail("sort:permutation", "indices and values no longer correspond (kind %d)", kind);
    uint64_t h = kind;
    for (auto &p : b) h = mc::mix(h, p.first);
    c.out(h);
}
template <class T> void sort_small(mc::Ctx &c, int maxn, int alpha) {
    int kind = c.choose(3, "kind"), n = c.choose(maxn + 1, "n");
    if (kind != 1 && std::is_same_v<T, da_int>) c.prune();
    int depth = kind == 0 ? 0 : c.choose(4, "depth");
    std::vector<T> v(n);
    for (auto &x : v) {
        int k = c.choose(alpha);
        x = kind == 2 ? (T)k : std::is_same_v<T, da_int> ? (T)(k - 2) : (T)((k - 2) * 0.5);
    }
    int pre = c.choose(2, "pre") * 2, post = c.choose(2, "post");
    verify<T>(c, v, pre, post, kind, depth, kind == 2 ? 1 + c.choose(3) : 0);
}
template <class T> void sort_perm(mc::Ctx &c, int n) {
    int kind = c.choose(3, "kind");
    if (kind != 1 && std::is_same_v<T, da_int>) c.prune();
    std::vector<int> left; for (int i = 0; i < n; i++) left.push_back(i);
    std::vector<T> v;
    for (int i = 0; i < n; i++) { int k = c.choose(left.size()); v.push_back((T)left[k]); left.erase(left.begin() + k); }
    verify<T>(c, v, 1, 1, kind, kind == 1 ? 5 : 0, 0);
}
template <class T> void sort_binary(mc::Ctx &c, int maxn) {
    int kind = c.choose(2, "kind"), n = 9 + c.choose(maxn - 8, "n");
    std::vector<T> v(n);
    for (auto &x : v) x = (T)c.choose(2);
    verify<T>(c, v, 0, 0, kind, kind * 3, 0);
}
static void compress(mc::Ctx &c) {
    int m = 1 + c.choose(mc::thorough() ? 6 : 5, "universe"), n = c.choose(mc::thorough() ? 8 : 7, "draws");
    std::vector<da_int> idx(n), cnt(m, 55);
    std::vector<int> ref(m, 0);
    for (auto &x : idx) { x = c.choose(m); ref[x]++; }
    c.op();
    auto draws = idx;
    da_status st = compress_count_occurences(idx, cnt);
    if (st != da_status_success) c.fail("compress:status", "status %d", (int)st);
    std::vector<da_int> want;
    for (int i = 0; i < m; i++) if (ref[i]) want.push_back(i);
    auto s = idx; std::sort(s.begin(), s.end());
    if (s != want) c.fail("compress:indices", "kept %zu indices, expected %zu distinct", idx.size(), want.size());
    for (int i = 0; i < m; i++) if (cnt[i] != ref[i]) c.fail("compress:count", "count of %d is %d, expected %d", i, (int)cnt[i], ref[i]);
    uint64_t h = m; for (auto x : cnt) h = mc::mix(h, x); c.out(h);
}
void mc::register_all() {
    int n = thorough() ? 7 : 6;
    add("small<double>", 3, [=](mc::Ctx &c) { sort_small<double>(c, n, 4); });
    add("small<float>", 3, [=](mc::Ctx &c) { sort_small<float>(c, n, 3); });
    add("small<int>", 3, [=](mc::Ctx &c) { sort_small<da_int>(c, n, 4); });
    add("permutations<double>", 3, [](mc::Ctx &c) { sort_perm<double>(c, thorough() ? 9 : 8); });
    add("permutations<float>", 3, [](mc::Ctx &c) { sort_perm<float>(c, 7); });
    add("binary<double>", 5, [](mc::Ctx &c) { sort_binary<double>(c, thorough() ? 16 : 13); });
    add("compress", 3, compress);
}
