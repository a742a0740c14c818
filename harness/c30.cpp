// C30: LRU row cache against a list model, full reachable state space.
#include "mc.hpp"
#include "aoclda.h"
#include "da_cache.hpp"
template <class T> struct CacheM : mc::Machine {
    int cap, len, K;
    bool distinct;
    da_errors::da_error_t err;
    da_cache::LRUCache<T> c;
    std::vector<std::pair<int, int>> lru; // front = most recent: (key, version)
    std::vector<int> last;                // last stored version per key, -1 never
    int ver = 0;
    std::vector<std::vector<int>> batches;
    std::vector<T *> handed;
    CacheM(int cap, int len, int K, bool d) : cap(cap), len(len), K(K), distinct(d), err(da_errors::DA_RECORD), c(err), last(K, -1) {
        c.set_size(cap, len);
        // batches: all non-empty ordered selections of up to 3 keys (repeats only in the weak machine)
        for (int n = 1; n <= (d ? 3 : 2); n++) {
            std::vector<int> b(n);
            std::function<void(int)> rec = [&](int i) {
                if (i == n) { batches.push_back(b); return; }
                for (int k = 0; k < K; k++) {
                    bool rep = false;
                    for (int j = 0; j < i; j++) rep |= b[j] == k;
                    if (rep && distinct) continue;
                    b[i] = k; rec(i + 1);
                }
            };
            rec(0);
        }
        std::vector<int> all;
        for (int k = 0; k < K; k++) all.push_back(k);
        batches.push_back(all); // possibly larger than the capacity
        batches.push_back({});
    }
    int nops() override { return K + batches.size() * 2; }
    T val(int k, int v, int j) { return (T)(k * 1000 + v * 10 + j + 1); }
    bool data_ok(T *p, int k, int v) {
        for (int j = 0; j < len; j++) if (p[j] != val(k, v, j)) return false;
        return true;
    }
    bool apply(int op, mc::Ctx &x) override {
        x.op();
        if (op < K) {
            x.note("get(%d)", op);
            T *p = c.get(op);
            auto it = std::find_if(lru.begin(), lru.end(), [&](auto &e) { return e.first == op; });
            if (distinct) {
                if ((p != nullptr) != (it != lru.end())) x.fail("cache:presence", "get(%d) is %s but the key is %s", op, p ? "a hit" : "a miss", it != lru.end() ? "held" : "not held");
                if (p) { auto e = *it; lru.erase(it); lru.insert(lru.begin(), e); }
            }
            if (p && last[op] < 0) x.fail("cache:never-stored", "get(%d) hits but was never stored", op);
            hist += "g" + std::to_string(op);
            if (p && !data_ok(p, op, last[op])) x.fail("cache:data", "get(%d) returns other data than last stored", op);
            return true;
        }
        op -= K;
        auto &b = batches[op / 2];
        int stride = len + (op % 2);
        if (distinct) for (int k : b) for (auto &e : lru) if (e.first == k) return false; // callers store only missing keys
        std::string s; for (int k : b) s += std::to_string(k);
        x.note("put(%s,stride %d)", s.c_str(), stride);
        std::vector<T> buf(std::max<size_t>(1, b.size() * stride), (T)-7);
        ver = 0; // smallest version not currently last for any key in the batch keeps the state space finite
        while (true) { bool used = false; for (int k : b) used |= last[k] == ver; if (!used) break; ver++; }
        for (size_t i = 0; i < b.size(); i++) for (int j = 0; j < len; j++) buf[i * stride + j] = val(b[i], ver + (int)i * 2, j);
        std::vector<da_int> keys(b.begin(), b.end());
        da_status st = c.put(keys, buf.data(), stride);
        if (st != da_status_success) x.fail("cache:put", "put failed with %d", (int)st);
        size_t stored = std::min<size_t>(b.size(), cap);
        for (size_t i = 0; i < stored; i++) last[b[i]] = ver + (int)i * 2;
        for (size_t i = stored; i < b.size(); i++) { // did not fit: an older version may not be served as new, nor must it be
            bool in = false; for (size_t j = 0; j < stored; j++) in |= b[j] == b[i];
            (void)in;
        }
        if (distinct) {
            while (lru.size() + stored > (size_t)cap) lru.pop_back();
            for (size_t i = 0; i < stored; i++) lru.insert(lru.begin(), {b[i], last[b[i]]});
        } else { // remember the order for state identity
            lru.clear();
        }
        hist += "p" + s + std::to_string(op % 2);
        return true;
    }
    std::string hist;
    std::string canon() override {
        std::string r;
        if (distinct) {
            for (auto &e : lru) r += std::to_string(e.first) + ":" + std::to_string(e.second) + ",";
            return r;
        }
        return hist;
    }
    void check(mc::Ctx &x) override {
        if (c.get_capacity() != cap) x.fail("cache:capacity", "capacity %d", (int)c.get_capacity());
        if (!distinct) { // look at everything (get changes recency, the object is thrown away afterwards)
            int held = 0;
            std::vector<T *> ps;
            for (int k = 0; k < K; k++) {
                T *p = c.get(k);
                if (!p) continue;
                held++;
                if (last[k] < 0) x.fail("cache:never-stored", "get(%d) hits but was never stored", k);
                if (!data_ok(p, k, last[k])) x.fail("cache:data", "key %d holds other data than last stored", k);
                ps.push_back(p);
            }
            if (held > cap) x.fail("cache:overfull", "%d keys held, capacity %d", held, cap);
        } else {
            for (int k = 0; k < K; k++) {
                bool in = false; for (auto &e : lru) in |= e.first == k;
                if (in) continue;
                if (c.get(k)) x.fail("cache:presence", "key %d should have been evicted", k); // a miss changes nothing
            }
        }
    }
};
void mc::register_all() {
    for (int cap : {1, 2, 3, 4}) {
        if (cap == 4 && !thorough()) continue;
        int K = cap + 2;
        add_bfs("lru exact double cap" + std::to_string(cap), thorough() ? 9 : 7, [=] { return new CacheM<double>(cap, 2, K, true); });
        add_bfs("lru exact float cap" + std::to_string(cap), thorough() ? 6 : 3, [=] { return new CacheM<float>(cap, 3, K, true); });
        add_bfs("lru repeats cap" + std::to_string(cap), thorough() ? 4 : 3, [=] { return new CacheM<double>(cap, 2, 3, false); });
    }
    for (int cap : {20}) // parallel copy path (more than 16 columns)
        add_bfs("lru batch of 18", 3, [=] { return new CacheM<double>(cap, 2, 18, true); }, 0);
    add("lru wide batches", 1, [](Ctx &c) {
        int cap = 14 + c.choose(6, "cap"), n1 = 14 + c.choose(10, "n1"), n2 = 14 + c.choose(10, "n2"), touch = c.choose(4, "touch");
        da_errors::da_error_t err(da_errors::DA_RECORD);
        da_cache::LRUCache<double> q(err);
        q.set_size(cap, 3);
        std::vector<std::pair<int, double>> lru;
        auto put = [&](int base, int n) {
            std::vector<da_int> k; std::vector<double> d(n * 4);
            for (int i = 0; i < n; i++) { k.push_back(base + i); for (int j = 0; j < 3; j++) d[i * 4 + j] = (base + i) * 10 + j; }
            c.op();
            if (q.put(k, d.data(), 4) != da_status_success) c.fail("cache:put", "put failed");
            int st = std::min(n, cap);
            while ((int)lru.size() + st > cap) lru.pop_back();
            for (int i = 0; i < st; i++) lru.insert(lru.begin(), {base + i, (base + i) * 10});
        };
        put(0, n1);
        for (int t = 0; t < touch; t++) {
            int k = (t * 7) % n1;
            double *p = q.get(k);
            auto it = std::find_if(lru.begin(), lru.end(), [&](auto &e) { return e.first == k; });
            if ((p != nullptr) != (it != lru.end())) c.fail("cache:presence", "key %d", k);
            if (p) { auto e = *it; lru.erase(it); lru.insert(lru.begin(), e); }
        }
        put(100, n2);
        for (int k = 0; k < 130; k++) {
            double *p = q.get(k);
            bool in = std::any_of(lru.begin(), lru.end(), [&](auto &e) { return e.first == k; });
            if ((p != nullptr) != in) c.fail("cache:presence", "key %d presence %d expected %d", k, p != nullptr, in);
            if (p) for (int j = 0; j < 3; j++) if (p[j] != k * 10 + j) c.fail("cache:data", "key %d", k);
            if (p) c.out((uint64_t)k);
        }
    });
}
