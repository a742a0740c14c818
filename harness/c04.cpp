// C04: interval_set / interval_map against sets of integers, full reachable state space.
#include "mc.hpp"
#include "interval_map.hpp"
#include "interval_set.hpp"
using namespace da_interval;

struct SetM : mc::Machine {
    int U;
    interval_set s;
    std::vector<bool> ref; // offset 1: integers -1 .. U
    std::vector<std::pair<int, int>> rg;
    SetM(int U) : U(U), ref(U + 2) {
        for (int a = -1; a <= U; a++)
            for (int b = -1; b <= U; b++)
                if (b >= a || (a - b <= 2)) rg.push_back({a, b});
    }
    int nops() override { return 2 * rg.size() + 1; }
    bool apply(int op, mc::Ctx &c) override {
        c.op();
        if (op == 2 * (int)rg.size()) {
            c.note("clear");
            s.clear();
            std::fill(ref.begin(), ref.end(), false);
            return true;
        }
        bool ins = op < (int)rg.size();
        auto [a, b] = rg[op % rg.size()];
        c.note("%s[%d,%d]", ins ? "insert" : "erase", a, b);
        da_status st = ins ? s.insert({a, b}) : s.erase({a, b});
        if (b < a) {
            if (st != da_status_invalid_input) c.fail("set:invalid-accepted", "range [%d,%d] gave status %d", a, b, (int)st);
            return true;
        }
        if (st != da_status_success) c.fail("set:refused", "%s [%d,%d] gave status %d", ins ? "insert" : "erase", a, b, (int)st);
        for (int k = a; k <= b; k++) ref[k + 1] = ins;
        return true;
    }
    std::vector<std::pair<int, int>> model() {
        std::vector<std::pair<int, int>> v;
        for (int k = -1; k <= U; k++)
            if (ref[k + 1]) {
                if (!v.empty() && v.back().second == k - 1) v.back().second = k;
                else v.push_back({k, k});
            }
        return v;
    }
    std::string real() {
        std::string r;
        for (auto it = s.begin(); it != s.end(); ++it) r += "[" + std::to_string((*it).lower) + "," + std::to_string((*it).upper) + "]";
        return r;
    }
    std::string canon() override { return real(); }
    void check(mc::Ctx &c) override {
        std::string m;
        for (auto [a, b] : model()) m += "[" + std::to_string(a) + "," + std::to_string(b) + "]";
        if (m != real()) c.fail("set:content", "the set holds %s, expected %s", real().c_str(), m.c_str());
        if (s.empty() != m.empty()) c.fail("set:empty", "empty() is %d with content %s", (int)s.empty(), m.c_str());
        for (int k = -3; k <= U + 2; k++) {
            bool in = k >= -1 && k <= U && ref[k + 1];
            interval iv(-77, -77);
            if (s.find(k, iv) != in) c.fail("set:find", "find(%d) is %d in %s", k, !in, m.c_str());
            auto it = s.find(k);
            if ((it != s.end()) != in) c.fail("set:find-it", "find(%d) iterator wrong in %s", k, m.c_str());
            if (in) {
                if (!(iv.lower <= k && k <= iv.upper)) c.fail("set:find-range", "find(%d) gave [%d,%d] in %s", k, iv.lower, iv.upper, m.c_str());
                bool ok = false;
                for (auto [a, b] : model()) ok |= a == iv.lower && b == iv.upper && (*it).lower == a && it->upper == b;
                if (!ok) c.fail("set:find-range", "find(%d) gave [%d,%d] in %s", k, iv.lower, iv.upper, m.c_str());
            }
        }
    }
};

struct MapM : mc::Machine {
    int U;
    interval_map<char> m;
    struct E { int a, b; char v; };
    std::vector<E> ref; // sorted, disjoint
    std::vector<std::pair<int, int>> rg;
    MapM(int U) : U(U) {
        for (int a = 0; a < U; a++)
            for (int b = std::max(0, a - 1); b < U; b++) rg.push_back({a, b});
    }
    // insert(range, value) ; erase(key) ; erase(it(key)) ; erase(it(k1), it(k2))
    int nops() override { return 2 * rg.size() + (U + 2) + U + U * (U + 1) / 2 + U; }
    int idx(int k) {
        for (size_t i = 0; i < ref.size(); i++) if (ref[i].a <= k && k <= ref[i].b) return i;
        return -1;
    }
    void same_it(mc::Ctx &c, interval_map<char>::iterator it, size_t i, const char *what) {
        if (i >= ref.size()) {
            if (it != m.end()) c.fail("map:ret", "%s does not return the end iterator", what);
        } else if (it == m.end() || it->first.lower != ref[i].a || it->second != ref[i].v)
            c.fail("map:ret", "%s does not return the following range", what);
    }
    bool apply(int op, mc::Ctx &c) override {
        c.op();
        int n = rg.size();
        if (op < 2 * n) {
            auto [a, b] = rg[op % n];
            char v = op < n ? 'x' : 'y';
            c.note("insert[%d,%d]=%c", a, b, v);
            bool overlap = false;
            for (auto &e : ref) overlap |= a <= e.b && e.a <= b;
            da_status st = m.insert({a, b}, v);
            if (b < a || overlap) {
                if (st != da_status_invalid_input) c.fail("map:overlap-accepted", "insert [%d,%d] into %s gave status %d", a, b, str().c_str(), (int)st);
                return true;
            }
            if (st != da_status_success) c.fail("map:refused", "insert [%d,%d] into %s gave status %d", a, b, str().c_str(), (int)st);
            ref.push_back({a, b, v});
            std::sort(ref.begin(), ref.end(), [](const E &p, const E &q) { return p.a < q.a; });
            return true;
        }
        op -= 2 * n;
        if (op < U + 2) {
            int k = op - 1, i = idx(k);
            c.note("erase(%d)", k);
            auto it = m.erase((da_int)k);
            if (i >= 0) ref.erase(ref.begin() + i);
            same_it(c, it, i >= 0 ? i : 1000, "erase(key)");
            return true;
        }
        op -= U + 2;
        if (op < U) {
            int i = idx(op);
            if (i < 0) return false;
            c.note("erase(it(%d))", op);
            auto it = m.erase(m.find(op));
            ref.erase(ref.begin() + i);
            same_it(c, it, i, "erase(iterator)");
            return true;
        }
        op -= U;
        int k1 = 0, k2 = 0;
        for (k1 = 0; k1 <= U; k1++) { // pairs k1 <= k2, k2 == U meaning end
            int cnt = U - k1 + (k1 < U ? 1 : 0);
            if (k1 == U) return false;
            if (op < cnt) { k2 = k1 + op; break; }
            op -= cnt;
        }
        int i = idx(k1), j = k2 == U ? (int)ref.size() : idx(k2);
        if (i < 0 || j < 0 || j < i) return false;
        c.note("erase(it(%d),it(%d))", k1, k2);
        auto it = m.erase(m.find(k1), k2 == U ? m.end() : m.find(k2));
        ref.erase(ref.begin() + i, ref.begin() + j);
        same_it(c, it, i, "erase(range)");
        return true;
    }
    std::string str() {
        std::string r;
        for (auto it = m.begin(); it != m.end(); ++it) r += "[" + std::to_string(it->first.lower) + "," + std::to_string(it->first.upper) + "]" + it->second;
        return r;
    }
    std::string canon() override { return str(); }
    void check(mc::Ctx &c) override {
        std::string x;
        for (auto &e : ref) x += "[" + std::to_string(e.a) + "," + std::to_string(e.b) + "]" + e.v;
        if (x != str()) c.fail("map:content", "the map holds %s, expected %s", str().c_str(), x.c_str());
        if (m.empty() != x.empty()) c.fail("map:empty", "empty() wrong for %s", x.c_str());
        for (int k = -2; k <= U + 1; k++) {
            int i = idx(k);
            char v = '?'; da_int lb = -9, ub = -9;
            bool f = m.find(k, v, lb, ub);
            if (f != (i >= 0)) c.fail("map:find", "find(%d) is %d in %s", k, (int)f, x.c_str());
            if (f && (v != ref[i].v || lb != ref[i].a || ub != ref[i].b)) c.fail("map:find-value", "find(%d) gave [%d,%d]%c in %s", k, lb, ub, v, x.c_str());
            auto it = m.find(k);
            if ((it != m.end()) != (i >= 0) || (i >= 0 && (it->second != ref[i].v || it->first.lower != ref[i].a)))
                c.fail("map:find-it", "find(%d) iterator wrong in %s", k, x.c_str());
        }
    }
};

static void intersect(mc::Ctx &c) {
    int a = c.choose(6, "a") - 1, b = c.choose(6, "b") - 1, p = c.choose(6, "p") - 1, q = c.choose(6, "q") - 1;
    interval i(a, b), j(p, q);
    c.op(3);
    interval r = i.intersect(j);
    for (int k = -2; k < 7; k++)
        if (r.contains(k) != (i.contains(k) && j.contains(k))) c.fail("interval:intersect", "[%d,%d]^[%d,%d] wrong at %d", a, b, p, q, k);
    for (int m = 0; m < 6; m++)
        if (i.is_valid_idx(m) != (a <= b && a >= 0 && b < m)) c.fail("interval:valid", "[%d,%d] valid for %d", a, b, m);
    c.out((uint64_t)(r.lower * 100 + r.upper));
}

void mc::register_all() {
    int U = thorough() ? 11 : 8, V = thorough() ? 7 : 6;
    add_bfs("interval_set", 100, [U] { return new SetM(U); });
    add_bfs("interval_map", 100, [V] { return new MapM(V); });
    add("interval", 2, intersect);
}
