// C31: da_vector against std::vector, all operation sequences around the capacity boundaries.
#include "mc.hpp"
#include "aoclda.h"
#include <cstring>
#include <stdexcept>
#include "da_vector.hpp"
template <class T> using DV = ::da_vector::da_vector<T>;
template <class T> struct VecM : mc::Machine {
    DV<T> a, b;
    std::vector<T> ra, rb;
    int next = 1;
    T nv() { next = next * 7 % 97 + 1; return (T)(next); }
    // resize leaves new elements unspecified: the harness fills them, as every caller does
    void fill_new(DV<T> &v, std::vector<T> &r, size_t n) {
        size_t o = r.size();
        v.resize(n); r.resize(n);
        for (size_t i = o; i < n; i++) { T x = nv(); v[i] = x; r[i] = x; }
    }
    std::vector<int> sizes{0, 1, 63, 64, 65, 127, 128, 129};
    int nops() override { return 18 + 2 * sizes.size(); }
    bool apply(int op, mc::Ctx &c) override {
        c.op();
        if (ra.size() > 600 || rb.size() > 600) return false;
        switch (op) {
        case 0: { c.note("a.push_back"); T x = nv(); a.push_back(x); ra.push_back(x); return true; }
        case 1: { c.note("b.push_back x3"); for (int i = 0; i < 3; i++) { T x = nv(); b.push_back(x); rb.push_back(x); } return true; }
        case 2: c.note("a.append(b)"); a.append(b); ra.insert(ra.end(), rb.begin(), rb.end()); return true;
        case 3: { c.note("a.append(a)"); a.append(a); auto t = ra; ra.insert(ra.end(), t.begin(), t.end()); return true; }
        case 4: c.note("a.append(std b)"); a.append(rb); ra.insert(ra.end(), rb.begin(), rb.end()); return true;
        case 5: c.note("a=b"); a = b; ra = rb; return true;
        case 6: { c.note("b=move(a); a.clear"); b = std::move(a); rb = ra; a.clear(); ra.clear(); return true; }
        case 7: c.note("a.clear"); a.clear(); ra.clear(); return true;
        case 8: { c.note("a=a"); auto &r = a; a = r; return true; }
        case 9: { c.note("swap through move construction"); DV<T> t(std::move(a)); a = std::move(b); b = std::move(t); ra.swap(rb); return true; }
        case 10: { if (ra.empty()) return false; c.note("a.push_back(a[0])"); a.push_back(a[0]); ra.push_back(T(ra[0])); return true; }
        case 11: c.note("a.append(empty)"); a.append(std::vector<T>()); return true;
        case 12: { c.note("a[last]=x"); if (ra.empty()) return false; T x = nv(); a[ra.size() - 1] = x; ra.back() = x; return true; }
        case 13: c.note("a.reserve(65)"); a.reserve(65); return true;
        case 14: c.note("a.reserve(130)"); a.reserve(130); return true;
        case 15: { c.note("a=da_vector(66)"); a = DV<T>(66); ra.clear(); ra.resize(66); for (int i = 0; i < 66; i++) { T x = nv(); a[i] = x; ra[i] = x; } return true; }
        case 16: { c.note("copy and outlive"); DV<T> t; t = a; a.clear(); a = t; return true; }
        case 17: { c.note("a.append(std 62)"); std::vector<T> v; for (int i = 0; i < 62; i++) v.push_back(nv()); a.append(v); ra.insert(ra.end(), v.begin(), v.end()); return true; }
        }
        op -= 18;
        if (op < (int)sizes.size()) { c.note("a.resize(%d)", sizes[op]); fill_new(a, ra, sizes[op]); return true; }
        op -= sizes.size();
        c.note("b.resize(%d)", sizes[op]); fill_new(b, rb, sizes[op]);
        return true;
    }
    std::string canon() override {
        uint64_t h = 1;
        for (auto x : ra) h = mc::mix(h, (uint64_t)(double)x);
        h = mc::mix(h, 77777);
        for (auto x : rb) h = mc::mix(h, (uint64_t)(double)x);
        return std::to_string(h) + "/" + std::to_string(a.capacity()) + "/" + std::to_string(b.capacity()) + "/" + std::to_string(ra.size()) + "/" + std::to_string(rb.size()) + "/" + std::to_string(next);
    }
    void cmp(mc::Ctx &c, DV<T> &v, std::vector<T> &r, const char *n) {
        if (v.size() != r.size()) c.fail("vec:size", "%s has %zu elements, expected %zu", n, v.size(), r.size());
        if (v.capacity() < v.size()) c.fail("vec:capacity", "%s capacity %zu size %zu", n, v.capacity(), v.size());
        for (size_t i = 0; i < r.size(); i++)
            if (!(v[i] == r[i]) || !(v.data()[i] == r[i])) c.fail("vec:content", "%s[%zu] wrong of %zu", n, i, r.size());
        // everything up to the capacity must be usable memory (ASan checks this write)
        if (v.capacity() > v.size()) { v.data()[v.capacity() - 1] = (T)1; }
    }
    void check(mc::Ctx &c) override { cmp(c, a, ra, "a"); cmp(c, b, rb, "b"); }
};
void mc::register_all() {
    int d = thorough() ? 5 : 3;
    add_bfs("vector<int>", thorough() ? 5 : 4, [] { return new VecM<da_int>; }, 3, 8000000);
    add_bfs("vector<double>", d, [] { return new VecM<double>; });
    add_bfs("vector<float>", d, [] { return new VecM<float>; });
    add_bfs("vector<half>", d, [] { return new VecM<_Float16>; });
    add_bfs("vector<char>", d, [] { return new VecM<char>; });
}
