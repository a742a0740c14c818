// C08: damaged, truncated and unwritable model files.
#include "models.hpp"
#include <fstream>
#include <iostream>
#include <new>
#include <csignal>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
// every allocation made while a model is loaded is accounted for
static thread_local bool counting = false;
static thread_local size_t largest = 0, total = 0;
static const size_t LIMIT = 32u << 20;
static void *take(size_t n, bool nothrow, size_t al = 0) {
    if (counting) {
        if (n > largest) largest = n;
        total += n;
        if (n > LIMIT || total > 8 * LIMIT) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    }
    void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return take(n, false); }
void *operator new[](size_t n) { return take(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return take(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return take(n, true); }
void *operator new(size_t n, std::align_val_t a) { return take(n, false, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return take(n, false, (size_t)a); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { free(p); }
using namespace models;
namespace {
using Buf = std::vector<char>;
// the file of configuration k: its i-th choice is the k-th alternative, shifted
template <class T> bool make(int ki, int k, Buf &b, std::string &desc) {
    auto ks = kinds<T>(); auto &kd = ks[ki];
    std::vector<int> path;
    for (;;) {
        mc::Ctx c; mc::Stats st; c.st = &st; c.replaying = true; c.path = path; c.pos = 0;
        Model<T> m;
        try {
            m.o = k & 1 ? row_major : column_major;
            m.start(kd.ht, k % 2); m.data(c, k % 2);
            kd.configure(c, m, 0);
            kd.fit(c, m);
        } catch (mc::Prune &) { return false; } catch (mc::Violation &) { return false; }
        if (path.size() < c.arity.size()) { path.push_back((k * (1 + (int)path.size() % 3)) % c.arity[path.size()]); continue; }
        desc = m.desc;
        return m.st == da_status_success && da_handle_save_model(*m.h, b) == da_status_success;
    }
}
template <class T> const Buf &file(int ki, int k, std::string &desc) {
    static std::map<std::pair<int, int>, std::pair<Buf, std::string>> cache;
    auto key = std::make_pair(ki, k);
    auto f = cache.find(key);
    if (f == cache.end()) {
        Buf b; std::string d;
        if (!make<T>(ki, k, b, d)) b.clear();
        f = cache.emplace(key, std::make_pair(b, d)).first;
    }
    desc = f->second.second;
    return f->second.first;
}
// the bytes right in front of an inaccessible page
struct Guarded {
    char *base; size_t cap, pg;
    Guarded() { pg = sysconf(_SC_PAGESIZE); cap = 64 * pg; base = (char *)mmap(0, cap + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(base + cap, pg, PROT_NONE); }
    const char *put(const Buf &b) { char *p = base + cap - b.size(); memcpy(p, b.data(), b.size()); return p; }
};
struct Quiet { std::streambuf *o; std::ostringstream s; Quiet() { o = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); } };
// load, look at, destroy
template <class T> da_status load(mc::Ctx &c, const Buf &b, const std::string &what) {
    static Guarded g;
    if (b.size() > g.cap) { c.fail("size", "file of %zu bytes", b.size()); }
    const char *p = g.put(b);
    da_handle h = nullptr; da_status s = da_status_internal_error;
    bool thrown = false; std::string ex;
    largest = total = 0;
    counting = true;
    try { s = da_handle_load_model(&h, p, b.size()); }
    catch (std::exception &e) { thrown = true; counting = false; ex = e.what(); }
    catch (...) { thrown = true; }
    counting = false;
    size_t la = largest, to = total;
    if (thrown) c.fail("exception", "%s: loading throws out of the library (%s)", what.c_str(), ex.c_str());
    if (la > LIMIT || to > 8 * LIMIT) c.fail("allocation", "%s: loading a file of %zu bytes asks for a block of %zu bytes (%zu in all)", what.c_str(), b.size(), la, to);
    if (h) {
        try {
            if (s == da_status_success) {
                char v[300]; da_int n = sizeof v, i; T x;
                std::vector<std::string> names;
                if constexpr (std::is_same_v<T, double>) { if (h->alg_handle_d) for (auto &[k, o] : h->alg_handle_d->get_opts().registry) names.push_back(k); }
                else { if (h->alg_handle_s) for (auto &[k, o] : h->alg_handle_s->get_opts().registry) names.push_back(k); }
                for (auto &k : names) {
                    n = sizeof v; std::string sv; da_int id;
                    if (da_options_get_string(h, k.c_str(), v, &n) && da_options_get_int(h, k.c_str(), &i)) da_options_get<T>(h, k.c_str(), &x);
                    if constexpr (std::is_same_v<T, double>) h->alg_handle_d->get_opts().get(k, sv, id); else h->alg_handle_s->get_opts().get(k, sv, id);
                }
                Quiet q; da_handle_print_model_versions(h);
            }
        } catch (std::exception &e) { c.fail("inspect", "%s: inspecting the loaded handle throws %s", what.c_str(), e.what()); }
        da_handle_destroy(&h);
    }
    c.op(); c.out(s);
    return s;
}
static const int64_t words[] = {-1, INT64_MAX, INT64_MIN, (int64_t)1 << 31, ((int64_t)1 << 31) - 1, (int64_t)1 << 32, 1 << 20, 200, 0, ((int64_t)1 << 61), ((int64_t)1 << 32) + 1, ((int64_t)1 << 60) - 1};
template <class T> void damage(mc::Ctx &c, int ki, int ncfg) {
    int k = c.choose(ncfg);
    std::string d;
    Buf b = file<T>(ki, k, d);
    if (b.empty()) c.prune();
    // quick tier: the first and the last bytes of a large file (between them the records repeat)
    int size = (int)b.size(), at;
    int head = mc::thorough() ? size : mc::lite() ? 1600 : 4000, tail = mc::lite() ? 200 : 1000;
    if (size <= head + tail) at = c.choose(size);
    else { at = c.choose(head + tail); if (at >= head) at = size - tail + (at - head); }
    int how = c.choose(3);
    std::string pre = std::string(kinds<T>()[ki].name) + (sizeof(T) == 4 ? " single, " : " double, ") + d;
    if (how == 0) {
        Buf t(b.begin(), b.begin() + at);
        if (at == 0) { da_handle h = nullptr; char z = 0; if (da_handle_load_model(&h, &z, 0) == da_status_success) c.fail("empty", "an empty buffer is accepted"); if (da_handle_load_model(&h, (const char *)nullptr, 0) == da_status_success) c.fail("null", "a null buffer is accepted"); da_handle_destroy(&h); return; }
        if (load<T>(c, t, pre) == da_status_success) c.fail("truncated", "%s: the first %d of %zu bytes load as a model", pre.c_str(), at, b.size());
        Quiet q; largest = total = 0; counting = true; bool ok = true;
        try { da_model_persistence::print_model_metadata(t); } catch (...) { ok = false; }
        counting = false;
        if (!ok || largest > LIMIT) c.fail("metadata", "printing the metadata of the first %d bytes throws or asks for %zu bytes", at, largest);
    } else if (how == 1) {
        unsigned char o = b[at];
        std::vector<int> v = {0, 255, 127, 128, (o + 1) & 255, (o - 1) & 255};
        for (int i = 0; i < 8; i++) v.push_back(o ^ (1 << i));
        int w = mc::thorough() && at < 4000 ? c.choose(256) : c.pick(v);
        if (w == o) return;
        b[at] = (char)w;
        load<T>(c, b, pre + "byte " + std::to_string(at) + " set to " + std::to_string(w));
        if (at < 120) { Quiet q; largest = total = 0; counting = true; bool ok = true; try { da_model_persistence::print_model_metadata(b); } catch (...) { ok = false; } counting = false; if (!ok || largest > LIMIT) c.fail("metadata", "%s: printing the metadata with byte %d set to %d", pre.c_str(), at, w); }
    } else {
        if (at + 8 > (int)b.size()) c.prune();
        int64_t w = words[c.choose(mc::lite() ? 8 : (int)(sizeof words / sizeof *words))];
        memcpy(&b[at], &w, 8);
        load<T>(c, b, pre + "eight bytes at " + std::to_string(at) + " set to " + std::to_string((long long)w));
    }
}
// a save that cannot write everything says so
template <class T> void unwritable(mc::Ctx &c, int ki, int ncfg) {
    int k = c.choose(ncfg);
    std::string d; const Buf &b = file<T>(ki, k, d);
    if (b.empty()) c.prune();
    da_handle h = nullptr;
    if (da_handle_load_model(&h, b.data(), b.size())) c.fail("load", "cannot load");
    int how = c.choose(4);
    std::string dir = "/tmp/c08." + std::to_string(getpid()); mkdir(dir.c_str(), 0700);
    std::string f = dir + "/m";
    da_status s;
    if (how == 0) { // the disk is full after n bytes
        int n, size = (int)b.size();
        if (mc::thorough() || size <= 4000) n = c.choose(size + 1);
        else {
            std::vector<int> v;
            for (int i = 0; i <= size; i++) if (i < 200 || i > size - 200 || i % 97 == 0 || (i + 2) % 4096 < 4) v.push_back(i);
            n = c.pick(v);
        }
        signal(SIGXFSZ, SIG_IGN);
        rlimit o, r; getrlimit(RLIMIT_FSIZE, &o); r = o; r.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &r);
        s = da_handle_save_model(h, f.c_str());
        setrlimit(RLIMIT_FSIZE, &o);
        struct stat sb; size_t got = stat(f.c_str(), &sb) ? 0 : sb.st_size;
        if (s == da_status_success && got != b.size()) c.fail("short-write", "%s: only %zu of %zu bytes could be written but saving reports success", kinds<T>()[ki].name, got, b.size());
        if (s != da_status_success && n >= (int)b.size()) c.fail("save-fails", "%s: saving gives %d with room for %d of %zu bytes", kinds<T>()[ki].name, s, n, b.size());
    } else if (how == 1) { s = da_handle_save_model(h, "/dev/full"); if (s == da_status_success) c.fail("full-device", "saving to /dev/full reports success"); }
    else if (how == 2) { s = da_handle_save_model(h, (dir + "/no/such").c_str()); if (s == da_status_success) c.fail("no-directory", "saving to a missing directory reports success"); s = da_handle_save_model(h, dir.c_str()); if (s == da_status_success) c.fail("directory", "saving to a directory reports success"); }
    else { s = da_handle_save_model(h, (const char *)nullptr); if (s == da_status_success) c.fail("null-name", "saving to no file name reports success"); }
    c.op(); c.out(s);
    // the model is still good after a failed save
    Buf again; s = da_handle_save_model(h, again);
    if (s || again.size() != b.size()) c.fail("after", "after a failed save the model saves %zu bytes with status %d", again.size(), s);
    da_handle_destroy(&h);
    unlink(f.c_str()); rmdir(dir.c_str());
}
// files that are not model files
void notfiles(mc::Ctx &c) {
    std::string dir = "/tmp/c08." + std::to_string(getpid()); mkdir(dir.c_str(), 0700);
    std::string f = dir + "/m"; std::ofstream(f).close();
    std::string name[] = {dir, f, dir + "/none", "/dev/null", dir + "/no/such", ""};
    int w = c.choose(7), meta = c.choose(2);
    da_handle h = nullptr; da_status s = da_status_success;
    counting = true; largest = total = 0; bool ok = true;
    try { const char *p = w == 6 ? nullptr : name[w].c_str(); s = meta ? da_print_model_metadata(p) : da_handle_load_model(&h, p); } catch (...) { ok = false; }
    counting = false;
    c.op(); c.out(s);
    if (!ok) c.fail("not-a-file", "loading %d throws", w);
    if (s == da_status_success) c.fail("not-a-file-status", "file %d is accepted", w);
    da_handle_destroy(&h);
    unlink(f.c_str()); rmdir(dir.c_str());
}
}
void mc::register_all() {
    auto ks = kinds<double>();
    bool l = mc::lite();
    for (int ki = 0; ki < (int)ks.size(); ki++) {
        std::string n = ks[ki].name;
        mc::add(n + "-d", 2, [ki, l](mc::Ctx &c) { damage<double>(c, ki, l ? 1 : mc::thorough() ? 6 : 2); });
        if (!l) mc::add(n + "-s", 2, [ki](mc::Ctx &c) { damage<float>(c, ki, mc::thorough() ? 6 : 1); });
        mc::add(n + "-write", 2, [ki](mc::Ctx &c) { unwritable<double>(c, ki, mc::thorough() ? 4 : 1); });
    }
    mc::add("not model files", 1, notfiles);
}
