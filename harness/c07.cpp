// C07: a saved and reloaded model answers exactly like the original.
#include "models.hpp"
#include <fstream>
using namespace models;
namespace {
using Buf = std::vector<char>;
template <class T> auto &alg(da_handle h) { if constexpr (std::is_same_v<T, double>) return *h->alg_handle_d; else return *h->alg_handle_s; }
// every option of the handle with its value
template <class T> std::map<std::string, std::string> options(da_handle h) {
    std::map<std::string, std::string> r;
    for (auto &[k, v] : alg<T>(h).get_opts().registry) {
        std::string s;
        char b[128]; da_int n = sizeof b, i; T x;
        if (!da_options_get_string(h, k.c_str(), b, &n)) s = std::string("s:") + b;
        else if (!da_options_get_int(h, k.c_str(), &i)) s = "i:" + std::to_string(i);
        else if (!da_options_get<T>(h, k.c_str(), &x)) s = "r:" + std::string((const char *)&x, sizeof x);
        r[k] = s;
    }
    return r;
}
// the file with its option records sorted: their order in the file carries no meaning
template <class T> std::string canon(da_handle h, const Buf &b) {
    size_t at = 0; bool ok = true;
    auto i64 = [&] { int64_t v = 0; if (at + 8 <= b.size()) memcpy(&v, b.data() + at, 8); else ok = false; at += 8; return v; };
    auto str = [&](int64_t n) { std::string s; if (n >= 0 && at + n <= b.size()) s.assign(b.data() + at, n); else ok = false; at += n; return s; };
    std::string head = str(i64()); for (int i = 0; i < 4; i++) head += "," + std::to_string(i64()); head += str(i64());
    int64_t n = i64();
    std::map<std::string, std::string> rec;
    auto &reg = alg<T>(h).get_opts().registry;
    for (int64_t i = 0; i < n && ok; i++) {
        std::string k = str(i64());
        auto f = reg.find(k);
        if (f == reg.end()) { ok = false; break; }
        auto ty = f->second->get_option_t();
        rec[k] = ty == da_options::option_t::opt_string ? str(i64()) : str(ty == da_options::option_t::opt_int ? 8 : ty == da_options::option_t::opt_float ? 4 : 8);
    }
    if (!ok) return "unreadable";
    std::string r = head; for (auto &[k, v] : rec) r += k + "=" + v + ";";
    return r + std::string(b.data() + at, b.size() - at);
}
template <class T> void run(mc::Ctx &c, int ki) {
    auto ks = kinds<T>(); auto &k = ks[ki];
    Model<T> m;
    int dv = c.choose(mc::lite() ? 2 : 3);
    m.o = (mc::lite() ? dv : c.choose(2)) ? row_major : column_major;
    m.start(k.ht, dv); m.data(c, dv);
    k.configure(c, m, mc::lite());
    k.fit(c, m);
    std::string d = std::string(k.name) + ", data " + std::to_string(dv) + ", " + ordn(m.o) + ": " + m.desc;
    c.op();
    Buf b1(3, 'x');
    da_status s = da_handle_save_model(*m.h, b1);
    c.out(m.st); c.out(s);
    if (m.st) { // not trained: either refused or, where data alone can be saved, consistent
        if (s == da_status_success) { da_handle l = nullptr; da_status q = da_handle_load_model(&l, b1.data(), b1.size()); if (q) c.fail("reload", "%s: saved after a failed fit (status %d) but loading gives %d", d.c_str(), m.st, q); da_handle_destroy(&l); }
        return;
    }
    if (s) { c.fail("save", "%s: saving a trained model gives status %d", d.c_str(), s); return; }
    auto o1 = options<T>(*m.h);
    int first = mc::lite() ? 0 : c.choose(2); // observe the original before or after the copy is loaded
    Obs A, B, A2;
    if (first == 0) observe(k, *m.h, m, A);
    da_handle l = nullptr;
    s = da_handle_load_model(&l, b1.data(), b1.size());
    if (s) { c.fail("load", "%s: loading the saved model gives status %d", d.c_str(), s); da_handle_destroy(&l); return; }
    auto o2 = options<T>(l);
    if (o1 != o2) {
        std::string w; for (auto &[n, v] : o1) if (o2[n] != v) w += n + " (" + v + " -> " + o2[n] + ") ";
        c.fail("options", "%s: options differ after loading: %s", d.c_str(), w.c_str());
    }
    // The padding of the original's data is not part of the model, though one kind writes it down: compare
    // the second and third generations then.
    Buf b2, b3; s = da_handle_save_model(l, b2);
    bool padded = m.X.ld != (m.o == column_major ? m.X.n : m.X.m);
    if (!s && padded) {
        da_handle l2 = nullptr; s = da_handle_load_model(&l2, b2.data(), b2.size());
        if (!s) s = da_handle_save_model(l2, b3);
        da_handle_destroy(&l2);
        if (b1.size() != b2.size()) c.fail("resave-size", "%s: saving the loaded model again gives %zu bytes instead of %zu", d.c_str(), b2.size(), b1.size());
    } else b3 = b1;
    if (s || canon<T>(l, b3) != canon<T>(l, b2)) { size_t at = 0; while (at < b3.size() && at < b2.size() && b3[at] == b2[at]) at++; c.fail("resave", "%s: saving the loaded model again gives status %d, %zu bytes instead of %zu, first difference at %zu", d.c_str(), s, b2.size(), b3.size(), at); }
    bool again = ki != 2 && ki != 3 && c.choose(2);
    bool alone = first == 0 && !again && (mc::lite() || c.choose(2)); // the original and its data are gone when the copy answers
    if (alone) { da_handle_destroy(&m.h->h); std::vector<T>().swap(m.X.v); std::vector<T>().swap(m.t); std::vector<da_int>().swap(m.y); }
    if (padded) { da_handle_destroy(&l); da_handle_load_model(&l, b2.data(), b2.size()); } // answers of the second generation
    observe(k, l, m, B);
    if (first == 1) observe(k, *m.h, m, A);
    std::string df = show_diff(A, B);
    if (df.size()) c.fail("answers", "%s: the loaded model answers differently: %s", d.c_str(), df.c_str());
    c.out(A.e.size());
    for (auto &e : A.e) for (unsigned char ch : e.bytes) c.out(ch);
    // answers are stable
    observe(k, l, m, A2);
    if (!df.size() && !alone) { Obs A3; observe(k, *m.h, m, A3); df = show_diff(A3, A2); if (df.size()) c.fail("answers-again", "%s: asked a second time, the loaded model answers differently: %s", d.c_str(), df.c_str()); }
    // train both on other data
    if (again) {
        int dw = (dv + 1) % 3;
        Model<T> n2; n2.o = m.o; n2.desc = m.desc; n2.keep = m.keep;
        Obs C1, C2;
        Handle<T> *orig = m.h.release();
        n2.h.reset(new Handle<T>(k.ht)); da_handle fresh = n2.h->h;
        auto go = [&](da_handle hh, Obs &o, std::vector<int> &ch) {
            n2.h->h = hh; n2.st = da_status_success;
            n2.data(c, dw);
            k.fit(c, n2);
            o.add("training again", n2.st, std::vector<int>());
            observe(k, hh, n2, o, true);
        };
        std::vector<int> ch;
        go(orig->h, C1, ch); go(l, C2, ch);
        df = show_diff(C1, C2);
        if (df.size()) c.fail("retrain", "%s: trained again on other data, the loaded model differs: %s", d.c_str(), df.c_str());
        n2.h->h = fresh; m.h.reset(orig);
    }
    da_handle_destroy(&l);
}
// the file interface: same bytes, same model; refusals leave the handle alone
template <class T> void file(mc::Ctx &c, int ki) {
    auto ks = kinds<T>(); auto &k = ks[ki];
    Model<T> m;
    m.start(k.ht, 0); m.data(c, 0);
    da_handle raw = *m.h;
    Buf b;
    if (da_handle_save_model(raw, b) == da_status_success) c.fail("untrained", "%s: an untrained model can be saved", k.name);
    // the first trainable configuration
    bool first = true;
    k.configure(c, m, 1); k.fit(c, m);
    if (m.st) c.prune();
    c.op(); (void)first;
    char f[64]; snprintf(f, sizeof f, "/tmp/c07.%d.%d", (int)getpid(), ki);
    { std::ofstream o(f); for (int i = 0; i < 100000; i++) o << 'z'; } // longer old content must go
    da_status s = da_handle_save_model(raw, f);
    if (s) c.fail("file-save", "%s: saving to a file gives %d", k.name, s);
    da_handle_save_model(raw, b);
    std::ifstream in(f, std::ios::binary); Buf fb((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    if (fb != b) c.fail("file-bytes", "%s: the file has %zu bytes, the buffer %zu, or they differ", k.name, fb.size(), b.size());
    da_handle l = nullptr; s = da_handle_load_model(&l, f);
    Obs A, B; observe(k, raw, m, A);
    if (s) c.fail("file-load", "%s: loading the file gives %d", k.name, s);
    else { observe(k, l, m, B); auto df = show_diff(A, B); if (df.size()) c.fail("file-answers", "%s: loaded from a file, %s", k.name, df.c_str()); }
    // a handle in use is not a target
    da_handle keep = l; Obs C;
    if (l) { B = Obs(); observe(k, l, m, B); } // observing may itself add answers (radius search results)
    for (int w = 0; w < 2; w++) {
        s = w ? da_handle_load_model(&l, f) : da_handle_load_model(&l, b.data(), b.size());
        if (s == da_status_success || l != keep) c.fail("load-over", "%s: loading over a live handle gives %d", k.name, s);
    }
    if (l) { observe(k, l, m, C); auto df = show_diff(B, C); if (df.size()) c.fail("load-over-state", "%s: a refused load changed the handle: %s", k.name, df.c_str()); }
    unlink(f);
    // the kind and precision are those of the file
    using U = std::conditional_t<std::is_same_v<T, double>, float, double>;
    auto kus = kinds<U>();
    Model<U> mu; mu.start(k.ht, 0); mu.data(c, 0); Obs D;
    std::vector<U> r; da_int d = 100; r.resize(100);
    if (l && getres(l, da_rinfo, &d, r.data()) == da_status_success) c.fail("precision", "%s: a loaded model answers in the other precision", k.name);
    for (int kj = 0; kj < (int)kus.size(); kj++) {
        Obs E; Model<T> mm; mm.start(k.ht, 0); mm.data(c, 0); mm.keep = nullptr;
        if (l && kj != ki) { ks[kj].probe(l, mm, E); for (auto &e : E.e) { da_status q; memcpy(&q, e.bytes.data(), sizeof q); if (q == da_status_success && e.what.find("result") == std::string::npos) c.fail("kind", "%s model answers %s of a %s", k.name, e.what.c_str(), ks[kj].name); } }
    }
    da_handle_destroy(&l);
}
}
void mc::register_all() {
    auto ks = kinds<double>();
    for (int ki = 0; ki < (int)ks.size(); ki++) {
        mc::add(std::string(ks[ki].name) + "-d", 1, [ki](mc::Ctx &c) { run<double>(c, ki); });
        mc::add(std::string(ks[ki].name) + "-s", 1, [ki](mc::Ctx &c) { run<float>(c, ki); });
        if (!mc::lite()) mc::add(std::string("file-") + ks[ki].name, 1, [ki](mc::Ctx &c) { if (c.choose(2)) file<float>(c, ki); else file<double>(c, ki); });
    }
}
