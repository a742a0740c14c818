// Stateless exhaustive explorer (choice-tree DFS over real executions) and explicit-state BFS over
// histories of real objects. See DESIGN.md.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {
constexpr int MAXP = 4096;
inline double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    return h ^ (h >> 32);
}
inline uint64_t hstr(const std::string &s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
}
struct Violation { std::string key, msg; };
struct Prune {};
struct OtherTask {};
struct Diverged { std::string msg; };

struct Slot { // shared with the parent; survives the worker's death
    std::atomic<uint64_t> execs;
    std::atomic<double> started;
    int scen, len, status; // status 0 running, 1 violation, 2 done
    int path[MAXP];
    char key[512];
    char msg[16384];
};
struct Stats {
    uint64_t execs = 0, pruned = 0, ops = 0, nodes = 0, known = 0, tasks = 0, maxdepth = 0;
};

class Ctx {
  public:
    // -- for harnesses ------------------------------------------------------
    int choose(int n, const char *label = nullptr) {
        if (n <= 1 && !label) return 0;
        if (pos == split_at && !replaying) task_gate();
        int c;
        if (pos < (int)path.size()) {
            c = path[pos];
            if (c >= n || (pos < (int)arity.size() && arity[pos] != n))
                throw Diverged{"choice " + std::to_string(pos) + " had " +
                               std::to_string(pos < (int)arity.size() ? arity[pos] : -1) + " alternatives, now " +
                               std::to_string(n)};
            if (pos >= (int)arity.size()) arity.push_back(n);
        } else {
            c = 0;
            path.push_back(0);
            arity.push_back(n);
            st->nodes++;
        }
        if (slot && pos < MAXP) { slot->path[pos] = c; slot->len = pos + 1; }
        pos++;
        if (tracing && label) note("%s=%d", label, c);
        return c;
    }
    template <class V> auto pick(const V &v, const char *label = nullptr) -> decltype(v[0]) {
        return v[choose((int)v.size(), label)];
    }
    template <class V> V pick(std::initializer_list<V> v) { return v.begin()[choose((int)v.size())]; }
    void op(int k = 1) { st->ops += k; }
    void out(uint64_t v) { outcome = mix(outcome, v); has_out = true; }
    void out(const std::string &s) { out(hstr(s)); }
    void prune() { throw Prune{}; }
    bool tracing = false;
    void note(const char *f, ...) __attribute__((format(printf, 2, 3))) {
        if (!tracing) return;
        char b[2048];
        va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
        if (trace.size() < 60000) { trace += b; trace += "; "; }
    }
    // a violation: key identifies the failing input class / call site (for known findings)
    void fail(const std::string &key, const char *f, ...) __attribute__((format(printf, 3, 4))) {
        char b[4096];
        va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
        if (known && known->count(key)) { st->known++; known_hit->insert(key); throw Prune{}; }
        throw Violation{key, b};
    }
    // record a violation where throwing is not allowed (inside callbacks); raised when the body ends
    void fail_later(const std::string &key, const std::string &m) { if (!pend) { pend = true; pkey = key; pmsg = m; } }
    bool capped() const { return false; }
    std::string trace;
    int depth() const { return pos; }
    // -- engine -----------------------------------------------------------
    std::vector<int> path, arity;
    int pos = 0, split_at = -1;
    bool replaying = false, pend = false, has_out = false;
    std::string pkey, pmsg;
    uint64_t outcome = 0;
    Slot *slot = nullptr;
    Stats *st = nullptr;
    const std::unordered_set<std::string> *known = nullptr;
    std::unordered_set<std::string> *known_hit = nullptr;
    std::function<void()> task_gate = [] {};
};

struct Scenario {
    std::string name;
    std::function<void(Ctx &)> body;
    int split;       // number of leading choices that define a parallel task
    int tiers;       // 1 quick, 2 thorough, 3 both
    bool bfs = false;
    // BFS: build a fresh object, apply ops; see Machine
    std::function<struct Machine *()> make;
    int depth = 0;
    uint64_t max_states = 2000000;
};
// explicit-state search over the real object: history replay + canonical state
struct Machine {
    virtual ~Machine() {}
    virtual int nops() = 0;
    virtual bool apply(int op, Ctx &c) = 0; // false: not enabled. Checks every step against the model.
    virtual std::string canon() = 0;        // determines all futures (model state + live implementation flags)
    virtual void check(Ctx &) {}            // invariant of the reached state
};
inline std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
inline bool &thorough() { static bool b = false; return b; }
// AddressSanitizer makes the code under test some 50 times slower: such a build walks the
// smaller space in the quick tier, and a plain build of the same harness the full one
inline bool lite() {
#ifdef __SANITIZE_ADDRESS__
    return !thorough();
#else
    return false;
#endif
}
inline void add(const std::string &name, int split, std::function<void(Ctx &)> body, int tiers = 3) {
    scenarios().push_back({name, body, split, tiers});
}
inline void add_bfs(const std::string &name, int depth, std::function<Machine *()> make, int tiers = 3,
                    uint64_t max_states = 2000000) {
    Scenario s{name, nullptr, 0, tiers};
    s.bfs = true; s.make = make; s.depth = depth; s.max_states = max_states;
    s.body = [make](Ctx &c) { // replay only: the path is the operation list
        std::unique_ptr<Machine> m(make());
        for (size_t i = 0; i < c.path.size(); i++) {
            if (!m->apply(c.path[i], c)) return;
            m->check(c);
        }
    };
    scenarios().push_back(s);
}
void register_all(); // each harness defines this

// ---------------------------------------------------------------------------
inline std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}
struct Run {
    std::string tier = "quick", outf, scratch, replay, only;
    std::unordered_set<std::string> known, known_hit;
    int jobs = 8;
    double deadline = 700, hang = 40;
    double t0 = now();
    bool capped = false;
    std::vector<Stats> st;
    std::vector<std::string> samples;
    std::vector<uint64_t> distinct;
    std::vector<uint64_t> bfs_states, bfs_trans;
    std::vector<int> bfs_depth;
    std::vector<bool> bfs_complete;
    Slot *slots = nullptr;
    std::atomic<uint64_t> *next_task = nullptr;
    std::string viol_key, viol_msg, viol_scen, viol_kind, viol_trace;
    std::vector<int> viol_path;
};
inline Run &R() { static Run r; return r; }

// runs one execution; returns false when the search of this subtree is finished
inline void run_one(Scenario &s, Ctx &c) {
    c.pos = 0; c.outcome = 1469598103934665603ULL; c.has_out = false; c.pend = false; c.trace.clear();
    if (c.slot) { c.slot->len = 0; c.slot->started.store(now()); }
    s.body(c);
    if (c.pend) {
        if (c.known && c.known->count(c.pkey)) { c.st->known++; c.known_hit->insert(c.pkey); throw Prune{}; }
        throw Violation{c.pkey, c.pmsg};
    }
}
inline void set_viol(Slot *sl, const std::string &k, const std::string &m) {
    snprintf(sl->key, sizeof sl->key, "%s", k.c_str());
    snprintf(sl->msg, sizeof sl->msg, "%s", m.c_str());
    sl->status = 1;
}
inline void worker(int w) {
    Run &r = R();
    auto &sc = scenarios();
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    Slot *sl = &r.slots[w];
    std::string lf = r.scratch + "/w" + std::to_string(w) + ".log";
    int fd = open(lf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 1); dup2(fd, 2);
    for (auto &x : r.st) x = Stats();
    r.samples.clear();
    std::unordered_set<uint64_t> dist;
    std::vector<std::string> samples;
    bool capped = false;
    for (size_t si = 0; si < sc.size(); si++) {
        Scenario &s = sc[si];
        if (s.bfs || !(s.tiers & (r.tier == "thorough" ? 2 : 1)) || (r.only.size() && s.name.find(r.only) == std::string::npos)) continue;
        Stats &st = r.st[si];
        sl->scen = si;
        Ctx c;
        c.slot = sl; c.st = &st; c.known = &r.known; c.known_hit = &r.known_hit; c.split_at = s.split;
        uint64_t claimed = r.next_task[si].fetch_add(1), idx = 0;
        bool mine = false, gated = false;
        int nsample = 0;
        uint64_t sample_at = 0;
        auto gate = [&] { // reached the split depth: is this subtree ours?
            if (gated) return;
            gated = true;
            if (idx != claimed) throw OtherTask{};
            mine = true;
        };
        c.task_gate = [&] { if (!mine) gate(); };
        bool done = false;
        while (!done) {
            bool other = false, skipexec = false;
            c.tracing = (mine || claimed == 0) && nsample < 2 && st.execs >= sample_at && w < 3;
            try {
                run_one(s, c);
                if (!mine && idx != claimed) skipexec = true; // ended before the split depth, not ours
                else if (!gated) { mine = true; }
                if (!skipexec) {
                    st.execs++;
                    if (c.has_out && dist.size() < 3000000) dist.insert(mix(c.outcome, si));
                    if (c.tracing && c.trace.size()) {
                        samples.push_back(s.name + ": " + c.trace.substr(0, 1500));
                        nsample++; sample_at = st.execs + 1000;
                    }
                }
            } catch (OtherTask &) { other = true;
            } catch (Prune &) { if (mine || idx == claimed) st.pruned++;
            } catch (Violation &v) {
                set_viol(sl, v.key, v.msg); _exit(3);
            } catch (Diverged &d) {
                set_viol(sl, s.name + ":diverged", "replaying a prefix gave a different behaviour: " + d.msg); _exit(3);
            } catch (std::exception &e) {
                set_viol(sl, s.name + ":exception", std::string("exception escaped: ") + e.what()); _exit(3);
            } catch (...) {
                set_viol(sl, s.name + ":exception", "unknown exception escaped"); _exit(3);
            }
            st.maxdepth = std::max<uint64_t>(st.maxdepth, c.pos);
            sl->execs.fetch_add(1);
            if (getenv("MC_RECORD")) fprintf(stderr, "exec %s pos=%d\n", s.name.c_str(), c.pos);
            // advance to the next path
            c.path.resize(c.pos); c.arity.resize(c.pos);
            if (other) { c.path.resize(std::min<int>(c.pos, s.split)); c.arity.resize(c.path.size()); }
            while (!c.path.empty() && c.path.back() + 1 >= c.arity.back()) { c.path.pop_back(); c.arity.pop_back(); }
            if (c.path.empty()) { done = true; break; }
            c.path.back()++;
            if (other || (int)c.path.size() <= s.split) { // left the current task
                idx++;
                if (mine) { st.tasks++; claimed = r.next_task[si].fetch_add(1); }
                else if (idx > claimed) claimed = r.next_task[si].fetch_add(1);
                mine = false; gated = false;
            }
            if (now() - r.t0 > r.deadline) { capped = true; break; }
        }
        if (mine) st.tasks++;
        if (capped) break;
    }
    // report
    FILE *f = fopen((r.scratch + "/w" + std::to_string(w) + ".stats").c_str(), "w");
    for (size_t si = 0; si < sc.size(); si++) {
        Stats &s = r.st[si];
        fprintf(f, "%llu %llu %llu %llu %llu %llu %llu\n", (unsigned long long)s.execs, (unsigned long long)s.pruned,
                (unsigned long long)s.ops, (unsigned long long)s.nodes, (unsigned long long)s.known,
                (unsigned long long)s.tasks, (unsigned long long)s.maxdepth);
    }
    fprintf(f, "%d\n%zu\n", capped ? 1 : 0, r.known_hit.size());
    for (auto &k : r.known_hit) fprintf(f, "%s\n", k.c_str());
    fprintf(f, "%zu\n", samples.size());
    for (auto &k : samples) { std::string e = jesc(k); fprintf(f, "%s\n", e.c_str()); }
    fclose(f);
    f = fopen((r.scratch + "/w" + std::to_string(w) + ".dist").c_str(), "w");
    for (auto h : dist) fwrite(&h, 8, 1, f);
    fclose(f);
    sl->status = 2;
    _exit(0);
}
inline std::string tail_log(const std::string &f, size_t n = 3000) {
    FILE *h = fopen(f.c_str(), "r");
    if (!h) return "";
    std::string s; char b[4096]; size_t k;
    while ((k = fread(b, 1, sizeof b, h)) > 0) { s += b[0] ? std::string(b, k) : std::string(b, k); if (s.size() > 2000000) break; }
    fclose(h);
    size_t p = s.find("ERROR: AddressSanitizer");
    if (p != std::string::npos) return s.substr(p, n);
    return s.size() > n ? s.substr(s.size() - n) : s;
}
inline std::string one_word(std::string s) { for (auto &ch : s) if (isspace((unsigned char)ch)) ch = '_'; return s; }
inline void write_replay(const std::string &fn, const std::string &scen, const std::vector<int> &path, const std::string &kind,
                         const std::string &key, const std::string &msg) {
    FILE *f = fopen(fn.c_str(), "w");
    fprintf(f, "scenario %s\ntier %s\npath %zu", one_word(scen).c_str(), R().tier.c_str(), path.size());
    for (int p : path) fprintf(f, " %d", p);
    fprintf(f, "\nkind %s\nkey %s\n---\n%s\n", kind.c_str(), key.c_str(), msg.c_str());
    fclose(f);
}
// exit 0: no violation when replayed; 3: violation; crash otherwise
inline int do_replay(const std::string &fn) {
    FILE *f = fopen(fn.c_str(), "r");
    if (!f) { fprintf(stderr, "no replay file %s\n", fn.c_str()); return 9; }
    char scen[512]; char tier[32]; size_t n;
    if (fscanf(f, "scenario %511s tier %31s path %zu", scen, tier, &n) != 3) return 9;
    std::vector<int> p(n);
    for (auto &x : p) if (fscanf(f, "%d", &x) != 1) return 9;
    fclose(f);
    R().tier = tier; thorough() = R().tier == "thorough";
    scenarios().clear(); register_all();
    for (auto &s : scenarios()) if (one_word(s.name) == scen) {
        Ctx c; Stats st;
        c.st = &st; c.replaying = true; c.tracing = true; c.path = p;
        try { run_one(s, c); }
        catch (Violation &v) { printf("TRACE %s\nVIOLATED key=%s %s\n", c.trace.c_str(), v.key.c_str(), v.msg.c_str()); fflush(stdout); return 3; }
        catch (Prune &) { printf("pruned\n"); return 0; }
        catch (Diverged &d) { printf("DIVERGED %s\n", d.msg.c_str()); return 3; }
        catch (std::exception &e) { printf("TRACE %s\nVIOLATED exception %s\n", c.trace.c_str(), e.what()); return 3; }
        printf("TRACE %s\nheld\n", c.trace.c_str());
        return 0;
    }
    fprintf(stderr, "no scenario %s\n", scen);
    return 9;
}
// replays in a child process with its own time limit. 0 held, 3 violation, 4 crash, 5 hang
inline int confirm(const std::string &fn, std::string &txt, double limit) {
    std::string lf = R().scratch + "/replay.log";
    pid_t p = fork();
    if (p == 0) {
        int fd = open(lf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 1); dup2(fd, 2);
        int rc = do_replay(fn);
        fflush(stdout);
        _exit(rc);
    }
    double t = now(); int ws;
    while (true) {
        if (waitpid(p, &ws, WNOHANG) == p) break;
        if (now() - t > limit) { kill(p, SIGKILL); waitpid(p, &ws, 0); txt = tail_log(lf); return 5; }
        usleep(2000);
    }
    txt = tail_log(lf, 6000);
    if (WIFEXITED(ws) && (WEXITSTATUS(ws) == 0 || WEXITSTATUS(ws) == 3)) return WEXITSTATUS(ws);
    return 4;
}
inline bool have_viol() { return !R().viol_kind.empty(); }
inline void take_viol(Slot *sl, const std::string &kind, const std::string &key, const std::string &msg) {
    Run &r = R();
    r.viol_kind = kind; r.viol_key = key; r.viol_msg = msg;
    r.viol_scen = scenarios()[sl->scen].name;
    r.viol_path.assign(sl->path, sl->path + std::min(sl->len, MAXP));
}
// waits for workers pids (indexed by slot); handles crash, hang, violation. Returns false on violation
inline bool supervise(std::vector<pid_t> &pids) {
    Run &r = R();
    size_t alive = pids.size();
    std::vector<double> warned(pids.size(), 0);
    while (alive && !have_viol()) {
        int ws; pid_t p = waitpid(-1, &ws, WNOHANG);
        if (p <= 0) {
            double t = now();
            for (size_t w = 0; w < pids.size(); w++) if (pids[w] > 0) {
                Slot *sl = &r.slots[w];
                double s0 = sl->started.load();
                if (sl->status == 0 && s0 > 0 && t - s0 > r.hang) {
                    kill(pids[w], SIGKILL); waitpid(pids[w], &ws, 0); pids[w] = 0; alive--;
                    take_viol(sl, "hang", scenarios()[sl->scen].name + ":hang", "execution does not terminate");
                    std::string fn = r.scratch + "/hang.replay", txt;
                    write_replay(fn, r.viol_scen, r.viol_path, "hang", r.viol_key, r.viol_msg);
                    int c = confirm(fn, txt, 3 * r.hang);
                    r.viol_trace = txt;
                    if (c == 0) { fprintf(stderr, "slow execution was not a hang; worker restarted is not supported\n"); r.viol_kind.clear(); r.capped = true; }
                }
            }
            usleep(3000);
            continue;
        }
        for (size_t w = 0; w < pids.size(); w++) if (pids[w] == p) {
            pids[w] = 0; alive--;
            Slot *sl = &r.slots[w];
            if (sl->status == 2) break;
            if (sl->status == 1) take_viol(sl, "oracle", sl->key, sl->msg);
            else if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGKILL) {
                fprintf(stderr, "worker %zu was killed (memory?)\n", w); _exit(4);
            } else {
                std::string log = tail_log(r.scratch + "/w" + std::to_string(w) + ".log");
                take_viol(sl, "crash", scenarios()[sl->scen].name + ":crash", "process died: " + log);
            }
        }
    }
    for (auto p : pids) if (p > 0) { kill(p, SIGKILL); waitpid(p, nullptr, 0); }
    return !have_viol();
}
inline void run_bfs(size_t si) {
    Run &r = R();
    Scenario &s = scenarios()[si];
    std::unordered_set<uint64_t> seen;
    std::vector<std::vector<short>> frontier{{}};
    uint64_t trans = 0; int depth = 0; bool complete = false;
    { // initial state
        std::unique_ptr<Machine> m(s.make());
        seen.insert(hstr(m->canon()));
    }
    while (!frontier.empty() && depth < s.depth && seen.size() < s.max_states) {
        int W = std::min<size_t>(r.jobs, std::max<size_t>(1, frontier.size() / 4));
        std::vector<pid_t> pids;
        for (int w = 0; w < W; w++) {
            Slot *sl = &r.slots[w];
            sl->status = 0; sl->scen = si; sl->len = 0; sl->started.store(0);
            pid_t p = fork();
            if (p == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                int fd = open((r.scratch + "/w" + std::to_string(w) + ".log").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
                dup2(fd, 1); dup2(fd, 2);
                FILE *f = fopen((r.scratch + "/b" + std::to_string(w)).c_str(), "w");
                Stats st; Ctx c; c.st = &st; c.known = &r.known; c.known_hit = &r.known_hit;
                std::unordered_set<uint64_t> loc;
                uint64_t tr = 0, traces = 0;
                for (size_t i = w; i < frontier.size(); i += W) {
                    auto &h = frontier[i];
                    int nops; { std::unique_ptr<Machine> m(s.make()); nops = m->nops(); }
                    for (int o = 0; o < nops; o++) {
                        sl->started.store(now());
                        sl->len = h.size() + 1;
                        for (size_t j = 0; j < h.size(); j++) sl->path[j] = h[j];
                        sl->path[h.size()] = o;
                        try {
                            std::unique_ptr<Machine> m(s.make());
                            for (auto x : h) m->apply(x, c);
                            if (!m->apply(o, c)) continue;
                            m->check(c);
                            tr++; traces++;
                            uint64_t k = hstr(m->canon());
                            if (!seen.count(k) && loc.insert(k).second) {
                                short len = h.size() + 1, oo = o;
                                fwrite(&k, 8, 1, f); fwrite(&len, 2, 1, f);
                                for (auto x : h) fwrite(&x, 2, 1, f);
                                fwrite(&oo, 2, 1, f);
                            }
                        } catch (Prune &) {
                        } catch (Violation &v) { set_viol(sl, v.key, v.msg); _exit(3);
                        } catch (std::exception &e) { set_viol(sl, s.name + ":exception", std::string("exception escaped: ") + e.what()); _exit(3); }
                    }
                }
                fclose(f);
                f = fopen((r.scratch + "/c" + std::to_string(w)).c_str(), "w");
                fprintf(f, "%llu %llu %llu\n", (unsigned long long)tr, (unsigned long long)st.ops, (unsigned long long)st.known);
                for (auto &k : r.known_hit) fprintf(f, "%s\n", k.c_str());
                fclose(f);
                sl->status = 2;
                _exit(0);
            }
            pids.push_back(p);
        }
        if (!supervise(pids)) return;
        std::vector<std::vector<short>> next;
        for (int w = 0; w < W; w++) {
            FILE *f = fopen((r.scratch + "/b" + std::to_string(w)).c_str(), "r");
            uint64_t k; short len;
            while (fread(&k, 8, 1, f) == 1) {
                if (fread(&len, 2, 1, f) != 1) break;
                std::vector<short> h(len);
                if (fread(h.data(), 2, len, f) != (size_t)len) break;
                if (seen.insert(k).second) next.push_back(h);
            }
            fclose(f);
            f = fopen((r.scratch + "/c" + std::to_string(w)).c_str(), "r");
            unsigned long long a = 0, b = 0, kn = 0; char buf[512];
            if (fscanf(f, "%llu %llu %llu", &a, &b, &kn) == 3) { trans += a; r.st[si].ops += b; r.st[si].execs += a; r.st[si].known += kn; }
            while (fscanf(f, " %511[^\n]", buf) == 1) r.known_hit.insert(buf);
            fclose(f);
        }
        frontier.swap(next);
        depth++;
        if (now() - r.t0 > r.deadline) { r.capped = true; break; }
    }
    complete = frontier.empty();
    r.bfs_states[si] = seen.size(); r.bfs_trans[si] = trans; r.bfs_depth[si] = depth; r.bfs_complete[si] = complete;
    for (auto h : seen) r.distinct.push_back(mix(h, si));
    if (seen.size() >= s.max_states) r.capped = true;
    { // one sample: a longest history
        Ctx c; Stats st; c.st = &st; c.tracing = true; c.known = &r.known; std::unordered_set<std::string> dummy; c.known_hit = &dummy;
        std::string t = s.name + ": ";
        try {
            std::unique_ptr<Machine> m(s.make());
            if (!frontier.empty()) for (auto x : frontier[frontier.size() / 2]) m->apply(x, c);
            else for (int i = 0, k = 0; i < m->nops() && k < 4; i += 1 + m->nops() / 5, k++) m->apply(i, c);
        } catch (...) {}
        r.samples.push_back(jesc(t + c.trace.substr(0, 1500)));
    }
}
inline int mc_main(int argc, char **argv) {
    Run &r = R();
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") r.tier = nx();
        else if (a == "--jobs") r.jobs = atoi(nx().c_str());
        else if (a == "--out") r.outf = nx();
        else if (a == "--scratch") r.scratch = nx();
        else if (a == "--replay") r.replay = nx();
        else if (a == "--only") r.only = nx();
        else if (a == "--deadline") r.deadline = atof(nx().c_str());
        else if (a == "--hang") r.hang = atof(nx().c_str());
        else if (a == "--known") r.known.insert(nx());
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    thorough() = r.tier == "thorough";
    if (r.replay.size()) return do_replay(r.replay);
    if (r.scratch.empty()) r.scratch = "/tmp/mc." + std::to_string(getpid());
    mkdir(r.scratch.c_str(), 0755);
    register_all();
    auto &sc = scenarios();
    r.st.resize(sc.size());
    r.bfs_states.resize(sc.size()); r.bfs_trans.resize(sc.size()); r.bfs_depth.resize(sc.size()); r.bfs_complete.resize(sc.size());
    r.slots = (Slot *)mmap(nullptr, sizeof(Slot) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    r.next_task = (std::atomic<uint64_t> *)mmap(nullptr, 8 * (sc.size() + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    bool any = false;
    for (size_t si = 0; si < sc.size() && !have_viol(); si++) {
        if (!(sc[si].tiers & (r.tier == "thorough" ? 2 : 1)) || (r.only.size() && sc[si].name.find(r.only) == std::string::npos)) continue;
        if (sc[si].bfs) run_bfs(si); else any = true;
    }
    if (any && !have_viol()) {
        std::vector<pid_t> pids;
        for (int w = 0; w < r.jobs; w++) {
            r.slots[w].status = 0; r.slots[w].started.store(0); r.slots[w].len = 0;
            pid_t p = fork();
            if (p == 0) worker(w);
            pids.push_back(p);
        }
        if (supervise(pids)) for (int w = 0; w < r.jobs; w++) {
            FILE *f = fopen((r.scratch + "/w" + std::to_string(w) + ".stats").c_str(), "r");
            if (!f) { r.capped = true; continue; }
            for (size_t si = 0; si < sc.size(); si++) {
                unsigned long long v[7] = {0};
                for (auto &x : v) if (fscanf(f, "%llu", &x) != 1) break;
                Stats &s = r.st[si];
                s.execs += v[0]; s.pruned += v[1]; s.ops += v[2]; s.nodes += v[3]; s.known += v[4]; s.tasks += v[5];
                s.maxdepth = std::max<uint64_t>(s.maxdepth, v[6]);
            }
            int cap = 0; size_t n = 0; static char b[70000];
            if (fscanf(f, "%d %zu ", &cap, &n) == 2) { r.capped |= cap; }
            for (size_t i = 0; i < n; i++) if (fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; r.known_hit.insert(b); }
            n = 0;
            if (fscanf(f, "%zu ", &n) == 1) for (size_t i = 0; i < n; i++) if (fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; r.samples.push_back(b); }
            fclose(f);
            f = fopen((r.scratch + "/w" + std::to_string(w) + ".dist").c_str(), "r");
            uint64_t h;
            if (f) { while (fread(&h, 8, 1, f) == 1) r.distinct.push_back(h); fclose(f); }
        }
    }
    if (have_viol() && r.viol_kind != "hang") {
        std::string fn = r.scratch + "/v.replay", txt;
        write_replay(fn, r.viol_scen, r.viol_path, r.viol_kind, r.viol_key, r.viol_msg);
        int c = confirm(fn, txt, 120);
        r.viol_trace = (c == 0 ? "[not reproduced when replayed alone: depends on earlier executions] " : "") + txt;
    }
    std::sort(r.distinct.begin(), r.distinct.end());
    r.distinct.erase(std::unique(r.distinct.begin(), r.distinct.end()), r.distinct.end());
    FILE *f = r.outf.size() ? fopen(r.outf.c_str(), "w") : stdout;
    fprintf(f, "{\"wall\": %.2f, \"capped\": %s, \"distinct\": %zu,\n \"scenarios\": [", now() - r.t0, r.capped ? "true" : "false", r.distinct.size());
    bool first = true;
    for (size_t si = 0; si < sc.size(); si++) {
        if (!(sc[si].tiers & (r.tier == "thorough" ? 2 : 1))) continue;
        Stats &s = r.st[si];
        fprintf(f, "%s\n  {\"name\": \"%s\", \"execs\": %llu, \"pruned\": %llu, \"ops\": %llu, \"nodes\": %llu, \"known\": %llu, \"maxdepth\": %llu", first ? "" : ",",
                sc[si].name.c_str(), (unsigned long long)s.execs, (unsigned long long)s.pruned, (unsigned long long)s.ops, (unsigned long long)s.nodes, (unsigned long long)s.known, (unsigned long long)s.maxdepth);
        if (sc[si].bfs) fprintf(f, ", \"bfs_states\": %llu, \"bfs_transitions\": %llu, \"bfs_depth\": %d, \"bfs_complete\": %s", (unsigned long long)r.bfs_states[si], (unsigned long long)r.bfs_trans[si], r.bfs_depth[si], r.bfs_complete[si] ? "true" : "false");
        fprintf(f, "}");
        first = false;
    }
    fprintf(f, "],\n \"known_hit\": [");
    first = true;
    for (auto &k : r.known_hit) { fprintf(f, "%s\"%s\"", first ? "" : ", ", jesc(k).c_str()); first = false; }
    fprintf(f, "],\n \"samples\": [");
    first = true;
    for (size_t i = 0; i < r.samples.size() && i < 40; i++) { fprintf(f, "%s\n  \"%s\"", first ? "" : ",", r.samples[i].c_str()); first = false; }
    fprintf(f, "]");
    if (have_viol()) {
        fprintf(f, ",\n \"violation\": {\"kind\": \"%s\", \"key\": \"%s\", \"scenario\": \"%s\", \"msg\": \"%s\", \"trace\": \"%s\", \"path\": [", r.viol_kind.c_str(), jesc(r.viol_key).c_str(),
                r.viol_scen.c_str(), jesc(r.viol_msg).c_str(), jesc(r.viol_trace).c_str());
        for (size_t i = 0; i < r.viol_path.size(); i++) fprintf(f, "%s%d", i ? ", " : "", r.viol_path[i]);
        fprintf(f, "]}");
    }
    fprintf(f, "}\n");
    if (f != stdout) fclose(f);
    fflush(stdout);
    _exit(have_viol() ? 1 : 0);
}
} // namespace mc
#ifndef MC_NO_MAIN
#include <memory>
int main(int argc, char **argv) { return mc::mc_main(argc, argv); }
#endif
