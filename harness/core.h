// Property-based testing core: choice tapes (so every case shrinks and replays), a forking runner
// that survives crashes and hangs of the code under test, counters and evidence.
//
// A check program defines:   Spec spec();            what it is
//                            void one_case(Src&, Ctx&); generates one case from the Src and judges it
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>

#if defined(__SANITIZE_ADDRESS__) || defined(__has_feature)
extern "C" inline __attribute__((used, visibility("default"))) const char *__asan_default_options() {
    return "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1024:exitcode=77:quarantine_size_mb=16:"
           "handle_segv=1:handle_abort=1:handle_sigfpe=1:detect_stack_use_after_return=0:print_legend=0:"
           "malloc_context_size=12:detect_odr_violation=0:intercept_tls_get_addr=0:max_malloc_fill_size=0";
}
#endif

static inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

static inline std::string fmt(const char *f, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

// ------------------------------------------------------------------ shared slot of a running case
static const size_t TAPE_MAX = 1 << 16;
static const size_t OUT_MAX = 1 << 20;
struct Slot {
    volatile uint64_t ntape;
    volatile uint64_t cur;         // index of the running case within the batch list
    volatile uint64_t status;      // 0 running, 1 all done, 2 property failed
    volatile uint64_t done_cases;
    char sig[256];
    char msg[8192];
    char desc[4096];
    uint64_t tape[TAPE_MAX];
    uint64_t out_len;
    char out[OUT_MAX];
};
static Slot *g_slot = nullptr;

// ------------------------------------------------------------------ source of choices
struct Src {
    bool replay = false;
    std::vector<uint64_t> in;
    size_t pos = 0;
    uint64_t st = 1;
    uint64_t n_rec = 0;
    uint64_t hash = 0;
    uint64_t forced = 0; // value of the first draw when has_forced (enumerated cases)
    bool has_forced = false;

    explicit Src(uint64_t seed) : st(seed) {}
    explicit Src(const std::vector<uint64_t> &t) : replay(true), in(t) {}

    void record(uint64_t v) {
        hash = mix64(hash ^ v);
        if (g_slot && n_rec < TAPE_MAX) {
            g_slot->tape[n_rec] = v;
            g_slot->ntape = n_rec + 1;
        }
        n_rec++;
    }
    // uniform in [0, n); 0 is the simplest value
    uint64_t draw(uint64_t n) {
        uint64_t v;
        if (n <= 1) return 0;
        if (replay) {
            v = pos < in.size() ? in[pos] % n : 0;
            pos++;
        } else if (has_forced) {
            has_forced = false;
            v = forced % n;
        } else {
            st = mix64(st);
            v = st % n;
        }
        record(v);
        return v;
    }
    int range(int lo, int hi) { return hi <= lo ? lo : lo + (int)draw((uint64_t)((int64_t)hi - lo) + 1); }
    bool chance(int num, int den) { return (int)draw(den) >= den - num; } // 0 -> false
    bool flip() { return draw(2) == 1; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size())); }
    uint64_t seed32() { return draw(1ULL << 32); }
    // a size: mostly small, with boundary values
    int size(int maxv) {
        switch (draw(4)) {
        case 0: return range(1, std::min(maxv, 4));
        case 1: return range(1, std::min(maxv, 20));
        case 2: return range(1, maxv);
        default: {
            static const int b[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 131, 255, 256, 257, 258, 300};
            int n = 0;
            while (n < (int)(sizeof b / sizeof *b) && b[n] <= maxv) n++;
            return b[draw(n)];
        }
        }
    }
};

struct Fail {
    std::string sig, msg;
};

struct Ctx {
    std::map<std::string, uint64_t> cnt;
    bool nontriv = false;
    std::string desc;
    void note(const std::string &k, uint64_t n = 1) { cnt[k] += n; }
    void say(const std::string &s) {
        if (desc.size() < 3000) {
            if (!desc.empty()) desc += "; ";
            desc += s;
            if (g_slot) { strncpy(g_slot->desc, desc.c_str(), sizeof g_slot->desc - 1); }
        }
    }
};

static std::string g_scratch;  // directory this case may write in (removed by the runner)
static std::set<std::string> g_known; // keys of known findings: excluded by construction by generators
static inline bool known(const char *k) { return g_known.count(k) != 0; }
static bool g_thorough = false;

[[noreturn]] static inline void fail(const std::string &sig, const std::string &msg) { throw Fail{sig, msg}; }
#define CHECK(cond, sig, ...)                                      \
    do {                                                           \
        if (!(cond)) fail(sig, fmt(__VA_ARGS__));                  \
    } while (0)

struct Known {
    std::string key, what;
    std::function<void(Ctx &)> probe; // fails (or crashes) while the finding is there
};
struct Spec {
    std::string id, rule;
    uint64_t quick_cases, thorough_cases;
    int batch;          // cases per forked child
    int cpu_limit;      // seconds of cpu for one case
    std::vector<Known> known;
    std::vector<std::string> assumptions;
    uint64_t enumerated = 0; // the first draw of case i < enumerated is i
    std::map<std::string, double> min_frac; // class counters that must reach this fraction of cases (generator health)
};
Spec spec();
void one_case(Src &s, Ctx &c);

// ------------------------------------------------------------------ runner
static std::string json_str(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) o += fmt("\\u%04x", c);
        else o += c;
    }
    return o + "\"";
}
static double now_s() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static void rm_tree(const std::string &d) {
    if (d.size() < 12 || d.find("/vh.") == std::string::npos) return; // only ever our own scratch directories
    DIR *D = opendir(d.c_str());
    if (!D) return;
    while (struct dirent *e = readdir(D)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        std::string p = d + "/" + e->d_name;
        struct stat sb;
        if (lstat(p.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode)) rm_tree(p);
        else unlink(p.c_str());
    }
    closedir(D);
    rmdir(d.c_str());
}

static void on_cpu(int) {
    static const char m[] = "VH-TIMEOUT: case exceeded its cpu limit\n";
    ssize_t r = write(2, m, sizeof m - 1);
    (void)r;
    _exit(78);
}
static void arm_cpu(int secs) {
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = secs;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

struct Runner {
    Spec sp = spec();
    uint64_t seed = 1;
    std::string base; // scratch base
    bool survey = false;

    struct Job {
        pid_t pid = 0;
        Slot *slot = nullptr;
        std::string dir, log;
        std::vector<uint64_t> idx;             // case numbers (random mode)
        std::vector<std::vector<uint64_t>> tapes; // replay mode
        double t0 = 0;
    };
    uint64_t case_seed(uint64_t i) const { return mix64(mix64(seed * 0x1000193ULL + 77) ^ mix64(i + 0xabcdef)); }

    void start(Job &j) {
        j.slot->ntape = j.slot->cur = j.slot->status = j.slot->done_cases = j.slot->out_len = 0;
        j.slot->sig[0] = j.slot->msg[0] = j.slot->desc[0] = 0;
        mkdir(j.dir.c_str(), 0777);
        fflush(stdout);
        fflush(stderr);
        j.t0 = now_s();
        j.pid = fork();
        if (j.pid) return;
        // ---- child
        g_slot = j.slot;
        g_scratch = j.dir;
        setpgid(0, 0);
        int fd = open(j.log.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0666);
        int nul = open("/dev/null", O_RDONLY);
        dup2(nul, 0);
        dup2(fd, 1);
        dup2(fd, 2);
        struct rlimit rl = {64 << 20, 64 << 20};
        setrlimit(RLIMIT_FSIZE, &rl);
        signal(SIGXFSZ, SIG_IGN);
        rl.rlim_cur = rl.rlim_max = 0;
        setrlimit(RLIMIT_CORE, &rl);
        signal(SIGVTALRM, on_cpu);
        if (chdir(g_scratch.c_str())) _exit(79);
        std::string out;
        size_t n = j.tapes.empty() ? j.idx.size() : j.tapes.size();
        for (size_t k = 0; k < n; k++) {
            j.slot->cur = k;
            j.slot->ntape = 0;
            j.slot->desc[0] = 0;
            Ctx c;
            Src s = j.tapes.empty() ? Src(case_seed(j.idx[k])) : Src(j.tapes[k]);
            if (j.tapes.empty() && j.idx[k] < sp.enumerated) { s.has_forced = true; s.forced = j.idx[k]; }
            arm_cpu(sp.cpu_limit);
            try {
                one_case(s, c);
            } catch (const Fail &f) {
                strncpy(j.slot->sig, f.sig.c_str(), sizeof j.slot->sig - 1);
                strncpy(j.slot->msg, f.msg.c_str(), sizeof j.slot->msg - 1);
                j.slot->status = 2;
                fflush(stdout);
                _exit(3);
            }
            arm_cpu(0);
            j.slot->done_cases = k + 1;
            std::string rec = fmt("C %llu %d\n", (unsigned long long)s.hash, (int)c.nontriv);
            for (auto &kv : c.cnt) rec += fmt("K %llu %s\n", (unsigned long long)kv.second, kv.first.c_str());
            rec += "D " + c.desc.substr(0, 600) + "\n";
            if (out.size() + rec.size() < OUT_MAX) out += rec;
            memcpy(j.slot->out, out.data(), out.size());
            j.slot->out_len = out.size();
        }
        j.slot->status = 1;
        fflush(stdout);
        _exit(0);
    }

    std::string slurp(const std::string &p, size_t maxn = 400000) {
        std::string s;
        FILE *f = fopen(p.c_str(), "rb");
        if (!f) return s;
        s.resize(maxn);
        s.resize(fread(&s[0], 1, maxn, f));
        fclose(f);
        return s;
    }

    // signature of an abnormal end
    std::string crash_sig(const std::string &log, int st, std::string &msg) {
        msg.clear();
        if (log.find("VH-TIMEOUT") != std::string::npos) {
            msg = "the call did not return within the cpu limit";
            return "hang";
        }
        size_t p = log.find("ERROR: AddressSanitizer: ");
        std::string kind;
        if (p != std::string::npos) {
            size_t e = log.find_first_of(" \n(", p + 25);
            kind = log.substr(p + 25, e - p - 25);
        } else if ((p = log.find("runtime error: ")) != std::string::npos) {
            kind = "ubsan-bounds";
            size_t b = log.rfind('\n', p);
            if (b != std::string::npos) p = b;
        } else {
            p = 0;
            kind = WIFSIGNALED(st) ? fmt("signal%d", WTERMSIG(st)) : fmt("exit%d", WEXITSTATUS(st));
        }
        std::string fn;
        size_t q = p;
        int nfr = 0;
        std::string frames;
        while ((q = log.find("\n    #", q)) != std::string::npos && nfr < 40) {
            size_t e = log.find('\n', q + 1);
            std::string line = log.substr(q + 1, e - q - 1);
            q = e == std::string::npos ? log.size() : e;
            nfr++;
            size_t a = line.find(" in ");
            if (a == std::string::npos) continue;
            std::string rest = line.substr(a + 4);
            bool ours = rest.find("/src-IL") != std::string::npos;
            size_t sp2 = rest.find_first_of(" (");
            std::string name = rest.substr(0, sp2);
            size_t sl = rest.rfind('/');
            if (nfr <= 8) frames += (frames.empty() ? "" : " < ") + name + (sl != std::string::npos ? "[" + rest.substr(sl + 1) + "]" : "");
            if (ours && fn.empty()) fn = name;
            if (log.compare(q, 2, "\n\n") == 0) break; // end of the first stack
        }
        if (p < log.size()) {
            size_t e = log.find('\n', p + 1);
            msg = log.substr(p, std::min<size_t>(e == std::string::npos ? 200 : e - p, 300)) + " at " + frames;
        }
        if (fn.empty() && kind == "ubsan-bounds") {
            size_t sl = log.rfind('/', log.find("runtime error"));
            size_t co = log.find(':', sl);
            if (sl != std::string::npos && co != std::string::npos) fn = log.substr(sl + 1, co - sl - 1);
        }
        return kind + "@" + (fn.empty() ? "?" : fn);
    }

    struct Outcome {
        bool failed = false;
        std::string sig, msg, desc;
        std::vector<uint64_t> tape;
        size_t cur = 0;
        std::string log;
    };
    Outcome finish(Job &j, int st) {
        Outcome o;
        o.cur = j.slot->cur;
        o.desc = j.slot->desc;
        o.tape.assign(j.slot->tape, j.slot->tape + j.slot->ntape);
        if (j.slot->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
        o.failed = true;
        if (j.slot->status == 2 && WIFEXITED(st) && WEXITSTATUS(st) == 3) {
            o.sig = j.slot->sig;
            o.msg = j.slot->msg;
        } else {
            o.log = slurp(j.log);
            o.sig = crash_sig(o.log, st, o.msg);
        }
        return o;
    }

    Slot *new_slot() {
        void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); exit(2); }
        return (Slot *)p;
    }

    Job rj;
    Outcome run_tapes(const std::vector<std::vector<uint64_t>> &t) {
        if (!rj.slot) {
            rj.slot = new_slot();
            rj.dir = base + "/r";
            rj.log = base + "/r.log";
        }
        rm_tree(rj.dir);
        rj.tapes = t;
        if (rj.tapes.empty()) rj.tapes.push_back({});
        start(rj);
        int st = 0;
        // a wall clock guard in case of a sleeping hang: only ever "inconclusive"
        double t0 = now_s();
        while (waitpid(rj.pid, &st, WNOHANG) == 0) {
            usleep(300);
            if (now_s() - t0 > 120) { kill(-rj.pid, SIGKILL); waitpid(rj.pid, &st, 0); Outcome o; return o; }
        }
        return finish(rj, st);
    }

    std::vector<uint64_t> shrink(std::vector<std::vector<uint64_t>> pre, std::vector<uint64_t> t, const std::string &sig, Outcome &best) {
        double end = now_s() + 40;
        int tries = 0;
        auto ok = [&](const std::vector<uint64_t> &c) {
            if (now_s() > end || tries > 1500) return false;
            tries++;
            auto ts = pre;
            ts.push_back(c);
            Outcome o = run_tapes(ts);
            if (o.failed && o.sig == sig && o.cur + 1 == ts.size()) { best = o; return true; }
            return false;
        };
        bool prog = true;
        while (prog && now_s() < end) {
            prog = false;
            // cut the tail, then chunks
            for (size_t k = t.size() / 2; k >= 1; k /= 2)
                for (size_t i = 0; i + k <= t.size();) {
                    auto c = t;
                    c.erase(c.begin() + i, c.begin() + i + k);
                    if (ok(c)) { t = c; prog = true; } else i += k;
                    if (now_s() > end) return t;
                }
            for (size_t i = 0; i < t.size(); i++) {
                if (!t[i]) continue;
                auto c = t;
                c[i] = 0;
                if (ok(c)) { t = c; prog = true; continue; }
                uint64_t lo = 0, hi = t[i];
                for (int r = 0; r < 12 && hi - lo > 1; r++) {
                    uint64_t m = lo + (hi - lo) / 2;
                    c = t;
                    c[i] = m;
                    if (ok(c)) { t = c; hi = m; prog = true; } else lo = m;
                }
                if (now_s() > end) return t;
            }
        }
        return t;
    }

    int main(int argc, char **argv);
};

inline int Runner::main(int argc, char **argv) {
    std::string tier = "quick", out_json, replay_dir = ".", replay_file, known_file, scratch_base = "/tmp";
    uint64_t cases = 0, first = 0;
    int nw = 8;
    double cap = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--tier") tier = val();
        else if (a == "--out") out_json = val();
        else if (a == "--replay-dir") replay_dir = val();
        else if (a == "--replay") replay_file = val();
        else if (a == "--known") known_file = val();
        else if (a == "--cases") cases = strtoull(val().c_str(), 0, 10);
        else if (a == "--first") first = strtoull(val().c_str(), 0, 10);
        else if (a == "--workers") nw = atoi(val().c_str());
        else if (a == "--cap") cap = atof(val().c_str());
        else if (a == "--survey") survey = true;
    }
    double T0 = now_s();
    g_thorough = tier == "thorough";
    if (!cases) cases = g_thorough ? sp.thorough_cases : sp.quick_cases;
    if (cap <= 0) cap = g_thorough ? 1500 : 240;
    base = scratch_base + fmt("/vh.%d.%s", (int)getpid(), sp.id.c_str());
    mkdir(base.c_str(), 0777);

    // known findings of this property
    std::vector<std::string> klines;
    if (!known_file.empty()) {
        std::string k = slurp(known_file);
        size_t p = 0;
        while (p < k.size()) {
            size_t e = k.find('\n', p);
            if (e == std::string::npos) e = k.size();
            std::string l = k.substr(p, e - p);
            p = e + 1;
            if (l.compare(0, 7, "known: ") == 0 && l.find("property=" + sp.id + " ") != std::string::npos) {
                size_t q = l.find("key=");
                if (q != std::string::npos) {
                    size_t e2 = l.find(' ', q);
                    g_known.insert(l.substr(q + 4, e2 == std::string::npos ? std::string::npos : e2 - q - 4));
                }
            }
        }
    }

    if (!replay_file.empty()) {
        std::vector<std::vector<uint64_t>> ts;
        std::string f = slurp(replay_file);
        size_t p = 0;
        while (p < f.size()) {
            size_t e = f.find('\n', p);
            if (e == std::string::npos) e = f.size();
            std::string l = f.substr(p, e - p);
            p = e + 1;
            if (l.compare(0, 4, "tape") == 0) {
                ts.push_back({});
                char *q = &l[4];
                for (;;) {
                    char *n;
                    uint64_t v = strtoull(q, &n, 10);
                    if (n == q) break;
                    ts.back().push_back(v);
                    q = n;
                }
            }
        }
        Outcome o = run_tapes(ts);
        rm_tree(base);
        printf("case: %s\n", o.desc.c_str());
        if (o.failed) {
            printf("FAILS sig=%s\n%s\n%s\n", o.sig.c_str(), o.msg.c_str(), o.log.substr(0, 6000).c_str());
            return 1;
        }
        printf("passes\n");
        return 0;
    }

    // known findings: run each probe
    std::vector<std::string> known_here;
    for (auto &k : sp.known) {
        if (!known(k.key.c_str())) continue;
        Job j;
        j.slot = new_slot();
        j.dir = base + "/k";
        j.log = base + "/k.log";
        mkdir(j.dir.c_str(), 0777);
        fflush(stdout);
        pid_t pid = fork();
        if (!pid) {
            int fd = open(j.log.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0666);
            dup2(fd, 1);
            dup2(fd, 2);
            g_scratch = j.dir;
            if (chdir(j.dir.c_str())) _exit(79);
            signal(SIGVTALRM, on_cpu);
            arm_cpu(sp.cpu_limit);
            Ctx c;
            try { k.probe(c); } catch (const Fail &f) { _exit(3); }
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        rm_tree(j.dir);
        munmap(j.slot, sizeof(Slot));
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            printf("KNOWN-FINDING: property=%s %s\n", sp.id.c_str(), k.what.c_str());
            known_here.push_back(k.what);
        }
    }

    std::vector<Job> jobs(nw);
    for (int i = 0; i < nw; i++) {
        jobs[i].slot = new_slot();
        jobs[i].dir = base + fmt("/w%d", i);
        jobs[i].log = base + fmt("/w%d.log", i);
    }
    uint64_t next = first, endc = first + cases, evaluated = 0, nontriv = 0, truncated = 0;
    std::set<uint64_t> distinct;
    std::map<std::string, uint64_t> cnt;
    std::vector<std::string> samples;
    struct Found { Outcome o; std::vector<uint64_t> idx; uint64_t n; };
    std::map<std::string, Found> found;
    std::vector<std::vector<uint64_t>> pending; // remainders of interrupted batches
    bool stop = false;
    int running = 0;
    auto give = [&](Job &j) {
        if (!pending.empty() && !stop) {
            j.idx = pending.back();
            pending.pop_back();
        } else {
            if (stop || next >= endc) return false;
            if (now_s() - T0 > cap) { truncated = endc - next; return false; }
            j.idx.clear();
            for (int k = 0; k < sp.batch && next < endc; k++) j.idx.push_back(next++);
        }
        rm_tree(j.dir);
        start(j);
        running++;
        return true;
    };
    auto absorb = [&](Job &j) {
        std::string o(j.slot->out, j.slot->out_len);
        size_t p = 0;
        bool lastnt = false;
        while (p < o.size()) {
            size_t e = o.find('\n', p);
            if (e == std::string::npos) break;
            std::string l = o.substr(p, e - p);
            p = e + 1;
            if (l[0] == 'C') {
                evaluated++;
                char *q;
                uint64_t h = strtoull(&l[2], &q, 10);
                lastnt = atoi(q) != 0;
                if (lastnt && distinct.insert(h).second) nontriv++;
            } else if (l[0] == 'K') {
                char *q;
                uint64_t v = strtoull(&l[2], &q, 10);
                cnt[q + 1] += v;
            } else if (l[0] == 'D' && lastnt && samples.size() < 400 && l.size() > 2)
                samples.push_back(l.substr(2));
        }
    };
    for (auto &j : jobs) give(j);
    while (running) {
        int st;
        pid_t pid = waitpid(-1, &st, 0);
        if (pid < 0) break;
        for (auto &j : jobs)
            if (j.pid == pid) {
                running--;
                j.pid = 0;
                absorb(j);
                Outcome o = finish(j, st);
                if (o.failed) {
                    Found &f = found[o.sig];
                    if (f.n == 0 || j.idx[o.cur] < f.idx[f.o.cur]) { f.o = o; f.idx = j.idx; }
                    f.n++;
                    if (survey) {
                        std::vector<uint64_t> rest(j.idx.begin() + o.cur + 1, j.idx.end());
                        if (!rest.empty()) pending.push_back(rest);
                        evaluated++;
                    } else stop = true;
                }
                give(j);
                break;
            }
    }
    int rc = 0;
    if (survey) {
        for (auto &f : found) printf("%6llu x %s\n      e.g. case %llu: %s\n      %s\n", (unsigned long long)f.second.n, f.first.c_str(),
                                     (unsigned long long)f.second.idx[f.second.o.cur], f.second.o.desc.substr(0, 700).c_str(), f.second.o.msg.substr(0, 900).c_str());
        rc = found.empty() ? 0 : 1;
    } else if (!found.empty()) {
        // lowest case number first
        Found *b = nullptr;
        for (auto &f : found)
            if (!b || f.second.idx[f.second.o.cur] < b->idx[b->o.cur]) b = &f.second;
        std::vector<std::vector<uint64_t>> pre;
        Outcome best = b->o;
        Outcome o1 = run_tapes({b->o.tape});
        bool rep = o1.failed;
        std::string sig = o1.failed ? o1.sig : b->o.sig;
        if (!rep) { // depends on the cases before it in the same process: replay those too
            for (size_t k = 0; k < b->o.cur; k++) {
                // regenerate the earlier tapes by running them alone
                Job j;
                j.slot = rj.slot;
                j.dir = rj.dir;
                j.log = rj.log;
                rm_tree(j.dir);
                j.idx = {b->idx[k]};
                start(j);
                int st;
                waitpid(j.pid, &st, 0);
                pre.push_back(std::vector<uint64_t>(j.slot->tape, j.slot->tape + j.slot->ntape));
            }
            auto ts = pre;
            ts.push_back(b->o.tape);
            o1 = run_tapes(ts);
            rep = o1.failed;
            sig = o1.failed ? o1.sig : sig;
            // drop earlier cases that are not needed
            for (size_t k = 0; rep && k < pre.size();) {
                auto p2 = pre;
                p2.erase(p2.begin() + k);
                auto t2 = p2;
                t2.push_back(b->o.tape);
                Outcome o2 = run_tapes(t2);
                if (o2.failed && o2.sig == sig) pre = p2; else k++;
            }
        }
        if (rep) {
            best = o1;
            std::vector<uint64_t> t = shrink(pre, b->o.tape, sig, best);
            int good = 0;
            for (int k = 0; k < 3; k++) {
                auto ts = pre;
                ts.push_back(t);
                Outcome o = run_tapes(ts);
                if (o.failed) good++;
            }
            if (good == 3) {
                mkdir(replay_dir.c_str(), 0777);
                std::string path = replay_dir + "/" + sp.id + ".replay";
                FILE *f = fopen(path.c_str(), "w");
                if (f) {
                    fprintf(f, "property %s\nsignature %s\ncase %s\nobserved %s\n", sp.id.c_str(), best.sig.c_str(), best.desc.c_str(), best.msg.c_str());
                    auto ts = pre;
                    ts.push_back(t);
                    for (auto &tp : ts) {
                        fprintf(f, "tape");
                        for (auto v : tp) fprintf(f, " %llu", (unsigned long long)v);
                        fprintf(f, "\n");
                    }
                    fprintf(f, "--- log\n%s\n", best.log.substr(0, 8000).c_str());
                    fclose(f);
                }
                printf("failure: %s\n  case: %s\n  %s\n", best.sig.c_str(), best.desc.c_str(), best.msg.c_str());
                printf("VIOLATION property=%s replay=%s\n", sp.id.c_str(), path.c_str());
                rc = 1;
            } else {
                printf("note: failure %s did not replay 3 times (%d)\n", sig.c_str(), good);
                rc = 2;
            }
        } else {
            printf("note: failure %s (%s) did not replay\n", b->o.sig.c_str(), b->o.msg.c_str());
            rc = 2;
        }
    }
    rm_tree(base);
    double wall = now_s() - T0;
    for (auto &m : sp.min_frac) {
        double have = evaluated ? (double)cnt[m.first] / evaluated : 0;
        if (!rc && !truncated && evaluated > 500 && have < m.second) {
            printf("generator health: class %s is %.4f of the cases, wanted %.4f\n", m.first.c_str(), have, m.second);
        }
    }
    if (!out_json.empty()) {
        FILE *f = fopen(out_json.c_str(), "w");
        if (f) {
            fprintf(f, "{\n \"property\": %s,\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n  \"rule\": %s,\n  \"samples\": [",
                    json_str(sp.id).c_str(), tier.c_str(), (unsigned long long)seed, (unsigned long long)evaluated, (unsigned long long)nontriv, json_str(sp.rule).c_str());
            size_t n = std::min<size_t>(10, samples.size());
            for (size_t i = 0; i < n; i++) fprintf(f, "%s\n   %s", i ? "," : "", json_str(samples[i * samples.size() / n]).c_str());
            fprintf(f, "],\n  \"classes\": {");
            bool c1 = false;
            for (auto &kv : cnt) { fprintf(f, "%s\n   %s: %llu", c1 ? "," : "", json_str(kv.first).c_str(), (unsigned long long)kv.second); c1 = true; }
            fprintf(f, "},\n  \"cases_not_reached_within_time_cap\": %llu,\n  \"known_findings_seen\": [", (unsigned long long)truncated);
            for (size_t i = 0; i < known_here.size(); i++) fprintf(f, "%s%s", i ? ", " : "", json_str(known_here[i]).c_str());
            fprintf(f, "]\n },\n \"assumptions\": [");
            for (size_t i = 0; i < sp.assumptions.size(); i++) fprintf(f, "%s%s", i ? ", " : "", json_str(sp.assumptions[i]).c_str());
            fprintf(f, "],\n \"wall_s\": %.1f,\n \"violations\": %d\n}\n", wall, rc == 1 ? 1 : 0);
            fclose(f);
        }
    }
    printf("%s %s: %llu cases, %llu distinct non-trivial, %.1f s\n", sp.id.c_str(), tier.c_str(), (unsigned long long)evaluated, (unsigned long long)nontriv, wall);
    if (survey || getenv("VH_CLASSES")) for (auto &kv : cnt) printf("   %-50s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
    return rc;
}

#ifndef VH_NO_MAIN
int main(int argc, char **argv) {
    Runner r;
    return r.main(argc, argv);
}
#endif
