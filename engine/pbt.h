// A small property-based testing engine (choice-sequence style).
//
// A property is a function `void property(pbt::Src& s, pbt::Ctx& c)`. Every random decision is drawn from
// `s` as a bounded integer choice, so a case IS its list of choices: it can be recorded, replayed, shrunk
// (by deleting / lowering choices) or decoded from fuzzer bytes. Cases run in forked workers, so that
// crashes, failed assertions, sanitizer reports and hangs in the code under test are failures of the case
// that caused them and not of the harness.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cerrno>

namespace pbt {

struct Discard {};
struct Failure {
    std::string msg;
};

inline uint64_t mix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

// ------------------------------------------------------------------ source of choices
class Src {
public:
    enum Mode { RANDOM, REPLAY, BYTES };
    Mode mode = RANDOM;
    uint64_t state = 0;
    std::vector<uint64_t> in;            // REPLAY
    size_t pos = 0;
    const uint8_t *bytes = nullptr;      // BYTES
    size_t nbytes = 0, bpos = 0;
    std::vector<uint64_t> out;           // choices actually made (normalised)
    volatile uint64_t *shm = nullptr;    // mirror of `out`, survives a crash
    volatile uint32_t *shm_n = nullptr;
    size_t shm_cap = 0;
    static constexpr size_t MAX_CHOICES = 1 << 16;

    uint64_t next64() {
        state += 0x9E3779B97F4A7C15ull;
        uint64_t x = state;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }
    // the one primitive: a value in [0,n). 0 is the "simplest" value.
    uint64_t below(uint64_t n) {
        if (n <= 1) return 0;  // no choice
        if (out.size() >= MAX_CHOICES) throw Discard{};
        uint64_t v = 0;
        if (mode == RANDOM) {
            v = (uint64_t)(((__uint128_t) next64() * n) >> 64);
        } else if (mode == REPLAY) {
            if (pos < in.size()) v = in[pos] % n;
            ++pos;
        } else {
            int k = n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
            for (int i = 0; i < k; ++i) v |= (uint64_t)(bpos < nbytes ? bytes[bpos] : 0) << (8 * i), ++bpos;
            v %= n;
        }
        if (shm && out.size() < shm_cap) {
            shm[out.size()] = v;
            *shm_n = (uint32_t) out.size() + 1;
        }
        out.push_back(v);
        return v;
    }
    bool more() const { return mode != BYTES || bpos < nbytes; }

    // ---- derived generators
    int range(int lo, int hi) { return lo + (int) below((uint64_t)(hi - lo) + 1); }
    size_t size(size_t lo, size_t hi) { return lo + (size_t) below(hi - lo + 1); }
    bool chance(int num, int den) { return (int) below(den) >= den - num; }  // 0 => false
    bool flag() { return below(2) == 1; }
    // integer in [-m,m] with 0 simplest, then 1,-1,2,-2...
    int zint(int m) {
        uint64_t v = below(2 * (uint64_t) m + 1);
        int k = (int) ((v + 1) / 2);
        return (v % 2) ? k : -k;
    }
    // uniform real in [0,1): 0 is simplest; 2^32 resolution or 2^53
    double unit() {
        uint64_t v = below(1ull << 53);
        return (double) v * 0x1.0p-53;
    }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    // a coordinate of magnitude <= m: integers, dyadics, or arbitrary reals
    double coord(double m) {
        switch (below(4)) {
            case 0: return (double) zint((int) std::min(m, 10.0));
            case 1: return zint((int) (std::min(m, 1000.0) * 8)) / 8.0;
            default: return (2 * unit() - 1) * m;
        }
    }
    // index weighted by w
    size_t pick(std::initializer_list<int> w) {
        int tot = 0;
        for (int x: w) tot += x;
        int v = (int) below(tot);
        size_t i = 0;
        for (int x: w) {
            if (v < x) return i;
            v -= x;
            ++i;
        }
        return 0;
    }
    template<class T>
    const T &of(const std::vector<T> &v) { return v[below(v.size())]; }
};

// ------------------------------------------------------------------ per-case context
class Ctx {
public:
    bool verbose = false;
    bool strict = false;  // replaying a listed finding: nothing is excluded
    bool thorough = false;
    std::ostringstream os;
    bool nontrivial_ = false;
    std::vector<std::string> labels;
    std::string id;
    Ctx() { os.precision(17); }
    void nontrivial() { nontrivial_ = true; }
    void label(const std::string &l) {
        for (auto &x: labels) if (x == l) return;
        labels.push_back(l);
    }
    // class of inputs covered by a listed finding: skipped unless strict, and counted
    bool excluded(const std::string &kf) {
        label("excluded:" + kf);
        return !strict;
    }
    template<class F>
    void show(F f) { if (verbose) f(static_cast<std::ostream &>(os)); }
    [[noreturn]] void fail(const std::string &m) { throw Failure{m}; }
    void require(bool ok, const std::string &m) { if (!ok) fail(m); }
    [[noreturn]] void discard() { throw Discard{}; }
};

template<class... A>
std::string str(const A &... a) {
    std::ostringstream o;
    o.precision(17);
    (o << ... << a);
    return o.str();
}

#define PBT_CHECK(cond, ...) do { if (!(cond)) throw pbt::Failure{pbt::str("[" #cond "] ", ##__VA_ARGS__)}; } while (0)

// ------------------------------------------------------------------ what a harness provides
struct Spec {
    const char *id;
    const char *rule;       // how cases are made and what makes one non-trivial
    uint64_t quick_cases;   // for the optimised build; the sanitizer build runs san_div times fewer
    uint64_t thorough_cases;
    uint64_t san_div;
};

}  // namespace pbt

// defined by the harness
extern const pbt::Spec SPEC;
void property(pbt::Src &s, pbt::Ctx &c);

namespace pbt {

static volatile char *g_msg_shm = nullptr;

// outcome of one case
enum Outcome { PASS, DISCARDED, FAILED };

inline Outcome run_case(Src &s, Ctx &c, std::string &msg) {
    try {
        property(s, c);
        return PASS;
    } catch (const Discard &) {
        return DISCARDED;
    } catch (const Failure &f) {
        msg = f.msg;
        return FAILED;
    } catch (const std::exception &e) {
        msg = std::string("unexpected exception: ") + e.what();
        return FAILED;
    } catch (...) {
        msg = "unexpected exception of unknown type";
        return FAILED;
    }
}

#ifndef PBT_FUZZER

struct Shm {
    volatile uint64_t cur;         // case index being run
    volatile uint32_t state;       // 0 idle, 1 running, 2 failed(msg), 3 done
    volatile uint32_t nchoices;
    uint64_t choices[Src::MAX_CHOICES];
    char msg[8192];
    uint64_t evals, nontriv, discards;
    uint64_t max_cpu_us;
    uint32_t nlabels;
    struct { char name[80]; uint64_t n; } labels[96];
    uint32_t nsamples;
    char samples[4][1500];
    uint64_t nhash;
    uint64_t hashes[1 << 18];
};

struct Opts {
    uint64_t seed = 1, cases = 1000;
    int workers = 8;
    double wall = 200;
    int hang_s = 30;
    bool thorough = false, strict = false;
    std::string out, replay, replay_out, bytes, tag = "opt";
};

inline double now() {
    timeval tv;
    gettimeofday(&tv, nullptr);
    return tv.tv_sec + tv.tv_usec * 1e-6;
}

static const char *HANG = "PBT-HANG\n";
inline void on_prof(int) {
    ssize_t r = write(2, HANG, strlen(HANG));
    (void) r;
    _exit(97);
}
inline void arm(int secs) {
    itimerval it{};
    it.it_value.tv_sec = secs;
    setitimer(ITIMER_PROF, &it, nullptr);
}

inline void quiet(const std::string &errfile) {
    int n = open("/dev/null", O_RDWR);
    dup2(n, 1);
    int e = open(errfile.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
    if (e >= 0) dup2(e, 2); else dup2(n, 2);
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    signal(SIGPROF, on_prof);
}

inline std::string errsummary(const std::string &f) {
    // keep the tail of what the code wrote before dying; prefer the sanitizer's own line
    std::ifstream i(f);
    std::string l, all, key;
    while (std::getline(i, l)) {
        if (l.find("ERROR: ") != std::string::npos || l.find("runtime error:") != std::string::npos ||
            l.find("Assertion") != std::string::npos || l.find("PBT-HANG") != std::string::npos ||
            l.find("SUMMARY:") != std::string::npos || l.find("terminating") != std::string::npos)
            if (key.size() < 1500) key += l + " | ";
    }
    return key;
}

inline std::string describe_status(int st, const std::string &errfile) {
    std::string e = errsummary(errfile);
    if (e.find("PBT-HANG") != std::string::npos || (WIFEXITED(st) && WEXITSTATUS(st) == 97))
        return "did not terminate within the CPU budget of one case";
    if (WIFSIGNALED(st)) return str("killed by signal ", WTERMSIG(st), " ", e);
    return str("abnormal exit ", WEXITSTATUS(st), " ", e);
}

struct Runner {
    Opts o;
    std::string tmp;
    bool bytes_mode = false;
    std::string byte_data;
    Runner() {
        char t[] = "/tmp/pbt.XXXXXX";
        const char *d = mkdtemp(t);
        tmp = d ? d : "/tmp";
    }
    ~Runner() {
        for (int i = 0; i < 70; ++i) unlink(str(tmp, "/err.", i).c_str());
        for (int i = 0; i < 70; ++i) unlink(str(tmp, "/scratch.", i).c_str());
        rmdir(tmp.c_str());
    }

    static Shm *newshm() {
        void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
        memset(p, 0, offsetof(Shm, hashes));
        return (Shm *) p;
    }

    void worker(int w, Shm *sh, volatile uint64_t *stop_at, double deadline) {
        quiet(str(tmp, "/err.", w));
        setenv("PBT_SCRATCH", str(tmp, "/scratch.", w).c_str(), 1);
        int shown = 0;
        for (uint64_t idx = w; idx < o.cases; idx += o.workers) {
            if (idx > *stop_at) break;
            if (now() > deadline) break;
            off_t sz = lseek(2, 0, SEEK_END);
            if (sz > (1 << 20)) { int r = ftruncate(2, 0); (void) r; }
            Src s;
            s.state = mix(mix(o.seed) ^ (idx * 0xD1B54A32D192ED03ull + 12345));
            s.shm = sh->choices;
            s.shm_n = &sh->nchoices;
            s.shm_cap = Src::MAX_CHOICES;
            sh->nchoices = 0;
            Ctx c;
            c.id = SPEC.id;
            c.strict = o.strict;
            c.thorough = o.thorough;
            c.verbose = shown < 3 && idx < 4000;
            sh->cur = idx;
            sh->state = 1;
            std::string msg;
            rusage a, b;
            getrusage(RUSAGE_SELF, &a);
            arm(o.hang_s);
            Outcome r = run_case(s, c, msg);
            arm(0);
            getrusage(RUSAGE_SELF, &b);
            uint64_t us = (b.ru_utime.tv_sec - a.ru_utime.tv_sec) * 1000000ll + (b.ru_utime.tv_usec - a.ru_utime.tv_usec);
            if (us > sh->max_cpu_us) sh->max_cpu_us = us;
            sh->evals++;
            if (r == DISCARDED) sh->discards++;
            for (auto &l: c.labels) {
                uint32_t i = 0;
                for (; i < sh->nlabels; ++i) if (!strncmp(sh->labels[i].name, l.c_str(), 79)) break;
                if (i == sh->nlabels && i < 96) {
                    strncpy(sh->labels[i].name, l.c_str(), 79);
                    sh->nlabels++;
                }
                if (i < 96) sh->labels[i].n++;
            }
            if (r == FAILED) {
                strncpy(sh->msg, msg.c_str(), sizeof(sh->msg) - 1);
                sh->state = 2;
                uint64_t cur = *stop_at;
                while (idx < cur && !__sync_bool_compare_and_swap((uint64_t *) stop_at, cur, idx)) cur = *stop_at;
                _exit(0);
            }
            if (r == PASS && c.nontrivial_) {
                sh->nontriv++;
                uint64_t h = 0;
                for (auto v: s.out) h = mix(h ^ v);
                if (sh->nhash < (1 << 18)) sh->hashes[sh->nhash++] = h;
                if (c.verbose && sh->nsamples < 4) {
                    std::string t = c.os.str();
                    if (!t.empty()) {
                        strncpy(sh->samples[sh->nsamples++], t.c_str(), 1499);
                        shown++;
                    }
                }
            }
            sh->state = 0;
        }
        sh->state = 3;
        _exit(0);
    }

    // run one choice list in a child; returns failing?, message
    bool try_choices(const std::vector<uint64_t> &ch, std::string &msg, std::vector<uint64_t> *norm, std::string *render,
                     int hang_s) {
        static Shm *sh = newshm();
        sh->state = 0;
        sh->nchoices = 0;
        memset(sh->msg, 0, sizeof sh->msg);
        memset(sh->samples, 0, sizeof sh->samples);
        std::string ef = str(tmp, "/err.64");
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            quiet(ef);
            setenv("PBT_SCRATCH", str(tmp, "/scratch.64").c_str(), 1);
            Src s;
            s.mode = Src::REPLAY;
            s.in = ch;
            if (bytes_mode) {
                s.mode = Src::BYTES;
                s.bytes = (const uint8_t *) byte_data.data();
                s.nbytes = byte_data.size();
            }
            s.shm = sh->choices;
            s.shm_n = &sh->nchoices;
            s.shm_cap = Src::MAX_CHOICES;
            Ctx c;
            c.id = SPEC.id;
            c.strict = o.strict;
            c.thorough = o.thorough;
            c.verbose = render != nullptr;
            std::string m;
            sh->state = 1;
            arm(hang_s);
            Outcome r = run_case(s, c, m);
            arm(0);
            if (r == FAILED) {
                strncpy(sh->msg, m.c_str(), sizeof(sh->msg) - 1);
                sh->state = 2;
            } else {
                sh->state = 3;
                sh->evals = r == DISCARDED ? 1 : 0;
            }
            std::string t = c.os.str();
            strncpy(sh->samples[0], t.c_str(), sizeof(sh->samples) - 1);
            _exit(0);
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        bool failed = false;
        if (sh->state == 2) {
            failed = true;
            msg = sh->msg;
        } else if (sh->state != 3 || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            failed = true;
            msg = describe_status(st, ef);
        }
        if (norm) norm->assign(sh->choices, sh->choices + std::min<size_t>(sh->nchoices, Src::MAX_CHOICES));
        if (render) *render = std::string((const char *) sh->samples);
        return failed;
    }

    std::vector<uint64_t> shrink(std::vector<uint64_t> best, std::string &msg, bool hang) {
        double t0 = now();
        double budget = hang ? 60 : 45;
        int hs = hang ? 5 : o.hang_s;
        int tries = 0;
        auto attempt = [&](const std::vector<uint64_t> &cand) {
            if (now() - t0 > budget || tries > 6000) return false;
            ++tries;
            std::string m;
            std::vector<uint64_t> norm;
            if (!try_choices(cand, m, &norm, nullptr, hs)) return false;
            // accept only if smaller (shortlex); the normalised list never exceeds the candidate meaningfully
            if (norm.size() > best.size()) return false;
            if (norm.size() == best.size() && !(norm < best)) return false;
            best = norm;
            msg = m;
            return true;
        };
        bool progress = true;
        while (progress && now() - t0 < budget) {
            progress = false;
            // delete chunks
            for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
                for (size_t i = 0; i + len <= best.size();) {
                    auto c = best;
                    c.erase(c.begin() + i, c.begin() + i + len);
                    if (attempt(c)) progress = true;
                    else i += std::max<size_t>(1, len / 2 + (len == 1));
                    if (now() - t0 > budget) break;
                }
                if (len == 1) break;
            }
            // zero chunks
            for (size_t len: {8, 4, 2}) {
                for (size_t i = 0; i + len <= best.size(); i += len) {
                    auto c = best;
                    bool any = false;
                    for (size_t k = 0; k < len; ++k) any |= c[i + k] != 0, c[i + k] = 0;
                    if (any && attempt(c)) progress = true;
                }
            }
            // delete one choice and lower an earlier one (lengths)
            for (size_t i = 0; i < best.size(); ++i) {
                if (best[i] == 0 || best[i] > 64) continue;
                for (size_t len: {1, 2, 3, 4, 6, 8}) {
                    bool ok = false;
                    for (size_t j = i + 1; j + len <= best.size() && j < i + 40; ++j) {
                        auto c = best;
                        c[i]--;
                        c.erase(c.begin() + j, c.begin() + j + len);
                        if (attempt(c)) { progress = ok = true; break; }
                        if (now() - t0 > budget) break;
                    }
                    if (ok || i >= best.size()) break;
                }
            }
            // lower single values
            for (size_t i = 0; i < best.size(); ++i) {
                if (best[i] == 0) continue;
                {
                    auto c = best;
                    c[i] = 0;
                    if (attempt(c)) { progress = true; continue; }
                }
                uint64_t lo = 0;
                for (int k = 0; k < 60 && i < best.size() && best[i] - lo > 1; ++k) {
                    uint64_t mid = lo + (best[i] - lo) / 2;
                    auto c = best;
                    c[i] = mid;
                    if (attempt(c)) progress = true;
                    else lo = mid;
                    if (now() - t0 > budget) break;
                }
            }
        }
        return best;
    }

    static void json_str(std::ostream &f, const std::string &s) {
        f << '"';
        for (unsigned char ch: s) {
            if (ch == '"' || ch == '\\') f << '\\' << ch;
            else if (ch == '\n') f << "\\n";
            else if (ch == '\t') f << "\\t";
            else if (ch < 32 || ch > 126) f << ' ';
            else f << ch;
        }
        f << '"';
    }

    int run() {
        double t0 = now();
        std::vector<Shm *> shs;
        auto *stop_at = (volatile uint64_t *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        *stop_at = ~0ull;
        std::vector<pid_t> pids;
        fflush(stdout);
        for (int w = 0; w < o.workers; ++w) {
            shs.push_back(newshm());
            pid_t p = fork();
            if (p == 0) worker(w, shs[w], stop_at, t0 + o.wall);
            pids.push_back(p);
        }
        uint64_t bad = ~0ull;
        std::vector<uint64_t> choices;
        std::string msg;
        for (int left = o.workers; left > 0;) {
            int st = 0;
            pid_t p = waitpid(-1, &st, 0);
            if (p < 0) {
                if (errno == EINTR) continue;
                break;
            }
            int w = (int) (std::find(pids.begin(), pids.end(), p) - pids.begin());
            if (w >= o.workers) continue;
            --left;
            Shm *sh = shs[w];
            bool failed = false;
            std::string m;
            if (sh->state == 2) {
                failed = true;
                m = sh->msg;
            } else if (sh->state != 3 || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
                failed = true;
                sh->evals++;
                m = describe_status(st, str(tmp, "/err.", w));
                uint64_t cur = *stop_at, idx = sh->cur;
                while (idx < cur && !__sync_bool_compare_and_swap((uint64_t *) stop_at, cur, idx)) cur = *stop_at;
            }
            if (failed && sh->cur < bad) {
                bad = sh->cur;
                msg = m;
                choices.assign(sh->choices, sh->choices + std::min<size_t>(sh->nchoices, Src::MAX_CHOICES));
            }
        }
        // aggregate
        uint64_t evals = 0, nontriv = 0, disc = 0, maxus = 0;
        std::map<std::string, uint64_t> labels;
        std::unordered_set<uint64_t> hs;
        std::vector<std::string> samples;
        bool hash_full = false;
        for (auto *sh: shs) {
            evals += sh->evals;
            nontriv += sh->nontriv;
            disc += sh->discards;
            maxus = std::max(maxus, sh->max_cpu_us);
            for (uint32_t i = 0; i < sh->nlabels; ++i) labels[sh->labels[i].name] += sh->labels[i].n;
            for (uint64_t i = 0; i < sh->nhash; ++i) hs.insert(sh->hashes[i]);
            if (sh->nhash >= (1 << 18)) hash_full = true;
            for (uint32_t i = 0; i < sh->nsamples && samples.size() < 4; ++i) samples.push_back(sh->samples[i]);
        }
        (void) hash_full;
        double t_search = now() - t0;
        int violations = 0;
        std::string flaky;
        std::string fmsg, render;
        if (bad != ~0ull) {
            // confirm, shrink, confirm 3x
            std::string m2;
            int ok = 0;
            for (int i = 0; i < 3; ++i) ok += try_choices(choices, m2, nullptr, nullptr, o.hang_s);
            if (ok == 3) {
                bool hang = m2.find("did not terminate") != std::string::npos;
                fmsg = m2;
                auto small = shrink(choices, fmsg, hang);
                int ok2 = 0;
                for (int i = 0; i < 3; ++i) ok2 += try_choices(small, m2, nullptr, &render, o.hang_s);
                if (ok2 < 3) {
                    small = choices;
                    try_choices(small, m2, nullptr, &render, o.hang_s);
                }
                fmsg = m2;
                write_replay(small, fmsg, render, bad);
                violations = 1;
            } else {
                // not reproducible from a fresh process: state leaked between cases or undefined behaviour.
                // Re-run the same stream of cases of that worker to see if the history reproduces it.
                int again = 0;
                for (int i = 0; i < 3; ++i) again += rerun_history(bad, m2);
                if (again == 3) {
                    fmsg = "(needs the preceding cases of its worker) " + m2;
                    write_replay(choices, fmsg, "history replay: rerun with the same seed", bad);
                    violations = 1;
                } else {
                    flaky = str("case ", bad, " failed once and did not reproduce (", ok, "/3, history ", again, "/3): ", msg);
                }
            }
        }
        std::ofstream f(o.out);
        f.precision(6);
        f << "{\"tag\":";
        json_str(f, o.tag);
        f << ",\"evaluations\":" << evals << ",\"planned\":" << o.cases << ",\"discarded\":" << disc << ",\"nontrivial\":" << nontriv
          << ",\"distinct_nontrivial\":" << hs.size() << ",\"max_case_cpu_ms\":" << maxus / 1000.0 << ",\"search_s\":" << t_search
          << ",\"wall_s\":" << now() - t0 << ",\"violations\":" << violations << ",\"message\":";
        json_str(f, fmsg);
        f << ",\"flaky\":";
        json_str(f, flaky);
        f << ",\"rule\":";
        json_str(f, SPEC.rule);
        f << ",\"labels\":{";
        bool first = true;
        for (auto &l: labels) {
            if (!first) f << ",";
            first = false;
            json_str(f, l.first);
            f << ":" << l.second;
        }
        f << "},\"samples\":[";
        for (size_t i = 0; i < samples.size(); ++i) {
            if (i) f << ",";
            json_str(f, samples[i]);
        }
        f << "]}\n";
        f.close();
        return violations ? 1 : 0;
    }

    int rerun_history(uint64_t bad, std::string &m) {
        Shm *sh = newshm();
        auto *stop = (volatile uint64_t *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        *stop = bad;
        int w = (int) (bad % o.workers);
        pid_t p = fork();
        if (p == 0) worker(w, sh, stop, now() + o.wall);
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        int r = 0;
        if (sh->state == 2) {
            r = 1;
            m = sh->msg;
        } else if (sh->state != 3 || !WIFEXITED(st) || WEXITSTATUS(st)) {
            r = 1;
            m = describe_status(st, str(tmp, "/err.", w));
        }
        munmap(sh, sizeof(Shm));
        munmap((void *) stop, 4096);
        return r;
    }

    void write_replay(const std::vector<uint64_t> &c, const std::string &m, const std::string &render, uint64_t idx) {
        std::ofstream f(o.replay_out);
        f << "# property " << SPEC.id << " build " << o.tag << " seed " << o.seed << " case " << idx << "\n";
        f << "# replay: /verif/check.sh " << SPEC.id << " replay " << o.replay_out << "\n";
        std::istringstream a(m + "\n--- case\n" + render);
        std::string l;
        while (std::getline(a, l)) f << "# " << l << "\n";
        f << "choices";
        for (auto v: c) f << " " << v;
        f << "\n";
    }

    // a fuzzer artifact: decode the bytes into choices, then confirm, shrink and write the replay file
    int from_bytes() {
        std::ifstream f(o.bytes, std::ios::binary);
        std::stringstream ss;
        ss << f.rdbuf();
        byte_data = ss.str();
        bytes_mode = true;
        std::vector<uint64_t> norm;
        std::string m, render;
        bool bad = try_choices({}, m, &norm, nullptr, o.hang_s);
        bytes_mode = false;
        if (!bad) return 0;
        int ok = 0;
        for (int i = 0; i < 3; ++i) ok += try_choices(norm, m, nullptr, nullptr, o.hang_s);
        if (ok < 3) return 0;
        auto small = shrink(norm, m, m.find("did not terminate") != std::string::npos);
        ok = 0;
        for (int i = 0; i < 3; ++i) ok += try_choices(small, m, nullptr, &render, o.hang_s);
        if (ok < 3) {
            small = norm;
            try_choices(small, m, nullptr, &render, o.hang_s);
        }
        write_replay(small, m, render, 0);
        printf("%s\n", m.c_str());
        return 1;
    }

    int replay() {
        std::ifstream f(o.replay);
        if (!f) {
            fprintf(stderr, "cannot read %s\n", o.replay.c_str());
            return 2;
        }
        std::string l;
        std::vector<uint64_t> ch;
        while (std::getline(f, l)) {
            if (l.rfind("choices", 0) == 0) {
                std::istringstream i(l.substr(7));
                uint64_t v;
                while (i >> v) ch.push_back(v);
            }
        }
        std::string m, render;
        bool bad = try_choices(ch, m, nullptr, &render, o.hang_s);
        printf("%s\n%s\n%s\n", bad ? "FAILS" : "HOLDS", m.c_str(), render.c_str());
        return bad ? 1 : 0;
    }
};

inline int main_(int argc, char **argv) {
    Runner r;
    Opts &o = r.o;
    long cpus = sysconf(_SC_NPROCESSORS_ONLN);
    o.workers = (int) std::max(1l, std::min(8l, cpus));
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--seed") o.seed = std::stoull(val());
        else if (a == "--cases") o.cases = std::stoull(val());
        else if (a == "--workers") o.workers = std::stoi(val());
        else if (a == "--wall") o.wall = std::stod(val());
        else if (a == "--hang") o.hang_s = std::stoi(val());
        else if (a == "--out") o.out = val();
        else if (a == "--tag") o.tag = val();
        else if (a == "--replay") o.replay = val();
        else if (a == "--bytes") o.bytes = val();
        else if (a == "--replay-out") o.replay_out = val();
        else if (a == "--thorough") o.thorough = true;
        else if (a == "--strict") o.strict = true;
        else if (a == "--spec") {
            printf("%s %llu %llu %llu\n", SPEC.id, (unsigned long long) SPEC.quick_cases,
                   (unsigned long long) SPEC.thorough_cases, (unsigned long long) SPEC.san_div);
            return 0;
        }
    }
    if (!o.replay.empty()) return r.replay();
    if (!o.bytes.empty()) return r.from_bytes();
    return r.run();
}

#endif
}  // namespace pbt

#ifdef PBT_FUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    pbt::Src s;
    s.mode = pbt::Src::BYTES;
    s.bytes = data;
    s.nbytes = size;
    pbt::Ctx c;
    c.id = SPEC.id;
    std::string msg;
    if (pbt::run_case(s, c, msg) == pbt::FAILED) {
        const char *p = getenv("PBT_FUZZ_OUT");
        if (p) {
            std::ofstream f(p);
            f << "choices";
            for (auto v: s.out) f << " " << v;
            f << "\n# " << msg << "\n";
        }
        fprintf(stderr, "PBT-FAIL %s\n", msg.c_str());
        abort();
    }
    return 0;
}
#else
int main(int argc, char **argv) { return pbt::main_(argc, argv); }
#endif
