// Stateless explicit-state explorer.
//
// A *space* is a driver function.  It takes all its decisions with mc::choose(n); the explorer runs
// it once for every possible vector of decisions (depth first, alternative 0 first).  The driver
// drives the real code and a reference model side by side and compares them with MC_CHECK.
//
// Usage of the program a check is compiled to:
//   prog --out FILE --dir DIR [--tier quick|thorough] [--workers N] [--only SPACE]
//   prog --replay SPACE TIER c0,c1,...      run one vector verbosely; exit 0 held, 1 violated
#pragma once
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <new>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <algorithm>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#ifdef __SANITIZE_ADDRESS__
extern "C" inline __attribute__((used)) const char *__asan_default_options() {
    return "exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1";
}
#endif

namespace mc {

    struct Violation {
        std::string msg;
    };
    struct Skip {};   // prefix owned by another worker
    struct Prune {};  // driver decided that this vector is redundant (must be argued at the call site)

    enum { MAXDEPTH = 4096, MAXOUT = 96, OUTNAME = 56 };

    struct Shared {  // one per worker, in shared memory
        volatile uint64_t execs, transitions, pruned, states, heartbeat;
        volatile int depth, maxdepth;
        volatile int done, capped;
        int choice[MAXDEPTH];
        int firstDepth, lastDepth, midDepth;
        int first[MAXDEPTH], last[MAXDEPTH], mid[MAXDEPTH];
        int nout;
        char outname[MAXOUT][OUTNAME];
        uint64_t outcount[MAXOUT];
        char msg[4096];
    };

    struct Options {
        int shardDepth = 2;
        std::vector<const char *> mandatory;  // outcomes that must be reached, else the run is vacuous
        std::string bound;                    // human text
        double capQuick = 400, capThorough = 3000;
        bool thoroughOnly = false;
        int serial = 0;  // 1: single worker
    };

    struct Space {
        std::string name;
        std::function<void()> run;
        Options opt;
    };

    struct State {
        std::vector<int> vec, lim;
        size_t pos = 0;
        bool replay = false, verbose = false, tierThorough = false;
        int worker = 0, workers = 1, shardDepth = 0;
        int64_t prefixOrdinal = -1;
        bool newPrefix = true;
        std::unordered_set<uint64_t> states;
        Shared *sh = nullptr;
        std::string failMsg;
        bool failed = false;
        std::string trace;
        uint64_t execTransitions = 0;
        std::vector<std::pair<const char *, uint64_t>> execOutcomes;  // flushed when the execution is owned
    };
    inline State &S() {
        static State s;
        return s;
    }

    inline bool thorough() { return S().tierThorough; }
    inline bool verbose() { return S().verbose; }
    // bound helper
    // (programs built in another way than usual explore one level less)
    inline int bound(int quick, int deep) {
#ifdef MC_SMALL
        return S().tierThorough ? quick : quick > 2 ? quick - 1 : quick;
#else
        return S().tierThorough ? deep : quick;
#endif
    }

    inline void logf(const char *fmt, ...) {
        if (!S().verbose) return;
        char buf[2048];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        S().trace += buf;
        S().trace += '\n';
        fprintf(stdout, "  %s\n", buf);
        fflush(stdout);
    }
#define MC_LOG(...) do { if (mc::verbose()) mc::logf(__VA_ARGS__); } while (0)

    // A decision with n alternatives.
    inline int choose(int n) {
        State &s = S();
        if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); _exit(9); }
        int c;
        if (s.pos < s.vec.size()) {
            c = s.vec[s.pos];
            if (s.replay) {
                if (c >= n) { fprintf(stderr, "mc: replay vector out of range at %zu (%d of %d)\n", s.pos, c, n); _exit(9); }
                s.lim[s.pos] = n;
            } else if (s.lim[s.pos] != n) {
                fprintf(stderr, "mc: driver is not deterministic at %zu: %d alternatives, had %d\n", s.pos, n, s.lim[s.pos]);
                _exit(9);
            }
        } else {
            if (s.replay) { c = 0; }
            else c = 0;
            s.vec.push_back(c);
            s.lim.push_back(n);
        }
        if (s.pos < MAXDEPTH && s.sh) {
            s.sh->choice[s.pos] = c;
            s.sh->depth = (int) s.pos + 1;
        }
        s.pos++;
        if (!s.replay && s.workers > 1 && (int) s.pos == s.shardDepth) {
            if (s.newPrefix) { s.prefixOrdinal++; s.newPrefix = false; }
            if (s.prefixOrdinal % s.workers != s.worker) throw Skip{};
        }
        return c;
    }
    inline bool flag() { return choose(2) == 1; }

    inline void beat() { if (S().sh) S().sh->heartbeat++; }

    // One executed and compared step that led to the model state with this hash.
    inline void step(uint64_t h) {
        State &s = S();
        s.execTransitions++;
        s.states.insert(h);
    }
    // name must be a literal
    inline void outcome(const char *name, uint64_t n = 1) {
        auto &v = S().execOutcomes;
        for (auto &o : v)
            if (o.first == name) { o.second += n; return; }
        v.emplace_back(name, n);
    }
    inline void flushOutcome(Shared *sh, const char *name, uint64_t n) {
        for (int i = 0; i < sh->nout; i++)
            if (!strncmp(sh->outname[i], name, OUTNAME - 1)) { sh->outcount[i] += n; return; }
        if (sh->nout < MAXOUT) {
            strncpy(sh->outname[sh->nout], name, OUTNAME - 1);
            sh->outcount[sh->nout++] = n;
        }
    }
    [[noreturn]] inline void prune() { throw Prune{}; }

    // Record a violation; usable inside callbacks of the code under test (does not throw).
    inline void note(const std::string &m) {
        if (!S().failed) { S().failed = true; S().failMsg = m; }
        MC_LOG("VIOLATED: %s", m.c_str());
    }
    inline void fail(const std::string &m) {
        note(m);
        throw Violation{m};
    }
    inline std::string fmt(const char *f, ...) {
        char buf[2048];
        va_list ap;
        va_start(ap, f);
        vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        return buf;
    }
#define MC_STR2(x) #x
#define MC_STR(x) MC_STR2(x)
#define MC_CHECK(cond, ...) do { if (!(cond)) mc::fail(mc::fmt(__VA_ARGS__)); } while (0)
#define MC_NOTE(cond, ...) do { if (!(cond)) mc::note(mc::fmt(__VA_ARGS__)); } while (0)

    inline uint64_t mix(uint64_t h, uint64_t v) {
        h = (h + 0x9e3779b97f4a7c15ull) * 0xbf58476d1ce4e5b9ull;
        h ^= (h >> 29) + v * 0x94d049bb133111ebull;
        h *= 0xff51afd7ed558ccdull;
        h ^= h >> 32;
        return h;
    }
    inline uint64_t hashStr(const std::string &s, uint64_t h = 14695981039346656037ull) {
        for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
        return h;
    }

    // ---------------------------------------------------------------------------------------------
    inline std::vector<Space> &spaces() {
        static std::vector<Space> v;
        return v;
    }
    inline void add(const std::string &name, Options o, std::function<void()> f) {
        spaces().push_back(Space{name, f, o});
    }

    // A probe is a single fixed history with a known bad outcome; it is run in a process of its own.
    struct Probe {
        std::string name, what;
        std::function<void()> run;
    };
    inline std::vector<Probe> &probes() {
        static std::vector<Probe> v;
        return v;
    }
    inline void probe(const std::string &name, const std::string &what, std::function<void()> f) { probes().push_back(Probe{name, what, f}); }

    // Runs the driver once for the current vector; returns false if it violated.
    enum class Run { ok, skipped, pruned, violated };
    inline Run runOnce(Space &sp) {
        State &s = S();
        s.pos = 0;
        s.failed = false;
        s.failMsg.clear();
        s.execTransitions = 0;
        s.execOutcomes.clear();
        Run r = Run::ok;
        try {
            sp.run();
        } catch (Skip &) {
            r = Run::skipped;
        } catch (Prune &) {
            r = Run::pruned;
        } catch (Violation &) {
            r = Run::violated;
        } catch (std::exception &e) {
            note(std::string("an unexpected exception escaped: ") + e.what());
        } catch (...) {
            note("an unexpected exception escaped");
        }
        if (s.failed && r != Run::skipped) return Run::violated;
        return r;
    }

    inline bool advance() {
        State &s = S();
        // everything not reached in this run is dropped
        s.vec.resize(s.pos);
        s.lim.resize(s.pos);
        while (!s.vec.empty() && s.vec.back() + 1 >= s.lim.back()) {
            s.vec.pop_back();
            s.lim.pop_back();
        }
        if (s.vec.empty()) return false;
        s.vec.back()++;
        if ((int) s.vec.size() <= s.shardDepth) s.newPrefix = true;
        return true;
    }

    inline double now() {
        return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }

    inline double &globalDeadline() {
        static double d = 1e300;
        return d;
    }

    [[noreturn]] inline void workerMain(Space &sp, int w, int W, double deadline, const std::string &dir) {
        State &s = S();
        s.worker = w;
        s.workers = W;
        s.shardDepth = sp.opt.shardDepth;
        s.vec.clear();
        s.lim.clear();
        s.prefixOrdinal = -1;
        s.newPrefix = true;
        Shared *sh = s.sh;
        int code = 0;
        for (;;) {
            sh->heartbeat++;
            sh->depth = 0;
            Run r = runOnce(sp);
            if ((int) s.pos < s.shardDepth && W > 1 && r != Run::violated) {
                // execution shorter than the prefix: owned by one worker through its ordinal
                if (s.newPrefix) { s.prefixOrdinal++; s.newPrefix = false; }
                if (s.prefixOrdinal % W != w) r = Run::skipped;
            }
            if (r == Run::violated) {
                strncpy(sh->msg, s.failMsg.c_str(), sizeof(sh->msg) - 1);
                code = 1;
                break;
            }
            if (r == Run::pruned) sh->pruned++;
            if (r == Run::ok || r == Run::pruned) {
                sh->transitions += s.execTransitions;
                for (auto &o : s.execOutcomes) flushOutcome(sh, o.first, o.second);
            }
            if (r == Run::ok) {
                sh->execs++;
                if ((int) s.pos > sh->maxdepth) sh->maxdepth = (int) s.pos;
                int d = (int) std::min<size_t>(s.pos, MAXDEPTH);
                if (sh->execs == 1) { sh->firstDepth = d; std::copy(s.vec.begin(), s.vec.begin() + d, sh->first); }
                if ((sh->execs & (sh->execs - 1)) == 0) { sh->midDepth = d; std::copy(s.vec.begin(), s.vec.begin() + d, sh->mid); }
                sh->lastDepth = d;
                std::copy(s.vec.begin(), s.vec.begin() + d, sh->last);
            }
            if (!advance()) break;
            if ((sh->heartbeat & 63) == 0 && now() > deadline) { sh->capped = 1; break; }
        }
        std::string fn = dir + "/states." + std::to_string(w);
        FILE *f = fopen(fn.c_str(), "wb");
        if (f) {
            for (uint64_t h : s.states) fwrite(&h, 8, 1, f);
            fclose(f);
        }
        sh->states = s.states.size();
        sh->done = 1;
        fflush(stdout);
        _exit(code);
    }

    inline std::string vecStr(const int *c, int n) {
        std::string r;
        for (int i = 0; i < n; i++) r += (i ? "," : "") + std::to_string(c[i]);
        return r.empty() ? "-" : r;
    }

    inline std::string selfExe() {
        char buf[4096];
        ssize_t n = readlink("/proc/self/exe", buf, sizeof buf - 1);
        if (n <= 0) return "";
        buf[n] = 0;
        return buf;
    }

    struct ReplayResult {
        int status = 0;      // wait status
        bool timeout = false;
        std::string output;
        bool held() const { return !timeout && WIFEXITED(status) && WEXITSTATUS(status) == 0; }
        bool violated() const {
            if (timeout) return true;
            if (WIFSIGNALED(status)) return WTERMSIG(status) != SIGKILL;
            int e = WEXITSTATUS(status);
            return e == 1 || e == 77;
        }
    };
    inline ReplayResult replayExternal(const std::string &space, bool deep, const std::string &vec, double limit) {
        ReplayResult rr;
        int fd[2];
        if (pipe(fd)) { rr.status = 9 << 8; return rr; }
        std::string exe = selfExe();
        pid_t p = fork();
        if (p == 0) {
            dup2(fd[1], 1);
            dup2(fd[1], 2);
            close(fd[0]);
            close(fd[1]);
            execl(exe.c_str(), exe.c_str(), "--replay", space.c_str(), deep ? "thorough" : "quick", vec.c_str(), (char *) nullptr);
            _exit(9);
        }
        close(fd[1]);
        fcntl(fd[0], F_SETFL, O_NONBLOCK);
        double end = now() + limit;
        char buf[4096];
        bool reaped = false;
        for (;;) {
            ssize_t n = read(fd[0], buf, sizeof buf);
            if (n > 0) { if (rr.output.size() < 200000) rr.output.append(buf, n); continue; }
            if (!reaped && waitpid(p, &rr.status, WNOHANG) == p) { reaped = true; continue; }
            if (reaped) break;
            if (now() > end) { kill(p, SIGKILL); waitpid(p, &rr.status, 0); rr.timeout = true; break; }
            usleep(5000);
        }
        close(fd[0]);
        return rr;
    }

    inline std::string jsonStr(const std::string &s) {
        std::string r = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += (char) c;
        }
        return r + "\"";
    }

    inline std::string statusText(int st);
    // Returns the JSON list of the probes whose history violates the property.
    inline std::string runProbes() {
        std::string json;
        for (auto &pr : probes()) {
            fflush(stdout);
            pid_t p = fork();
            if (p == 0) {
                int fd = open("/dev/null", O_WRONLY);
                if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); }
                alarm(30);
                int rc = 0;
                S().failed = false;
                try { pr.run(); } catch (...) { rc = 1; }
                if (S().failed) rc = 1;
                _exit(rc);
            }
            int st = 0;
            waitpid(p, &st, 0);
            bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
            printf("probe %-28s %s\n", pr.name.c_str(), bad ? "violated" : "held");
            json += (json.empty() ? "" : ",") + std::string("{\"name\":") + jsonStr(pr.name) + ",\"what\":" + jsonStr(pr.what) +
                    ",\"violated\":" + (bad ? "true" : "false") + ",\"status\":" + jsonStr(statusText(st)) + "}";
        }
        return json;
    }

    inline std::string statusText(int st) {
        if (WIFSIGNALED(st)) return std::string("killed by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
        return "exit code " + std::to_string(WEXITSTATUS(st));
    }

    inline int explore(Space &sp, bool deep, int W, const std::string &dir, std::string &json, bool second = false) {
        State &s = S();
        if (sp.opt.serial) W = 1;
        double t0 = now();
        double deadline = std::min(t0 + (deep ? sp.opt.capThorough : sp.opt.capQuick), globalDeadline());
        Shared *sh = (Shared *) mmap(nullptr, sizeof(Shared) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (sh == MAP_FAILED) { perror("mmap"); return 2; }
        std::vector<pid_t> pids(W, 0);
        fflush(stdout);
        fflush(stderr);
        for (int w = 0; w < W; w++) {
            pid_t p = fork();
            if (p < 0) { perror("fork"); return 2; }
            if (p == 0) {
                s.sh = sh + w;
                // address sanitizer and crash output goes to a file, the vector tells the story
                std::string ef = dir + "/stderr." + std::to_string(w);
                int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
                if (fd >= 0) { dup2(fd, 2); close(fd); }
                workerMain(sp, w, W, deadline, dir);
            }
            pids[w] = p;
        }
        std::vector<uint64_t> lastBeat(W, 0);
        std::vector<double> beatAt(W, now());
        std::vector<int> running(W, 1);
        int alive = W, bad = -1, badStatus = 0;
        bool hang = false, harnessError = false;
        while (alive > 0 && bad < 0) {
            bool any = false;
            for (int w = 0; w < W && bad < 0; w++) {
                if (!running[w]) continue;
                int st;
                pid_t r = waitpid(pids[w], &st, WNOHANG);
                if (r == pids[w]) {
                    any = true;
                    running[w] = 0;
                    alive--;
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w].done) continue;
                    bad = w;
                    badStatus = st;
                } else {
                    if (sh[w].heartbeat != lastBeat[w]) { lastBeat[w] = sh[w].heartbeat; beatAt[w] = now(); }
                    else if (now() - beatAt[w] > (deep ? 120 : 40)) { bad = w; hang = true; }
                }
            }
            if (!any && bad < 0) usleep(3000);
        }
        for (int w = 0; w < W; w++)
            if (running[w]) { kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); }

        uint64_t execs = 0, trans = 0, pruned = 0;
        int maxdepth = 0;
        bool capped = false;
        std::map<std::string, uint64_t> outs;
        for (int w = 0; w < W; w++) {
            execs += sh[w].execs; trans += sh[w].transitions; pruned += sh[w].pruned;
            maxdepth = std::max(maxdepth, (int) sh[w].maxdepth);
            capped = capped || sh[w].capped;
            for (int i = 0; i < sh[w].nout; i++) outs[sh[w].outname[i]] += sh[w].outcount[i];
        }
        std::unordered_set<uint64_t> all;
        for (int w = 0; w < W; w++) {
            std::string fn = dir + "/states." + std::to_string(w);
            FILE *f = fopen(fn.c_str(), "rb");
            if (f) {
                uint64_t buf[4096];
                size_t n;
                while ((n = fread(buf, 8, 4096, f)) > 0) for (size_t i = 0; i < n; i++) all.insert(buf[i]);
                fclose(f);
            }
            unlink(fn.c_str());
        }

        int rc = 0;
        std::string vjson;
        if (bad >= 0) {
            std::string vec = vecStr(sh[bad].choice, std::min((int) sh[bad].depth, (int) MAXDEPTH));
            bool isFail = !hang && WIFEXITED(badStatus) && WEXITSTATUS(badStatus) == 1 && sh[bad].done;
            bool isCrash = !hang && ((WIFSIGNALED(badStatus) && WTERMSIG(badStatus) != SIGKILL) ||
                                     (WIFEXITED(badStatus) && WEXITSTATUS(badStatus) == 77));
            std::string what = isFail ? sh[bad].msg : hang ? "an execution did not terminate" : "the execution crashed: " + statusText(badStatus);
            if (!isFail && !isCrash && !hang) {
                harnessError = true;
                fprintf(stderr, "mc: space %s: worker ended unexpectedly: %s vector %s\n", sp.name.c_str(), statusText(badStatus).c_str(), vec.c_str());
                std::string ef = dir + "/stderr." + std::to_string(bad);
                std::string cmd = "tail -c 2000 '" + ef + "' >&2";
                if (system(cmd.c_str())) {}
                rc = 2;
            } else {
                ReplayResult rr = replayExternal(sp.name, deep, vec, hang ? 100 : 120);
                if (rr.violated() && (!rr.timeout || hang)) {
                    rc = 1;
                    if (rr.timeout) what = "an execution does not terminate (re-run alone for 100 s)";
                    else if (WIFSIGNALED(rr.status)) what = "the execution crashes: " + statusText(rr.status);
                    vjson = "{\"space\":" + jsonStr(sp.name) + ",\"choices\":" + jsonStr(vec) + ",\"message\":" + jsonStr(what) +
                            ",\"tier\":" + jsonStr(deep ? "thorough" : "quick") + ",\"trace\":" + jsonStr(rr.output.substr(0, 20000)) + "}";
                    printf("space %s: VIOLATION %s\n  choices %s\n%s\n", sp.name.c_str(), what.c_str(), vec.c_str(), rr.output.substr(0, 6000).c_str());
                } else if (second && !hang) {
                    // The vector alone does not show it (it depends on what ran before in the process), but the
                    // whole deterministic search found a violation twice: the search is the replay artefact.
                    rc = 1;
                    vjson = "{\"space\":" + jsonStr(sp.name) + ",\"choices\":\"*\",\"message\":" + jsonStr(what + " (only when the whole space is explored in one process; vector " + vec + ")") +
                            ",\"tier\":" + jsonStr(deep ? "thorough" : "quick") + ",\"trace\":\"\"}";
                    printf("space %s: VIOLATION (twice, in full searches) %s\n  choices %s\n", sp.name.c_str(), what.c_str(), vec.c_str());
                } else {
                    fprintf(stderr, "mc: space %s: violation (%s) did not replay: vector %s, replay %s\n", sp.name.c_str(), what.c_str(), vec.c_str(),
                            rr.timeout ? "timeout" : statusText(rr.status).c_str());
                    rc = 3;  // not confirmed
                }
            }
        }
        std::string vac;
        if (rc == 0 && !capped)
            for (const char *m : sp.opt.mandatory)
                if (!outs.count(m)) { vac = m; }
        if (rc == 0 && execs == 0) vac = "no execution";
        if (!vac.empty()) {
            fprintf(stderr, "mc: space %s is vacuous: outcome '%s' was never reached\n", sp.name.c_str(), vac.c_str());
            rc = 2;
        }
        // sample traces, produced by the same replay facility
        std::string samples;
        if (rc == 0) {
            int w = W > 1 ? 1 % W : 0;
            if (sh[w].execs == 0) w = 0;
            const int *vs[2] = {sh[0].firstDepth ? sh[0].first : sh[w].mid, sh[w].mid};
            int ds[2] = {sh[0].firstDepth ? sh[0].firstDepth : sh[w].midDepth, sh[w].midDepth};
            for (int i = 0; i < 2; i++) {
                std::string vec = vecStr(vs[i], ds[i]);
                ReplayResult rr = replayExternal(sp.name, deep, vec, 60);
                samples += std::string(samples.empty() ? "" : ",") + "{\"space\":" + jsonStr(sp.name) + ",\"choices\":" + jsonStr(vec) + ",\"trace\":" + jsonStr(rr.output.substr(0, 1500)) + "}";
                if (!rr.held()) {
                    fprintf(stderr, "mc: space %s: sample does not replay\n", sp.name.c_str());
                    rc = 2;
                }
            }
        }
        double dt = now() - t0;
        json = "{\"space\":" + jsonStr(sp.name) + ",\"bound\":" + jsonStr(sp.opt.bound) + ",\"executions\":" + std::to_string(execs) +
               ",\"transitions\":" + std::to_string(trans) + ",\"states\":" + std::to_string(all.size()) + ",\"pruned\":" + std::to_string(pruned) +
               ",\"max_choices\":" + std::to_string(maxdepth) + ",\"exhaustive\":" + (capped || rc ? "false" : "true") + ",\"wall_s\":" + std::to_string(dt) +
               ",\"outcomes\":{";
        bool firstOut = true;
        for (auto &o : outs) { json += (firstOut ? "" : ",") + jsonStr(o.first) + ":" + std::to_string(o.second); firstOut = false; }
        json += "},\"samples\":[" + samples + "]";
        if (!vjson.empty()) json += ",\"violation\":" + vjson;
        json += "}";
        printf("space %-28s execs %9llu  transitions %10llu  states %8zu  depth %3d  %s %.1fs\n", sp.name.c_str(), (unsigned long long) execs,
               (unsigned long long) trans, all.size(), maxdepth, capped ? "CAPPED" : "complete", dt);
        fflush(stdout);
        munmap(sh, sizeof(Shared) * W);
        (void) harnessError;
        return rc;
    }

    inline int main(int argc, char **argv, void (*reg)()) {
        setvbuf(stdout, nullptr, _IOLBF, 0);
        if (!getenv("MC_NOASLR")) {  // addresses are not part of the enumerated nondeterminism; fix them if allowed
            setenv("MC_NOASLR", "1", 1);
            if (personality(ADDR_NO_RANDOMIZE) != -1) {
                std::string exe = selfExe();
                if (!exe.empty()) execv(exe.c_str(), argv);
            }
        }
#ifndef __SANITIZE_ADDRESS__
        struct rlimit rl = {6ull << 30, 6ull << 30};
        setrlimit(RLIMIT_AS, &rl);
#endif
        struct rlimit nocore = {0, 0};
        setrlimit(RLIMIT_CORE, &nocore);
        State &s = S();
        std::string out, dir = ".", only;
        int W = (int) sysconf(_SC_NPROCESSORS_ONLN);
        bool deep = false;
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            if (a == "--replay" && i + 3 < argc) {
                s.replay = s.verbose = true;
                deep = s.tierThorough = std::string(argv[i + 2]) == "thorough";
                reg();
                std::string v = argv[i + 3];
                if (v != "-") {
                    const char *p = v.c_str();
                    while (*p) { s.vec.push_back((int) strtol(p, (char **) &p, 10)); if (*p == ',') p++; }
                }
                s.lim.assign(s.vec.size(), 0);
                for (auto &sp : spaces())
                    if (sp.name == argv[i + 1]) {
                        Run r = runOnce(sp);
                        printf(r == Run::violated ? "result: VIOLATED\n" : "result: held\n");
                        return r == Run::violated ? 1 : 0;
                    }
                fprintf(stderr, "no such space\n");
                return 9;
            }
            if (a == "--out") out = argv[++i];
            else if (a == "--dir") dir = argv[++i];
            else if (a == "--tier") deep = std::string(argv[++i]) == "thorough";
            else if (a == "--workers") W = atoi(argv[++i]);
            else if (a == "--only") only = argv[++i];
            else if (a == "--budget") globalDeadline() = now() + atof(argv[++i]);
        }
        s.tierThorough = deep;
        reg();
        std::string all;
        int rc = 0;
        for (auto &sp : spaces()) {
            if (!only.empty() && sp.name != only) continue;
            if (sp.opt.thoroughOnly && !deep) continue;
            std::string j;
            int r = explore(sp, deep, W, dir, j);
            if (r == 3) {  // not confirmed in a fresh process: the search itself is deterministic, run it again
                r = explore(sp, deep, W, dir, j, true);
                if (r == 3 || r == 0) r = 2;
            }
            all += (all.empty() ? "" : ",\n") + j;
            if (r == 1) { rc = 1; break; }
            if (r > rc) rc = r;
            if (r == 2) break;
        }
        std::string probesJson = rc == 0 ? runProbes() : "";
        if (!out.empty()) {
            FILE *f = fopen(out.c_str(), "w");
            if (!f) { perror(out.c_str()); return 2; }
            fprintf(f, "{\"spaces\":[%s],\"probes\":[%s],\"rc\":%d}\n", all.c_str(), probesJson.c_str(), rc);
            fclose(f);
        }
        return rc;
    }
}
