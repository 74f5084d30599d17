// Bounded exhaustive exploration of the real code.
//
// A scope is a function body(ctx&) that drives the implementation and a reference model in lockstep and asks
// ctx::choose(n) for every nondeterministic decision (operation, operand, schedule, environment answer).  The
// explorer runs the body once for every sequence of choices (depth-first, re-executing from the start, so that no
// hidden implementation state is merged away).  The tree is split over worker processes; the running choice sequence
// lives in shared memory, so a crash, failed assertion or hang is attributed to its execution, replayed alone and
// only then reported.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sched.h>

namespace mc {

struct violation { std::string key, msg; };

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h ^= h >> 31; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 29;
    return h;
}

inline uint64_t hash_string(const std::string &s)
{
    uint64_t h = 1469598103934665603ull;
    for(unsigned char c: s) { h ^= c; h *= 1099511628211ull; }
    return mix(h, s.size());
}

constexpr unsigned MAXPATH = 1u << 14;

struct shared_slot
{
    volatile uint64_t heartbeat;       // bumped for every execution
    volatile uint64_t executions;
    volatile uint64_t transitions;
    volatile uint64_t checks;
    volatile uint32_t state;           // 0 idle, 1 running, 2 done, 3 violation
    volatile uint32_t length;
    volatile uint32_t choices[MAXPATH];
    volatile uint32_t taken_count;
    volatile uint32_t taken[MAXPATH];  // subtrees explored by this worker, in order
    char key[512];
    char msg[4096];
};

struct shared_head
{
    volatile uint64_t next;            // next prefix to take
    volatile uint32_t stop;
};

class ctx
{
public:
    std::vector<uint32_t> forced;                 // choices to replay
    std::vector<std::pair<uint32_t,uint32_t>> path; // (choice, number of alternatives)
    size_t fresh_from = 0;                        // positions >= this were not taken by the previous execution
    size_t limit = SIZE_MAX;                      // do not branch beyond this many choices
    bool verbose = false;
    bool diverged = false;
    shared_slot *slot = nullptr;
    std::ostringstream log_;
    std::unordered_set<uint64_t> *states = nullptr;
    std::set<std::string> *known = nullptr;       // keys of the known findings
    std::map<std::string, std::string> *seen_known = nullptr;
    bool failed = false;
    violation failure;
    uint64_t transitions = 0, checks = 0;

    // decide between n alternatives
    uint32_t choose(uint32_t n)
    {
        if(n == 0) { fprintf(stderr, "mc: choose(0)\n"); abort(); }
        size_t at = path.size();
        uint32_t c = 0;
        if(at < forced.size()) {
            c = forced[at];
            if(c >= n) { diverged = true; c = n - 1; }
        }
        path.emplace_back(c, n);
        if(slot && at < MAXPATH) { slot->choices[at] = c; slot->length = at + 1; }
        return c;
    }

    template<typename T> const T &pick(const std::vector<T> &v) { return v[choose(v.size())]; }

    bool flip() { return choose(2) == 1; }

    bool fresh() const { return path.size() > fresh_from; }

    // one transition of the system under test has been executed
    void op() { if(fresh()) ++transitions; }

    // the canonical state reached
    void state(uint64_t h) { if(states && states->size() < (1u << 22)) states->insert(h); }
    void state(const std::string &s) { state(hash_string(s)); }

    // fail this execution, unless the finding is listed
    bool report(const std::string &key, const std::string &msg)
    {
        if(known && known->count(key)) {
            if(seen_known) seen_known->emplace(key, msg);
            return true;
        }
        if(!failed) { failed = true; failure = violation{key, msg}; }
        return false;
    }
    void fail(const std::string &key, const std::string &msg)
    {
        if(!report(key, msg)) throw failure;
    }
    template<typename... A> void log(A &&... a)
    {
        if(verbose) { (log_ << ... << a); log_ << '\n'; }
    }
};

#define MC_STR(...) ([&]{ std::ostringstream mc_s_; mc_s_ << __VA_ARGS__; return mc_s_.str(); }())
#define MC_LOG(c, ...) do { if((c).verbose) { (c).log_ << __VA_ARGS__ << '\n'; } } while(0)
#define MC_CHECK(c, cond, key, ...) do { ++(c).checks; if(!(cond)) { (c).fail(key, MC_STR(__VA_ARGS__ << "  [" #cond "]")); } } while(0)
// as MC_CHECK but does not throw (for use inside code that must not see foreign exceptions)
#define MC_NOTE(c, cond, key, ...) do { ++(c).checks; if(!(cond)) { (c).report(key, MC_STR(__VA_ARGS__ << "  [" #cond "]")); } } while(0)

typedef std::function<void(ctx &)> body_t;

// ends the process when an execution has failed in a state that cannot be unwound (a deadlock, a failure on a thread of
// the implementation); set by whoever runs executions
inline std::function<void(ctx &)> &fatal_hook() { static std::function<void(ctx &)> h; return h; }

inline double now()
{
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

inline std::string json(const std::string &s)
{
    std::string r = "\"";
    for(unsigned char c: s) {
        if(c == '"' || c == '\\') { r += '\\'; r += c; }
        else if(c == '\n') r += "\\n";
        else if(c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

// what a body is allowed to let escape is reported as a violation of its own
inline void execute(const body_t &body, ctx &c)
{
    try {
        body(c);
    } catch(const violation &v) {
        if(!c.failed) { c.failed = true; c.failure = v; }
    } catch(const std::exception &e) {
        c.report("unexpected-exception", std::string("unexpected exception: ") + e.what());
    } catch(...) {
        c.report("unexpected-exception", "unexpected exception of unknown type");
    }
    if(c.diverged && !c.failed) {
        c.failed = true;
        c.failure = violation{"replay-divergence", "re-executing a prefix offered fewer alternatives than before: "
                                                   "the behaviour is not a function of the choices"};
    }
}

// next sequence in depth-first order, or false
inline bool advance(ctx &c, std::vector<uint32_t> &forced, size_t base, size_t limit, size_t &fresh_from)
{
    size_t n = std::min(c.path.size(), limit);
    while(n > base && c.path[n - 1].first + 1 >= c.path[n - 1].second) --n;
    if(n <= base) return false;
    forced.resize(n);
    for(size_t i = 0; i < n; ++i) forced[i] = c.path[i].first;
    ++forced[n - 1];
    fresh_from = n - 1;
    return true;
}

struct scope_result
{
    std::string name;
    uint64_t states = 0, transitions = 0, executions = 0, checks = 0, prefixes = 0, prefixes_done = 0;
    bool complete = true;
    double wall = 0;
    std::vector<std::string> samples;
};

class runner
{
public:
    std::string property, tier = "quick", out, known_file, replay_file, only;
    unsigned workers = 8;
    double deadline = 600, started = now();
    double hang_limit = 30;
    bool asan = false;
    bool warmup = false;               // run every body once before exploring, so that lazily created state exists
    bool pin = false;                  // one worker per processor
    std::set<std::string> known;
    std::map<std::string, std::string> seen_known;
    std::vector<scope_result> results;
    bool violated = false;
    bool replaying = false, replay_found = false;
    std::string replay_scope; std::vector<uint32_t> replay_choices; std::vector<std::vector<uint32_t>> replay_bases;

    runner(int argc, char **argv, std::string property_): property(property_)
    {
        for(int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto next = [&]() { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
            if(a == "--tier") tier = next();
            else if(a == "--out") out = next();
            else if(a == "--known") known_file = next();
            else if(a == "--workers") workers = std::stoul(next());
            else if(a == "--deadline") deadline = std::stod(next());
            else if(a == "--only") only = next();
            else if(a == "--replay") { replay_file = next(); replaying = true; }
        }
        if(!known_file.empty()) {
            std::ifstream f(known_file); std::string l;
            while(std::getline(f, l)) if(!l.empty()) known.insert(l);
        }
        if(replaying) {
            std::ifstream f(replay_file); std::string l;
            while(std::getline(f, l)) {
                if(l.rfind("scope: ", 0) == 0) replay_scope = l.substr(7);
                if(l.rfind("subtree:", 0) == 0) { std::istringstream s(l.substr(8)); uint32_t x; replay_bases.emplace_back(); while(s >> x) replay_bases.back().push_back(x); }
                if(l.rfind("choices:", 0) == 0) { std::istringstream s(l.substr(8)); uint32_t x; while(s >> x) replay_choices.push_back(x); }
            }
        }
        setvbuf(stdout, nullptr, _IOLBF, 0);
    }

    bool thorough() const { return tier == "thorough"; }

    template<typename T> T bound(T quick, T thorough_) const { return thorough() ? thorough_ : quick; }

    void scope(const std::string &name, const body_t &body)
    {
        if(violated) return;
        if(!only.empty() && name.find(only) == std::string::npos) return;
        if(replaying) {
            if(name != replay_scope) return;
            replay_found = true;
            ctx c; c.forced = replay_choices; c.verbose = true; c.known = &known; c.seen_known = &seen_known;
            fatal_hook() = [](ctx &c) { std::cout << c.log_.str() << "FAILS: " << c.failure.key << ": " << c.failure.msg << std::endl; _exit(1); };
            warm(body);
            if(replay_bases.empty()) execute(body, c);
            else explore_subtrees(body, replay_bases, c, &known, nullptr);
            fatal_hook() = nullptr;
            std::cout << c.log_.str();
            if(c.failed) { std::cout << "FAILS: " << c.failure.key << ": " << c.failure.msg << "\n"; violated = true; }
            else std::cout << "no failure\n";
            return;
        }
        explore(name, body);
        if(again) {
            // a failure that does not repeat came from the machine (a stalled or killed process), not from the code: once more
            again = false; last_try = true;
            if(!results.empty() && results.back().name == name) results.pop_back();
            explore(name, body);
            last_try = false;
        }
    }

    int finish()
    {
        if(replaying) {
            if(!replay_found) { std::cout << "scope not found\n"; return 2; }
            return violated ? 1 : 0;
        }
        uint64_t st = 0, tr = 0, ex = 0, ch = 0; bool complete = true;
        std::ostringstream j;
        j << "{\n \"scopes\": [";
        for(size_t i = 0; i < results.size(); ++i) {
            auto &r = results[i];
            st += r.states; tr += r.transitions; ex += r.executions; ch += r.checks; complete = complete && r.complete;
            j << (i ? ",\n  " : "\n  ") << "{\"scope\": " << json(r.name) << ", \"states\": " << r.states << ", \"transitions\": " << r.transitions
              << ", \"executions\": " << r.executions << ", \"checks\": " << r.checks << ", \"complete\": " << (r.complete ? "true" : "false")
              << ", \"subtrees\": " << r.prefixes << ", \"subtrees_done\": " << r.prefixes_done << ", \"wall_s\": " << r.wall << "}";
        }
        j << "\n ],\n \"states\": " << st << ", \"transitions\": " << tr << ", \"executions\": " << ex << ", \"checks\": " << ch
          << ", \"complete\": " << (complete ? "true" : "false") << ",\n \"known\": [";
        bool first = true;
        for(auto &[k, m]: seen_known) { j << (first ? "" : ", ") << "{\"key\": " << json(k) << ", \"msg\": " << json(m) << "}"; first = false; }
        j << "],\n \"samples\": [";
        first = true;
        for(auto &r: results) for(auto &s: r.samples) { j << (first ? "" : ",\n  ") << json(r.name + ": " + s); first = false; }
        j << "],\n \"violations\": " << (violated ? 1 : 0) << "\n}\n";
        if(!out.empty()) { std::ofstream f(out + ".json"); f << j.str(); }
        else std::cout << j.str();
        if(!violated && unreproduced) return 3;
        return violated ? 1 : 0;
    }

private:
    void warm(const body_t &body)
    {
        if(!warmup) return;
        ctx c; std::unordered_set<uint64_t> none; c.states = &none; c.known = &known; execute(body, c);
    }

    static void pin_to(unsigned w)
    {
        cpu_set_t all, one; if(sched_getaffinity(0, sizeof all, &all)) return;
        std::vector<int> cpus; for(int i = 0; i < CPU_SETSIZE; ++i) if(CPU_ISSET(i, &all)) cpus.push_back(i);
        if(cpus.empty()) return;
        CPU_ZERO(&one); CPU_SET(cpus[w % cpus.size()], &one); sched_setaffinity(0, sizeof one, &one);
    }

    template<typename T> T *share(size_t n)
    {
        void *p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if(p == MAP_FAILED) { perror("mmap"); exit(2); }
        memset(p, 0, sizeof(T) * n);
        return static_cast<T *>(p);
    }

    static void put(shared_slot *s, const violation &v)
    {
        snprintf(s->key, sizeof s->key, "%s", v.key.c_str());
        snprintf(s->msg, sizeof s->msg, "%s", v.msg.c_str());
        s->state = 3;
    }

    void child_limits()
    {
        if(!asan) { rlimit r{3ull << 30, 3ull << 30}; setrlimit(RLIMIT_AS, &r); }
        rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
        int fd = open("/dev/null", O_WRONLY);
        if(fd >= 0) { dup2(fd, 1); if(!getenv("MC_STDERR")) dup2(fd, 2); close(fd); }
    }

    // Decides that a child makes no progress. Time counts only while the monitor itself runs (a suspended machine does
    // not count), and the child must have used half of the limit in processor time, or be idle for three times the limit.
    struct watch
    {
        pid_t pid; double limit, idle = 0, prev, cpu = 0; uint64_t beat = 0;
        watch(pid_t p, double l) : pid(p), limit(l), prev(now()) { }
        double used() const
        {
            clockid_t k; timespec t;
            if(clock_getcpuclockid(pid, &k) || clock_gettime(k, &t)) return 0;
            return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
        }
        bool hung(uint64_t heartbeat)
        {
            double n = now(); idle += std::min(n - prev, 0.05); prev = n;
            if(heartbeat != beat) { beat = heartbeat; idle = 0; cpu = -1; return false; }
            if(cpu < 0) { if(idle < 0.5) return false; cpu = used(); }
            if(idle <= limit) return false;
            return idle > 3 * limit || used() - cpu > limit / 2;
        }
    };

    // run one execution alone in a child; returns true when it fails, with reason and log
    bool replay_alone(const body_t &body, const std::vector<uint32_t> &choices, double limit, std::string &key, std::string &msg, std::string &log)
    {
        auto *s = share<shared_slot>(1);
        char fn[] = "/tmp/mc_replay_XXXXXX"; int lf = mkstemp(fn);
        fflush(stdout);
        pid_t p = fork();
        if(p == 0) {
            child_limits();
            ctx c; c.forced = choices; c.verbose = true; c.slot = s; c.known = &known;
            s->state = 1;
            fatal_hook() = [s, lf](ctx &c) { std::string l = c.log_.str(); if(write(lf, l.data(), l.size())) {} put(s, c.failure); _exit(0); };
            warm(body);
            execute(body, c);
            std::string l = c.log_.str();
            if(write(lf, l.data(), l.size())) {}
            if(c.failed) put(s, c.failure); else s->state = 2;
            _exit(0);
        }
        int status = 0; bool timeout = false; watch wt(p, limit);
        while(waitpid(p, &status, WNOHANG) == 0) {
            if(wt.hung(0)) { kill(p, SIGKILL); waitpid(p, &status, 0); timeout = true; break; }
            usleep(2000);
        }
        std::ifstream f(fn); std::stringstream b; b << f.rdbuf(); log = b.str();
        close(lf); unlink(fn);
        bool bad = false;
        if(timeout) { bad = true; key = "hang"; msg = MC_STR("execution does not terminate within " << limit << " s when run alone"); }
        else if(s->state == 3) { bad = true; key = s->key; msg = s->msg; }
        else if(s->state != 2) { bad = true; key = "crash"; msg = WIFSIGNALED(status) ? MC_STR("execution crashes with signal " << WTERMSIG(status) << " (" << strsignal(WTERMSIG(status)) << ")") : MC_STR("execution exits with status " << WEXITSTATUS(status)); }
        munmap(s, sizeof(shared_slot));
        return bad;
    }

    // explore the given subtrees one after another in this process until an execution fails
    static void explore_subtrees(const body_t &body, const std::vector<std::vector<uint32_t>> &bases, ctx &failing, std::set<std::string> *known, shared_slot *s)
    {
        for(auto &base: bases) {
            std::vector<uint32_t> forced = base; size_t fresh = 0;
            for(;;) {
                ctx c; c.forced = forced; c.slot = s; c.known = known;
                if(s) { s->length = 0; ++s->heartbeat; }
                execute(body, c);
                if(c.failed) { failing.failed = true; failing.failure = c.failure; failing.path = c.path; return; }
                if(!advance(c, forced, base.size(), SIZE_MAX, fresh)) break;
            }
        }
    }

    bool replay_subtrees(const body_t &body, const std::vector<std::vector<uint32_t>> &bases, std::string &key, std::string &msg)
    {
        auto *s = share<shared_slot>(1);
        fflush(stdout);
        pid_t p = fork();
        if(p == 0) {
            child_limits(); s->state = 1;
            fatal_hook() = [s](ctx &c) { put(s, c.failure); _exit(0); };
            warm(body);
            ctx f; explore_subtrees(body, bases, f, &known, s);
            if(f.failed) put(s, f.failure); else s->state = 2;
            _exit(0);
        }
        int status = 0; double t0 = now(); bool hung = false; watch wt(p, hang_limit);
        while(waitpid(p, &status, WNOHANG) == 0) {
            hung = wt.hung(s->heartbeat);
            if(hung || now() - t0 > 200) { kill(p, SIGKILL); waitpid(p, &status, 0); if(!hung) s->state = 2; break; }
            usleep(2000);
        }
        bool bad = s->state != 2;
        if(s->state == 3) { key = s->key; msg = s->msg; }
        else if(bad) { key = hung ? "hang" : "crash"; msg = hung ? "an execution does not terminate" : MC_STR("an execution crashes with status " << status); }
        munmap(s, sizeof(shared_slot));
        return bad;
    }

    void suspect(const std::string &scope, const body_t &body, shared_slot *s, const char *why, const std::vector<std::vector<uint32_t>> &prefixes)
    {
        std::vector<uint32_t> ch(s->choices, s->choices + std::min<uint32_t>(uint32_t(s->length), MAXPATH));
        // trailing zeros are the default choice
        while(!ch.empty() && ch.back() == 0) ch.pop_back();
        std::string key, msg, log, key2, msg2, log2;
        bool a = replay_alone(body, ch, hang_limit, key, msg, log);
        bool b = a && (key == "hang" ? true : replay_alone(body, ch, hang_limit, key2, msg2, log2));
        std::vector<std::vector<uint32_t>> bases;
        if(!a || !b) {
            // the failure may depend on state that outlives an execution (a global the code keeps): replay everything
            // this worker did, in order, in a fresh process
            for(uint32_t i = 0; i < s->taken_count && s->taken_count < MAXPATH; ++i) if(s->taken[i] < prefixes.size()) bases.push_back(prefixes[s->taken[i]]);
            if(bases.empty()) bases.push_back({});
            if(!replay_subtrees(body, bases, key, msg)) {
                std::cout << "mc: a suspected failure (" << why << ": " << s->key << " " << s->msg << ") did not repeat when replayed; not reported\n";
                if(last_try) unreproduced = true; else again = true;
                return;
            }
            msg += " (depends on executions that ran before in the same process)";
        }
        violated = true;
        std::string path = (out.empty() ? std::string("/tmp/mc_") + property : out) + ".replay";
        {
            std::ofstream f(path);
            f << "property: " << property << "\nscope: " << scope << "\nfailure: " << key << ": " << msg << "\nchoices:";
            for(auto x: ch) f << ' ' << x;
            f << "\n";
            for(auto &v: bases) { f << "subtree:"; for(auto x: v) f << ' ' << x; f << "\n"; }
            f << "\nexecution:\n" << log;
            if(!msg2.empty() && msg2 != msg) f << "\nsecond replay: " << msg2 << "\n";
        }
        std::cout << "scope " << scope << ": " << key << ": " << msg << "\n" << log;
        std::cout << "VIOLATION property=" << property << " replay=" << path << "\n";
    }

public:
    bool unreproduced = false, again = false, last_try = false;

private:
    void explore(const std::string &name, const body_t &body)
    {
        double t0 = now();
        scope_result r; r.name = name;
        auto *head = share<shared_head>(1);
        auto *slots = share<shared_slot>(workers + 1);

        // 1. split: enumerate the prefixes of a growing length in a child
        constexpr size_t MAXPREF = 1u << 16;
        size_t want = workers * 32;
        std::vector<std::vector<uint32_t>> prefixes;
        for(size_t len = 1;; ++len) {
            int fd[2]; if(pipe(fd)) { perror("pipe"); exit(2); }
            fflush(stdout);
            auto *s = &slots[workers]; memset((void *)s, 0, sizeof(*s));
            pid_t p = fork();
            if(p == 0) {
                close(fd[0]); child_limits();
                fatal_hook() = [s](ctx &c) { put(s, c.failure); _exit(0); };
                s->state = 1; s->length = 0; warm(body);
                std::vector<uint32_t> forced; size_t fresh = 0; size_t count = 0; bool deeper = false;
                FILE *o = fdopen(fd[1], "w");
                for(;;) {
                    ctx c; c.forced = forced; c.slot = s; c.known = &known;
                    s->state = 1; s->length = 0; ++s->heartbeat;
                    execute(body, c);
                    if(c.failed) { put(s, c.failure); _exit(0); }
                    size_t n = std::min(len, c.path.size());
                    deeper = deeper || c.path.size() > len;
                    fprintf(o, "%zu", n);
                    for(size_t i = 0; i < n; ++i) fprintf(o, " %u", c.path[i].first);
                    fprintf(o, "\n");
                    if(++count > MAXPREF) break;
                    if(!advance(c, forced, 0, len, fresh)) break;
                }
                fprintf(o, "end %d\n", deeper ? 1 : 0);
                fclose(o); s->state = 2; _exit(0);
            }
            close(fd[1]);
            std::vector<std::vector<uint32_t>> got; bool deeper = false, ended = false;
            fcntl(fd[0], F_SETFL, O_NONBLOCK);
            std::string buf; char tmp[1 << 16]; bool hung = false; watch wt(p, hang_limit);
            for(;;) {
                ssize_t k = read(fd[0], tmp, sizeof tmp);
                if(k > 0) { buf.append(tmp, k); continue; }
                if(k == 0) break;
                if(wt.hung(s->heartbeat)) { kill(p, SIGKILL); hung = true; break; }
                usleep(1000);
            }
            close(fd[0]); int status; waitpid(p, &status, 0);
            if(s->state != 2) { suspect(name, body, s, hung ? "hang" : "failure", {}); cleanup(head, slots); return; }
            std::istringstream in(buf); std::string w;
            while(in >> w) {
                if(w == "end") { int d; in >> d; deeper = d; ended = true; break; }
                size_t n = std::stoul(w); std::vector<uint32_t> v(n); for(auto &x: v) in >> x;
                got.push_back(v);
            }
            (void)ended;
            prefixes = std::move(got);
            if(!deeper || prefixes.size() >= want || len >= 12) break;
        }
        r.prefixes = prefixes.size();

        // 2. explore every subtree
        unsigned W = std::min<size_t>(workers, prefixes.size());
        std::string base = "/tmp/mc_" + std::to_string(getpid()) + "_";
        std::vector<pid_t> pids(W);
        for(unsigned w = 0; w < W; ++w) { slots[w].state = 1; slots[w].heartbeat = 1; }
        auto *done = share<volatile uint64_t>(1);
        fflush(stdout);
        double stop_at = started + deadline;
        for(unsigned w = 0; w < W; ++w) {
            pid_t p = fork();
            if(p == 0) {
                child_limits(); if(pin) pin_to(w);
                auto *s = &slots[w];
                fatal_hook() = [s, head](ctx &c) { put(s, c.failure); head->stop = 1; _exit(0); };
                s->length = 0; warm(body);
                std::unordered_set<uint64_t> states; std::map<std::string, std::string> seen;
                uint64_t execs = 0, trans = 0, checks = 0;
                for(;;) {
                    uint64_t i = __sync_fetch_and_add(&head->next, 1);
                    if(i >= prefixes.size() || head->stop) break;
                    if(s->taken_count < MAXPATH) { s->taken[s->taken_count] = i; s->taken_count = s->taken_count + 1; }
                    std::vector<uint32_t> forced = prefixes[i];
                    // transitions on the shared prefix are attributed to the first subtree that contains them
                    size_t fresh = 0;
                    if(i > 0) { auto &a = prefixes[i - 1]; while(fresh < a.size() && fresh < forced.size() && a[fresh] == forced[fresh]) ++fresh; }
                    size_t basen = forced.size();
                    bool out_of_time = false;
                    for(;;) {
                        ctx c; c.forced = forced; c.slot = s; c.known = &known; c.seen_known = &seen; c.states = &states; c.fresh_from = fresh;
                        s->length = 0; ++s->heartbeat;
                        execute(body, c);
                        ++execs; trans += c.transitions; checks += c.checks;
                        s->executions = execs; s->transitions = trans; s->checks = checks;
                        if(c.failed) { put(s, c.failure); head->stop = 1; _exit(0); }
                        if(head->stop) break;
                        if((execs & 255) == 0 && now() > stop_at) { out_of_time = true; break; }
                        if(!advance(c, forced, basen, SIZE_MAX, fresh)) break;
                    }
                    if(out_of_time) break;
                    if(!head->stop) __sync_fetch_and_add(done, 1);
                }
                FILE *f = fopen((base + std::to_string(w)).c_str(), "wb");
                if(f) {
                    uint64_t n = states.size(); fwrite(&n, 8, 1, f);
                    for(auto x: states) fwrite(&x, 8, 1, f);
                    for(auto &[k, m]: seen) {
                        uint32_t a = k.size(), b = m.size();
                        fwrite(&a, 4, 1, f); fwrite(&b, 4, 1, f); fwrite(k.data(), 1, a, f); fwrite(m.data(), 1, b, f);
                    }
                    fclose(f);
                }
                s->state = 2; _exit(0);
            }
            pids[w] = p;
        }
        std::vector<watch> watches; for(unsigned w = 0; w < W; ++w) watches.emplace_back(pids[w], hang_limit);
        std::vector<bool> gone(W, false);
        int bad = -1; const char *why = "failure"; unsigned left = W;
        while(left && bad < 0) {
            for(unsigned w = 0; w < W; ++w) {
                if(gone[w]) continue;
                int status;
                if(waitpid(pids[w], &status, WNOHANG) == pids[w]) {
                    gone[w] = true; --left;
                    if(slots[w].state != 2) {
                        bad = w; why = slots[w].state == 3 ? "failure" : "crash";
                        if(slots[w].state != 3) std::cout << "mc: a worker ended with status " << status << " after " << slots[w].executions << " executions\n";
                        break;
                    }
                } else if(watches[w].hung(slots[w].heartbeat)) { bad = w; why = "hang"; break; }
            }
            if(bad < 0) usleep(1000);
        }
        if(bad >= 0) {
            head->stop = 1;
            usleep(20000);
            for(unsigned w = 0; w < W; ++w) if(!gone[w]) { kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); }
            // prefer a failure found by another worker whose sequence is shorter
            for(unsigned w = 0; w < W; ++w) if(slots[w].state == 3 && (slots[bad].state != 3 || slots[w].length < slots[bad].length)) bad = w;
        }
        std::vector<uint64_t> all;
        for(unsigned w = 0; w < W; ++w) {
            r.executions += slots[w].executions; r.transitions += slots[w].transitions; r.checks += slots[w].checks;
            std::string fn = base + std::to_string(w);
            if(FILE *f = fopen(fn.c_str(), "rb")) {
                uint64_t n = 0;
                if(fread(&n, 8, 1, f) == 1) {
                    size_t o = all.size(); all.resize(o + n);
                    if(n && fread(&all[o], 8, n, f) != n) {}
                    uint32_t a, b;
                    while(fread(&a, 4, 1, f) == 1 && fread(&b, 4, 1, f) == 1) {
                        std::string k(a, 0), m(b, 0);
                        if(fread(&k[0], 1, a, f) != a || fread(&m[0], 1, b, f) != b) break;
                        seen_known.emplace(k, m);
                    }
                }
                fclose(f); unlink(fn.c_str());
            }
        }
        std::sort(all.begin(), all.end());
        r.states = std::unique(all.begin(), all.end()) - all.begin();
        r.prefixes_done = *done;
        r.complete = bad < 0 && r.prefixes_done == r.prefixes;
        munmap((void *)done, sizeof(uint64_t));
        if(bad >= 0) suspect(name, body, &slots[bad], why, prefixes);
        else if(!prefixes.empty()) {
            for(size_t k: {prefixes.size() / 3, prefixes.size() - 1}) {
                std::string key, msg, log, log2;
                replay_alone(body, prefixes[k], 60, key, msg, log);
                replay_alone(body, prefixes[k], 60, key, msg, log2);
                if(log != log2) { std::cout << "mc: the same choices gave two different logs in scope " << name << "\n"; unreproduced = true; }
                for(auto &ch: log) if(ch == '\n') ch = ';';
                if(log.size() > 700) log = log.substr(0, 700) + "...";
                r.samples.push_back(log);
            }
        }
        r.wall = now() - t0;
        std::cout << "scope " << name << ": states " << r.states << " transitions " << r.transitions << " executions " << r.executions
                  << " checks " << r.checks << (r.complete ? "" : " INCOMPLETE") << " " << r.wall << " s\n";
        results.push_back(r);
        cleanup(head, slots);
    }

    void cleanup(shared_head *h, shared_slot *s)
    {
        munmap(h, sizeof(*h)); munmap(s, sizeof(*s) * (workers + 1));
    }
};

} // namespace mc
