#include "mc.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <set>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace mc
{
namespace
{
struct Choice
{
    int val, n;
    bool dev;
};
std::vector<Choice> g_path; // choices of the current execution
size_t g_pos = 0;
int g_devBound = 1 << 20, g_devUsed = 0;
bool g_thorough = false, g_tracing = false, g_replay = false, g_counting = true;
int g_shard = 0, g_nshards = 1;
uint64_t g_transitions = 0, g_execs = 0, g_pruned = 0, g_maxDepth = 0;
std::unordered_set<uint64_t> g_states;
std::vector<std::string> g_trace;
std::string g_scenario, g_property, g_outdir;
bool g_failedLater = false;
Violation g_later;
bool g_inSkip = false;
std::vector<std::pair<std::string, std::string>> g_known; // sig -> text
std::map<std::string, std::pair<std::string, std::string>> g_knownHit;
std::vector<std::string> g_samples;
double g_deadline = 1e18;
int g_hangSecs = 30;
volatile uint64_t g_progress = 0;
bool g_history = false; // this shard is being re-run as a whole: the first failure is final

double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

struct SkipShard
{
};

bool shardSkips()
{
    // called when the first two choices are known
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < std::min<size_t>(2, g_path.size()); ++i)
        h = (h ^ static_cast<uint64_t>(g_path[i].val + 1)) * 1099511628211ull;
    h ^= h >> 29;
    h *= 0xbf58476d1ce4e5b9ull;
    h ^= h >> 32;
    return static_cast<int>(h % static_cast<uint64_t>(g_nshards)) != g_shard;
}

int take(int n, bool dev, const char* label)
{
    if (n <= 0)
    {
        std::fprintf(stderr, "mc: choice with no alternatives (%s)\n", label);
        _exit(2);
    }
    if (g_failedLater) return 0;
    int v;
    if (g_pos < g_path.size())
    {
        if (g_path[g_pos].n != n || g_path[g_pos].dev != dev)
        {
            std::fprintf(
                stderr,
                "mc: replay diverged in scenario %s at choice %zu (%s): %d alternatives instead of "
                "%d\n",
                g_scenario.c_str(), g_pos, label, n, g_path[g_pos].n
            );
            _exit(2);
        }
        v = g_path[g_pos].val;
    }
    else
    {
        g_path.push_back({0, n, dev});
        v = 0;
    }
    ++g_pos;
    if (dev && v > 0) ++g_devUsed;
    if (g_tracing) g_trace.push_back(cat("  choose[", label, "] ", v, "/", n));
    if (g_pos == 2 && !g_replay && g_nshards > 1 && shardSkips()) throw SkipShard {};
    return v;
}

class NullBuf : public std::streambuf
{
public:
    std::string data;
    bool keep = false;
protected:
    int overflow(int c) override
    {
        if (keep && c != EOF) data.push_back(static_cast<char>(c));
        return c == EOF ? 0 : c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        if (keep) data.append(s, static_cast<size_t>(n));
        return n;
    }
};
NullBuf& nullBuf()
{
    static NullBuf b;
    return b;
}

std::string pathString()
{
    std::string s;
    for (size_t i = 0; i < std::min(g_pos, g_path.size()); ++i)
    {
        if (i) s += ' ';
        s += std::to_string(g_path[i].val) + "/" + std::to_string(g_path[i].n)
           + (g_path[i].dev ? "d" : "");
    }
    return s;
}

// async-signal-tolerant dump of the current choice path (used on crashes)
void crashDump(const char* why)
{
    std::string f = g_outdir + "/crash." + std::to_string(getpid());
    int fd = open(f.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    if (fd < 0) return;
    std::string s = "scenario " + g_scenario + "\nwhy " + why + "\npath " + pathString() + "\n";
    if (write(fd, s.data(), s.size()) < 0)
    {
    }
    close(fd);
}
void onSignal(int sig)
{
    static volatile sig_atomic_t once = 0;
    if (once) _exit(4);
    once = 1;
    char why[64];
    std::snprintf(why, sizeof why, "signal-%d", sig);
    crashDump(why);
    _exit(3);
}
uint64_t g_lastSeen = ~0ull;
int g_stuck = 0;
void onAlarm(int)
{
    if (g_progress == g_lastSeen)
    {
        if (++g_stuck >= g_hangSecs)
        {
            crashDump("hang");
            _exit(3);
        }
    }
    else
    {
        g_stuck = 0;
        g_lastSeen = g_progress;
    }
    alarm(1);
}
}

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=3:handle_abort=0:handle_segv=0:handle_sigfpe="
           "0:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=4:print_"
           "summary=1:allocator_may_return_null=1";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1"; }

static void asanDeath() { crashDump("memory-error"); }

int choose(int n, const char* label) { return take(n, false, label); }
int deviate(int n, const char* label)
{
    if (n <= 1 || g_devUsed >= g_devBound) return 0;
    return take(n, true, label);
}
void setDeviationBound(int b) { g_devBound = b; }
bool thorough() { return g_thorough; }
bool tracing() { return g_tracing; }
void countStep(uint64_t n)
{
    if (g_counting) g_transitions += n;
    g_progress = g_progress + 1;
}
void noteStateHash(uint64_t h)
{
    if (g_counting) g_states.insert(h);
}
void noteState(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    for (unsigned char c : g_scenario) h = (h ^ c) * 1099511628211ull;
    noteStateHash(h);
}
void trace(const std::string& l) { g_trace.push_back(l); }
void prune() { throw Pruned {}; }
void fail(const std::string& sig, const std::string& msg) { throw Violation {sig, msg}; }
void failLater(const std::string& sig, const std::string& msg)
{
    if (!g_failedLater)
    {
        g_failedLater = true;
        g_later = {sig, msg};
    }
}
bool failed() { return g_failedLater; }
[[noreturn]] void exitCalled(int code) { throw ExitCalled {code}; }
std::vector<Scenario>& scenarios()
{
    static std::vector<Scenario> s;
    return s;
}
std::string drainOutput()
{
    std::string s;
    s.swap(nullBuf().data);
    return s;
}
void keepOutput(bool on)
{
    nullBuf().keep = on;
    nullBuf().data.clear();
}

namespace
{
enum class Out { Ok, Pruned, Skip, Bad };

Out runOnce(const Scenario& sc, Violation& v)
{
    g_pos = 0;
    g_devUsed = 0;
    g_devBound = 1 << 20;
    g_failedLater = false;
    g_trace.clear();
    g_progress = g_progress + 1;
    keepOutput(false);
    try
    {
        sc.body();
        if (g_failedLater)
        {
            v = g_later;
            return Out::Bad;
        }
        return Out::Ok;
    }
    catch (const SkipShard&)
    {
        return Out::Skip;
    }
    catch (const Pruned&)
    {
        return g_failedLater ? (v = g_later, Out::Bad) : Out::Pruned;
    }
    catch (const Violation& x)
    {
        v = g_failedLater ? g_later : x;
        return Out::Bad;
    }
    catch (const ExitCalled& x)
    {
        v = {"unexpected-exit", cat("the code under test ended the process (status ", x.code, ")")};
        return Out::Bad;
    }
    catch (const std::exception& e)
    {
        v = {"unexpected-exception", std::string("unexpected exception: ") + e.what()};
        return Out::Bad;
    }
    catch (...)
    {
        v = {"unexpected-exception", "unexpected exception of unknown type"};
        return Out::Bad;
    }
}

// as runOnce, in a forked process
Out runIsolated(const Scenario& sc, Violation& v)
{
    int fd[2];
    if (pipe(fd) != 0) _exit(2);
    pid_t pid = fork();
    if (pid == 0)
    {
        close(fd[0]);
        alarm(1);
        g_transitions = 0;
        g_states.clear();
        Out o = runOnce(sc, v);
        std::string s;
        auto num = [&](uint64_t x) { s.append(reinterpret_cast<char*>(&x), sizeof x); };
        auto str = [&](const std::string& t)
        {
            num(t.size());
            s += t;
        };
        num(static_cast<uint64_t>(o));
        num(g_pos);
        num(g_path.size());
        for (auto& c : g_path)
        {
            num(static_cast<uint64_t>(c.val));
            num(static_cast<uint64_t>(c.n));
            num(c.dev);
        }
        str(v.sig);
        str(v.msg);
        num(g_transitions);
        num(g_states.size());
        for (auto h : g_states) num(h);
        num(g_trace.size());
        for (auto& t : g_trace) str(t);
        size_t off = 0;
        while (off < s.size())
        {
            ssize_t k = write(fd[1], s.data() + off, s.size() - off);
            if (k <= 0) _exit(2);
            off += static_cast<size_t>(k);
        }
        _exit(0);
    }
    close(fd[1]);
    std::string s;
    char buf[1 << 15];
    for (;;)
    {
        ssize_t k = read(fd[0], buf, sizeof buf);
        if (k < 0 && errno == EINTR)
        {
            g_progress = g_progress + 1; // the child watches itself
            continue;
        }
        if (k <= 0) break;
        s.append(buf, static_cast<size_t>(k));
    }
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
    {
        std::string a = g_outdir + "/crash." + std::to_string(pid), b = g_outdir + "/crash." + std::to_string(getpid());
        std::rename(a.c_str(), b.c_str());
        _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 3);
    }
    size_t at = 0;
    auto num = [&]
    {
        uint64_t x = 0;
        if (at + 8 <= s.size()) std::memcpy(&x, s.data() + at, 8);
        at += 8;
        return x;
    };
    auto str = [&]
    {
        size_t k = num();
        std::string t = s.substr(at, k);
        at += k;
        return t;
    };
    Out o = static_cast<Out>(num());
    g_pos = num();
    g_path.resize(num());
    for (auto& c : g_path)
    {
        c.val = static_cast<int>(num());
        c.n = static_cast<int>(num());
        c.dev = num() != 0;
    }
    v.sig = str();
    v.msg = str();
    uint64_t tr = num();
    if (g_counting) g_transitions += tr;
    for (size_t k = num(); k > 0; --k)
    {
        uint64_t h = num();
        if (g_counting) g_states.insert(h);
    }
    g_trace.clear();
    for (size_t k = num(); k > 0; --k) g_trace.push_back(str());
    return o;
}
Out runAny(const Scenario& sc, Violation& v) { return sc.isolated ? runIsolated(sc, v) : runOnce(sc, v); }

bool advance()
{
    g_path.resize(std::min(g_path.size(), std::max<size_t>(g_pos, 0)));
    while (!g_path.empty())
    {
        if (g_path.back().val + 1 < g_path.back().n)
        {
            ++g_path.back().val;
            return true;
        }
        g_path.pop_back();
    }
    return false;
}

std::string esc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += static_cast<char>(c);
        }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else r += static_cast<char>(c);
    }
    return r;
}

bool writeReplay(const std::string& file, const Violation& v)
{
    FILE* f = std::fopen(file.c_str(), "w");
    if (!f) return false;
    std::fprintf(f, "property %s\nscenario %s\nsignature %s\n", g_property.c_str(),
                 g_scenario.c_str(), v.sig.c_str());
    std::string m = v.msg;
    std::replace(m.begin(), m.end(), '\n', ' ');
    if (g_history) std::fprintf(f, "history %d/%d\n", g_shard, g_nshards);
    std::fprintf(f, "message %s\npath %s\ntrace\n", m.c_str(), pathString().c_str());
    for (auto& l : g_trace) std::fprintf(f, "%s\n", l.c_str());
    std::fclose(f);
    return true;
}

int exploreShard(const Scenario& sc, const std::string& resFile)
{
    g_scenario = sc.name;
    g_path.clear();
    bool capped = false;
    int rc = 0;
    std::string vioFile, vioSig, vioMsg;
    for (;;)
    {
        Violation v;
        uint64_t tr0 = g_transitions;
        Out o = runAny(sc, v);
        bool mine = g_pos >= 2 || g_shard == 0; // short paths are owned by shard 0
        if (o == Out::Skip || (!mine && o != Out::Bad)) g_transitions = tr0;
        else if (o == Out::Pruned)
        {
            if (mine) ++g_pruned;
        }
        else if (o == Out::Ok)
        {
            ++g_execs;
            g_maxDepth = std::max<uint64_t>(g_maxDepth, g_pos);
            if (g_shard == 0 && (g_execs == 1 || g_execs == 50 || g_execs == 5000))
            {
                // sample: re-run with tracing on
                auto save = g_path;
                size_t p = g_pos;
                g_path.resize(p);
                g_tracing = true;
                g_counting = false;
                g_replay = true;
                Violation d;
                runAny(sc, d);
                g_tracing = false;
                g_counting = true;
                g_replay = false;
                std::string s = sc.name + " [" + pathString() + "]:";
                int k = 0;
                for (auto& l : g_trace)
                    if (l.rfind("  choose", 0) != 0 && k++ < 12) s += " " + l + ";";
                g_samples.push_back(s.substr(0, 700));
                g_path = save;
                g_pos = p;
            }
        }
        else
        {
            // re-execute before believing it: must fail twice more in the same way
            auto save = g_path;
            size_t p = g_pos;
            g_path.resize(p);
            bool same = true;
            Violation v2;
            for (int k = 0; k < 2; ++k)
            {
                g_tracing = true;
                g_counting = false;
                g_replay = true;
                Out o2 = runAny(sc, v2);
                if (o2 != Out::Bad || v2.sig != v.sig) same = false;
                if (g_history) break;
            }
            g_tracing = false;
            g_counting = true;
            g_replay = false;
            if (!same && g_history)
            {
                // fails again, at the same place, with the whole history of the process repeated
                g_path = save;
                g_path.resize(p);
                g_pos = p;
                v2 = v;
                same = true;
            }
            if (!same)
            {
                g_path = save;
                g_pos = p;
                FILE* h = std::fopen((resFile + ".hist").c_str(), "w");
                if (h)
                {
                    std::fprintf(h, "%s\n%s\n", v.sig.c_str(), pathString().c_str());
                    std::fclose(h);
                    return 6;
                }
                std::fprintf(
                    stderr, "mc: failure does not reproduce in %s: [%s] %s\n", sc.name.c_str(),
                    pathString().c_str(), v.msg.c_str()
                );
                return 2;
            }
            ++g_execs;
            bool known = false;
            for (auto& k : g_known)
                if (k.first == v2.sig)
                {
                    known = true;
                    g_knownHit[v2.sig] = {v2.msg, pathString()};
                }
            if (!known)
            {
                g_path.resize(p);
                vioFile = g_outdir + "/" + g_property + "." + sc.name + "."
                        + std::to_string(g_shard) + ".replay";
                writeReplay(vioFile, v2);
                vioSig = v2.sig;
                vioMsg = v2.msg;
                rc = 1;
                break;
            }
            g_path = save;
            g_pos = p;
        }
        if (!advance()) break;
        if ((g_execs & 63) == 0 && now() > g_deadline)
        {
            capped = true;
            break;
        }
    }
    FILE* f = std::fopen(resFile.c_str(), "wb");
    if (!f) return 2;
    std::fprintf(
        f, "%llu %llu %llu %llu %d %zu\n", static_cast<unsigned long long>(g_execs),
        static_cast<unsigned long long>(g_transitions), static_cast<unsigned long long>(g_pruned),
        static_cast<unsigned long long>(g_maxDepth), capped ? 1 : 0, g_states.size()
    );
    auto line = [&](std::string s)
    {
        std::replace(s.begin(), s.end(), '\n', ' ');
        std::fprintf(f, "%s\n", s.c_str());
    };
    std::fprintf(f, "%zu\n", g_samples.size());
    for (auto& s : g_samples) line(s);
    std::fprintf(f, "%zu\n", g_knownHit.size());
    for (auto& k : g_knownHit)
    {
        line(k.first);
        line(k.second.first);
    }
    line(vioFile);
    line(vioSig);
    line(vioMsg);
    for (auto h : g_states) std::fwrite(&h, sizeof h, 1, f);
    std::fclose(f);
    return rc;
}

bool parsePath(const std::string& s)
{
    g_path.clear();
    std::istringstream in(s);
    std::string t;
    while (in >> t)
    {
        Choice c {0, 1, false};
        if (std::sscanf(t.c_str(), "%d/%d", &c.val, &c.n) != 2) return false;
        c.dev = t.back() == 'd';
        g_path.push_back(c);
    }
    return true;
}

void installHandlers()
{
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL})
    {
        struct sigaction sa;
        std::memset(&sa, 0, sizeof sa);
        sa.sa_handler = onSignal;
        sa.sa_flags = SA_NODEFER | SA_ONSTACK;
        sigaction(s, &sa, nullptr);
    }
    static char altstack[1 << 16];
    stack_t ss;
    std::memset(&ss, 0, sizeof ss);
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    std::memset(&sa, 0, sizeof sa);
    sa.sa_handler = onAlarm;
    sigaction(SIGALRM, &sa, nullptr);
    alarm(1);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(asanDeath);
}

// run a recorded path in a forked child; returns child status and fills msg
int replayChild(const Scenario& sc, const std::string& path, const std::string& replayFile, int hang)
{
    pid_t pid = fork();
    if (pid == 0)
    {
        g_scenario = sc.name;
        g_hangSecs = hang;
        installHandlers();
        if (!parsePath(path)) _exit(2);
        g_replay = g_tracing = true;
        Violation v;
        // write the trace progressively is not possible after a crash: note the path only
        Out o = runOnce(sc, v);
        if (o == Out::Bad)
        {
            writeReplay(replayFile, v);
            _exit(1);
        }
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st)) return WEXITSTATUS(st);
    return 3;
}
}

int mainImpl(int argc, char** argv)
{
    std::string result = "result.json", replay, only, knownFile;
    int jobs = 8;
    double cap = 700;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--property") g_property = next();
        else if (a == "--tier") g_thorough = next() == "thorough";
        else if (a == "--out") g_outdir = next();
        else if (a == "--result") result = next();
        else if (a == "--replay") replay = next();
        else if (a == "--only") only = next();
        else if (a == "--jobs") jobs = std::stoi(next());
        else if (a == "--cap") cap = std::stod(next());
        else if (a == "--known") knownFile = next();
        else if (a == "--noop") return 0;
    }
    std::cout.rdbuf(&nullBuf());
    std::cerr.rdbuf(&nullBuf());
    std::clog.rdbuf(&nullBuf());
    if (!knownFile.empty())
    {
        // lines: <signature>\t<text>
        FILE* f = std::fopen(knownFile.c_str(), "r");
        char buf[4096];
        while (f && std::fgets(buf, sizeof buf, f))
        {
            std::string s(buf);
            while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
            auto t = s.find('\t');
            if (t != std::string::npos) g_known.push_back({s.substr(0, t), s.substr(t + 1)});
        }
        if (f) std::fclose(f);
    }
    if (!replay.empty())
    {
        FILE* f = std::fopen(replay.c_str(), "r");
        if (!f) return 2;
        std::string scn, path;
        char buf[1 << 16];
        while (std::fgets(buf, sizeof buf, f))
        {
            std::string s(buf);
            if (!s.empty() && s.back() == '\n') s.pop_back();
            if (s.rfind("scenario ", 0) == 0) scn = s.substr(9);
            if (s.rfind("path ", 0) == 0) path = s.substr(5);
            if (s.rfind("history ", 0) == 0)
            {
                g_history = true;
                std::sscanf(s.c_str() + 8, "%d/%d", &g_shard, &g_nshards);
            }
        }
        std::fclose(f);
        for (auto& sc : scenarios())
            if (sc.name == scn)
            {
                g_scenario = scn;
                if (g_history)
                {
                    int rc = exploreShard(sc, g_outdir + "/history.res");
                    std::printf(rc == 1 ? "FAILED (after the recorded history)\n" : "PASSED\n");
                    return rc == 1;
                }
                parsePath(path);
                g_replay = g_tracing = true;
                Violation v;
                Out o = runOnce(sc, v);
                for (auto& l : g_trace) std::printf("%s\n", l.c_str());
                if (o == Out::Bad)
                {
                    std::printf("FAILED %s: %s\n", v.sig.c_str(), v.msg.c_str());
                    return 1;
                }
                std::printf("PASSED\n");
                return 0;
            }
        return 2;
    }
    double t0 = now();
    g_deadline = t0 + cap;
    struct Task
    {
        size_t sc;
        int shard;
        pid_t pid;
        int rc;
        std::string res;
        double secs;
    };
    std::vector<Task> tasks;
    int nsh = jobs;
    for (size_t i = 0; i < scenarios().size(); ++i)
    {
        auto& sc = scenarios()[i];
        if (sc.thoroughOnly && !g_thorough) continue;
        if (!only.empty() && sc.name != only) continue;
        for (int s = 0; s < nsh; ++s)
            tasks.push_back(
                {i, s, 0, -1, g_outdir + "/res." + std::to_string(i) + "." + std::to_string(s), 0}
            );
    }
    size_t nextTask = 0;
    int running = 0;
    bool stop = false, error = false;
    struct Vio
    {
        std::string file, sig, msg, scenario;
    };
    std::vector<Vio> vios;
    std::map<pid_t, size_t> byPid;
    while ((nextTask < tasks.size() && !stop) || running > 0)
    {
        while (!stop && running < jobs && nextTask < tasks.size())
        {
            Task& t = tasks[nextTask];
            t.secs = now();
            std::fflush(stdout);
            pid_t pid = fork();
            if (pid == 0)
            {
                g_shard = t.shard;
                g_nshards = nsh;
                installHandlers();
                int rc = exploreShard(scenarios()[t.sc], t.res);
                _exit(rc);
            }
            t.pid = pid;
            byPid[pid] = nextTask;
            ++nextTask;
            ++running;
        }
        int st = 0;
        pid_t pid = waitpid(-1, &st, 0);
        if (pid < 0) continue;
        if (!byPid.count(pid)) continue;
        --running;
        Task& t = tasks[byPid[pid]];
        t.secs = now() - t.secs;
        t.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 3;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
        {
            t.rc = stop ? -2 : 2;
            if (!stop) error = true;
            continue;
        }
        if (stop) continue;
        if (t.rc == 6)
        {
            // the failure needs what earlier executions left behind in the process: repeat the
            // whole shard and believe it if it fails again at the same place in the same way
            auto slurp = [](const std::string& n)
            {
                std::string r;
                char buf[1 << 16];
                FILE* f = std::fopen(n.c_str(), "r");
                while (f && std::fgets(buf, sizeof buf, f)) r += buf;
                if (f) std::fclose(f);
                return r;
            };
            std::string first = slurp(t.res + ".hist");
            pid_t h = fork();
            if (h == 0)
            {
                g_shard = t.shard;
                g_nshards = nsh;
                g_history = true;
                g_hangSecs = 90;
                installHandlers();
                _exit(exploreShard(scenarios()[t.sc], t.res));
            }
            int hs = 0;
            while (waitpid(h, &hs, 0) < 0 && errno == EINTR) {}
            t.rc = WIFEXITED(hs) && WEXITSTATUS(hs) == 1 ? 1 : 2;
            if (t.rc == 2)
                std::fprintf(stderr, "mc: failure does not reproduce in %s: %s\n", scenarios()[t.sc].name.c_str(), first.c_str());
        }
        if (t.rc == 1) stop = true;
        else if (t.rc == 2)
        {
            error = true;
            stop = true;
        }
        else if (t.rc != 0)
        {
            // crash: confirm by replaying the recorded path alone
            std::string cf = g_outdir + "/crash." + std::to_string(pid), why, path;
            FILE* f = std::fopen(cf.c_str(), "r");
            char buf[1 << 16];
            while (f && std::fgets(buf, sizeof buf, f))
            {
                std::string s(buf);
                if (!s.empty() && s.back() == '\n') s.pop_back();
                if (s.rfind("why ", 0) == 0) why = s.substr(4);
                if (s.rfind("path ", 0) == 0) path = s.substr(5);
            }
            if (f) std::fclose(f);
            const Scenario& sc = scenarios()[t.sc];
            std::string rf = g_outdir + "/" + g_property + "." + sc.name + ".crash.replay";
            int again = why.empty() ? -1 : replayChild(sc, path, rf, 90);
            if (again == 0)
            {
                pid_t h = fork();
                if (h == 0)
                {
                    g_shard = t.shard;
                    g_nshards = nsh;
                    g_history = true;
                    g_hangSecs = 90;
                    installHandlers();
                    _exit(exploreShard(sc, t.res));
                }
                int hs = 0;
                while (waitpid(h, &hs, 0) < 0 && errno == EINTR) {}
                if (WIFEXITED(hs) && WEXITSTATUS(hs) == 3)
                {
                    again = 3;
                    why += "\nhistory " + std::to_string(t.shard) + "/" + std::to_string(nsh);
                }
            }
            if (again == 3 || again == 4 || again == 1)
            {
                if (again != 1)
                {
                    FILE* o = std::fopen(rf.c_str(), "w");
                    if (o)
                    {
                        std::fprintf(
                            o,
                            "property %s\nscenario %s\nsignature crash\nmessage the code under "
                            "test failed with %s\npath %s\n",
                            g_property.c_str(), sc.name.c_str(), why.c_str(), path.c_str()
                        );
                        std::fclose(o);
                    }
                }
                vios.push_back({rf, "crash-" + why, "the code under test failed with " + why, sc.name}
                );
            }
            else
            {
                std::fprintf(
                    stderr, "mc: worker for %s ended with %d (%s) and the path replays as %d\n",
                    sc.name.c_str(), t.rc, why.c_str(), again
                );
                error = true;
            }
            stop = true;
        }
        if (stop)
            for (auto& [p, k] : byPid)
                if (tasks[k].rc == -1) kill(p, SIGKILL);
    }
    // merge
    uint64_t execs = 0, trans = 0, pruned = 0, depth = 0;
    bool capped = false;
    std::unordered_set<uint64_t> all;
    std::vector<std::string> samples;
    std::map<std::string, std::string> known;
    struct Per
    {
        uint64_t execs = 0, trans = 0, pruned = 0, depth = 0;
        std::unordered_set<uint64_t> states;
        double secs = 0;
        bool capped = false;
    };
    std::map<size_t, Per> per;
    for (auto& t : tasks)
    {
        if (t.rc != 0 && t.rc != 1) continue;
        FILE* f = std::fopen(t.res.c_str(), "rb");
        if (!f) continue;
        unsigned long long e, tr, pr, d;
        int c;
        size_t ns;
        if (std::fscanf(f, "%llu %llu %llu %llu %d %zu\n", &e, &tr, &pr, &d, &c, &ns) != 6)
        {
            error = true;
            std::fclose(f);
            continue;
        }
        std::vector<char> buf(1 << 16);
        auto line = [&]
        {
            std::string s;
            if (!std::fgets(buf.data(), static_cast<int>(buf.size()), f)) return s;
            s = buf.data();
            if (!s.empty() && s.back() == '\n') s.pop_back();
            return s;
        };
        size_t n = std::stoul(line());
        for (size_t i = 0; i < n; ++i) samples.push_back(line());
        n = std::stoul(line());
        for (size_t i = 0; i < n; ++i)
        {
            std::string a = line();
            known[a] = line();
        }
        std::string vf = line(), vs = line(), vm = line();
        if (!vf.empty()) vios.push_back({vf, vs, vm, scenarios()[t.sc].name});
        auto& P = per[t.sc];
        for (size_t i = 0; i < ns; ++i)
        {
            uint64_t h;
            if (std::fread(&h, sizeof h, 1, f) != 1) break;
            all.insert(h);
            P.states.insert(h);
        }
        std::fclose(f);
        execs += e;
        trans += tr;
        pruned += pr;
        depth = std::max<uint64_t>(depth, d);
        capped |= c != 0;
        P.execs += e;
        P.trans += tr;
        P.pruned += pr;
        P.capped |= c != 0;
        P.depth = std::max<uint64_t>(P.depth, d);
        P.secs += t.secs;
    }
    FILE* f = std::fopen(result.c_str(), "w");
    if (!f) return 2;
    std::fprintf(
        f,
        "{\"executions\": %llu, \"transitions\": %llu, \"states\": %zu, \"pruned\": %llu, "
        "\"max_choices\": %llu, \"capped\": %s, \"error\": %s, \"wall\": %.3f,\n \"scenarios\": [",
        static_cast<unsigned long long>(execs), static_cast<unsigned long long>(trans), all.size(),
        static_cast<unsigned long long>(pruned), static_cast<unsigned long long>(depth),
        capped ? "true" : "false", error ? "true" : "false", now() - t0
    );
    bool first = true;
    for (auto& [k, P] : per)
    {
        std::fprintf(
            f,
            "%s\n  {\"name\": \"%s\", \"bounds\": \"%s\", \"executions\": %llu, \"transitions\": "
            "%llu, \"distinct_states\": %zu, \"pruned\": %llu, \"max_choices\": %llu, "
            "\"cpu_s\": %.2f, \"complete\": %s}",
            first ? "" : ",", esc(scenarios()[k].name).c_str(), esc(scenarios()[k].bounds).c_str(),
            static_cast<unsigned long long>(P.execs), static_cast<unsigned long long>(P.trans),
            P.states.size(), static_cast<unsigned long long>(P.pruned),
            static_cast<unsigned long long>(P.depth), P.secs, P.capped ? "false" : "true"
        );
        first = false;
    }
    std::fprintf(f, "],\n \"samples\": [");
    first = true;
    for (auto& s : samples)
    {
        std::fprintf(f, "%s\n  \"%s\"", first ? "" : ",", esc(s).c_str());
        first = false;
    }
    std::fprintf(f, "],\n \"known\": [");
    first = true;
    for (auto& [s, m] : known)
    {
        std::fprintf(
            f, "%s\n  {\"sig\": \"%s\", \"msg\": \"%s\"}", first ? "" : ",", esc(s).c_str(),
            esc(m).c_str()
        );
        first = false;
    }
    std::fprintf(f, "],\n \"violations\": [");
    first = true;
    for (auto& v : vios)
    {
        std::fprintf(
            f,
            "%s\n  {\"file\": \"%s\", \"sig\": \"%s\", \"msg\": \"%s\", \"scenario\": \"%s\"}",
            first ? "" : ",", esc(v.file).c_str(), esc(v.sig).c_str(), esc(v.msg).c_str(),
            esc(v.scenario).c_str()
        );
        first = false;
    }
    std::fprintf(f, "]}\n");
    std::fclose(f);
    if (!vios.empty()) return 1;
    return error ? 2 : 0;
}
}
#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::mainImpl(argc, argv); }
#endif
