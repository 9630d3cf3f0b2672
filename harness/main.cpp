// Driver entry: vdrive <command> key=value ...
#include "h.h"
#include <csignal>
#include <unistd.h>
#include <chrono>
#include <execinfo.h>
#include <dlfcn.h>
#include <pthread.h>
#include <cerrno>
#include <sys/personality.h>
#include <sys/time.h>
#include <atomic>

namespace vh {
FILE* out = stdout;
std::string scratch;

bool fastSleep = false;
static std::map<std::string, CmdFn>& cmds() { static std::map<std::string, CmdFn> m; return m; }
Cmd::Cmd(const char* n, CmdFn f) { cmds()[n] = f; }

std::string u8(const String& s) { return StringUtils::toUTF8(s); }
String w(const std::string& s) { return StringUtils::toUnicode(s); }

std::string jstr(const std::string& s) {
    std::string t = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { t += '\\'; t += (char)c; }
        else if (c < 0x20) { snprintf(b, sizeof b, "\\u%04x", c); t += b; }
        else t += (char)c;
    }
    return t + "\"";
}
void emitRaw(const std::string& line) {
    fwrite(line.data(), 1, line.size(), out);
    fputc('\n', out);
}
void emit(const J& j) { emitRaw(j.str()); }

int64_t msNow() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

std::string exName(LuceneException& e) {
    static const char* n[] = {"Null", "AlreadyClosed", "Compression", "CorruptIndex", "FieldReader", "FileNotFound", "IllegalArgument",
        "IllegalState", "IndexOutOfBounds", "IO", "LockObtainFailed", "LockReleaseFailed", "Lookahead", "MergeAborted", "Merge",
        "NoSuchDirectory", "NullPointer", "NumberFormat", "OutOfMemory", "Parse", "QueryParser", "Runtime", "StaleReader",
        "StopFillCache", "Temporary", "TimeExceeded", "TooManyClauses", "UnsupportedOperation"};
    int t = (int)e.getType();
    return t >= 0 && t < (int)(sizeof n / sizeof *n) ? n[t] : "Unknown";
}
uint32_t h32(const std::string& s, uint32_t h) { for (unsigned char c : s) { h ^= c; h *= 16777619u; } return h; }

static void onCrash(int sig) {
    // best effort: the trace so far is what matters
    if (out) fflush(out);
    char b[64];
    int n = snprintf(b, sizeof b, "{\"op\":\"Crash\",\"sig\":%d}\n", sig);
    if (out) { (void)!write(fileno(out), b, n); }
    void* fr[60];
    int c = backtrace(fr, 60);
    backtrace_symbols_fd(fr, c, 2);
    _exit(70);
}
}

// Single-threaded drivers run on a clock of their own, so that a run can be repeated exactly.
static std::atomic<int64_t> virtualUs{1700000000000000LL};
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
    int64_t t;
    if (vh::fastSleep) t = virtualUs += 97;
    else { struct timespec n; clock_gettime(CLOCK_REALTIME, &n); t = (int64_t)n.tv_sec * 1000000 + n.tv_nsec / 1000; }
    if (tv) { tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; }
    return 0;
}
// In single-threaded drivers a timed wait can only be a sleep: it is over at once.
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    if (vh::fastSleep) { virtualUs += 10000; return ETIMEDOUT; }
    typedef int (*Fn)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
    static Fn real = (Fn)dlsym(RTLD_NEXT, "pthread_cond_timedwait");
    return real(c, m, t);
}

using namespace vh;
int main(int argc, char** argv) {
    // the library orders some things by address; a run is repeatable when addresses are
    if (!getenv("VDRIVE_FIXED")) {
        setenv("VDRIVE_FIXED", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    if (argc < 2) { for (auto& c : vh::cmds()) printf("%s\n", c.first.c_str()); return 2; }
    Opts o;
    for (int i = 2; i < argc; ++i) {
        const char* eq = strchr(argv[i], '=');
        if (eq) o.m[std::string(argv[i], eq - argv[i])] = eq + 1;
    }
    std::string f = o.str("out");
    if (!f.empty()) { out = fopen(f.c_str(), "w"); if (!out) { perror(f.c_str()); return 2; } }
    setvbuf(out, 0, _IOFBF, 1 << 16);
    scratch = o.str("scratch", "");
    static char alt[1 << 16];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
    struct sigaction sa{}; sa.sa_handler = onCrash; sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) sigaction(s, &sa, 0);
    auto it = vh::cmds().find(argv[1]);
    if (it == vh::cmds().end()) { fprintf(stderr, "unknown command %s\n", argv[1]); return 2; }
    int rc = 70;
    try { rc = it->second(o); }
    catch (LuceneException& e) {
        fprintf(stderr, "uncaught %s: %s\n", exName(e).c_str(), u8(e.getError()).c_str());
        J j("Uncaught"); j.s("ex", exName(e)).s("msg", e.getError()); emit(j); rc = 71;
    } catch (std::exception& e) {
        fprintf(stderr, "uncaught %s\n", e.what());
        J j("Uncaught"); j.s("ex", "std").s("msg", e.what()); emit(j); rc = 71;
    }
    fflush(out);
    _exit(rc);   // library statics are not torn down: nothing is checked there
}
