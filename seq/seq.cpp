#include "seq/seq.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <malloc.h>
#include <new>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {

using u64 = std::uint64_t;
constexpr int MAXD = 4096, NOTES = 1 << 15, MSG = 4096, MAXW = 64, KNOWN = 64;
constexpr u64 TABLE = u64(1) << 24, CLAIMS = u64(1) << 22;

struct Slot                                 // one per worker, shared
{
    int len, plen;                          // choices made / prescribed
    unsigned char choice[MAXD], arity[MAXD];
    char notes[NOTES]; int nnotes;
    char message[MSG];
    long leak;
};
struct Shared
{
    Slot slot[MAXW];
    std::atomic<u64> executions, transitions, states, stop, bad;
    std::atomic<u64> knownCount[KNOWN];
    std::atomic<int> nsample; char sample[16][512];
    std::atomic<unsigned char> claimed[CLAIMS];
    std::atomic<u64> table[TABLE];
};
Shared *G; Slot *S;
std::vector<std::string> *knownKeys;
bool isThorough, replaying;
int faultBudget; bool faultHappened;
long liveB, liveN;
enum { EXIT_VIOLATION = 77, EXIT_INTERNAL = 78 };

[[noreturn]] void internal(char const *what) { fprintf(stderr, "seq: internal error: %s\n", what); _exit(EXIT_INTERNAL); }

} // namespace

namespace seq {

bool thorough() { return isThorough; }

int choose(int n)
{
    if (n <= 0 || n > 255) internal("choose");
    if (!S) return 0; // setup
    if (n == 1) return 0;
    if (S->len >= MAXD) internal("too many choices");
    int i = S->len++, c = 0;
    if (i < S->plen) {
        c = S->choice[i];
        if (S->arity[i] && S->arity[i] != n) internal("choices are not deterministic");
        if (c >= n) internal("choice out of range");
    }
    S->choice[i] = (unsigned char)c; S->arity[i] = (unsigned char)n;
    return c;
}

void step() { if (G) G->transitions.fetch_add(1, std::memory_order_relaxed); }

void state(u64 h)
{
    if (!G) return;
    h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
    if (!h) h = 1;
    for (u64 i = h & (TABLE - 1), n = 0; n < 64; i = (i + 1) & (TABLE - 1), ++n) {
        u64 v = G->table[i].load(std::memory_order_relaxed);
        if (v == h) return;
        if (!v) { if (G->table[i].compare_exchange_strong(v, h)) { G->states.fetch_add(1, std::memory_order_relaxed); return; } if (v == h) return; }
    }
}
void state(std::string const &s) { u64 h = 1469598103934665603ULL; for (unsigned char c: s) { h ^= c; h *= 1099511628211ULL; } state(h); }

void note(char const *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    if (S && S->nnotes < NOTES - 512) { int n = vsnprintf(S->notes + S->nnotes, 500, fmt, ap); if (n > 0) { S->nnotes += n < 500 ? n : 499; S->notes[S->nnotes++] = ' '; S->notes[S->nnotes] = 0; } }
    va_end(ap);
}

[[noreturn]] void fail(std::string const &m)
{
    if (!S) { fprintf(stderr, "in the preparation: %s\n", m.c_str()); _exit(EXIT_VIOLATION); }
    snprintf(S->message, MSG, "%s", m.c_str());
    _exit(EXIT_VIOLATION);
}

bool known(char const *key)
{
    for (size_t i = 0; i < knownKeys->size() && i < KNOWN; ++i) if ((*knownKeys)[i] == key) { if (G) G->knownCount[i].fetch_add(1, std::memory_order_relaxed); return true; }
    return false;
}

void arm(int b) { faultBudget = b; faultHappened = false; }
void disarm() { faultBudget = 0; }
bool injected() { return faultHappened; }
void fault_point(char const *what)
{
    if (faultBudget > 0 && S) {
        if (choose(2)) { --faultBudget; faultHappened = true; note("!%s", what); throw Injected{}; }
    }
}
NoFaults::NoFaults(): saved(faultBudget) { faultBudget = 0; }
NoFaults::~NoFaults() { faultBudget = saved; }
long live_blocks() { return liveN; }
long live_bytes() { return liveB; }

} // namespace seq

// ---- global allocation functions

static void *get(size_t n, size_t align)
{
    if (faultBudget > 0 && S && seq::choose(2)) { --faultBudget; faultHappened = true; seq::note("!alloc"); throw std::bad_alloc{}; }
    void *p = nullptr;
    if (align > __STDCPP_DEFAULT_NEW_ALIGNMENT__) { if (posix_memalign(&p, align, n ? n : 1)) p = nullptr; }
    else p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc{};
    ++liveN; liveB += long(malloc_usable_size(p));
    return p;
}
static void put(void *p) noexcept { if (!p) return; --liveN; liveB -= long(malloc_usable_size(p)); free(p); }
void *operator new(size_t n) { return get(n, 0); }
void *operator new[](size_t n) { return get(n, 0); }
void *operator new(size_t n, std::align_val_t a) { return get(n, size_t(a)); }
void *operator new[](size_t n, std::align_val_t a) { return get(n, size_t(a)); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { try { return get(n, 0); } catch (...) { return nullptr; } }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { try { return get(n, 0); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
void operator delete(void *p, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, std::align_val_t) noexcept { put(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { put(p); }

namespace {

// one execution in this process; the prescribed choices are in S
void body(seq::Group const &g)
{
    S->len = 0; S->nnotes = 0; S->notes[0] = 0; S->message[0] = 0; S->leak = 0;
    faultBudget = 0; faultHappened = false;
    alarm(90);
    long n = liveN;
    try { g.run(); }
    catch (std::exception const &e) { faultBudget = 0; seq::fail(std::string("unexpected exception: ") + e.what()); }
    catch (...) { faultBudget = 0; seq::fail("unexpected exception"); }
    faultBudget = 0;
    S->leak = liveN - n;
    alarm(0);
}

std::string jsonEsc(char const *s) { std::string r; for (; *s; ++s) { unsigned char c = *s; if (c == '"' || c == '\\') { r += '\\'; r += char(c); } else if (c == '\n') r += "\\n"; else if (c < 32) r += ' '; else r += char(c); } return r; }
std::string caseOf(Slot const &s) { std::string r; for (int i = 0; i < s.len && i < MAXD; ++i) { if (i) r += ','; r += std::to_string(int(s.choice[i])); } return r; }

// returns exit code of the execution
int execute(seq::Group const &g)
{
    if (!g.isolated) {
        body(g);
        if (g.leaks && S->leak) { // things allocated once are not leaks: run it again
            S->plen = S->len; memset(S->arity, 0, sizeof S->arity); body(g);
            if (S->leak) { char b[100]; snprintf(b, sizeof b, "%ld blocks of memory leaked", S->leak); seq::fail(b); }
        }
        return 0;
    }
    pid_t p = fork();
    if (p < 0) internal("fork");
    if (!p) { body(g); _exit(0); }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st)) return WEXITSTATUS(st);
    if (WTERMSIG(st) == SIGKILL) internal("execution was killed");
    if (!S->message[0]) snprintf(S->message, MSG, WTERMSIG(st) == SIGALRM ? "the execution does not end" : "the program was terminated by signal %d", WTERMSIG(st));
    return EXIT_VIOLATION;
}

void worker(seq::Group const &g, int w)
{
    S = &G->slot[w]; S->plen = 0;
    u64 prefix = 0; bool fresh = true; // number of the current prefix of g.split choices
    u64 n = 0;
    for (;;) {
        memset(S->arity + S->plen, 0, size_t(MAXD - S->plen));
        int rc = execute(g);
        if (rc) _exit(rc);
        bool mine = true;
        if (fresh) { mine = prefix >= CLAIMS || !G->claimed[prefix].exchange(1); if (prefix >= CLAIMS && w) mine = false; }
        if (mine) {
            G->executions.fetch_add(1, std::memory_order_relaxed);
            if (++n % 397 == 1) { int k = G->nsample.fetch_add(1); if (k < 16) snprintf(G->sample[k], sizeof G->sample[k], "[%s] %s", caseOf(*S).substr(0, 100).c_str(), S->notes); else G->nsample = 16; }
        }
        if (G->stop.load(std::memory_order_relaxed)) return;
        // next choice sequence
        int top = S->len;
        if (!mine && top > g.split) top = g.split;
        while (top > 0 && S->choice[top - 1] + 1 >= S->arity[top - 1]) --top;
        if (!top) return;
        S->choice[top - 1]++; S->plen = top;
        fresh = top <= g.split;
        if (fresh) ++prefix;
    }
}

int runGroup(seq::Group &g, int nw, FILE *out, char const *replay)
{
    G = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (G == MAP_FAILED) internal("mmap");
    timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    if (nw > MAXW) nw = MAXW;
    int err[MAXW + 1];
    for (int i = 0; i <= nw; ++i) err[i] = replay ? -1 : memfd_create("stderr", MFD_CLOEXEC);
    pid_t gp = fork();
    if (!gp) {
        if (err[nw] >= 0) dup2(err[nw], 2);
        alarm(120);
        try { if (g.setup) g.setup(); } catch (std::exception const &e) { seq::fail(std::string("exception: ") + e.what()); } catch (...) { seq::fail("exception"); }
        alarm(0);
        if (replay) {
            S = &G->slot[0];
            for (char const *p = replay; *p;) { S->choice[S->plen++] = (unsigned char)strtol(p, const_cast<char **>(&p), 10); if (*p == ',') ++p; }
            int rc = execute(g);
            printf("%s\n%s %s\n", S->notes, rc ? "VIOLATES:" : "passes", S->message);
            fflush(stdout); _exit(rc ? 1 : 0);
        }
        pid_t pid[MAXW];
        for (int i = 0; i < nw; ++i) { pid[i] = fork(); if (!pid[i]) { dup2(err[i], 2); worker(g, i); _exit(0); } }
        int rc = 0, st; pid_t p;
        while ((p = wait(&st)) > 0 || errno == EINTR) {
            if (p <= 0 || (WIFEXITED(st) && !WEXITSTATUS(st))) continue;
            int w = 0; while (w < nw && pid[w] != p) ++w;
            G->stop = 1;
            if ((WIFEXITED(st) && WEXITSTATUS(st) == EXIT_INTERNAL) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) { if (!rc) rc = EXIT_INTERNAL; G->bad.store(u64(w) + 1 + 1000); continue; }
            if (rc != EXIT_VIOLATION) {
                rc = EXIT_VIOLATION; G->bad = u64(w) + 1;
                auto &m = G->slot[w].message;
                if (!m[0]) {
                    if (WIFSIGNALED(st)) snprintf(m, MSG, WTERMSIG(st) == SIGALRM ? "the execution does not end" : "the program was terminated by signal %d", WTERMSIG(st));
                    else snprintf(m, MSG, WEXITSTATUS(st) == 99 ? "memory or undefined behaviour error" : "the program ended with status %d", WEXITSTATUS(st));
                }
            }
        }
        _exit(rc);
    }
    int st; while (waitpid(gp, &st, 0) < 0 && errno == EINTR) {}
    int rc = WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st) == SIGKILL ? EXIT_INTERNAL : EXIT_VIOLATION;
    if (replay) return rc;
    timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
    double sec = double(t1.tv_sec - t0.tv_sec) + 1e-9 * double(t1.tv_nsec - t0.tv_nsec);
    if (rc && rc != EXIT_INTERNAL) rc = EXIT_VIOLATION;
    fprintf(out, "{\"group\":\"%s\",\"executions\":%lu,\"transitions\":%lu,\"states\":%lu,\"complete\":%s,\"wall_s\":%.2f",
            g.name.c_str(), G->executions.load(), G->transitions.load(), G->states.load(), rc ? "false" : "true", sec);
    fprintf(out, ",\"samples\":["); for (int i = 0; i < 16 && i < G->nsample.load(); ++i) fprintf(out, "%s\"%s\"", i ? "," : "", jsonEsc(G->sample[i]).c_str()); fprintf(out, "]");
    bool any = false;
    for (size_t i = 0; i < knownKeys->size() && i < KNOWN; ++i) if (G->knownCount[i]) { fprintf(out, "%s\"%s\":%lu", any ? "," : ",\"known\":{", jsonEsc((*knownKeys)[i].c_str()).c_str(), G->knownCount[i].load()); any = true; }
    if (any) fprintf(out, "}");
    if (rc) {
        u64 b = G->bad.load() % 1000; int w = b ? int(b) - 1 : nw;
        char tail[6000] = ""; off_t sz = lseek(err[w], 0, SEEK_END); off_t from = 0;
        ssize_t n = sz > 0 ? pread(err[w], tail, sizeof tail - 1, from) : 0; if (n > 0) tail[n] = 0;
        if (rc == EXIT_VIOLATION) {
            char const *m = b ? G->slot[w].message : "the preparation of the group failed";
            fprintf(out, ",\"violation\":\"%s\",\"case\":\"%s\",\"log\":\"%s\\n%s\"", jsonEsc(m).c_str(), b ? caseOf(G->slot[w]).c_str() : "", b ? jsonEsc(G->slot[w].notes).c_str() : "", jsonEsc(tail).c_str());
        }
        else fprintf(stdout, "%s: %s (case %s)\n", g.name.c_str(), tail, b ? caseOf(G->slot[w]).c_str() : "");
    }
    fprintf(out, "}\n"); fflush(out);
    for (int i = 0; i <= nw; ++i) if (err[i] >= 0) close(err[i]);
    munmap(G, sizeof(Shared)); G = nullptr;
    return rc;
}

} // namespace

int seq::main_(int argc, char **argv, std::vector<Group> groups)
{
    char const *only = nullptr, *replay = nullptr, *outName = nullptr; int workers = 8; bool list = false;
    knownKeys = new std::vector<std::string>;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--thorough") isThorough = true;
        else if (a == "--group" && i + 1 < argc) only = argv[++i];
        else if (a == "--replay" && i + 1 < argc) replay = argv[++i];
        else if (a == "--workers" && i + 1 < argc) workers = atoi(argv[++i]);
        else if (a == "--out" && i + 1 < argc) outName = argv[++i];
        else if (a == "--list") list = true;
        else if (a == "--known" && i + 1 < argc) { if (FILE *f = fopen(argv[++i], "r")) { char b[512]; while (fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; if (*b) knownKeys->push_back(b); } fclose(f); } }
    }
    FILE *out = outName ? fopen(outName, "w") : stdout;
    int worst = 0;
    for (auto &g: groups) {
        if (list) { puts(g.name.c_str()); continue; }
        if (only && g.name != only) continue;
        if (g.thoroughOnly && !isThorough && !only) continue;
        fflush(stdout); fflush(out);
        int rc = runGroup(g, workers, out, replay);
        if (rc == EXIT_INTERNAL && worst != 1) worst = 2;
        else if (rc) { worst = 1; if (!replay) break; }
    }
    if (outName) fclose(out);
    fflush(stdout);
    _exit(worst);
}
