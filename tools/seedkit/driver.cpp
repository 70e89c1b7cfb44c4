#include <pthread.h>
#include <unistd.h>
// Runs one entry of a harness on many pseudo-random inputs, each in a process of its own.
// usage: driver ENTRY ITERATIONS SEED [name=value ...]      exit 0: no failure, 1: a run failed
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <dlfcn.h>
#include <unistd.h>
#include <dirent.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
static std::map<std::string, uint64_t> params;
static uint64_t rs = 88172645463325252ull;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static int fails = 0;
static std::string tmpd, trace;
static void rmtree(const std::string &d) {
    if (DIR *D = opendir(d.c_str())) {
        while (auto *e = readdir(D)) {
            std::string n = e->d_name; if (n == "." || n == "..") continue;
            std::string p = d + "/" + n; struct stat st;
            if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) rmtree(p); else unlink(p.c_str());
        }
        closedir(D);
    }
    rmdir(d.c_str());
}
static void finish(int rc) { if (rc == 1) { printf("inputs: %s\n", trace.c_str()); } fflush(stdout); _exit(rc); }
static uint64_t word(const char *n, uint64_t mask) {
    static const uint64_t E[] = {0, 1, 2, 3, 127, 128, 255, 256, 65535, 65536, 0x7fffffff, 0xffffffff, 0xffffffffffull, 0x7fffffffffffffffull, 0xffffffffffffffffull};
    uint64_t k = rnd() % 10, v = k < 6 ? rnd() % 3 : k < 8 ? E[rnd() % 15] : rnd();
    v &= mask; trace += std::string(n) + "=" + std::to_string(v) + " "; return v;
}
extern "C" {
uint64_t sx_u64(const char *n) { return word(n, ~0ull); }
uint32_t sx_u32(const char *n) { return word(n, 0xffffffffull); }
uint16_t sx_u16(const char *n) { return word(n, 0xffff); }
uint8_t sx_u8(const char *n) { return word(n, 0xff); }
uint64_t sx_range(const char *n, uint64_t lo, uint64_t hi) {
    if (lo > hi) finish(3);
    uint64_t v; uint64_t w = hi - lo;
    if (w == ~0ull) v = word(n, ~0ull); else if (w < 64) v = lo + rnd() % (w + 1); else { uint64_t k = rnd() % 8; v = k < 5 ? lo + rnd() % 3 : k == 5 ? hi - rnd() % 3 : lo + rnd() % (w + 1); }
    trace += std::string(n) + "=" + std::to_string(v) + " "; return v;
}
void sx_assume(int c) { if (!c) finish(3); }
void sx_assert(int c, const char *l) { if (!c) { printf("FAILED: %s\n", l); fflush(stdout); fails++; } }
void sx_reach(const char *) {}
void sx_obs(uint64_t) {}
size_t sx_map_slack = 0;
uint64_t sx_param(const char *n, uint64_t d) { auto i = params.find(n); return i == params.end() ? d : i->second; }
uint64_t sx_concretize(uint64_t v) { return v; }
int sx_symbolic_engine(void) { return 0; }
int sx_is_symbolic(uint64_t) { return 0; }
// cooperative threads: exactly one of them runs at a time
static pthread_mutex_t tm = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t tc = PTHREAD_COND_INITIALIZER;
static uint32_t tcount = 1, trun = 0; static __thread uint32_t tme = 0;
struct TStart { void (*f)(void *); void *a; uint32_t id; };
static void twait() { while (trun != tme) pthread_cond_wait(&tc, &tm); pthread_mutex_unlock(&tm); }
static void *tmain(void *p) { TStart s = *(TStart *)p; delete (TStart *)p; tme = s.id; pthread_mutex_lock(&tm); twait(); s.f(s.a); for (;;) pause(); return nullptr; }
uint32_t sx_thread_create(void (*f)(void *), void *a) { pthread_t t; uint32_t id = tcount++; if (pthread_create(&t, nullptr, tmain, new TStart{f, a, id})) { perror("pthread_create"); _exit(9); } return id; }
void sx_thread_switch(uint32_t to) { pthread_mutex_lock(&tm); trun = to; pthread_cond_broadcast(&tc); twait(); }
void sx_stop(void) { finish(fails ? 1 : 0); }
void sx_debug(const char *, uint64_t) {}
const char *sx_tmp(void) { return tmpd.c_str(); }
}
int main(int argc, char **argv) {
    int n = atoi(argv[2]); uint64_t seed = strtoull(argv[3], 0, 10);
    for (int i = 4; i < argc; i++) { std::string a = argv[i]; size_t e = a.find('='); params[a.substr(0, e)] = strtoull(a.c_str() + e + 1, 0, 10); }
    void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!f) { printf("no entry %s\n", argv[1]); return 2; }
    const char *base = getenv("DEMO_TMP"); int done = 0, cut = 0;
    for (int i = 0; i < n; i++) {
        tmpd = std::string(base) + "/run"; mkdir(tmpd.c_str(), 0755);
        pid_t p = fork();
        if (!p) { rs = 88172645463325252ull + (seed * 1000003ull + i) * 0x9E3779B97F4A7C15ull; for (int k = 0; k < 8; k++) rnd(); alarm(60);
            try { f(); } catch (...) { printf("FAILED: exception\n"); fails++; }
            finish(fails ? 1 : 0); }
        int st = 0; waitpid(p, &st, 0); rmtree(tmpd);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) done++;
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) cut++;
        else { printf("run %d failed\n", i); return 1; }
    }
    printf("%d runs fine, %d cut short\n", done, cut);
    return done ? 0 : 2;
}
