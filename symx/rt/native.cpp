// Native side of the harness interface: replays recorded inputs on the real compiled code.
// usage: PROG ENTRY INPUTFILE   (lines: "param NAME V", "in NAME V")
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <dlfcn.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <csignal>
#include <exception>
#include <pthread.h>
static std::vector<std::pair<std::string, uint64_t>> ins;
static size_t pos = 0;
static std::map<std::string, uint64_t> params;
static uint64_t obs = 1469598103934665603ull;
static int fails = 0;
static std::string tmpd;
static void rmtree(const std::string &d) {
    if (DIR *D = opendir(d.c_str())) {
        while (auto *e = readdir(D)) {
            std::string n = e->d_name; if (n == "." || n == "..") continue;
            std::string p = d + "/" + n; struct stat st;
            if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) rmtree(p); else unlink(p.c_str());
        }
        closedir(D);
    }
    rmdir(d.c_str());
}
static void finish(int rc, const char *how) {
    printf("END %s OBS %016lx ASSERTS_FAILED %d\n", how, obs, fails);
    fflush(stdout);
    if (!tmpd.empty()) rmtree(tmpd);
    _exit(rc);
}
static uint64_t next(const char *n) {
    if (pos >= ins.size()) { printf("NOINPUT %s\n", n); finish(4, "noinput"); }
    if (ins[pos].first != n) { printf("INPUTMISMATCH want %s have %s\n", n, ins[pos].first.c_str()); finish(4, "mismatch"); }
    return ins[pos++].second;
}
extern "C" {
uint64_t sx_u64(const char *n) { return next(n); }
uint32_t sx_u32(const char *n) { return next(n); }
uint16_t sx_u16(const char *n) { return next(n); }
uint8_t sx_u8(const char *n) { return next(n); }
uint64_t sx_range(const char *n, uint64_t lo, uint64_t hi) { if (lo > hi) finish(3, "assume"); uint64_t v = next(n); if (v < lo || v > hi) { printf("RANGE %s\n", n); finish(4, "mismatch"); } return v; }
void sx_assume(int c) { if (!c) finish(3, "assume"); }
void sx_assert(int c, const char *l) { if (!c) { printf("ASSERTFAIL %s\n", l); fflush(stdout); fails++; } }
void sx_reach(const char *l) { printf("REACH %s\n", l); }
void sx_obs(uint64_t v) { for (int i = 0; i < 8; ++i) { obs ^= (v >> (8 * i)) & 0xff; obs *= 1099511628211ull; } }
uint64_t sx_param(const char *n, uint64_t d) { auto i = params.find(n); return i == params.end() ? d : i->second; }
uint64_t sx_concretize(uint64_t v) { return v; }
int sx_symbolic_engine(void) { return 0; }
int sx_is_symbolic(uint64_t) { return 0; }
void sx_stop(void) { finish(fails ? 1 : 0, "done"); }
void sx_debug(const char *s, uint64_t v) { if (getenv("SX_DEBUG")) printf("DEBUG %s %lx\n", s, v); }
size_t sx_map_slack = 0;
const char *sx_tmp(void) {
    if (tmpd.empty()) {
        const char *b = getenv("SX_TMP"); std::string t = std::string(b ? b : "/tmp") + "/sxreplay.XXXXXX";
        std::vector<char> v(t.begin(), t.end()); v.push_back(0);
        if (!mkdtemp(v.data())) { perror("mkdtemp"); _exit(9); }
        tmpd = v.data();
    }
    return tmpd.c_str();
}
// cooperative threads: exactly one of them runs at a time
static pthread_mutex_t tm = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t tc = PTHREAD_COND_INITIALIZER;
static uint32_t tcount = 1, trun = 0; static __thread uint32_t tme = 0;
struct TStart { void (*f)(void *); void *a; uint32_t id; };
static void twait() { while (trun != tme) pthread_cond_wait(&tc, &tm); pthread_mutex_unlock(&tm); }
static void *tmain(void *p) { TStart s = *(TStart *)p; delete (TStart *)p; tme = s.id; pthread_mutex_lock(&tm); twait(); s.f(s.a); for (;;) pause(); return nullptr; }
uint32_t sx_thread_create(void (*f)(void *), void *a) { pthread_t t; uint32_t id = tcount++; if (pthread_create(&t, nullptr, tmain, new TStart{f, a, id})) { perror("pthread_create"); _exit(9); } return id; }
void sx_thread_switch(uint32_t to) { pthread_mutex_lock(&tm); trun = to; pthread_cond_broadcast(&tc); twait(); }
int rand(void) { return (int)next("rand"); }
}
static void onTerm() { printf("CRASH std::terminate\n"); finish(1, "terminate"); }
static void onAlarm(int) { static const char m[] = "CRASH timeout\n"; if (write(1, m, sizeof m - 1)) {} _exit(1); }
int main(int argc, char **argv) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::set_terminate(onTerm);
    signal(SIGALRM, onAlarm);
    alarm(getenv("SX_ALARM") ? atoi(getenv("SX_ALARM")) : 20);
    FILE *f = fopen(argv[2], "r");
    if (!f) { perror(argv[2]); return 9; }
    char k[16], n[256]; unsigned long long v;
    while (fscanf(f, "%15s %255s %llu", k, n, &v) == 3) { if (!strcmp(k, "param")) params[n] = v; else if (!strcmp(k, "in")) ins.push_back({n, v}); }
    fclose(f);
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 9; }
    fn();
    finish(fails ? 1 : 0, "done");
}
