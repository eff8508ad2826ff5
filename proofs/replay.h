// Concrete interpretation of the specification vocabulary (one translation unit).
#include <random>
#include <csignal>
#include <unistd.h>
#include <ctime>
#include <cstring>
#include <type_traits>
namespace v_rt {
inline std::mt19937_64 rng;
inline std::vector<double> dvals; inline std::vector<long long> ivals; inline std::vector<int> kinds;
inline size_t pos = 0;
inline bool use_model = false;
inline std::vector<std::string> log;
inline std::string failed;
inline double tol = 1e-6;
inline int scale = 0;
struct Reject {};
struct Fail {};
struct Reg;
inline std::vector<Reg *> &regs() { static std::vector<Reg *> r; return r; }
struct Reg { const char *name, *opts; void (*f)(); Reg(const char *n, const char *o, void (*g)()) : name(n), opts(o), f(g) { regs().push_back(this); } };
inline bool next(double &d, long long &i, int &k) {
    if (!use_model || pos >= kinds.size()) return false;
    d = dvals[pos]; i = ivals[pos]; k = kinds[pos]; pos++;
    return k != 2;
}
inline void note(const char *n, double d) { char b[200]; snprintf(b, 200, "%s = %.17g", n, d); log.push_back(b); }
inline void notei(const char *n, long long d) { char b[200]; snprintf(b, 200, "%s = %lld", n, d); log.push_back(b); }
}
extern "C" {
int64_t __v_int(const char *name, int bits, int sg) {
    double d; long long i; int k; int64_t r;
    if (v_rt::next(d, i, k)) r = i;
    else {
        static const long long small[] = {0, 1, 2, 3, -1, -2, 4, 5, 7, 8, 15, 16, 31, 32, 64, 100, -3, -7};
        uint64_t c = v_rt::rng() % 10;
        if (c < 6) r = small[v_rt::rng() % 18];
        else if (c < 8) r = (int64_t)(v_rt::rng() % 40) - 12;
        else r = (int64_t)(v_rt::rng() >> (v_rt::rng() % 64));
    }
    if (bits < 64) { r &= (1ll << bits) - 1; if (sg && (r >> (bits - 1))) r -= 1ll << bits; }
    v_rt::notei(name, r);
    return r;
}
int64_t __v_range(const char *name, int64_t lo, int64_t hi) {
    double d; long long i; int k; int64_t r;
    if (v_rt::next(d, i, k)) r = i;
    else {
        uint64_t span = (uint64_t)(hi - lo) + 1;
        uint64_t lim = span;
        int m = v_rt::rng() % 4;
        if (span == 0) lim = ~0ull;
        if (m < 3 && lim > 12) lim = 12;
        r = lo + (int64_t)(v_rt::rng() % lim);
        if (m == 2 && span > 12 && v_rt::rng() % 2) r = hi - (int64_t)(v_rt::rng() % 12);
    }
    if (r < lo || r > hi) throw v_rt::Reject();
    v_rt::notei(name, r);
    return r;
}
double __v_real(const char *name) {
    double d; long long i; int k; double r;
    if (v_rt::next(d, i, k)) r = (k == 0 ? d : (double)i);
    else {
        std::uniform_real_distribution<double> u(-2, 2);
        r = u(v_rt::rng);
        if (v_rt::rng() % 8 == 0) r = (double)((int)(v_rt::rng() % 7) - 3);
    }
    v_rt::note(name, r);
    return r;
}
void __v_require(bool c) { if (!c) throw v_rt::Reject(); }
void __v_ensure(bool c, const char *label) { if (!c) { v_rt::failed = label; throw v_rt::Fail(); } }
void __v_ensure_eq(double a, double b, const char *label) {
    if (!(fabs(a - b) <= v_rt::tol * (1 + fabs(a) + fabs(b)))) {
        char t[300]; snprintf(t, 300, "%s  [got %.12g expected %.12g]", label, a, b);
        v_rt::failed = t; throw v_rt::Fail();
    }
}
void __v_cover(const char *) {}
void __v_inv(bool, const char *) {}
void __v_define(bool) {}
int64_t __v_uf(const char *, int64_t, int64_t, int64_t) { return 0; }
bool __v_checking() { return true; }
void *__v_array2(const char *name, int64_t n, int64_t es, int, int) { return __v_array(name, n, es); }
void __v_stop() { throw v_rt::Reject(); }
void *__v_array(const char *name, int64_t n, int64_t es) {
    double d; long long i; int k; v_rt::next(d, i, k); // array slot in the input log
    if (n > (1 << 24)) throw v_rt::Reject();
    void *p = calloc(n > 0 ? n : 1, es);
    return p;
}
bool __v_forall(int64_t lo, int64_t hi, bool (*f)(void *, int64_t), void *c) {
    for (int64_t i = lo; i < hi; i++) if (!f(c, i)) return false;
    return true;
}
}
// usage: prog <proof> <seconds> <seed> [inputs-file]   exit 1 = violation found (report on stdout)
namespace v_rt {
inline void report() {
    printf("REPLAY-FAIL: %s\n", failed.c_str());
    printf("source: %s\n", use_model ? "verifier counterexample" : "search from the failed obligation");
    size_t c = 0;
    for (auto &l : log) { printf("  input %s\n", l.c_str()); if (++c > 400) break; }
    fflush(stdout);
}
inline bool inproof = false;
inline void onsig(int s) {
    if (s == SIGALRM) { printf(inproof ? "stopped: time out inside a run\n" : "stopped: time\n"); fflush(stdout); _exit(3); }
    failed = std::string("the code under contract was stopped by signal ") + std::to_string(s) + (s == SIGABRT ? " (assertion or abort)" : " (memory or arithmetic fault)");
    report();
    _exit(1);
}
extern "C" const char *__asan_default_options() { return "detect_leaks=0:handle_segv=0:handle_abort=0:allocator_may_return_null=1:abort_on_error=1"; }
inline int main(int argc, char **argv) {
    const char *pn = argv[1];
    double secs = argc > 2 ? atof(argv[2]) : 1;
    uint64_t seed = argc > 3 ? atoll(argv[3]) : 1;
    Reg *R = nullptr;
    for (auto *r : regs()) if (!strcmp(r->name, pn)) R = r;
    if (!R) { printf("no proof %s\n", pn); return 2; }
    if (argc > 4) {
        FILE *f = fopen(argv[4], "r"); char kind[32]; char val[512];
        while (f && fscanf(f, "%31s %511s", kind, val) == 2) {
            if (!strcmp(kind, "r")) { kinds.push_back(0); dvals.push_back(atof(val)); ivals.push_back(0); }
            else if (!strcmp(kind, "i")) { kinds.push_back(1); ivals.push_back(atoll(val)); dvals.push_back(0); }
            else { kinds.push_back(2); ivals.push_back(0); dvals.push_back(0); }
        }
        if (f) fclose(f);
    }
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, onsig);
    alarm(secs > 0 ? (unsigned)secs + 20 : 700);
    auto t0 = time(nullptr);
    long n = 0, rej = 0;
    for (uint64_t it = 0;; it++) {
        use_model = (it == 0 && argc > 4);
        rng.seed(seed * 1000003 + it);
        pos = 0; log.clear(); failed.clear();
        bool bad = false;
        inproof = true;
        try { R->f(); n++; } catch (Reject &) { rej++; } catch (Fail &) { bad = true; }
        inproof = false;
        if (bad) { report(); return 1; }
        if (difftime(time(nullptr), t0) > secs) break;
        if (it > 2000000) break;
    }
    printf("no failing input: %ld runs, %ld rejected by preconditions\n", n, rej);
    return 0;
}
}
int main(int argc, char **argv) { return v_rt::main(argc, argv); }
#ifndef REPLAY_OWN_STUBS
// library symbols outside the function under contract
namespace hila { void terminate(int) { v_rt::failed = "the program terminates (hila::terminate)"; throw v_rt::Fail(); } }
#endif
