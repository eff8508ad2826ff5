// Specification vocabulary for contract harnesses. In the proof build the __v_* functions are
// interpreted by the verifier (engine/models.py); with -DREPLAY the same harness is an
// ordinary program that runs the real code on concrete inputs.
#ifndef VERIF_H_
#define VERIF_H_
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <vector>
#include <string>

extern "C" {
int64_t __v_int(const char *name, int bits, int is_signed);      // arbitrary integer
int64_t __v_range(const char *name, int64_t lo, int64_t hi);     // arbitrary integer in [lo,hi]
double __v_real(const char *name);                               // arbitrary real
void __v_require(bool c);                                        // precondition
void __v_ensure(bool c, const char *label);                      // postcondition
void __v_ensure_eq(double a, double b, const char *label);       // equality of reals
void __v_cover(const char *label);                               // must be reachable
void *__v_array(const char *name, int64_t n, int64_t elemsize);  // n arbitrary elements
bool __v_forall(int64_t lo, int64_t hi, bool (*f)(void *, int64_t), void *closure);
void __v_stop();
void __v_inv(bool c, const char *label);                         // loop invariant (inside a hook)
void __v_define(bool c);                                         // unfolding of a ghost definition
int64_t __v_uf(const char *name, int64_t a, int64_t b, int64_t c); // ghost function
bool __v_checking();
void __v_focus(bool here, bool exit);                           // unless here: assume the loop is left
void *__v_array2(const char *name, int64_t n, int64_t elemsize, int colsize, int real);
}

namespace v {
template <typename T> T any(const char *name = "x") {
    if constexpr (std::is_same_v<T, bool>) return __v_range(name, 0, 1) != 0;
    else if constexpr (std::is_enum_v<T>) return static_cast<T>(__v_int(name, sizeof(T) * 8, 0));
    else if constexpr (std::is_integral_v<T>) return static_cast<T>(__v_int(name, sizeof(T) * 8, std::is_signed_v<T>));
    else if constexpr (std::is_floating_point_v<T>) return static_cast<T>(__v_real(name));
}
// fill a plain aggregate of S-scalars
template <typename S, typename T> void fill(T &x, const char *name = "x") {
    S *p = reinterpret_cast<S *>(&x);
    for (size_t i = 0; i < sizeof(T) / sizeof(S); i++) p[i] = any<S>(name);
}
template <typename T, typename S = double> T make(const char *name = "x") {
    T x;
    fill<S>(x, name);
    return x;
}
inline void require(bool c) { __v_require(c); }
inline void ensure(bool c, const char *l) { __v_ensure(c, l); }
inline void eq(double a, double b, const char *l) { __v_ensure_eq(a, b, l); }
inline void inv(bool c, const char *l) { __v_inv(c, l); }
inline void define(bool c) { __v_define(c); }
inline int64_t uf(const char *n, int64_t a, int64_t b = 0, int64_t c = 0) { return __v_uf(n, a, b, c); }
inline void cover(const char *l) { __v_cover(l); }
inline int64_t range(const char *n, int64_t lo, int64_t hi) { return __v_range(n, lo, hi); }
template <typename F> bool thunk(void *c, int64_t i) { return (*static_cast<F *>(c))(i); }
// for all i in [lo,hi): f(i)
template <typename F> bool forall(int64_t lo, int64_t hi, F f) { return __v_forall(lo, hi, &thunk<F>, (void *)&f); }
template <typename S, typename T> void eq_all(const T &a, const T &b, const char *l) {
    const S *p = reinterpret_cast<const S *>(&a), *q = reinterpret_cast<const S *>(&b);
    for (size_t i = 0; i < sizeof(T) / sizeof(S); i++) eq(p[i], q[i], l);
}
// n arbitrary elements of scalar type T
template <typename T> T *array(const char *n, int64_t k) {
    T *p = static_cast<T *>(__v_array(n, k, sizeof(T)));
#ifdef REPLAY
    for (int64_t i = 0; i < k; i++) p[i] = any<T>(n);
#endif
    return p;
}
// n arbitrary structs made of scalars of type S
template <typename T, typename S> T *array_of(const char *n, int64_t k) {
    T *p = static_cast<T *>(__v_array2(n, k, sizeof(T), sizeof(S), std::is_floating_point_v<S>));
#ifdef REPLAY
    for (int64_t i = 0; i < k; i++) fill<S>(p[i], n);
#endif
    return p;
}
} // namespace v
// contract of a callee: the calls matching the regular expression rx run stub_<name> instead
#define STUB(name, rx) extern "C" { extern const char stubrx_##name[]; const char stubrx_##name[] = rx; }
#ifdef REPLAY
#include "replay.h"
#define PROOF(name, opts) \
    static void proof_##name(); \
    static ::v_rt::Reg reg_##name(#name, opts, &proof_##name); \
    static void proof_##name()
#else
#define PROOF(name, opts) \
    extern "C" { extern const char proofopt_##name[]; const char proofopt_##name[] = opts; } \
    extern "C" void proof_##name()
#endif
#endif
