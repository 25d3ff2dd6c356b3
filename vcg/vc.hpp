// Contract language.  The same text is (a) compiled to LLVM IR with the real code and turned into verification
// conditions, and (b) compiled natively with the real code to replay counterexamples.
#pragma once
#include <cmath>
#include <new>
#include <utility>
extern "C" {
double vc_real(const char *name);                          // arbitrary real
double vc_real_in(const char *name, double lo, double hi); // arbitrary real in [lo,hi] (precondition)
int vc_int(const char *name, int lo, int hi);              // arbitrary integer in [lo,hi] (precondition)
int vc_size(const char *name, int lo, int hi);             // as vc_int, marks an unbounded size (loops over it are cut by invariants)
bool vc_bool(const char *name);
void vc_unbounded(double x);                               // loops controlled by x are cut by invariants
void vc_assume(bool c);                                    // requires
void vc_ensure(const char *name, bool c);                  // ensures (named obligation)
void vc_ensure_eq(const char *name, double a, double b);
void vc_ensure_le(const char *name, double a, double b);
bool vc_eq(double a, double b);
bool vc_le(double a, double b);
double vc_ite(bool c, double a, double b);
bool vc_and(bool a, bool b);
bool vc_or(bool a, bool b);
bool vc_implies(bool a, bool b);
void vc_cover(const char *name);                           // must be reachable
void vc_stop();
void vc_note(const char *name);
bool vc_symbolic();
double vc_uf1(const char *, double);
double vc_uf2(const char *, double, double);
double vc_uf3(const char *, double, double, double);
double vc_uf4(const char *, double, double, double, double);
double vc_ufi2(const char *, int, double);
double vc_ufi3(const char *, int, double, double);
bool vc_ufb2(const char *, int, double);
int vc_ufn2(const char *, int, double);
void vc_havoc(double *p, const char *name);
double *vc_array(const char *name, int n);
double vc_elem(const char *name, int i, double lo, double hi); // field of the i-th abstract object (lo,hi: native sampling only)
bool vc_elem_bool(const char *name, int i);
int vc_elem_int(const char *name, int i, int lo, int hi);
void *vc_family(int n, unsigned long size, void (*ctor)(void *, int));
void *vc_ptr_array(void *base, unsigned long size, int n);
double vc_sum_impl(int n, double (*f)(void *, int), void *env);
double vc_fold_impl(int n, double init, double (*f)(void *, double, int), void *env);
void vc_forall_ensure(const char *name, int n, bool (*f)(void *, int), void *env);
void vc_forall_assume(int n, bool (*f)(void *, int), void *env);
void vc_candidate(bool (*f)(void *), void *env);
double vc_merge(double (*f)(void *), void *env);
bool vc_merge_bool(bool (*f)(void *), void *env);
}
template <class F> double vc_sum(int n, F f) { return vc_sum_impl(n, [](void *e, int j) -> double { return (*static_cast<F *>(e))(j); }, &f); }
template <class F> double vc_fold(int n, double init, F f) { return vc_fold_impl(n, init, [](void *e, double a, int j) -> double { return (*static_cast<F *>(e))(a, j); }, &f); }
template <class F> void vc_ensure_all(const char *nm, int n, F f) { vc_forall_ensure(nm, n, [](void *e, int j) -> bool { return (*static_cast<F *>(e))(j); }, &f); }
template <class F> void vc_assume_all(int n, F f) { vc_forall_assume(n, [](void *e, int j) -> bool { return (*static_cast<F *>(e))(j); }, &f); }
template <class F> void vc_invariant(F &f) { vc_candidate([](void *e) -> bool { return (*static_cast<F *>(e))(); }, &f); }
template <class F> double vc_pure(F f) { return vc_merge([](void *e) -> double { return (*static_cast<F *>(e))(); }, &f); }
template <class F> bool vc_pred(F f) { return vc_merge_bool([](void *e) -> bool { return (*static_cast<F *>(e))(); }, &f); }
