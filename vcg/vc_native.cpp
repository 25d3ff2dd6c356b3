// Native runtime of the contract language: runs a contract against the natively compiled real code, on the verifier's
// counterexample (a file of name=value lines) or on pseudo-random inputs that satisfy the contract's preconditions.
//   prog CONTRACT model FILE      prog CONTRACT seed S
//   prog CONTRACT search FIRST COUNT SECONDS
#include "vc.hpp"
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <string>
#include <chrono>
#include <exception>
#include <iostream>
#include <unistd.h>
static sigjmp_buf vc_jmp;
static std::map<std::string, double> vc_model;
static std::map<std::string, int> vc_names;
static std::string vc_trace, vc_fail;
static uint64_t vc_seed;
static bool vc_use_model;
static long vc_ensured;
static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
static uint64_t hs(const char *s) { uint64_t h = 1469598103934665603ULL; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ULL; } return h; }
static uint64_t hd(double d) { uint64_t u; if (d == 0) d = 0; std::memcpy(&u, &d, 8); return u; }
static double u01(uint64_t h) { return (mix(h) >> 11) * (1.0 / 9007199254740992.0); }
static uint64_t key(const char *n, uint64_t k, uint64_t s) { return mix(mix(hs(n) + 0x9e3779b97f4a7c15ULL * (k + 1)) ^ mix(vc_seed + 77 * s)); }
static double sample(uint64_t h, double lo, double hi)
{
  const double a = u01(h), b = u01(h + 1), w = hi - lo;
  if (a < 0.04) return lo;
  if (a < 0.08) return hi;
  if (a < 0.14 && lo < 0 && hi > 0) return 0;
  if (a < 0.22 && w >= 4) { double r = std::floor(lo + b * w); return r < lo ? lo : r; }
  if (lo > 0 && hi / lo > 100 && a < 0.7) return lo * std::exp(b * std::log(hi / lo));
  if (lo < 0 && hi > 0 && w > 100 && a < 0.7) { double m = 1e-2 * std::exp(b * std::log(std::max(hi, -lo) / 1e-2)); return u01(h + 2) < -lo / w ? std::max(lo, -m) : std::min(hi, m); }
  if (lo == 0 && hi > 1000 && a < 0.7) return std::min(hi, 1e-2 * std::exp(b * std::log(hi / 1e-2)));
  return lo + b * w;
}
static void tr(const std::string &n, double v) { char b[200]; std::snprintf(b, sizeof b, "%s=%.17g\n", n.c_str(), v); vc_trace += b; }
static double input(const char *name, double lo, double hi, bool integer)
{
  int k = vc_names[name]++;
  std::string n = k ? std::string(name) + "#" + std::to_string(k) : name;
  double v;
  auto it = vc_model.find(n);
  if (vc_use_model && it != vc_model.end()) v = it->second;
  else if (integer) v = lo + std::floor(u01(key(name, k, 0)) * (hi - lo + 1));
  else v = sample(key(name, k, 0), lo, hi);
  if (integer && v > hi) v = hi;
  tr(n, v);
  if (v < lo || v > hi) siglongjmp(vc_jmp, 2);
  return v;
}
static bool relevant(const char *nm)   // VC_ONLY=|a|b| restricts the replay to the obligations the verifier could not discharge
{
  static const char *only = std::getenv("VC_ONLY");
  return !only || std::strstr(only, ("|" + std::string(nm) + "|").c_str());
}
static void fail(const char *nm, const std::string &d) { if (!relevant(nm)) return; vc_fail = std::string(nm) + ": " + d; siglongjmp(vc_jmp, 1); }
static bool close(double a, double b)
{
  if (a == b || (std::isnan(a) && std::isnan(b))) return true;
  return std::fabs(a - b) <= 1e-9 + 1e-7 * std::max(std::fabs(a), std::fabs(b));
}
static std::string num(double x) { char b[40]; std::snprintf(b, sizeof b, "%.17g", x); return b; }
extern "C" {
double vc_real(const char *n) { return input(n, -1e6, 1e6, false); }
double vc_real_in(const char *n, double lo, double hi) { return input(n, lo, hi, false); }
int vc_int(const char *n, int lo, int hi) { int k = vc_names[n]; double a = u01(key(n, k, 5)); return (int)input(n, lo, (a < .7 && hi - lo > 50 && !vc_use_model) ? lo + 12 : hi, true); }
int vc_size(const char *n, int lo, int hi) { int k = vc_names[n]; double a = u01(key(n, k, 5)); return (int)input(n, lo, vc_use_model ? hi : (a < .75 ? std::min(hi, lo + 5) : a < .92 ? std::min(hi, lo + 30) : hi), true); }
bool vc_bool(const char *n) { return input(n, 0, 1, true) != 0; }
void vc_unbounded(double) {}
void vc_assume(bool c) { if (!c) siglongjmp(vc_jmp, 2); }
void vc_ensure(const char *nm, bool c) { vc_ensured++; if (!c) fail(nm, "false"); }
void vc_ensure_eq(const char *nm, double a, double b) { vc_ensured++; if (!close(a, b)) fail(nm, num(a) + " != " + num(b)); }
void vc_ensure_le(const char *nm, double a, double b) { vc_ensured++; if (!(a <= b) && !close(a, b)) fail(nm, num(a) + " > " + num(b)); }
bool vc_eq(double a, double b) { return close(a, b); }
bool vc_le(double a, double b) { return a <= b || close(a, b); }
double vc_ite(bool c, double a, double b) { return c ? a : b; }
bool vc_and(bool a, bool b) { return a && b; }
bool vc_or(bool a, bool b) { return a || b; }
bool vc_implies(bool a, bool b) { return !a || b; }
void vc_cover(const char *) {}
void vc_stop() { siglongjmp(vc_jmp, 3); }
void vc_note(const char *) {}
bool vc_symbolic() { return false; }
double vc_real_uf(const char *n, uint64_t k, double x, double y, double z)
{
  const uint64_t h = key(n, k, 1);
  return 3.5 + 0.4 * u01(h) - 0.02 * (u01(h + 1) + .1) * x + 0.3 * u01(h + 2) * std::sin(x * (1 + u01(h + 3)) + y * u01(h + 4) + z) - 0.01 * u01(h + 5) * y;
}
double vc_uf1(const char *n, double x) { return vc_real_uf(n, 0, x, 0, 0); }
double vc_uf2(const char *n, double x, double y) { return vc_real_uf(n, 0, x, y, 0); }
double vc_uf3(const char *n, double x, double y, double z) { return vc_real_uf(n, 0, x, y, z); }
double vc_uf4(const char *n, double x, double y, double z, double w) { return vc_real_uf(n, 0, x + w, y, z); }
double vc_ufi2(const char *n, int k, double x) { return vc_real_uf(n, k, x, 0, 0); }
double vc_ufi3(const char *n, int k, double x, double y) { return vc_real_uf(n, k, x, y, 0); }
bool vc_ufb2(const char *n, int k, double x) { return u01(key(n, k, 2) ^ mix(hd(x))) < 0.8; }
int vc_ufn2(const char *n, int k, double x)
{
  const double a = u01(key(n, k, 3) ^ mix(hd(x))), b = u01(key(n, k, 4) ^ mix(hd(x)));
  if (a < 0.75) return 0;
  if (a < 0.85) return -1 + (int)(b * 4);
  return 3 + (int)(b * 9);
}
void vc_havoc(double *p, const char *n) { *p = vc_real(n); }
double *vc_array(const char *name, int n)
{
  double *p = new double[n > 0 ? n : 1];
  for (int i = 0; i < n; i++) p[i] = vc_elem(name, i, 1e-3, 0.1);
  return p;
}
double vc_elem(const char *name, int i, double lo, double hi)
{
  std::string nm = std::string(name) + "[" + std::to_string(i) + "]";
  auto it = vc_model.find(nm);
  double v = vc_use_model && it != vc_model.end() ? it->second : sample(key(name, 1000 + i, 6), lo, hi);
  tr(nm, v);
  return v;
}
bool vc_elem_bool(const char *name, int i) { return vc_elem(name, i, 0, 1) >= 0.5; }
int vc_elem_int(const char *name, int i, int lo, int hi) { return (int)std::floor(vc_elem(name, i, lo, hi)); }
void *vc_family(int n, unsigned long size, void (*ctor)(void *, int))
{
  char *p = static_cast<char *>(std::malloc(size * (n > 0 ? n : 1)));
  for (int i = 0; i < n; i++) ctor(p + size * i, i);
  return p;
}
void *vc_ptr_array(void *, unsigned long, int) { return nullptr; }
double vc_sum_impl(int n, double (*f)(void *, int), void *e) { double s = 0; for (int i = 0; i < n; i++) s += f(e, i); return s; }
double vc_fold_impl(int n, double a, double (*f)(void *, double, int), void *e) { for (int i = 0; i < n; i++) a = f(e, a, i); return a; }
void vc_forall_ensure(const char *nm, int n, bool (*f)(void *, int), void *e) { vc_ensured++; for (int i = 0; i < n; i++) if (!f(e, i)) fail(nm, "element " + std::to_string(i)); }
void vc_forall_assume(int n, bool (*f)(void *, int), void *e) { for (int i = 0; i < n; i++) if (!f(e, i)) siglongjmp(vc_jmp, 2); }
void vc_candidate(bool (*)(void *), void *) {}
double vc_merge(double (*f)(void *), void *e) { return f(e); }
bool vc_merge_bool(bool (*f)(void *), void *e) { return f(e); }
}
static void onsig(int s)
{
  if (s == SIGALRM) siglongjmp(vc_jmp, 2);
  if (!relevant(s == SIGABRT ? "no-abort" : "memory-safety")) siglongjmp(vc_jmp, 2);
  vc_fail = std::string(s == SIGABRT ? "no-abort" : "memory-safety") + ": signal " + std::to_string(s);
  siglongjmp(vc_jmp, 1);
}
#ifdef __SANITIZE_ADDRESS__
extern "C" const char *__asan_default_options() { return "detect_leaks=0:handle_segv=0:handle_abort=0:halt_on_error=1:abort_on_error=1:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:print_summary=0"; }
#endif
static int run_once(void (*f)())   // 0 holds, 1 violated, 2 precondition not met
{
  vc_names.clear(); vc_trace.clear(); vc_fail.clear();
  alarm(5);
  volatile int r = sigsetjmp(vc_jmp, 1);
  if (r == 0) {
    try { f(); }
    catch (int e) { if (!relevant("no-unexpected-exception")) return 2; vc_fail = "no-unexpected-exception: int " + std::to_string(e); alarm(0); return 1; }
    catch (const std::exception &e) { if (!relevant("no-unexpected-exception")) return 2; vc_fail = std::string("no-unexpected-exception: ") + e.what(); alarm(0); return 1; }
    catch (...) { if (!relevant("no-unexpected-exception")) return 2; vc_fail = "no-unexpected-exception: unknown"; alarm(0); return 1; }
  }
  alarm(0);
  return r == 1 ? 1 : r == 2 ? 2 : 0;
}
int main(int argc, char **argv)
{
  if (argc < 4) return 64;
  void (*f)() = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, argv[1]));
  if (!f) { std::fprintf(stderr, "no contract %s\n", argv[1]); return 64; }
  for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGALRM, SIGBUS, SIGILL }) { struct sigaction a{}; a.sa_handler = onsig; a.sa_flags = SA_NODEFER; sigaction(s, &a, nullptr); }
  std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); // the code under test may log
  auto report = [&](int r) { std::printf("%s %s\n%s", r == 1 ? "VIOLATED" : r == 2 ? "REJECTED" : "HOLDS", vc_fail.c_str(), r == 1 ? vc_trace.c_str() : ""); std::fflush(stdout); };
  const std::string mode = argv[2];
  if (mode == "model") {
    std::ifstream in(argv[3]); std::string l;
    while (std::getline(in, l)) { auto e = l.rfind('='); if (e != std::string::npos) vc_model[l.substr(0, e)] = std::strtod(l.c_str() + e + 1, nullptr); }
    vc_use_model = true; int last = 2;
    for (vc_seed = 1; vc_seed <= 20; vc_seed++) { last = run_once(f); if (last == 1) break; } // unconstrained specification functions vary with the seed
    report(last); _exit(last);
  }
  if (mode == "seed") { vc_seed = std::strtoull(argv[3], nullptr, 10); int r = run_once(f); report(r); _exit(r); }
  uint64_t first = std::strtoull(argv[3], nullptr, 10), cnt = std::strtoull(argv[4], nullptr, 10); double lim = std::atof(argv[5]);
  auto t0 = std::chrono::steady_clock::now(); long ok = 0, rej = 0;
  for (vc_seed = first; vc_seed < first + cnt; vc_seed++) {
    int r = run_once(f);
    if (r == 1) { std::printf("seed %llu\n", (unsigned long long)vc_seed); report(1); _exit(1); }
    (r == 2 ? rej : ok)++;
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > lim) break;
  }
  std::printf("HOLDS on %ld samples (%ld rejected by preconditions, %ld ensures evaluated)\n", ok, rej, vc_ensured); std::fflush(stdout);
  _exit(ok ? 0 : 2);
}
