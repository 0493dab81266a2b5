// Harness API.  The same harness source is compiled
//  * with the SymPass plugin and linked with symrt.cpp (symbolic execution), or
//  * plainly, with -DSYM_NATIVE, and linked with symnative.cpp (replay of a
//    counterexample on ordinary double arithmetic).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <functional>
#include <string>
#include <vector>
#include <array>

extern "C" {
double __sym_real(const char *name, double lo, double hi);
int __sym_choose(const char *name, int lo, int hi);
void __sym_assume_rel(double a, double b, int rel); // 0: a<b 1: a<=b 2: a==b 3: a!=b
void __sym_check_eq(double a, double b, double tol, const char *label);
void __sym_check_le(double a, double b, double tol, const char *label);
void __sym_fail(const char *label, const char *detail);
void __sym_pass(const char *label);
void __sym_prune(const char *why);
int __sym_is_symbolic(double a);
double __sym_deriv(double f, double var);
void __sym_print(const char *t, double a);
void __sym_add_case(const char *name, int tier, int maxpaths, int seconds);
double __sym_witness(double a);
}

namespace sym {
#ifdef SYM_NATIVE
constexpr bool native = true;
#else
constexpr bool native = false;
#endif
inline double real(const std::string &n, double lo, double hi) { return __sym_real(n.c_str(), lo, hi); }
inline int choose(const std::string &n, int lo, int hi) { return __sym_choose(n.c_str(), lo, hi); }
inline void assume_lt(double a, double b) { __sym_assume_rel(a, b, 0); }
inline void assume_le(double a, double b) { __sym_assume_rel(a, b, 1); }
inline void assume_eq(double a, double b) { __sym_assume_rel(a, b, 2); }
inline void assume_ne(double a, double b) { __sym_assume_rel(a, b, 3); }
inline void assume(bool c) { if (!c) __sym_prune("assume"); }
// |a-b| <= tol for every value on this path
inline void eq(double a, double b, const std::string &label, double tol = 1e-7) { __sym_check_eq(a, b, tol, label.c_str()); }
inline void le(double a, double b, const std::string &label, double tol = 1e-7) { __sym_check_le(a, b, tol, label.c_str()); }
inline void check(bool c, const std::string &label, const std::string &detail = "") {
  if (!c) __sym_fail(label.c_str(), detail.c_str());
  else __sym_pass(label.c_str());
}
template <class A, class B> void eqv(const A &a, const B &b, const std::string &label, double tol = 1e-7) {
  check(a.size() == b.size(), label + ".size");
  for (size_t i = 0; i < a.size(); ++i) eq(a[i], b[i], label + "[" + std::to_string(i) + "]", tol);
}
struct Case { std::string name; int tier; int maxpaths; int seconds; std::function<void()> fn; };
inline std::vector<Case> &cases() { static std::vector<Case> c; return c; }
inline int add(const std::string &name, std::function<void()> fn, int tier = 0, int maxpaths = 20000, int seconds = 60) {
  cases().push_back({name, tier, maxpaths, seconds, fn});
  return 0;
}
// runs f, expecting an exception (of any kind); a normal return is a failure
template <class F> void throws(F f, const std::string &label) {
  bool t = false;
  try { f(); } catch (...) { t = true; }
  check(t, label, "no exception");
}
template <class E, class F> void throws_as(F f, const std::string &label) {
  int t = 0;
  try { f(); } catch (const E &) { t = 1; } catch (...) { t = 2; }
  check(t == 1, label, t == 0 ? "no exception" : "wrong exception type");
}
} // namespace sym
void sym_register(); // each harness defines it
