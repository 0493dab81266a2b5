// Native replay runtime: variables are read from a model file.
#include "sym.h"
#include <map>
#include <fstream>
#include <sstream>
#include <iostream>
#include <cstring>
#include <exception>
#include <unistd.h>
#include <csignal>
static std::map<std::string, double> model;
static std::string want;
static long nchecks = 0;
static bool strict = false;
static void fail(const char *label, const std::string &d) {
  std::cout << "REPLAY-FAIL label=" << label << " " << d << std::endl;
  fflush(stdout);
  _exit(1);
}
extern "C" {
double __sym_real(const char *name, double lo, double hi) {
  auto it = model.find(name);
  double v = it == model.end() ? 0.5 * (lo + hi) : it->second;
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  return v;
}
int __sym_choose(const char *name, int lo, int hi) {
  auto it = model.find(name);
  int v = it == model.end() ? lo : (int)it->second;
  return v < lo ? lo : v > hi ? hi : v;
}
void __sym_prune(const char *why) {
  std::cout << "REPLAY-PRUNED " << why << std::endl;
  _exit(3);
}
void __sym_assume_rel(double a, double b, int rel) {
  bool ok = rel == 0 ? a < b : rel == 1 ? a <= b : rel == 2 ? std::abs(a - b) <= 1e-12 * (1 + std::abs(a)) : a != b;
  if (!ok) __sym_prune("assume_rel");
}
void __sym_check_eq(double a, double b, double tol, const char *label) {
  nchecks++;
  if (!(std::abs(a - b) <= tol)) {
    std::ostringstream s;
    s.precision(17);
    s << a << " != " << b << " (tol " << tol << ")";
    fail(label, s.str());
  }
}
void __sym_check_le(double a, double b, double tol, const char *label) {
  nchecks++;
  if (!(a <= b + tol)) {
    std::ostringstream s;
    s.precision(17);
    s << a << " > " << b << " (tol " << tol << ")";
    fail(label, s.str());
  }
}
void __sym_fail(const char *label, const char *detail) { fail(label, detail); }
void __sym_pass(const char *) { nchecks++; }
int __sym_is_symbolic(double) { return 0; }
double __sym_deriv(double, double) { fail("internal", "deriv in native mode"); return 0; }
void __sym_print(const char *t, double a) { printf("%s = %.17g\n", t, a); }
double __sym_witness(double a) { return a; }
}
static void onsig(int s) {
  const char *m = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGALRM ? "HANG" : s == SIGFPE ? "SIGFPE" : "signal";
  char buf[128];
  int n = snprintf(buf, sizeof buf, "REPLAY-FAIL label=crash %s\n", m);
  (void)!write(1, buf, n);
  _exit(1);
}
int main(int argc, char **argv) {
  std::string f;
  int limit = 40;
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "--replay")) f = argv[++i];
    if (!strcmp(argv[i], "--limit")) limit = atoi(argv[++i]);
  }
  std::ifstream in(f);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream ss(line);
    std::string k;
    ss >> k;
    if (k == "case") { ss >> std::ws; std::getline(ss, want); }
    else if (k == "var") {
      std::string n, h;
      ss >> n >> h;
      model[n] = strtod(h.c_str(), nullptr);
    }
  }
  sym_register();
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGALRM, SIGILL}) signal(s, onsig);
  alarm(limit);
  for (auto &c : sym::cases())
    if (c.name == want) {
      try {
        c.fn();
      } catch (const std::exception &e) {
        fail("exception", e.what());
      } catch (...) {
        fail("exception", "unknown exception");
      }
      std::cout << "REPLAY-OK checks=" << nchecks << std::endl;
      _exit(0);
    }
  std::cout << "REPLAY-NOCASE " << want << std::endl;
  return 4;
}
