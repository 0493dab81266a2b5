// Symbolic runtime: exact real-arithmetic symbolic execution of instrumented
// code.  See DESIGN.md ("Engine").
#include "sym.h"
#include "symops.h"
#include <gmpxx.h>
#include <z3++.h>
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cfloat>
#include <climits>
#include <csignal>
#include <cstdint>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <poll.h>
#include <fcntl.h>
#include <random>
#include <regex>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

#ifndef SYM_WORDS
#define SYM_WORDS 8
#endif
constexpr int W = SYM_WORDS;
constexpr int MAXVARS = W * 8;

// ---------------------------------------------------------------- shared state
constexpr int MAXCASES = 4096;
struct CaseStat {
  std::atomic<long> paths, pruned, abandoned, unsupported, timeouts, checks, undecided, candidates, asserts_sat;
  std::atomic<long> forks;
  std::atomic<int> samples, wits;
  std::atomic<int> started;
  std::atomic<int> nvars;
  std::atomic<int> lab[64]; // candidates written, by hash of the label
  double t0, t1;
};
struct Shared {
  std::atomic<int> tokens;
  std::atomic<long> q_const, q_interval, q_cache, q_witness, q_linear, q_nonlinear, q_sample_sat, q_unknown;
  std::atomic<long> solver_ns, linear_sat, linear_unsat, nl_sat, nl_unsat;
  std::atomic<long> c_identity, c_z3id, c_interval, c_solver, c_concrete, c_undecided;
  std::atomic<long> ops, symops, concretised;
  std::atomic<int> ncand;
  std::atomic<int> ndump;
  CaseStat cs[MAXCASES];
};
static Shared *S = nullptr;
static int curCase = -1;
static std::string curName, outDir = ".";
static int nl_timeout_ms = 4000;
static int path_cpu_s = 25;
static double deadline_case = 0; // monotonic seconds
static double deadline_all = 0;
static long maxPaths = 20000;
static std::vector<pid_t> kids;
static std::vector<std::string> decisions;
static bool approxWitness = false;
static bool inCase = false;
static std::string lastLabel;

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

// ---------------------------------------------------------------- polynomials
struct Mono {
  uint64_t w[W];
  bool operator==(const Mono &o) const { return !memcmp(w, o.w, sizeof w); }
  int cmp(const Mono &o) const {
    for (int i = 0; i < W; ++i)
      if (w[i] != o.w[i]) return w[i] < o.w[i] ? -1 : 1;
    return 0;
  }
  int e(int v) const { return (w[v >> 3] >> (56 - 8 * (v & 7))) & 255; }
  void set(int v, int k) {
    int sh = 56 - 8 * (v & 7);
    w[v >> 3] = (w[v >> 3] & ~(255ull << sh)) | ((uint64_t)k << sh);
  }
  bool one() const {
    for (int i = 0; i < W; ++i)
      if (w[i]) return false;
    return true;
  }
  int deg() const {
    int d = 0;
    for (int i = 0; i < W; ++i)
      for (uint64_t x = w[i]; x; x >>= 8) d += x & 255;
    return d;
  }
};
static Mono mzero() {
  Mono m;
  memset(m.w, 0, sizeof m.w);
  return m;
}
[[noreturn]] static void unsupported(const char *why);
static Mono mmul(const Mono &a, const Mono &b) {
  Mono r;
  for (int i = 0; i < W; ++i) {
    uint64_t x = a.w[i], y = b.w[i];
    // detect byte overflow
    uint64_t s = x + y;
    uint64_t carry = (x ^ y ^ s) & 0x0101010101010100ull;
    if (__builtin_expect(carry != 0 || s < x, 0)) unsupported("degree overflow");
    r.w[i] = s;
  }
  return r;
}
static bool mdiv(const Mono &a, const Mono &b, Mono &r) {
  for (int i = 0; i < W; ++i) {
    uint64_t x = a.w[i], y = b.w[i];
    uint64_t s = x - y;
    uint64_t borrow = (x ^ y ^ s) & 0x0101010101010100ull;
    if (borrow || s > x) return false;
    r.w[i] = s;
  }
  return true;
}
struct MHash {
  size_t operator()(const Mono &m) const {
    uint64_t h = 1469598103934665603ull;
    for (int i = 0; i < W; ++i) h = (h ^ m.w[i]) * 0x9E3779B97F4A7C15ull, h ^= h >> 29;
    return h;
  }
};
struct Term {
  Mono m;
  mpq_class c;
};
struct Poly {
  std::vector<Term> t; // descending
  mutable uint64_t h = 0;
  bool zero() const { return t.empty(); }
  bool isConst() const { return t.empty() || (t.size() == 1 && t[0].m.one()); }
};
using PolyP = std::shared_ptr<const Poly>;

static void roundq(mpq_class &q) {
  size_t a = mpz_size(q.get_num_mpz_t()), b = mpz_size(q.get_den_mpz_t());
  if (__builtin_expect(a + b <= 60, 1)) return;
  // keep ~400 bits
  const int bits = 400;
  mpz_class n = q.get_num(), d = q.get_den();
  long ln = mpz_sizeinbase(n.get_mpz_t(), 2), ld = mpz_sizeinbase(d.get_mpz_t(), 2);
  long sh = bits - (ln - ld);
  mpz_class r;
  if (sh >= 0) {
    r = (n << sh) / d;
    q = mpq_class(r, mpz_class(1) << sh);
  } else {
    r = n / (d << (-sh));
    q = mpq_class(r << (-sh), 1);
  }
  q.canonicalize();
}

static size_t termBudget = 400000;
static PolyP mkConst(const mpq_class &c) {
  auto p = std::make_shared<Poly>();
  if (c != 0) p->t.push_back({mzero(), c});
  return p;
}
static PolyP mkVar(int v) {
  auto p = std::make_shared<Poly>();
  Mono m = mzero();
  m.set(v, 1);
  p->t.push_back({m, 1});
  return p;
}
static PolyP addScaled(const PolyP &a, const PolyP &b, int sgn) {
  if (b->zero()) return a;
  auto r = std::make_shared<Poly>();
  r->t.reserve(a->t.size() + b->t.size());
  size_t i = 0, j = 0;
  while (i < a->t.size() || j < b->t.size()) {
    int c = i == a->t.size() ? -1 : j == b->t.size() ? 1 : a->t[i].m.cmp(b->t[j].m);
    if (c > 0) r->t.push_back(a->t[i++]);
    else if (c < 0) {
      r->t.push_back(b->t[j++]);
      if (sgn < 0) r->t.back().c = -r->t.back().c;
    } else {
      mpq_class q = sgn > 0 ? mpq_class(a->t[i].c + b->t[j].c) : mpq_class(a->t[i].c - b->t[j].c);
      if (q != 0) {
        roundq(q);
        r->t.push_back({a->t[i].m, q});
      }
      ++i;
      ++j;
    }
  }
  return r;
}
static PolyP scale(const PolyP &a, const mpq_class &c) {
  if (c == 0) return mkConst(0);
  if (c == 1) return a;
  auto r = std::make_shared<Poly>(*a);
  r->h = 0;
  for (auto &t : r->t) {
    t.c *= c;
    roundq(t.c);
  }
  return r;
}
static PolyP reduceAlg(PolyP p);
static PolyP mulRaw(const PolyP &a, const PolyP &b) {
  if (a->zero() || b->zero()) return mkConst(0);
  if (a->t.size() > b->t.size()) return mulRaw(b, a);
  auto r = std::make_shared<Poly>();
  if (a->t.size() == 1) {
    r->t.reserve(b->t.size());
    for (auto &y : b->t) {
      r->t.push_back({mmul(a->t[0].m, y.m), a->t[0].c * y.c});
      roundq(r->t.back().c);
    }
    return r;
  }
  if (a->t.size() * b->t.size() > 40000000) unsupported("term blow-up");
  std::unordered_map<Mono, mpq_class, MHash> acc;
  acc.reserve(a->t.size() * b->t.size());
  mpq_class tmp;
  for (auto &x : a->t)
    for (auto &y : b->t) {
      tmp = x.c * y.c;
      auto [it, nw] = acc.try_emplace(mmul(x.m, y.m), tmp);
      if (!nw) it->second += tmp;
    }
  if (acc.size() > termBudget) unsupported("term blow-up");
  r->t.reserve(acc.size());
  for (auto &kv : acc)
    if (kv.second != 0) {
      roundq(kv.second);
      r->t.push_back({kv.first, kv.second});
    }
  std::sort(r->t.begin(), r->t.end(), [](const Term &x, const Term &y) { return x.m.cmp(y.m) > 0; });
  return r;
}
static PolyP mul(const PolyP &a, const PolyP &b) { return reduceAlg(mulRaw(a, b)); }
static bool divExact(const PolyP &a, const PolyP &b, PolyP &q) { // a / b
  if (b->zero()) return false;
  if (b->t.size() == 1) {
    auto r = std::make_shared<Poly>();
    mpq_class inv = 1 / b->t[0].c;
    for (auto &x : a->t) {
      Mono m;
      if (!mdiv(x.m, b->t[0].m, m)) return false;
      r->t.push_back({m, x.c * inv});
    }
    q = r;
    return true;
  }
  if (a->t.size() < b->t.size()) return false;
  {
    Mono m;
    if (!mdiv(a->t[0].m, b->t[0].m, m)) return false;
    if (!mdiv(a->t.back().m, b->t.back().m, m)) return false;
  }
  struct Cmp {
    bool operator()(const Mono &x, const Mono &y) const { return x.cmp(y) > 0; }
  };
  std::map<Mono, mpq_class, Cmp> rem;
  for (auto &x : a->t) rem.emplace_hint(rem.end(), x.m, x.c);
  auto r = std::make_shared<Poly>();
  size_t steps = 0;
  mpq_class tmp;
  while (!rem.empty()) {
    auto it = rem.begin();
    Mono m;
    if (!mdiv(it->first, b->t[0].m, m)) return false;
    mpq_class c = it->second / b->t[0].c;
    r->t.push_back({m, c});
    for (auto &y : b->t) {
      tmp = c * y.c;
      auto [jt, nw] = rem.try_emplace(mmul(m, y.m), 0);
      jt->second -= tmp;
      if (jt->second == 0) rem.erase(jt);
    }
    if (++steps > 200000) return false;
  }
  q = r;
  return true;
}
static uint64_t hashq(const mpq_class &q) {
  uint64_t h = 88172645463325252ull;
  for (auto z : {q.get_num_mpz_t(), q.get_den_mpz_t()}) {
    h = (h ^ (uint64_t)mpz_sgn(z)) * 0x9E3779B97F4A7C15ull;
    for (size_t i = 0; i < mpz_size(z); ++i) h = (h ^ mpz_getlimbn(z, i)) * 0x9E3779B97F4A7C15ull, h ^= h >> 31;
  }
  return h;
}
static uint64_t hashp(const PolyP &p) {
  if (p->h) return p->h;
  uint64_t h = 7;
  MHash mh;
  for (auto &t : p->t) h = (h * 31 + mh(t.m)) * 0x9E3779B97F4A7C15ull + hashq(t.c);
  p->h = h ? h : 1;
  return p->h;
}
static bool eqp(const PolyP &a, const PolyP &b) {
  if (a == b) return true;
  if (a->t.size() != b->t.size()) return false;
  for (size_t i = 0; i < a->t.size(); ++i)
    if (!(a->t[i].m == b->t[i].m) || a->t[i].c != b->t[i].c) return false;
  return true;
}
static int pdeg(const PolyP &p) {
  int d = 0;
  for (auto &t : p->t) d = std::max(d, t.m.deg());
  return d;
}
struct VSet {
  uint64_t b[(MAXVARS + 63) / 64] = {};
  void add(int v) { b[v >> 6] |= 1ull << (v & 63); }
  bool has(int v) const { return b[v >> 6] >> (v & 63) & 1; }
  bool meets(const VSet &o) const {
    for (size_t i = 0; i < std::size(b); ++i)
      if (b[i] & o.b[i]) return true;
    return false;
  }
  void join(const VSet &o) {
    for (size_t i = 0; i < std::size(b); ++i) b[i] |= o.b[i];
  }
};
static VSet pvars(const PolyP &p) {
  Mono m = mzero();
  for (auto &t : p->t)
    for (int i = 0; i < W; ++i) m.w[i] |= t.m.w[i];
  VSet s;
  for (int v = 0; v < MAXVARS; ++v)
    if (m.e(v)) s.add(v);
  return s;
}

// ---------------------------------------------------------------- variables
enum VKind { VBASE, VSQRT, VCOS, VSIN, VFREE };
struct Var {
  std::string name;
  VKind kind;
  mpq_class lo, hi; // tightened bounds
  bool loOpen = false, hiOpen = false, hasLo = true, hasHi = true;
  double dlo, dhi;
  PolyP def;      // VSQRT: y^2 = def
  int partner = -1; // VCOS<->VSIN
  mpq_class wit;  // witness (exact for base vars)
  int angleNode = -1;
  bool isInt = false;
};
static std::vector<Var> vars;
static std::map<std::string, int> varByName;
static bool anyAlg = false;

static PolyP ppow(PolyP b, int e) {
  PolyP r = mkConst(1);
  while (e) {
    if (e & 1) r = mul(r, b);
    e >>= 1;
    if (e) b = mul(b, b);
  }
  return r;
}
// rewrite y^2 -> def, s^2 -> 1-c^2
static PolyP reduceAlg(PolyP p) {
  if (!anyAlg) return p;
  for (int guard = 0; guard < 1000; ++guard) {
    int v = -1;
    for (auto &t : p->t) {
      for (int i = (int)vars.size() - 1; i >= 0; --i)
        if ((vars[i].kind == VSQRT || vars[i].kind == VSIN) && t.m.e(i) >= 2) {
          v = std::max(v, i);
          break;
        }
    }
    if (v < 0) return p;
    PolyP sq = vars[v].kind == VSQRT ? vars[v].def : addScaled(mkConst(1), mulRaw(mkVar(vars[v].partner), mkVar(vars[v].partner)), -1);
    // split by exponent
    std::map<int, std::shared_ptr<Poly>> parts;
    for (auto &t : p->t) {
      int e = t.m.e(v);
      Term n = t;
      n.m.set(v, e & 1);
      auto &pp = parts[e / 2];
      if (!pp) pp = std::make_shared<Poly>();
      pp->t.push_back(n);
    }
    PolyP r = mkConst(0);
    for (auto &[k, q] : parts) {
      std::sort(q->t.begin(), q->t.end(), [](const Term &x, const Term &y) { return x.m.cmp(y.m) > 0; });
      PolyP f = mkConst(1);
      for (int i = 0; i < k; ++i) f = mulRaw(f, sq);
      // q may contain duplicate monomials? no: exponent class fixes parity and k
      r = addScaled(r, mulRaw(f, q), 1);
    }
    p = r;
  }
  return p;
}

// ---------------------------------------------------------------- rational functions
struct FacTab {
  std::vector<PolyP> f;
  std::unordered_multimap<uint64_t, int> ix;
};
static FacTab fac;
static int facId(const PolyP &p) {
  uint64_t h = hashp(p);
  auto r = fac.ix.equal_range(h);
  for (auto it = r.first; it != r.second; ++it)
    if (eqp(fac.f[it->second], p)) return it->second;
  fac.f.push_back(p);
  fac.ix.emplace(h, (int)fac.f.size() - 1);
  return fac.f.size() - 1;
}
struct Node {
  PolyP num;
  std::vector<std::pair<int, int>> den; // sorted (factor, exp)
};
static std::deque<Node> nodes;
constexpr uint64_t TAG = 0x7FFDull;
static inline bool isSym(double x) {
  uint64_t b;
  memcpy(&b, &x, 8);
  return (b >> 48) == TAG;
}
static inline uint64_t idOf(double x) {
  uint64_t b;
  memcpy(&b, &x, 8);
  return b & 0xFFFFFFFFFFFFull;
}
static bool fitsDouble(const mpq_class &q, double &d) {
  d = q.get_d();
  if (!std::isfinite(d)) return false;
  if (d != 0 && std::abs(d) < 1e-290) return false;
  return mpq_class(d) == q;
}
static double mk(Node &&n) {
  if (n.den.empty() && n.num->isConst()) {
    if (n.num->zero()) return 0.0;
    double d;
    if (fitsDouble(n.num->t[0].c, d)) return d;
  }
  if (nodes.size() > 30000000) unsupported("node blow-up");
  nodes.push_back(std::move(n));
  uint64_t b = (TAG << 48) | (nodes.size() - 1);
  double r;
  memcpy(&r, &b, 8);
  return r;
}
static Node get(double x) {
  if (isSym(x)) return nodes[idOf(x)];
  Node n;
  n.num = mkConst(mpq_class(x));
  return n;
}
static double mkq(const mpq_class &q) {
  Node n;
  n.num = mkConst(q);
  return mk(std::move(n));
}
static bool isConstNode(const Node &n) { return n.den.empty() && n.num->isConst(); }
static mpq_class constOf(const Node &n) { return n.num->zero() ? mpq_class(0) : n.num->t[0].c; }

static PolyP expandDen(const std::vector<std::pair<int, int>> &d) {
  PolyP r = mkConst(1);
  for (auto &[f, e] : d) r = mul(r, ppow(fac.f[f], e));
  return r;
}
static void cancel(Node &n) {
  for (size_t i = 0; i < n.den.size();) {
    PolyP q;
    while (n.den[i].second > 0 && divExact(n.num, fac.f[n.den[i].first], q)) {
      n.num = q;
      n.den[i].second--;
    }
    if (n.den[i].second == 0) n.den.erase(n.den.begin() + i);
    else ++i;
  }
}
static Node addN(const Node &a, const Node &b, int sgn) {
  Node r;
  if (a.den == b.den) {
    r.num = addScaled(a.num, b.num, sgn);
    r.den = a.den;
    if (r.num->zero()) r.den.clear();
    else if (!r.den.empty()) cancel(r);
    return r;
  }
  std::vector<std::pair<int, int>> l, ma, mb;
  size_t i = 0, j = 0;
  while (i < a.den.size() || j < b.den.size()) {
    int fa = i < a.den.size() ? a.den[i].first : INT_MAX, fb = j < b.den.size() ? b.den[j].first : INT_MAX;
    if (fa == fb) {
      int e = std::max(a.den[i].second, b.den[j].second);
      l.push_back({fa, e});
      if (e > a.den[i].second) ma.push_back({fa, e - a.den[i].second});
      if (e > b.den[j].second) mb.push_back({fa, e - b.den[j].second});
      ++i;
      ++j;
    } else if (fa < fb) {
      l.push_back(a.den[i]);
      mb.push_back(a.den[i]);
      ++i;
    } else {
      l.push_back(b.den[j]);
      ma.push_back(b.den[j]);
      ++j;
    }
  }
  PolyP na = ma.empty() ? a.num : mul(a.num, expandDen(ma));
  PolyP nb = mb.empty() ? b.num : mul(b.num, expandDen(mb));
  r.num = addScaled(na, nb, sgn);
  if (!r.num->zero()) {
    r.den = l;
    cancel(r);
  }
  return r;
}
static Node mulN(const Node &a, const Node &b) {
  Node r;
  if (a.num->zero() || b.num->zero()) {
    r.num = mkConst(0);
    return r;
  }
  Node x{a.num, b.den}, y{b.num, a.den};
  if (!x.den.empty() && !x.num->isConst()) cancel(x);
  if (!y.den.empty() && !y.num->isConst()) cancel(y);
  r.num = mul(x.num, y.num);
  size_t i = 0, j = 0;
  while (i < x.den.size() || j < y.den.size()) {
    int fa = i < x.den.size() ? x.den[i].first : INT_MAX, fb = j < y.den.size() ? y.den[j].first : INT_MAX;
    if (fa == fb) r.den.push_back({fa, x.den[i++].second + y.den[j++].second});
    else if (fa < fb) r.den.push_back(x.den[i++]);
    else r.den.push_back(y.den[j++]);
  }
  if (anyAlg && !r.den.empty()) cancel(r);
  return r;
}
static Node invN(const Node &b) { // b != 0 assumed
  Node r;
  // 1/(num/den): numerator = expand(den)
  PolyP n = b.num;
  r.num = expandDen(b.den);
  // pure sqrt factor: 1/(c*y) = y/(c*def)
  if (n->t.size() == 1) {
    Mono m = n->t[0].m;
    r.num = scale(r.num, 1 / n->t[0].c);
    for (int v = 0; v < (int)vars.size(); ++v) {
      int e = m.e(v);
      if (!e) continue;
      if (vars[v].kind == VSQRT) {
        // e == 1
        r.num = mul(r.num, mkVar(v));
        PolyP d = vars[v].def;
        if (d->isConst()) r.num = scale(r.num, 1 / d->t[0].c);
        else {
          mpq_class lc = d->t[0].c;
          r.den.push_back({facId(scale(d, 1 / lc)), 1});
          r.num = scale(r.num, 1 / lc);
        }
      } else
        r.den.push_back({facId(mkVar(v)), e});
    }
  } else if (!n->isConst()) {
    mpq_class lc = n->t[0].c;
    PolyP p = scale(n, 1 / lc);
    r.num = scale(r.num, 1 / lc);
    // split off known factors
    std::map<int, int> ds;
    // monomial content
    Mono g = p->t[0].m;
    for (auto &t : p->t)
      for (int v = 0; v < (int)vars.size(); ++v)
        if (g.e(v)) g.set(v, std::min(g.e(v), t.m.e(v)));
    if (!g.one()) {
      auto q = std::make_shared<Poly>(*p);
      q->h = 0;
      for (auto &t : q->t) {
        Mono m;
        mdiv(t.m, g, m);
        t.m = m;
      }
      p = q;
      for (int v = 0; v < (int)vars.size(); ++v)
        if (g.e(v)) ds[facId(mkVar(v))] += g.e(v);
    }
    size_t nf = fac.f.size();
    for (size_t i = 0; i < nf && !p->isConst(); ++i) {
      if (fac.f[i]->isConst()) continue;
      PolyP q;
      while (!p->isConst() && divExact(p, fac.f[i], q)) {
        p = q;
        ds[i]++;
      }
    }
    if (!p->isConst()) {
      mpq_class l2 = p->t[0].c;
      ds[facId(scale(p, 1 / l2))]++;
      r.num = scale(r.num, 1 / l2);
    } else
      r.num = scale(r.num, 1 / p->t[0].c);
    for (auto &d : ds) r.den.push_back(d);
  } else
    r.num = scale(r.num, 1 / n->t[0].c);
  std::map<int, int> md;
  for (auto &d : r.den) md[d.first] += d.second;
  r.den.assign(md.begin(), md.end());
  if (!r.den.empty()) cancel(r);
  return r;
}

// ---------------------------------------------------------------- path condition
struct PC {
  PolyP p;
  int mask; // allowed signs: 1 neg, 2 zero, 4 pos
  VSet vs;
  bool lin;
};
static std::vector<PC> pcs;
static std::unordered_multimap<uint64_t, std::pair<PolyP, int>> signCache; // normalized poly -> mask
static std::vector<std::pair<int, PolyP>> substs;

static PolyP substVar(const PolyP &p, int v, const PolyP &by) {
  bool any = false;
  for (auto &t : p->t)
    if (t.m.e(v)) {
      any = true;
      break;
    }
  if (!any) return p;
  std::map<int, std::shared_ptr<Poly>> parts;
  for (auto &t : p->t) {
    Term n = t;
    int e = t.m.e(v);
    n.m.set(v, 0);
    auto &pp = parts[e];
    if (!pp) pp = std::make_shared<Poly>();
    pp->t.push_back(n);
  }
  PolyP r = mkConst(0);
  for (auto &[k, q] : parts) {
    std::sort(q->t.begin(), q->t.end(), [](const Term &x, const Term &y) { return x.m.cmp(y.m) > 0; });
    r = addScaled(r, mul(ppow(by, k), q), 1);
  }
  return r;
}
static PolyP substAll(PolyP p) {
  for (auto &s : substs) p = substVar(p, s.first, s.second);
  return p;
}

// normalise so that leading coefficient is 1; returns sign flip
static PolyP normSign(const PolyP &p, int &sg) {
  mpq_class lc = p->t[0].c;
  sg = lc > 0 ? 1 : -1;
  return scale(p, 1 / lc);
}
static int flipMask(int m) { return ((m & 1) << 2) | (m & 2) | ((m & 4) >> 2); }
static int cacheGet(const PolyP &n) {
  auto r = signCache.equal_range(hashp(n));
  for (auto it = r.first; it != r.second; ++it)
    if (eqp(it->second.first, n)) return it->second.second;
  return 7;
}
static void cachePut(const PolyP &n, int mask) {
  auto r = signCache.equal_range(hashp(n));
  for (auto it = r.first; it != r.second; ++it)
    if (eqp(it->second.first, n)) {
      it->second.second &= mask;
      return;
    }
  signCache.emplace(hashp(n), std::make_pair(n, mask));
}
struct Iv {
  double lo, hi;
};
static Iv ivmul(Iv a, Iv b) {
  double p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
  for (double &x : p)
    if (std::isnan(x)) x = 0; // 0*inf
  return {*std::min_element(p, p + 4), *std::max_element(p, p + 4)};
}
static Iv ivpow(Iv a, int e) {
  if (e == 1) return a;
  if (e % 2 == 0) {
    double l = std::abs(a.lo), h = std::abs(a.hi);
    double mx = std::pow(std::max(l, h), e), mn = (a.lo <= 0 && a.hi >= 0) ? 0 : std::pow(std::min(l, h), e);
    return {mn * (1 - 1e-14), mx * (1 + 1e-14)};
  }
  double x = std::pow(a.lo, e), y = std::pow(a.hi, e);
  return {x - std::abs(x) * 1e-14, y + std::abs(y) * 1e-14};
}
static Iv ivPoly(const PolyP &p) {
  double lo = 0, hi = 0, mag = 0;
  for (auto &t : p->t) {
    double c = t.c.get_d();
    Iv m{1, 1};
    for (int i = 0; i < W; ++i) {
      if (!t.m.w[i]) continue;
      for (int k = 0; k < 8; ++k) {
        int v = i * 8 + k, e = t.m.e(v);
        if (e) m = ivmul(m, ivpow({vars[v].dlo, vars[v].dhi}, e));
      }
    }
    Iv x = ivmul(m, {c, c});
    lo += x.lo;
    hi += x.hi;
    mag += std::max(std::abs(x.lo), std::abs(x.hi));
  }
  double sl = mag * 1e-13;
  if (!std::isfinite(mag)) return {-INFINITY, INFINITY};
  return {lo - sl, hi + sl};
}
// exact interval for linear univariate
static int ivMask(const PolyP &p) {
  // exact treatment of c1*x + c0
  if (p->t.size() <= 2 && p->t[0].m.deg() == 1 && (p->t.size() == 1 || p->t[1].m.one())) {
    int v = -1;
    for (int i = 0; i < (int)vars.size(); ++i)
      if (p->t[0].m.e(i)) v = i;
    mpq_class c1 = p->t[0].c, c0 = p->t.size() == 2 ? p->t[1].c : mpq_class(0);
    const Var &x = vars[v];
    int m = 0;
    // values range
    mpq_class r = -c0 / c1; // root
    bool below = !x.hasLo || x.lo < r, above = !x.hasHi || x.hi > r;
    bool at = (!x.hasLo || x.lo < r || (x.lo == r && !x.loOpen)) && (!x.hasHi || x.hi > r || (x.hi == r && !x.hiOpen));
    if (below) m |= c1 > 0 ? 1 : 4;
    if (above) m |= c1 > 0 ? 4 : 1;
    if (at) m |= 2;
    return m ? m : 7;
  }
  Iv i = ivPoly(p);
  if (i.lo > 0) return 4;
  if (i.hi < 0) return 1;
  return 7;
}

// witness evaluation ------------------------------------------------------
static bool hasAlg(const PolyP &p) {
  if (!anyAlg) return false;
  for (auto &t : p->t)
    for (int v = 0; v < (int)vars.size(); ++v)
      if (t.m.e(v) && vars[v].kind != VBASE) return true;
  return false;
}
static mpq_class evalq(const PolyP &p, const std::vector<mpq_class> &w) {
  mpq_class s = 0, x;
  for (auto &t : p->t) {
    x = t.c;
    for (int i = 0; i < W; ++i) {
      if (!t.m.w[i]) continue;
      for (int k = 0; k < 8; ++k) {
        int v = i * 8 + k, e = t.m.e(v);
        for (int q = 0; q < e; ++q) x *= w[v];
      }
    }
    s += x;
  }
  return s;
}
struct FastPoly {
  std::vector<double> c;
  std::vector<std::vector<std::pair<int, int>>> m;
};
static FastPoly fast(const PolyP &p) {
  FastPoly f;
  for (auto &t : p->t) {
    f.c.push_back(t.c.get_d());
    f.m.emplace_back();
    for (int i = 0; i < W; ++i) {
      if (!t.m.w[i]) continue;
      for (int k = 0; k < 8; ++k)
        if (int e = t.m.e(i * 8 + k)) f.m.back().push_back({i * 8 + k, e});
    }
  }
  return f;
}
static double evald(const FastPoly &f, const std::vector<double> &w, double *mag = nullptr) {
  double s = 0, mg = 0;
  for (size_t i = 0; i < f.c.size(); ++i) {
    double x = f.c[i];
    for (auto &[v, e] : f.m[i])
      for (int q = 0; q < e; ++q) x *= w[v];
    s += x;
    mg += std::abs(x);
  }
  if (mag) *mag = mg;
  return s;
}
static std::vector<mpq_class> witness() {
  std::vector<mpq_class> w;
  for (auto &v : vars) w.push_back(v.wit);
  return w;
}
static int sgnD(double v, double mag) {
  if (std::abs(v) <= 1e-9 * mag + 1e-300) return 99;
  return v > 0 ? 1 : -1;
}
// fills algebraic variables from base ones (doubles); false when undefined
static double evalNodeD(const Node &n, const std::vector<double> &w);
static bool fillAlg(std::vector<double> &w) {
  for (int v = 0; v < (int)vars.size(); ++v) {
    if (vars[v].kind == VSQRT) {
      double x = evald(fast(vars[v].def), w);
      if (x < 0) {
        if (x > -1e-12) x = 0;
        else return false;
      }
      w[v] = std::sqrt(x);
    } else if (vars[v].kind == VCOS || vars[v].kind == VSIN) {
      double a = evalNodeD(nodes[vars[v].angleNode], w);
      w[v] = vars[v].kind == VCOS ? std::cos(a) : std::sin(a);
    }
  }
  return true;
}
static double evalNodeD(const Node &n, const std::vector<double> &w) {
  double x = evald(fast(n.num), w);
  for (auto &[f, e] : n.den) x /= std::pow(evald(fast(fac.f[f]), w), e);
  return x;
}
// sign of p under the witness: -1,0,1 or 99 (unreliable)
static int witSign(const PolyP &p) {
  if (!hasAlg(p)) {
    int s = sgn(evalq(p, witness()));
    if (approxWitness) {
      std::vector<double> w;
      for (auto &v : vars) w.push_back(v.wit.get_d());
      double mag, x = evald(fast(p), w, &mag);
      return sgnD(x, mag);
    }
    return s;
  }
  std::vector<double> w;
  for (auto &v : vars) w.push_back(v.wit.get_d());
  double mag, x = evald(fast(p), w, &mag);
  return sgnD(x, mag);
}
static int maskOf(int s) { return s < 0 ? 1 : s == 0 ? 2 : 4; }

// ---------------------------------------------------------------- solver
struct Cons {
  PolyP p;
  int mask;
};
enum Res { UNSAT, SAT, UNK };
static bool linearPoly(const PolyP &p) {
  for (auto &t : p->t)
    if (t.m.deg() > 1) return false;
  return true;
}
struct ZX {
  z3::context c;
  std::vector<z3::expr> v;
};
static z3::expr zq(z3::context &c, const mpq_class &q) { return c.real_val(q.get_str().c_str()); }
static z3::expr zvar(z3::context &c, int v) { return c.real_const(("x" + std::to_string(v)).c_str()); }
static z3::expr zpoly(z3::context &c, const PolyP &p) {
  if (p->zero()) return c.real_val(0);
  z3::expr_vector sum(c);
  for (auto &t : p->t) {
    z3::expr_vector f(c);
    if (t.c != 1 || t.m.one()) f.push_back(zq(c, t.c));
    for (int v = 0; v < (int)vars.size(); ++v)
      for (int e = t.m.e(v); e > 0; --e) f.push_back(zvar(c, v));
    if (f.size() == 1) sum.push_back(f[0]);
    else {
      std::vector<Z3_ast> a;
      for (unsigned i = 0; i < f.size(); ++i) a.push_back(f[i]);
      sum.push_back(z3::expr(c, Z3_mk_mul(c, a.size(), a.data())));
    }
  }
  if (sum.size() == 1) return sum[0];
  return z3::sum(sum);
}
static z3::expr zcons(z3::context &c, const Cons &k) {
  z3::expr e = zpoly(c, k.p);
  z3::expr z = c.real_val(0);
  switch (k.mask) {
  case 1: return e < z;
  case 2: return e == z;
  case 3: return e <= z;
  case 4: return e > z;
  case 5: return e != z;
  case 6: return e >= z;
  case 0: return c.bool_val(false);
  default: return c.bool_val(true);
  }
}
static void addBounds(z3::context &c, z3::solver &s, const VSet &vs) {
  for (int v = 0; v < (int)vars.size(); ++v) {
    if (!vs.has(v)) continue;
    auto &x = vars[v];
    if (x.kind == VBASE || x.kind == VFREE) {
      if (x.hasLo) s.add(x.loOpen ? zvar(c, v) > zq(c, x.lo) : zvar(c, v) >= zq(c, x.lo));
      if (x.hasHi) s.add(x.hiOpen ? zvar(c, v) < zq(c, x.hi) : zvar(c, v) <= zq(c, x.hi));
    } else if (x.kind == VSQRT) {
      s.add(zvar(c, v) >= 0);
      s.add(zvar(c, v) * zvar(c, v) == zpoly(c, x.def));
    } else if (x.kind == VCOS) {
      s.add(zvar(c, v) * zvar(c, v) + zvar(c, x.partner) * zvar(c, x.partner) == 1);
    }
  }
}
static void dumpQuery(z3::solver &s, z3::check_result r) {
  const char *d = getenv("SYM_DUMP");
  if (!d) return;
  int k = S->ndump++;
  if (k >= atoi(getenv("SYM_DUMP_MAX") ? getenv("SYM_DUMP_MAX") : "200")) return;
  std::ofstream o(std::string(d) + "/q" + std::to_string(k) + (r == z3::sat ? ".sat" : ".unsat") + ".smt2");
  o << s.to_smt2();
}
static std::shared_ptr<z3::context> linCtx;
using Model = std::map<int, mpq_class>;
static bool parseNum(const std::string &s0, mpq_class &q) {
  std::string s = s0;
  if (!s.empty() && s.back() == '?') s.pop_back();
  auto dot = s.find('.');
  if (dot == std::string::npos) {
    q = mpq_class(s, 10);
    q.canonicalize();
    return true;
  }
  std::string ip = s.substr(0, dot), fp = s.substr(dot + 1);
  q = mpq_class(ip + fp + "/1" + std::string(fp.size(), '0'), 10);
  q.canonicalize();
  return true;
}
static void extractModel(z3::context &c, z3::model m, const VSet &vs, std::ostream &o, bool &approx) {
  for (int v = 0; v < (int)vars.size(); ++v) {
    if (!vs.has(v)) continue;
    z3::expr x = m.eval(zvar(c, v), true);
    std::string s;
    if (Z3_is_numeral_ast(c, x) && !Z3_is_algebraic_number(c, x)) s = Z3_get_numeral_string(c, x);
    else if (Z3_is_algebraic_number(c, x)) {
      approx = true;
      s = Z3_get_numeral_decimal_string(c, x, 30);
    } else continue;
    o << v << " " << s << "\n";
  }
}
// random search for a satisfying point near the witness
static std::mt19937_64 rng(12345);
static std::vector<FastPoly> pcFast;
static bool satisfiesD(const std::vector<double> &w, const FastPoly &f, int mask) {
  double mag, x = evald(f, w, &mag);
  if (mask == 2) return std::abs(x) <= 1e-12 * mag;
  int s = sgnD(x, mag);
  if (s == 99) return false;
  return maskOf(s) & mask;
}
static void project(std::vector<double> &w) { // apply equality substitutions
  for (auto it = substs.rbegin(); it != substs.rend(); ++it) w[it->first] = evald(fast(it->second), w);
}
static bool insideD(const std::vector<double> &w) {
  for (size_t v = 0; v < vars.size(); ++v) {
    auto &x = vars[v];
    if (x.kind == VBASE || x.kind == VFREE) {
      if (x.hasLo && (x.loOpen ? w[v] <= x.dlo : w[v] < x.dlo)) return false;
      if (x.hasHi && (x.hiOpen ? w[v] >= x.dhi : w[v] > x.dhi)) return false;
    }
  }
  return true;
}
// calls f on random points satisfying the path condition; stop when f is true
template <class F> static bool sampleLoop(const VSet &vs, int n, F f) {
  std::vector<int> ix;
  for (size_t v = 0; v < vars.size(); ++v)
    if (vs.has(v) && (vars[v].kind == VBASE || vars[v].kind == VFREE)) ix.push_back(v);
  if (ix.empty()) return false;
  std::vector<double> base;
  for (auto &v : vars) base.push_back(v.wit.get_d());
  for (size_t i = pcFast.size(); i < pcs.size(); ++i) pcFast.push_back(fast(pcs[i].p));
  std::uniform_real_distribution<double> U(0, 1);
  for (int k = 0; k < n; ++k) {
    auto w = base;
    double sc = k % 3 == 0 ? 1 : k % 3 == 1 ? 0.1 : 0.01;
    int which = rng() % 3;
    int single = ix[rng() % ix.size()];
    for (int v : ix) {
      if (which == 0 && v != single) continue;
      double lo = vars[v].hasLo ? vars[v].dlo : -10, hi = vars[v].hasHi ? vars[v].dhi : 10;
      double r = lo + (hi - lo) * U(rng);
      w[v] = base[v] + sc * (r - base[v]);
      // keep the numbers short
      w[v] = std::round(w[v] * 1048576.) / 1048576.;
      if (w[v] < lo) w[v] = lo;
      if (w[v] > hi) w[v] = hi;
    }
    project(w);
    if (!insideD(w)) continue;
    if (anyAlg && !fillAlg(w)) continue;
    bool ok = true;
    for (size_t i = 0; i < pcs.size() && ok; ++i) ok = satisfiesD(w, pcFast[i], pcs[i].mask);
    if (!ok) continue;
    if (f(w)) return true;
  }
  return false;
}
static Res solveSlice(const std::vector<Cons> &extra, Model &m, bool &approx, bool wantModel) {
  VSet vs;
  for (auto &e : extra) vs.join(pvars(e.p));
  // closure over path conditions
  std::vector<char> in(pcs.size(), 0);
  bool ch = true;
  auto closeVars = [&]() {
    for (int v = 0; v < (int)vars.size(); ++v)
      if (vs.has(v)) {
        if (vars[v].kind == VSQRT) {
          VSet d = pvars(vars[v].def);
          VSet o = vs;
          vs.join(d);
          if (memcmp(&o, &vs, sizeof vs)) ch = true;
        }
        if (vars[v].partner >= 0 && !vs.has(vars[v].partner)) {
          vs.add(vars[v].partner);
          ch = true;
        }
      }
  };
  while (ch) {
    ch = false;
    closeVars();
    for (size_t i = 0; i < pcs.size(); ++i)
      if (!in[i] && pcs[i].vs.meets(vs)) {
        in[i] = 1;
        vs.join(pcs[i].vs);
        ch = true;
      }
  }
  bool lin = true;
  for (auto &e : extra) lin &= linearPoly(e.p);
  for (size_t i = 0; i < pcs.size(); ++i)
    if (in[i]) lin &= pcs[i].lin;
  for (int v = 0; v < (int)vars.size(); ++v)
    if (vs.has(v) && vars[v].kind != VBASE && vars[v].kind != VFREE) lin = false;
  approx = false;
  double t0 = now();
  if (lin) {
    S->q_linear++;
    if (!linCtx) linCtx = std::make_shared<z3::context>();
    z3::context &c = *linCtx;
    z3::solver s(c, "QF_LRA");
    addBounds(c, s, vs);
    for (size_t i = 0; i < pcs.size(); ++i)
      if (in[i]) s.add(zcons(c, {pcs[i].p, pcs[i].mask}));
    for (auto &e : extra) s.add(zcons(c, e));
    z3::check_result r = s.check();
    dumpQuery(s, r);
    S->solver_ns += (long)((now() - t0) * 1e9);
    if (r == z3::unsat) {
      S->linear_unsat++;
      return UNSAT;
    }
    if (r == z3::unknown) return UNK;
    S->linear_sat++;
    if (wantModel) {
      std::ostringstream o;
      extractModel(c, s.get_model(), vs, o, approx);
      std::istringstream in2(o.str());
      int v;
      std::string q;
      while (in2 >> v >> q) parseNum(q, m[v]);
    }
    return SAT;
  }
  S->q_nonlinear++;
  int fd[2];
  if (pipe(fd)) return UNK;
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGPROF, SIGALRM}) signal(sg, SIG_DFL);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    rlimit rl{(rlim_t)(nl_timeout_ms / 1000 + 1), (rlim_t)(nl_timeout_ms / 1000 + 2)};
    setrlimit(RLIMIT_CPU, &rl);
    std::ostringstream o;
    try {
      z3::context c;
      z3::solver s = (z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values") & z3::tactic(c, "solve-eqs") & z3::tactic(c, "qfnra-nlsat")).mk_solver();
      addBounds(c, s, vs);
      for (size_t i = 0; i < pcs.size(); ++i)
        if (in[i]) s.add(zcons(c, {pcs[i].p, pcs[i].mask}));
      for (auto &e : extra) s.add(zcons(c, e));
      z3::check_result r = s.check();
      if (r != z3::unknown) dumpQuery(s, r);
      bool ap = false;
      if (r == z3::unsat) o << "unsat\n";
      else if (r == z3::sat) {
        std::ostringstream mm;
        extractModel(c, s.get_model(), vs, mm, ap);
        o << (ap ? "sata\n" : "sat\n") << mm.str();
      } else
        o << "unknown\n";
    } catch (z3::exception &e) {
      o << "unknown\n";
    }
    std::string str = o.str();
    (void)!write(fd[1], str.data(), str.size());
    _exit(0);
  }
  close(fd[1]);
  std::string buf;
  double dl = now() + nl_timeout_ms * 1e-3;
  char tmp[4096];
  while (true) {
    int left = (int)((dl - now()) * 1000);
    if (left <= 0) break;
    pollfd pf{fd[0], POLLIN, 0};
    int r = poll(&pf, 1, left);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) break;
    ssize_t n = read(fd[0], tmp, sizeof tmp);
    if (n <= 0) break;
    buf.append(tmp, n);
  }
  close(fd[0]);
  kill(pid, SIGKILL);
  waitpid(pid, nullptr, 0);
  S->solver_ns += (long)((now() - t0) * 1e9);
  std::istringstream is(buf);
  std::string head;
  is >> head;
  if (head == "unsat") {
    S->nl_unsat++;
    return UNSAT;
  }
  if (head == "sat" || head == "sata") {
    S->nl_sat++;
    approx = head == "sata";
    int v;
    std::string q;
    while (is >> v >> q) parseNum(q, m[v]);
    return SAT;
  }
  S->q_unknown++;
  return UNK;
}

static void setWitness(const Model &m, bool approx) {
  for (auto &[v, q] : m) vars[v].wit = q;
  if (approx) approxWitness = true;
  if (anyAlg) {
    // pull free angles towards the chosen cos/sin, then refresh dependents
    for (int v = 0; v < (int)vars.size(); ++v)
      if (vars[v].kind == VCOS && m.count(v)) {
        const Node &a = nodes[vars[v].angleNode];
        if (a.den.empty() && a.num->t.size() == 1 && a.num->t[0].m.deg() == 1) {
          int b = -1;
          for (int i = 0; i < (int)vars.size(); ++i)
            if (a.num->t[0].m.e(i)) b = i;
          double ang = std::atan2(vars[vars[v].partner].wit.get_d(), vars[v].wit.get_d()) / a.num->t[0].c.get_d();
          double per = 2 * M_PI / std::abs(a.num->t[0].c.get_d());
          if (b >= 0 && !m.count(b)) {
            if (vars[b].hasLo) while (ang < vars[b].dlo - 1e-12) ang += per;
            if (vars[b].hasHi) while (ang > vars[b].dhi + 1e-12) ang -= per;
            vars[b].wit = mpq_class(ang);
            approxWitness = true;
          }
        }
      }
    std::vector<double> w;
    for (auto &v : vars) w.push_back(v.wit.get_d());
    if (fillAlg(w))
      for (int v = 0; v < (int)vars.size(); ++v)
        if (vars[v].kind == VSQRT) vars[v].wit = mpq_class(w[v]);
  }
}

static Res feasible(const PolyP &p, int mask, Model &m, bool &approx) {
  // quick sampling first (nonlinear only)
  approx = false;
  bool lin = linearPoly(p) && !hasAlg(p);
  if (!lin && mask != 2) {
    FastPoly f = fast(p);
    std::vector<double> sol;
    if (sampleLoop(pvars(p), 60, [&](const std::vector<double> &w) {
          if (satisfiesD(w, f, mask)) {
            sol = w;
            return true;
          }
          return false;
        })) {
      S->q_sample_sat++;
      for (size_t v = 0; v < vars.size(); ++v) m[v] = mpq_class(sol[v]);
      bool alg = anyAlg;
      approx = alg;
      if (!substs.empty()) approx = true;
      return SAT;
    }
  }
  return solveSlice({{p, mask}}, m, approx, true);
}

static std::string polyStr(const PolyP &p, size_t maxT = 6) {
  std::ostringstream o;
  size_t k = 0;
  for (auto &t : p->t) {
    if (k++ >= maxT) {
      o << " + ...(" << p->t.size() << " terms)";
      break;
    }
    std::string c = t.c.get_str();
    if (c.size() > 12) {
      char b[32];
      snprintf(b, sizeof b, "%.6g", t.c.get_d());
      c = b;
    }
    o << (k > 1 ? " + " : "") << c;
    for (int v = 0; v < (int)vars.size(); ++v)
      if (int e = t.m.e(v)) {
        o << "*" << vars[v].name;
        if (e > 1) o << "^" << e;
      }
  }
  if (p->zero()) o << "0";
  return o.str();
}
static void tighten(const PolyP &p, int mask) {
  if (p->t.size() <= 2 && p->t[0].m.deg() == 1 && (p->t.size() == 1 || p->t[1].m.one())) {
    int v = -1;
    for (int i = 0; i < (int)vars.size(); ++i)
      if (p->t[0].m.e(i)) v = i;
    mpq_class c1 = p->t[0].c, c0 = p->t.size() == 2 ? p->t[1].c : mpq_class(0), r = -c0 / c1;
    if (c1 < 0) mask = flipMask(mask);
    Var &x = vars[v];
    if (!(mask & 4)) { // x <= r (or <)
      bool open = !(mask & 2);
      if (!x.hasHi || r < x.hi || (r == x.hi && open)) {
        x.hi = r;
        x.hiOpen = open;
        x.hasHi = true;
      }
    }
    if (!(mask & 1)) {
      bool open = !(mask & 2);
      if (!x.hasLo || r > x.lo || (r == x.lo && open)) {
        x.lo = r;
        x.loOpen = open;
        x.hasLo = true;
      }
    }
    if (mask == 5) {
      if (x.hasLo && x.lo == r) x.loOpen = true;
      if (x.hasHi && x.hi == r) x.hiOpen = true;
    }
    auto dn = [](const mpq_class &q) { double d = q.get_d(); return mpq_class(d) > q ? std::nextafter(d, -INFINITY) : d; };
    auto up = [](const mpq_class &q) { double d = q.get_d(); return mpq_class(d) < q ? std::nextafter(d, INFINITY) : d; };
    if (x.hasLo) x.dlo = dn(x.lo);
    if (x.hasHi) x.dhi = up(x.hi);
  }
}
static void addPC(PolyP p, int mask) { // p already substituted, non constant
  int sg;
  PolyP n = normSign(p, sg);
  int m = sg > 0 ? mask : flipMask(mask);
  cachePut(n, m);
  PC c;
  c.p = n;
  c.mask = m;
  c.vs = pvars(n);
  for (int v = (int)vars.size() - 1; v >= 0; --v) // a root is linked to what it is the root of
    if (c.vs.has(v) && vars[v].kind == VSQRT) c.vs.join(pvars(vars[v].def));
  c.lin = linearPoly(n);
  pcs.push_back(c);
  tighten(n, m);
  if (m == 2) {
    // linear in some base variable with constant coefficient?
    for (int v = 0; v < (int)vars.size(); ++v) {
      if (!c.vs.has(v) || vars[v].kind != VBASE) continue;
      int hits = 0;
      bool ok = true;
      mpq_class cf;
      for (auto &t : n->t)
        if (t.m.e(v)) {
          Mono mm = t.m;
          int e = mm.e(v);
          mm.set(v, 0);
          if (e != 1 || !mm.one()) ok = false;
          hits++;
          cf = t.c;
        }
      if (!ok || hits != 1) continue;
      auto rest = std::make_shared<Poly>();
      for (auto &t : n->t)
        if (!t.m.e(v)) rest->t.push_back(t);
      PolyP by = scale(rest, -1 / cf);
      // a sqrt variable whose definition mentions v stays linked through the solver only
      for (auto &s : substs) s.second = substVar(s.second, v, by);
      substs.push_back({v, by});
      break;
    }
  }
}

// ---------------------------------------------------------------- process control
static std::vector<std::string> chosen; // names of chosen ints
static std::map<std::string, int> chosenVal;
static void armTimer() {
  itimerval it{};
  it.it_value.tv_sec = path_cpu_s;
  setitimer(ITIMER_PROF, &it, nullptr);
}
static void disarmTimer() {
  itimerval it{};
  setitimer(ITIMER_PROF, &it, nullptr);
}
static void waitKids() {
  for (pid_t k : kids) waitpid(k, nullptr, 0);
  kids.clear();
}
static bool ownsToken = false; // this process consumes a token of its own
[[noreturn]] static void endPath() {
  disarmTimer();
  if (!kids.empty()) {
    if (ownsToken) {
      S->tokens++;
      waitKids();
    } else
      waitKids();
  } else if (ownsToken)
    S->tokens++;
  fflush(stdout);
  _exit(0);
}
static void saveSample(const char *what) {
  auto &cs = S->cs[curCase];
  int k = cs.samples++;
  if (k >= 2) return;
  std::ofstream o(outDir + "/samples.txt", std::ios::app);
  std::ostringstream s;
  s << curName << "\t" << what << "\t";
  for (auto &[n, v] : chosenVal) s << n << "=" << v << " ";
  size_t i = 0;
  for (auto &c : pcs) {
    if (i++ >= 6) {
      s << "; ...(" << pcs.size() << " conditions)";
      break;
    }
    static const char *rel[] = {"false", "<0", "=0", "<=0", ">0", "!=0", ">=0", "true"};
    s << (i > 1 ? "; " : "") << polyStr(c.p, 4) << rel[c.mask];
  }
  s << "\n";
  o << s.str();
}
[[noreturn]] static void unsupported(const char *why) {
  if (curCase >= 0) {
    S->cs[curCase].unsupported++;
    std::ofstream o(outDir + "/unsupported.txt", std::ios::app);
    o << curName << "\t" << why << "\t" << lastLabel << "\n";
  } else
    fprintf(stderr, "unsupported: %s\n", why);
  endPath();
}
static void writeModel(const std::string &file, const std::string &label, const std::string &kind, const std::string &detail, const std::vector<double> &w) {
  std::ofstream o(file);
  o << "case " << curName << "\nlabel " << label << "\nkind " << kind << "\ndetail " << detail << "\n";
  for (auto &[n, v] : chosenVal) o << "var " << n << " " << v << "\n";
  for (size_t v = 0; v < vars.size(); ++v)
    if (vars[v].kind == VBASE) {
      char b[64];
      snprintf(b, sizeof b, "%a", w[v]);
      o << "var " << vars[v].name << " " << b << "   # " << w[v] << "\n";
    }
}
// every failure kind that this path can produce is written as a candidate
static void writeCandidate(const std::string &label, const std::string &kind, const std::string &detail,
                           const std::vector<std::vector<double>> &models) {
  S->cs[curCase].candidates++;
  unsigned h = 5381;
  for (char ch : label + "|" + kind)
    if (ch < '0' || ch > '9') h = h * 33 + (unsigned char)ch;
  if (S->cs[curCase].lab[(h ^ (h >> 7)) & 63]++ >= 8) return;
  int k = S->ncand++;
  if (k > 4000) return;
  int mi = 0;
  for (auto &w : models) {
    writeModel(outDir + "/cand_" + std::to_string(k) + "_" + std::to_string(mi++) + ".txt", label, kind, detail, w);
  }
}
static std::vector<double> witD() {
  std::vector<double> w;
  for (auto &v : vars) w.push_back(v.wit.get_d());
  return w;
}
static std::vector<std::vector<double>> pathModels(int extra) {
  std::vector<std::vector<double>> r{witD()};
  VSet all;
  for (size_t v = 0; v < vars.size(); ++v) all.add(v);
  int n = 0;
  sampleLoop(all, 200, [&](const std::vector<double> &w) {
    r.push_back(w);
    return ++n >= extra;
  });
  return r;
}
static volatile sig_atomic_t handling = 0;
static void onSignal(int s) {
  if (handling || !inCase) _exit(90);
  handling = 1;
  const char *m = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGPROF ? "TIMEOUT" : s == SIGFPE ? "SIGFPE" : "signal";
  if (s == SIGPROF) S->cs[curCase].timeouts++;
  writeCandidate(s == SIGPROF ? "hang" : "crash", m, "after " + lastLabel, s == SIGPROF ? std::vector<std::vector<double>>{witD()} : pathModels(3));
  S->cs[curCase].paths++;
  endPath();
}
static void installSignals() {
  static char alt[1 << 16];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_handler = onSignal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGPROF, SIGILL}) sigaction(s, &sa, nullptr);
}
static void checkBudget() {
  auto &cs = S->cs[curCase];
  double t = now();
  if (t > deadline_case || t > deadline_all || cs.paths + cs.forks > maxPaths * 4 || cs.forks > maxPaths) {
    cs.abandoned++;
    endPath();
  }
}
// fork: returns true in the child
static bool forkPath() {
  auto &cs = S->cs[curCase];
  checkBudget();
  cs.forks++;
  bool par = false;
  int t = S->tokens.load();
  while (t > 0)
    if (S->tokens.compare_exchange_weak(t, t - 1)) {
      par = true;
      break;
    }
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) {
    if (par) S->tokens++;
    cs.abandoned++;
    return false;
  }
  if (pid == 0) {
    kids.clear();
    ownsToken = par;
    rng.seed(rng() ^ getpid());
    armTimer();
    return true;
  }
  if (par) kids.push_back(pid);
  else {
    disarmTimer();
    waitpid(pid, nullptr, 0);
    armTimer();
    checkBudget();
  }
  return false;
}

// sign(a*sqrt(N) + b) and sign(a*sqrt(N) + b*sqrt(M)) for constants a, b: compare squares instead
static PolyP unroot(const PolyP &p) {
  if (p->t.size() > 2) return p;
  int v[2] = {-1, -1};
  mpq_class c[2] = {0, 0};
  for (size_t i = 0; i < p->t.size(); ++i) {
    auto &t = p->t[i];
    c[i] = t.c;
    if (t.m.one()) continue;
    if (t.m.deg() != 1) return p;
    for (int k = 0; k < (int)vars.size(); ++k)
      if (t.m.e(k)) v[i] = k;
    if (v[i] < 0 || vars[v[i]].kind != VSQRT) return p;
  }
  if (v[0] < 0 && v[1] < 0) return p;
  auto sq = [&](int i) { // c^2 * def, or c^2
    mpq_class q = c[i] * c[i];
    return v[i] < 0 ? mkConst(q) : scale(vars[v[i]].def, q);
  };
  if (p->t.size() == 1) return scale(sq(0), sgn(c[0]));
  if (sgn(c[0]) == sgn(c[1])) {
    if (v[0] < 0 || v[1] < 0) return mkConst(sgn(c[0]));
    return p;
  }
  PolyP d = addScaled(sq(0), sq(1), -1);
  return sgn(c[0]) > 0 ? d : scale(d, -1);
}
// Decide whether sign(p) is in `want` (mask).  Forks when both are possible.
static bool decideMask(PolyP p, int want) {
  if (!substs.empty()) p = substAll(p);
  if (anyAlg) {
    PolyP q = unroot(p);
    if (q != p) p = substs.empty() ? q : substAll(q);
  }
  if (p->isConst()) {
    S->q_const++;
    return maskOf(p->zero() ? 0 : sgn(p->t[0].c)) & want;
  }
  int sg;
  PolyP n = normSign(p, sg);
  if (sg < 0) want = flipMask(want);
  int poss = cacheGet(n);
  if (!(poss & ~want) || !(poss & want)) {
    S->q_cache++;
    return poss & want;
  }
  if (inCase && now() > deadline_case + 5) checkBudget();
  int iv = ivMask(n);
  poss &= iv;
  if (poss && (!(poss & ~want) || !(poss & want))) {
    S->q_interval++;
    return poss & want;
  }
  if (!poss) poss = iv;
  int ws = witSign(n);
  Model mo;
  bool ap = false;
  if (ws != 99) {
    S->q_witness++;
    bool side = maskOf(ws) & want;
    int other = poss & (side ? ~want : want) & 7;
    Res r = feasible(n, other, mo, ap);
    if (r == UNSAT) {
      cachePut(n, side ? want : (~want & 7));
      return side;
    }
    if (forkPath()) {
      addPC(n, other);
      if (r == SAT) setWitness(mo, ap);
      else approxWitness = true; // unknown: witness not valid, checks by solver
      return !side;
    }
    addPC(n, poss & (side ? want : ~want));
    return side;
  }
  // unreliable witness: query both
  Model m1, m2;
  bool a1, a2;
  Res r1 = feasible(n, poss & want, m1, a1);
  if (r1 == UNSAT) {
    cachePut(n, ~want & 7);
    return false;
  }
  Res r2 = feasible(n, poss & ~want & 7, m2, a2);
  if (r2 == UNSAT) {
    cachePut(n, want);
    return true;
  }
  if (forkPath()) {
    addPC(n, poss & ~want & 7);
    if (r2 == SAT) setWitness(m2, a2);
    return false;
  }
  addPC(n, poss & want);
  if (r1 == SAT) setWitness(m1, a1);
  return true;
}
static int denSign(const Node &n) {
  int s = 1;
  for (auto &[f, e] : n.den)
    if (e & 1)
      if (decideMask(fac.f[f], 1)) s = -s;
  return s;
}
// truth of  (n rel 0) given as mask of allowed signs
static bool decideNode(const Node &n, int want) {
  if (n.num->isConst() && n.den.empty()) return maskOf(n.num->zero() ? 0 : sgn(n.num->t[0].c)) & want;
  if (n.den.empty() || want == 2 || want == 5) return decideMask(n.num, want);
  int s = denSign(n);
  return decideMask(n.num, s > 0 ? want : flipMask(want));
}

// ---------------------------------------------------------------- operations
static double dsub(double a, double b);
extern "C" int __sym_fcmp(int pred, double a, double b);

static double negv(double a) {
  if (!isSym(a)) return -a;
  Node n = get(a);
  n.num = scale(n.num, -1);
  return mk(std::move(n));
}
static int signOf(double a) { // forks
  if (!isSym(a)) return a < 0 ? -1 : a > 0 ? 1 : 0;
  Node n = get(a);
  if (decideNode(n, 1)) return -1;
  return decideNode(n, 2) ? 0 : 1;
}
static int newVar(const std::string &name, VKind k) {
  if ((int)vars.size() >= MAXVARS) unsupported("too many variables");
  Var v;
  v.name = name;
  v.kind = k;
  v.wit = 0;
  v.dlo = -INFINITY;
  v.dhi = INFINITY;
  v.hasLo = v.hasHi = false;
  vars.push_back(v);
  return vars.size() - 1;
}
static double varNode(int v) {
  Node n;
  n.num = mkVar(v);
  return mk(std::move(n));
}
// integer square root of a polynomial: p == q^2 ?
static bool polySqrt(const PolyP &p, PolyP &q) {
  if (p->zero()) {
    q = p;
    return true;
  }
  // Newton-free: leading-term division algorithm
  auto sqrtq = [](const mpq_class &c, mpq_class &r) {
    if (c < 0) return false;
    mpz_class a = sqrt(c.get_num()), b = sqrt(c.get_den());
    if (a * a != c.get_num() || b * b != c.get_den()) return false;
    r = mpq_class(a, b);
    return true;
  };
  auto sqrtm = [](const Mono &m, Mono &r) {
    r = mzero();
    for (int v = 0; v < (int)vars.size(); ++v) {
      int e = m.e(v);
      if (e & 1) return false;
      if (e) r.set(v, e / 2);
    }
    return true;
  };
  mpq_class c;
  Mono m;
  if (!sqrtq(p->t[0].c, c) || !sqrtm(p->t[0].m, m)) return false;
  auto s = std::make_shared<Poly>();
  s->t.push_back({m, c});
  PolyP cur = s;
  PolyP rem = addScaled(p, mulRaw(cur, cur), -1);
  for (int it = 0; it < 200 && !rem->zero(); ++it) {
    Mono d;
    Mono lead = m;
    if (!mdiv(rem->t[0].m, lead, d)) return false;
    if (d.cmp(cur->t.back().m) >= 0) return false;
    auto nt = std::make_shared<Poly>();
    nt->t.push_back({d, rem->t[0].c / (2 * c)});
    // rem -= (2 cur + nt) * nt
    PolyP two = addScaled(scale(cur, 2), nt, 1);
    rem = addScaled(rem, mulRaw(two, nt), -1);
    cur = addScaled(cur, nt, 1);
  }
  if (!rem->zero()) return false;
  q = cur;
  return true;
}
static std::unordered_multimap<uint64_t, std::pair<PolyP, int>> sqrtTab;
static double absv(double a);
static double sqrtv(double a) {
  if (!isSym(a)) {
    if (!(a >= 0)) return std::sqrt(a);
    return std::sqrt(a);
  }
  Node n = get(a);
  if (isConstNode(n)) {
    mpq_class q = constOf(n);
    if (q < 0) return NAN;
    mpz_class x = sqrt(q.get_num()), y = sqrt(q.get_den());
    if (x * x == q.get_num() && y * y == q.get_den()) return mkq(mpq_class(x, y));
    return std::sqrt(q.get_d());
  }
  if (decideNode(n, 1)) return NAN; // negative
  // sqrt(N/D): make D a square: N*Dodd / D'^2
  PolyP N = n.num;
  std::vector<std::pair<int, int>> half;
  for (auto &[f, e] : n.den) {
    int ee = e;
    if (ee & 1) {
      N = mul(N, fac.f[f]);
      ee++;
    }
    half.push_back({f, ee / 2});
  }
  if (!substs.empty()) N = substAll(N);
  if (N->zero()) return 0.0;
  Node r;
  PolyP q;
  if (polySqrt(N, q)) {
    r.num = q;
    r.den = half;
    return absv(mk(std::move(r)));
  }
  // square-free-ish: pull out constant
  mpq_class lc = abs(N->t[0].c);
  mpz_class ln = sqrt(lc.get_num()), ld = sqrt(lc.get_den());
  mpq_class outer = 1;
  if (ln * ln == lc.get_num() && ld * ld == lc.get_den()) {
    outer = mpq_class(ln, ld);
    N = scale(N, 1 / lc);
  }
  if (N->isConst()) { // constant after substitution
    Node x;
    x.num = scale(mkConst(mpq_class(std::sqrt(N->t[0].c.get_d()))), outer);
    x.den = half;
    return absv(mk(std::move(x)));
  }
  int v = -1;
  auto rg = sqrtTab.equal_range(hashp(N));
  for (auto it = rg.first; it != rg.second; ++it)
    if (eqp(it->second.first, N)) v = it->second.second;
  if (v < 0) {
    v = newVar("sqrt" + std::to_string(vars.size()), VSQRT);
    vars[v].def = N;
    Iv i = ivPoly(N);
    vars[v].dlo = i.lo > 0 ? std::sqrt(i.lo) * (1 - 1e-12) : 0;
    vars[v].dhi = std::sqrt(std::max(i.hi, 0.)) * (1 + 1e-12);
    vars[v].lo = 0;
    vars[v].hasLo = true;
    if (std::isfinite(vars[v].dhi)) {
      vars[v].hasHi = true;
      vars[v].hi = mpq_class(vars[v].dhi);
    }
    anyAlg = true;
    std::vector<double> w = witD();
    double x = evald(fast(N), w);
    vars[v].wit = mpq_class(std::sqrt(std::max(x, 0.)));
    sqrtTab.emplace(hashp(N), std::make_pair(N, v));
  }
  r.num = scale(mkVar(v), outer);
  r.den = half;
  // sign of the denominators' halves
  double res = mk(std::move(r));
  if (!half.empty()) return absv(res);
  return res;
}
static double absv(double a) {
  if (!isSym(a)) return std::fabs(a);
  Node n = get(a);
  if (isConstNode(n)) return constOf(n) < 0 ? negv(a) : a;
  return decideNode(n, 1) ? negv(a) : a;
}

extern "C" double __sym_bin(int op, double a, double b) {
  if (__builtin_expect(!isSym(a) && !isSym(b), 1)) {
    if (op == SYM_FMODOP) return std::fmod(a, b);
    double r = op == SYM_ADD ? a + b : op == SYM_SUB ? a - b : op == SYM_MUL ? a * b : a / b;
    if (!inCase) return r;
    if (!std::isfinite(a) || !std::isfinite(b)) return r;
    if (op == SYM_ADD || op == SYM_SUB) {
      double y = op == SYM_ADD ? b : -b;
      double bb = r - a, err = (a - (r - bb)) + (y - bb);
      if (err == 0 && std::isfinite(r)) return r;
      mpq_class q = mpq_class(a) + mpq_class(y);
      return mkq(q);
    }
    if (op == SYM_MUL) {
      if (a == 0 || b == 0) return r;
      if (std::isfinite(r) && std::abs(r) > 1e-280 && std::fma(a, b, -r) == 0) return r;
      mpq_class q = mpq_class(a) * mpq_class(b);
      return mkq(q);
    }
    if (b == 0) return r;
    if (a == 0) return r;
    if (std::isfinite(r) && std::abs(r) > 1e-280 && std::abs(a) > 1e-280 && std::fma(r, b, -a) == 0) return r;
    mpq_class q = mpq_class(a) / mpq_class(b);
    return mkq(q);
  }
  // IEEE specials mixed with finite symbolic values
  bool sa = isSym(a), sb = isSym(b);
  if (!sa && !std::isfinite(a)) {
    if (std::isnan(a)) return a;
    if (op == SYM_ADD || op == SYM_SUB) return a;
    int s = signOf(b);
    if (op == SYM_MUL) return s == 0 ? NAN : s * a;
    if (op == SYM_DIV) return s < 0 ? -a : a;
    return NAN;
  }
  if (!sb && !std::isfinite(b)) {
    if (std::isnan(b)) return b;
    if (op == SYM_ADD) return b;
    if (op == SYM_SUB) return -b;
    if (op == SYM_MUL) {
      int s = signOf(a);
      return s == 0 ? NAN : s * b;
    }
    if (op == SYM_DIV) return 0.0;
    return a;
  }
  switch (op) {
  case SYM_ADD:
    if (!sa && a == 0) return b;
    if (!sb && b == 0) return a;
    return mk(addN(get(a), get(b), 1));
  case SYM_SUB:
    if (!sb && b == 0) return a;
    return mk(addN(get(a), get(b), -1));
  case SYM_MUL:
    if ((!sa && a == 0) || (!sb && b == 0)) return 0.0;
    if (!sa && a == 1) return b;
    if (!sb && b == 1) return a;
    return mk(mulN(get(a), get(b)));
  case SYM_DIV: {
    if (!sb) {
      if (b == 0) {
        int s = signOf(a);
        return s == 0 ? NAN : s * (1 / b);
      }
      if (b == 1) return a;
      Node n = get(a);
      n.num = scale(n.num, 1 / mpq_class(b));
      return mk(std::move(n));
    }
    Node nb = get(b);
    if (decideNode(nb, 2)) {
      int s = signOf(a);
      return s == 0 ? NAN : s * INFINITY;
    }
    if (!sa && a == 0) return 0.0;
    return mk(mulN(get(a), invN(nb)));
  }
  case SYM_FMODOP: {
    extern double sym_fmod(double, double);
    return sym_fmod(a, b);
  }
  }
  return NAN;
}
static double badd(double a, double b) { return __sym_bin(SYM_ADD, a, b); }
static double dsub(double a, double b) { return __sym_bin(SYM_SUB, a, b); }
static double bmul(double a, double b) { return __sym_bin(SYM_MUL, a, b); }
static double bdiv(double a, double b) { return __sym_bin(SYM_DIV, a, b); }

extern "C" int __sym_fcmp(int pred, double a, double b) {
  // LLVM predicates: bit0 = eq, bit1 = gt, bit2 = lt, bit3 = unordered
  bool sa = isSym(a), sb = isSym(b);
  if (!sa && !sb) {
    if (std::isnan(a) || std::isnan(b)) return (pred >> 3) & 1;
    return a == b ? (pred & 1) : a > b ? ((pred >> 1) & 1) : ((pred >> 2) & 1);
  }
  if ((!sa && std::isnan(a)) || (!sb && std::isnan(b))) return (pred >> 3) & 1;
  int p = pred & 7;
  if (p == 7) return 1;
  if (p == 0) return 0;
  if (!sa && std::isinf(a)) return a > 0 ? (p >> 1) & 1 : (p >> 2) & 1;
  if (!sb && std::isinf(b)) return b > 0 ? (p >> 2) & 1 : (p >> 1) & 1;
  if (sa && sb && idOf(a) == idOf(b)) return p & 1;
  Node d = addN(get(a), get(b), -1);
  int want = ((p & 4) ? 1 : 0) | ((p & 1) ? 2 : 0) | ((p & 2) ? 4 : 0);
  return decideNode(d, want) ? 1 : 0;
}
static mpz_class floorq(const mpq_class &q) {
  mpz_class r;
  mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
  return r;
}
// floor of a symbolic value, forking over integers
static double floorv(double a) {
  if (!isSym(a)) return std::floor(a);
  Node n = get(a);
  if (isConstNode(n)) return floorq(constOf(n)).get_d();
  double w = evalNodeD(n, witD());
  long k = (long)std::floor(w);
  for (int it = 0; it < 64; ++it) {
    // prefer witness integer, then walk outwards
    long c = k + ((it & 1) ? (it + 1) / 2 : -(it / 2));
    if (__sym_fcmp(3 /*oge*/, a, (double)c) && __sym_fcmp(4 /*olt*/, a, (double)(c + 1))) return (double)c;
  }
  unsupported("floor range");
}
static double truncv(double a) {
  if (!isSym(a)) return std::trunc(a);
  if (__sym_fcmp(3, a, 0.0)) return floorv(a);
  return -floorv(negv(a));
}
double sym_fmod(double a, double b) {
  double q = truncv(bdiv(a, b));
  return dsub(a, bmul(q, b));
}
extern "C" int __sym_ne_strict(double a, double b) {
  if (isSym(a) && !isConstNode(nodes[idOf(a)])) return 1;
  return __sym_fcmp(6, a, b);
}
extern "C" long __sym_fptosi(double a) {
  if (!isSym(a)) {
    if (!(a > -9.3e18 && a < 9.3e18)) return LONG_MIN;
    return (long)a;
  }
  return (long)truncv(a);
}
extern "C" unsigned long __sym_fptoui(double a) {
  if (!isSym(a)) {
    if (!(a > -1 && a < 1.9e19)) return (unsigned long)LONG_MIN;
    return (unsigned long)a;
  }
  return (unsigned long)(long)truncv(a);
}
// trigonometry -------------------------------------------------------------
struct Trig {
  Node angle;
  double c, s;
};
static std::vector<Trig> trigs;
static bool sameNode(const Node &a, const Node &b) { return a.den == b.den && eqp(a.num, b.num); }
static double trigConst(double x, bool cs);
static bool trigKnown(const Node &n, double &c, double &s) {
  for (auto &t : trigs)
    if (sameNode(t.angle, n)) {
      c = t.c;
      s = t.s;
      return true;
    }
  Node m = n;
  m.num = scale(m.num, -1);
  for (auto &t : trigs)
    if (sameNode(t.angle, m)) {
      c = t.c;
      s = negv(t.s);
      return true;
    }
  if (!n.den.empty() || n.num->t.size() != 1) return false;
  // integer multiple of a known angle
  for (size_t i = 0; i < trigs.size(); ++i) {
    const Node &a = trigs[i].angle;
    if (!a.den.empty() || a.num->t.size() != 1 || a.num->t[0].m.cmp(n.num->t[0].m) != 0) continue;
    mpq_class k = n.num->t[0].c / a.num->t[0].c;
    if (k.get_den() != 1 || abs(k) > 8) continue;
    int q = (int)k.get_num().get_si();
    double c1 = trigs[i].c, s1 = trigs[i].s, cc = 1, ss = 0;
    for (int j = 0; j < std::abs(q); ++j) {
      double x = dsub(bmul(cc, c1), bmul(ss, s1)), y = badd(bmul(ss, c1), bmul(cc, s1));
      cc = x;
      ss = y;
    }
    c = cc;
    s = q < 0 ? negv(ss) : ss;
    return true;
  }
  return false;
}
static void trigOf(double a, double &c, double &s) {
  Node n = get(a);
  if (trigKnown(n, c, s)) return;
  if (n.den.empty() && n.num->t.size() > 1) {
    // constant shift: addition theorem
    const Term &last = n.num->t.back();
    if (last.m.one()) {
      double k = last.c.get_d(), ck = trigConst(k, true), sk = trigConst(k, false), cg, sg;
      Node g;
      g.num = addScaled(n.num, mkConst(last.c), -1);
      trigOf(mk(std::move(g)), cg, sg);
      c = dsub(bmul(cg, ck), bmul(sg, sk));
      s = badd(bmul(sg, ck), bmul(cg, sk));
      return;
    }
    // sum of angles that are all known
    double cs = 1, ss = 0;
    bool all = true;
    for (auto &t : n.num->t) {
      auto p = std::make_shared<Poly>();
      p->t.push_back(t);
      Node g;
      g.num = p;
      double c1, s1;
      if (!trigKnown(g, c1, s1)) {
        all = false;
        break;
      }
      double x = dsub(bmul(cs, c1), bmul(ss, s1)), y = badd(bmul(ss, c1), bmul(cs, s1));
      cs = x;
      ss = y;
    }
    if (all) {
      c = cs;
      s = ss;
      return;
    }
  }
  int vc = newVar("cos" + std::to_string(vars.size()), VCOS);
  int vs = newVar("sin" + std::to_string(vars.size()), VSIN);
  vars[vc].partner = vs;
  vars[vs].partner = vc;
  vars[vc].angleNode = vars[vs].angleNode = (int)idOf(a);
  for (int v : {vc, vs}) {
    vars[v].lo = -1;
    vars[v].hi = 1;
    vars[v].dlo = -1;
    vars[v].dhi = 1;
    vars[v].hasLo = vars[v].hasHi = true;
  }
  anyAlg = true;
  double w = evalNodeD(n, witD());
  vars[vc].wit = mpq_class(std::cos(w));
  vars[vs].wit = mpq_class(std::sin(w));
  c = varNode(vc);
  s = varNode(vs);
  trigs.push_back({n, c, s});
}
static double angleVar(double c, double s, double lo, double hi, double wit) {
  int v = newVar("ang" + std::to_string(vars.size()), VFREE);
  vars[v].lo = mpq_class(lo);
  vars[v].hi = mpq_class(hi);
  vars[v].dlo = lo;
  vars[v].dhi = hi;
  vars[v].hasLo = vars[v].hasHi = true;
  vars[v].wit = mpq_class(wit);
  double r = varNode(v);
  trigs.push_back({get(r), c, s});
  return r;
}
static double cdbl(double a) { // constant node -> double
  if (!isSym(a)) return a;
  Node n = get(a);
  if (!isConstNode(n)) return NAN;
  return constOf(n).get_d();
}
static bool isConstV(double a) { return !isSym(a) || isConstNode(nodes[idOf(a)]); }
// cos and sin of a constant: multiples of pi/2 are recognised within rounding
static double trigConst(double x, bool cs) {
  double k = std::round(x / (M_PI / 2));
  if (std::abs(k) < 1e6 && std::abs(x - k * (M_PI / 2)) < 1e-14 * (1 + std::abs(x))) {
    int q = (((long)k % 4) + 4) % 4;
    static const int co[4] = {1, 0, -1, 0}, si[4] = {0, 1, 0, -1};
    return cs ? co[q] : si[q];
  }
  return cs ? std::cos(x) : std::sin(x);
}

extern "C" double __sym_fn1(int op, double a) {
  if (!isSym(a) || isConstNode(nodes[idOf(a)])) {
    switch (op) {
    case SYM_NEG: return negv(a);
    case SYM_FABS: return absv(a);
    case SYM_SQRT: return sqrtv(a);
    case SYM_FLOOR: return floorv(a);
    case SYM_CEIL: return -floorv(negv(a));
    case SYM_TRUNC: return truncv(a);
    case SYM_ROUND: {
      double x = absv(a);
      double r = floorv(badd(x, 0.5));
      return __sym_fcmp(4, a, 0.0) ? -r : r;
    }
    }
    double x = cdbl(a);
    switch (op) {
    case SYM_SIN: return inCase ? trigConst(x, false) : std::sin(x);
    case SYM_COS: return inCase ? trigConst(x, true) : std::cos(x);
    case SYM_TAN: return std::tan(x);
    case SYM_ASIN: return std::asin(x);
    case SYM_ACOS: return std::acos(x);
    case SYM_ATAN: return std::atan(x);
    case SYM_EXP: return std::exp(x);
    case SYM_LOG: return std::log(x);
    case SYM_LOG10: return std::log10(x);
    case SYM_LOG2: return std::log2(x);
    case SYM_RINT: return std::rint(x);
    case SYM_CBRT: return std::cbrt(x);
    case SYM_SINH: return std::sinh(x);
    case SYM_COSH: return std::cosh(x);
    case SYM_TANH: return std::tanh(x);
    case SYM_EXP2: return std::exp2(x);
    case SYM_LOG1P: return std::log1p(x);
    case SYM_EXPM1: return std::expm1(x);
    }
    return NAN;
  }
  double c, s;
  switch (op) {
  case SYM_NEG: return negv(a);
  case SYM_FABS: return absv(a);
  case SYM_SQRT: return sqrtv(a);
  case SYM_FLOOR: return floorv(a);
  case SYM_CEIL: return -floorv(negv(a));
  case SYM_TRUNC: return truncv(a);
  case SYM_ROUND: {
    bool neg = __sym_fcmp(4, a, 0.0);
    double r = floorv(badd(neg ? negv(a) : a, 0.5));
    return neg ? -r : r;
  }
  case SYM_RINT: return floorv(badd(a, 0.5));
  case SYM_SIN: trigOf(a, c, s); return s;
  case SYM_COS: trigOf(a, c, s); return c;
  case SYM_TAN: trigOf(a, c, s); return bdiv(s, c);
  case SYM_ACOS: {
    double w = evalNodeD(get(a), witD());
    if (__sym_fcmp(2, a, 1.0) || __sym_fcmp(4, a, -1.0)) return NAN;
    return angleVar(a, sqrtv(dsub(1.0, bmul(a, a))), 0, 3.1415926535897936, std::acos(w));
  }
  case SYM_ASIN: {
    double w = evalNodeD(get(a), witD());
    if (__sym_fcmp(2, a, 1.0) || __sym_fcmp(4, a, -1.0)) return NAN;
    return angleVar(sqrtv(dsub(1.0, bmul(a, a))), a, -1.5707963267948968, 1.5707963267948968, std::asin(w));
  }
  }
  unsupported("transcendental function of a symbolic value");
}
extern "C" double __sym_powi(double a, int e) {
  if (e < 0) return bdiv(1.0, __sym_powi(a, -e));
  double r = 1, b = a;
  while (e) {
    if (e & 1) r = bmul(r, b);
    e >>= 1;
    if (e) b = bmul(b, b);
  }
  return r;
}
extern "C" double __sym_fma(double a, double b, double c) {
  return badd(bmul(a, b), c);
}
extern "C" double __sym_fn2(int op, double a, double b) {
  bool conc = isConstV(a) && isConstV(b);
  switch (op) {
  case SYM_FMIN:
    if (!isSym(a) && std::isnan(a)) return b;
    if (!isSym(b) && std::isnan(b)) return a;
    return __sym_fcmp(4, a, b) ? a : b;
  case SYM_FMAX:
    if (!isSym(a) && std::isnan(a)) return b;
    if (!isSym(b) && std::isnan(b)) return a;
    return __sym_fcmp(2, a, b) ? a : b;
  case SYM_FDIM: return __sym_fcmp(2, a, b) ? dsub(a, b) : 0.0;
  case SYM_HYPOT: return sqrtv(badd(bmul(a, a), bmul(b, b)));
  case SYM_COPYSIGN: {
    bool neg = isSym(b) ? __sym_fcmp(4, b, 0.0) : std::signbit(b);
    double x = absv(a);
    return neg ? negv(x) : x;
  }
  case SYM_FMOD:
    if (!isSym(a) && !isSym(b)) return std::fmod(a, b);
    return sym_fmod(a, b);
  case SYM_POW:
    if (isConstV(b)) {
      double e = cdbl(b);
      if (e == std::floor(e) && std::abs(e) <= 64) return __sym_powi(a, (int)e);
      if (e == 0.5) return sqrtv(a);
    }
    if (conc) return std::pow(cdbl(a), cdbl(b));
    break;
  case SYM_ATAN2: {
    if (conc) return std::atan2(cdbl(a), cdbl(b));
    double r = sqrtv(badd(bmul(a, a), bmul(b, b)));
    if (__sym_fcmp(1, r, 0.0)) return 0.0;
    auto w = witD();
    return angleVar(bdiv(b, r), bdiv(a, r), -3.1415926535897936, 3.1415926535897936,
                    std::atan2(isSym(a) ? evalNodeD(get(a), w) : a, isSym(b) ? evalNodeD(get(b), w) : b));
  }
  case SYM_REMAINDER:
    if (conc) return std::remainder(cdbl(a), cdbl(b));
    break;
  }
  unsupported("binary math function of a symbolic value");
}
extern "C" double __sym_concrete(double a, int mode) {
  if (!isSym(a)) return a;
  if (isConstV(a)) return cdbl(a);
  if (mode == 0) {
    S->concretised++;
    return evalNodeD(get(a), witD());
  }
  unsupported("symbolic value reaches uninstrumented code");
}
extern "C" int __sym_fpclass(double a, int mask) {
  if (!isSym(a)) return __builtin_isfpclass(a, 0x3ff) ? ([&] {
    int c = 0;
    if (std::isnan(a)) c = 0x3;
    else if (std::isinf(a)) c = a < 0 ? 0x4 : 0x200;
    else if (a == 0) c = std::signbit(a) ? 0x20 : 0x40;
    else if (std::abs(a) < DBL_MIN) c = a < 0 ? 0x10 : 0x80;
    else c = a < 0 ? 0x8 : 0x100;
    return (c & mask) ? 1 : 0;
  }()) : 0;
  int fin = 0x1f8;
  if ((mask & fin) == fin) return 1;
  if ((mask & fin) == 0) return 0;
  int s = signOf(a);
  int c = s < 0 ? 0x8 : s > 0 ? 0x100 : 0x40;
  return (c & mask) ? 1 : 0;
}
extern "C" long __sym_signbits(double a) {
  if (!isSym(a)) {
    long b;
    memcpy(&b, &a, 8);
    return b;
  }
  return __sym_fcmp(4, a, 0.0) ? -1 : 1;
}

extern "C" void __sym_enter(const char *name, char *flag) {
  if (*flag || !inCase) return;
  *flag = 1;
  static int fd = -1;
  if (fd < 0) fd = open((outDir + "/functions.txt").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0666);
  std::string s = std::string(name) + "\n";
  (void)!write(fd, s.data(), s.size());
}

// ---------------------------------------------------------------- harness API
extern "C" double __sym_real(const char *name, double lo, double hi) {
  auto it = varByName.find(name);
  if (it != varByName.end()) return varNode(it->second);
  int v = newVar(name, VBASE);
  auto &x = vars[v];
  x.lo = mpq_class(lo);
  x.hi = mpq_class(hi);
  x.dlo = lo;
  x.dhi = hi;
  x.hasLo = x.hasHi = true;
  // witness: an unremarkable interior point, different for each variable
  uint64_t h = 1469598103934665603ull;
  for (const char *c = name; *c; ++c) h = (h ^ *c) * 1099511628211ull;
  double f = 0.25 + 0.5 * ((h >> 20) & 1023) / 1023.;
  x.wit = mpq_class(std::round((lo + f * (hi - lo)) * 1024) / 1024);
  if (x.wit < x.lo || x.wit > x.hi) x.wit = (x.lo + x.hi) / 2;
  varByName[name] = v;
  S->cs[curCase].nvars = std::max<int>(S->cs[curCase].nvars, (int)vars.size());
  return varNode(v);
}
extern "C" int __sym_choose(const char *name, int lo, int hi) {
  auto it = chosenVal.find(name);
  if (it != chosenVal.end()) return it->second;
  for (int v = lo; v < hi; ++v)
    if (forkPath()) {
      chosenVal[name] = v;
      return v;
    }
  chosenVal[name] = hi;
  return hi;
}
extern "C" void __sym_prune(const char *) {
  S->cs[curCase].pruned++;
  endPath();
}
extern "C" void __sym_assume_rel(double a, double b, int rel) {
  Node d = addN(get(a), get(b), -1);
  int want = rel == 0 ? 1 : rel == 1 ? 3 : rel == 2 ? 2 : 5;
  if (isConstNode(d)) {
    if (!(maskOf(sgn(constOf(d))) & want)) __sym_prune("assume");
    return;
  }
  if (!d.den.empty() && want != 2 && want != 5 && denSign(d) < 0) want = flipMask(want);
  PolyP p = substAll(d.num);
  if (p->isConst()) {
    if (!(maskOf(p->zero() ? 0 : sgn(p->t[0].c)) & want)) __sym_prune("assume");
    return;
  }
  int ws = witSign(p);
  if (ws == 99 || !(maskOf(ws) & want)) {
    Model m;
    bool ap;
    Res r = feasible(p, want, m, ap);
    if (r == UNSAT) __sym_prune("assume");
    addPC(p, want);
    if (r == SAT) setWitness(m, ap);
    return;
  }
  addPC(p, want);
}
static void violation(const std::string &label, const std::string &kind, const std::string &detail,
                      const std::vector<std::vector<double>> &models) {
  saveSample(("CANDIDATE " + label).c_str());
  writeCandidate(label, kind, detail, models);
}
// is  p in mask  impossible on this path?  returns UNSAT/SAT/UNK, fills candidate models
// The solver's verdict on an equality whose two sides have the same normal form:
// z3 gets the two sides separately (not the cancelled difference).
static bool z3Identity(const Node &a, const Node &b, const mpq_class &tol) {
  PolyP A = a.num, B = b.num;
  if (a.den != b.den) {
    A = mul(A, expandDen(b.den));
    B = mul(B, expandDen(a.den));
  }
  A = substAll(A);
  B = substAll(B);
  if (A->t.size() + B->t.size() > 3000) return false;
  double t0 = now();
  if (!linCtx) linCtx = std::make_shared<z3::context>();
  z3::context &c = *linCtx;
  z3::solver s(c, "QF_NRA");
  z3::expr d = zpoly(c, A) - zpoly(c, B), t = zq(c, tol);
  s.add((d > t || d < -t).simplify());
  z3::check_result r = s.check();
  S->solver_ns += (long)((now() - t0) * 1e9);
  if (r == z3::unsat) {
    S->c_z3id++;
    return true;
  }
  return false;
}
static const Node *idA = nullptr, *idB = nullptr;
static void checkNever(const std::string &label, const Node &diff, const mpq_class &tol, bool twoSided, const std::string &what) {
  // violated when N/D > tol or (twoSided) N/D < -tol
  auto &cs = S->cs[curCase];
  cs.checks++;
  lastLabel = label;
  PolyP N = substAll(diff.num);
  if (N->zero() && tol >= 0) {
    S->c_identity++;
    if (idA) z3Identity(*idA, *idB, tol);
    return;
  }
  std::vector<std::pair<PolyP, int>> dens;
  PolyP D = mkConst(1);
  if (!diff.den.empty()) {
    int s = denSign(diff);
    D = substAll(expandDen(diff.den));
    if (s < 0) {
      D = scale(D, -1);
      N = scale(N, -1);
    }
  }
  if (N->isConst() && D->isConst()) {
    S->c_concrete++;
    mpq_class v = N->zero() ? mpq_class(0) : mpq_class(N->t[0].c / D->t[0].c);
    if (v > tol || (twoSided && v < -tol)) violation(label, "concrete", what + " diff=" + std::to_string(v.get_d()), pathModels(2));
    return;
  }
  PolyP up = addScaled(N, scale(D, tol), -1); // > 0 violates
  PolyP dn = addScaled(scale(N, -1), scale(D, tol), -1);
  Iv iu = ivPoly(up);
  if (iu.hi <= 0) {
    Iv id = twoSided ? ivPoly(dn) : Iv{-1, -1};
    if (id.hi <= 0) {
      S->c_interval++;
      return;
    }
  }
  // candidate search by evaluation
  FastPoly fu = fast(N), fd = fast(D);
  double best = 0;
  std::vector<std::vector<double>> cand;
  auto tryPoint = [&](const std::vector<double> &w) {
    double m;
    double x = evald(fu, w, &m) / evald(fd, w);
    double v = twoSided ? std::abs(x) : x;
    if (v > tol.get_d() * 1.01 + 1e-13 * m && v > best) {
      best = v;
      cand.insert(cand.begin(), w);
    }
    return false;
  };
  VSet vs = pvars(N);
  vs.join(pvars(D));
  if (!approxWitness) tryPoint(witD());
  VSet all;
  for (size_t v = 0; v < vars.size(); ++v) all.add(v);
  sampleLoop(all, 60, tryPoint);
  if (!cand.empty()) {
    if (cand.size() > 4) cand.resize(4);
    violation(label, "neq", what + " diff=" + std::to_string(best), cand);
    return;
  }
  S->c_solver++;
  for (int side = 0; side < (twoSided ? 2 : 1); ++side) {
    PolyP q = side ? dn : up;
    if (ivPoly(q).hi <= 0) continue;
    Model m;
    bool ap;
    Res r = solveSlice({{q, 4}}, m, ap, true);
    if (r == SAT) {
      auto w = witD();
      for (auto &[v, x] : m) w[v] = x.get_d();
      violation(label, "solver", what, {w});
      return;
    }
    if (r == UNK) {
      cs.undecided++;
      S->c_undecided++;
      return;
    }
  }
}
extern "C" void __sym_check_eq(double a, double b, double tol, const char *label) {
  lastLabel = label;
  if ((!isSym(a) && !std::isfinite(a)) || (!isSym(b) && !std::isfinite(b))) {
    S->cs[curCase].checks++;
    if (!isSym(a) && !isSym(b) && a == b) return;
    violation(label, "nonfinite", "non-finite value", pathModels(3));
    return;
  }
  Node na = get(a), nb = get(b);
  idA = &na;
  idB = &nb;
  checkNever(label, addN(na, nb, -1), mpq_class(tol), true, "eq");
  idA = idB = nullptr;
}
extern "C" void __sym_check_le(double a, double b, double tol, const char *label) {
  lastLabel = label;
  if ((!isSym(a) && !std::isfinite(a)) || (!isSym(b) && !std::isfinite(b))) {
    S->cs[curCase].checks++;
    if (!isSym(a) && a == -INFINITY) return;
    if (!isSym(b) && b == INFINITY) return;
    violation(label, "nonfinite", "non-finite value", pathModels(3));
    return;
  }
  checkNever(label, addN(get(a), get(b), -1), mpq_class(tol), false, "le");
}
extern "C" void __sym_fail(const char *label, const char *detail) {
  lastLabel = label;
  S->cs[curCase].checks++;
  violation(label, "bool", detail, pathModels(4));
  S->cs[curCase].paths++;
  endPath();
}
extern "C" void __sym_pass(const char *label) {
  lastLabel = label;
  S->cs[curCase].checks++;
  S->c_concrete++;
}
extern "C" int __sym_is_symbolic(double a) { return isSym(a) && !isConstV(a); }
extern "C" double __sym_witness(double a) { return isSym(a) ? evalNodeD(get(a), witD()) : a; }
extern "C" void __sym_print(const char *t, double a) {
  if (!isSym(a)) {
    printf("%s = %.17g\n", t, a);
    return;
  }
  Node n = get(a);
  printf("%s = [%s]", t, polyStr(n.num, 12).c_str());
  for (auto &[f, e] : n.den) printf(" / [%s]^%d", polyStr(fac.f[f]).c_str(), e);
  printf("  ~ %g\n", evalNodeD(n, witD()));
  fflush(stdout);
}
static PolyP dpoly(const PolyP &p, int v) {
  auto r = std::make_shared<Poly>();
  for (auto &t : p->t)
    if (int e = t.m.e(v)) {
      Term n = t;
      n.m.set(v, e - 1);
      n.c *= e;
      r->t.push_back(n);
    }
  std::sort(r->t.begin(), r->t.end(), [](const Term &x, const Term &y) { return x.m.cmp(y.m) > 0; });
  return r;
}
static Node dNode(const Node &n, int v);
// total derivative of a polynomial wrt base variable v, through algebraic variables
static Node dPolyTotal(const PolyP &p, int v) {
  Node r;
  r.num = dpoly(p, v);
  if (anyAlg) {
    VSet vs = pvars(p);
    for (int a = 0; a < (int)vars.size(); ++a) {
      if (!vs.has(a) || a == v) continue;
      Node outer;
      if (vars[a].kind == VSQRT) { // y' = def'/(2y) = def' * y / (2 def)
        Node dd = dPolyTotal(vars[a].def, v);
        if (dd.num->zero()) continue;
        Node y;
        y.num = mkVar(a);
        Node f;
        f.num = scale(vars[a].def, 2);
        Node yp = mulN(dd, mulN(y, invN(f)));
        outer.num = dpoly(p, a);
        r = addN(r, mulN(outer, yp), 1);
      } else if (vars[a].kind == VCOS || vars[a].kind == VSIN) {
        Node da = dNode(nodes[vars[a].angleNode], v);
        if (da.num->zero()) continue;
        Node y;
        y.num = vars[a].kind == VCOS ? scale(mkVar(vars[a].partner), -1) : mkVar(vars[a].partner);
        outer.num = dpoly(p, a);
        r = addN(r, mulN(outer, mulN(y, da)), 1);
      }
    }
  }
  return r;
}
static Node dNode(const Node &n, int v) {
  // (N/D)' = N'/D - N/D * sum e_i f_i'/f_i
  Node base;
  base.num = mkConst(1);
  base.den = n.den;
  Node r = mulN(dPolyTotal(n.num, v), base);
  for (auto &[f, e] : n.den) {
    Node df = dPolyTotal(fac.f[f], v);
    if (df.num->zero()) continue;
    Node fi;
    fi.num = mkConst(e);
    fi.den = {{f, 1}};
    r = addN(r, mulN(mulN(n, fi), df), -1);
  }
  return r;
}
extern "C" double __sym_deriv(double f, double var) {
  if (!isSym(f)) return 0.0;
  Node v = get(var);
  int id = -1;
  for (int i = 0; i < (int)vars.size(); ++i)
    if (v.den.empty() && v.num->t.size() == 1 && v.num->t[0].m.deg() == 1 && v.num->t[0].m.e(i)) id = i;
  if (id < 0) unsupported("derivative with respect to a non-variable");
  return mk(dNode(get(f), id));
}

// ---------------------------------------------------------------- driver
static std::string jesc(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') r += '\\';
    if ((unsigned char)c < 32) {
      r += ' ';
      continue;
    }
    r += c;
  }
  return r;
}
int main(int argc, char **argv) {
  int tier = 0, jobs = 8, seed = 1;
  double total = 600;
  std::string only;
  bool list = false, direct = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--tier") tier = atoi(argv[++i]);
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--out") outDir = argv[++i];
    else if (a == "--only") only = argv[++i];
    else if (a == "--total") total = atof(argv[++i]);
    else if (a == "--nl-ms") nl_timeout_ms = atoi(argv[++i]);
    else if (a == "--path-cpu") path_cpu_s = atoi(argv[++i]);
    else if (a == "--seed") seed = atoi(argv[++i]);
    else if (a == "--list") list = true;
    else if (a == "--direct") direct = true;
  }
  (void)direct;
  mkdir(outDir.c_str(), 0777);
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)S, 0, sizeof(Shared));
  S->tokens = jobs;
  rng.seed(777 + seed);
  sym_register();
  auto &cs = sym::cases();
  if (list) {
    for (auto &c : cs) printf("%d %s\n", c.tier, c.name.c_str());
    return 0;
  }
  std::vector<int> sel;
  for (size_t i = 0; i < cs.size(); ++i)
    if (cs[i].tier <= tier && (only.empty() || std::regex_search(cs[i].name, std::regex(only)))) sel.push_back(i);
  double T0 = now();
  deadline_all = T0 + total;
  std::set<pid_t> live;
  if (cs.size() > MAXCASES) {
    fprintf(stderr, "too many cases\n");
    return 9;
  }
  auto grab = [&]() {
    while (true) {
      int t = S->tokens.load();
      while (t > 0)
        if (S->tokens.compare_exchange_weak(t, t - 1)) return;
      int st;
      pid_t p = waitpid(-1, &st, WNOHANG);
      if (p > 0) live.erase(p);
      usleep(500);
    }
  };
  for (int i : sel) {
    grab();
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      curCase = i;
      curName = cs[i].name;
      // supervisor of this case: the worker tree runs below it
      double t0 = now();
      S->cs[i].t0 = t0;
      S->cs[i].started = 1;
      maxPaths = cs[i].maxpaths;
      deadline_case = t0 + cs[i].seconds * (tier ? 5 : 1);
      pid_t w = fork();
      if (w == 0) {
        rlimit rl{8ull << 30, 8ull << 30};
        setrlimit(RLIMIT_AS, &rl);
        rlimit nc{0, 0};
        setrlimit(RLIMIT_CORE, &nc);
        ownsToken = true;
        installSignals();
        inCase = true;
        armTimer();
        auto fin = [&](const std::string &what) {
          if (!what.empty()) violation("exception", "exception", what, pathModels(4));
          else {
            saveSample("path");
            // witness of this path, for validation against the plain build
            int k = S->cs[i].wits++;
            if (k < 3) writeModel(outDir + "/wit_" + std::to_string(i) + "_" + std::to_string(k) + ".txt", "witness", "witness", "", witD());
          }
          S->cs[i].paths++;
        };
        try {
          cs[i].fn();
          fin("");
        } catch (const std::exception &e) {
          fin(std::string("uncaught: ") + e.what());
        } catch (...) {
          fin("uncaught exception");
        }
        endPath();
      }
      int st;
      waitpid(w, &st, 0);
      if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) {
        S->cs[i].abandoned++;
        S->tokens++;
      }
      S->cs[i].t1 = now();
      _exit(0);
    }
    live.insert(pid);
  }
  while (!live.empty()) {
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p > 0) live.erase(p);
    else if (errno == ECHILD) break;
  }
  double wall = now() - T0;
  std::ofstream o(outDir + "/summary.json");
  o << "{\n \"wall_s\": " << wall << ",\n";
#define F(n) o << " \"" #n "\": " << S->n.load() << ",\n";
  F(q_const) F(q_interval) F(q_cache) F(q_witness) F(q_linear) F(q_nonlinear) F(q_sample_sat) F(q_unknown)
  F(linear_sat) F(linear_unsat) F(nl_sat) F(nl_unsat) F(c_identity) F(c_z3id) F(c_interval) F(c_solver) F(c_concrete) F(c_undecided) F(concretised) F(ncand)
  o << " \"solver_s\": " << S->solver_ns.load() * 1e-9 << ",\n \"cases\": [\n";
  bool first = true;
  for (int i : sel) {
    auto &c = S->cs[i];
    o << (first ? "" : ",\n") << "  {\"name\": \"" << jesc(cs[i].name) << "\", \"paths\": " << c.paths << ", \"pruned\": " << c.pruned << ", \"abandoned\": " << c.abandoned
      << ", \"unsupported\": " << c.unsupported << ", \"timeouts\": " << c.timeouts << ", \"checks\": " << c.checks << ", \"undecided\": " << c.undecided
      << ", \"candidates\": " << c.candidates << ", \"forks\": " << c.forks << ", \"vars\": " << c.nvars << ", \"wall_s\": " << c.t1 - c.t0 << "}";
    first = false;
  }
  o << "\n ]\n}\n";
  o.close();
  long paths = 0, checks = 0, cand = 0, ab = 0, un = 0;
  for (int i : sel) paths += S->cs[i].paths, checks += S->cs[i].checks, cand += S->cs[i].candidates, ab += S->cs[i].abandoned, un += S->cs[i].unsupported;
  printf("cases=%zu paths=%ld checks=%ld candidates=%ld abandoned=%ld unsupported=%ld wall=%.2f solver=%.2f\n", sel.size(), paths, checks, cand, ab, un, wall, S->solver_ns.load() * 1e-9);
  return 0;
}
