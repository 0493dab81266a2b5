// NLopt (a binary library) replaced by its contract.  optimize() refuses an
// infeasible start, then returns ANY point of the box at which the objective is
// not larger than at the start - a fresh symbolic value, so whatever the caller
// concludes must hold for every answer NLopt may give.  The gradient the caller
// offers is compared with the derivative of its objective at that point.
#ifndef NLOPT_HPP
#define NLOPT_HPP
#include "sym.h"
#include <stdexcept>
namespace nlopt {
enum algorithm { GN_DIRECT = 0, LN_PRAXIS, LD_LBFGS, LD_MMA, LD_SLSQP, LN_COBYLA, LN_NELDERMEAD, LN_SBPLX, LN_BOBYQA, GN_ISRES, NUM_ALGORITHMS };
typedef double (*vfunc)(const std::vector<double> &x, std::vector<double> &grad, void *data);
struct trace {
  int calls = 0;
  bool gradient = false;  // compare gradients
  bool nearer = true;     // assume f(result) <= f(start)
  bool free_start = false; // do not look at the start value
  algorithm algo = NUM_ALGORITHMS;
  double xtol = -1;
  std::vector<double> x0, x, lb, ub;
  std::function<std::vector<double>(const std::vector<double> &)> pick; // overrides the free choice
  std::vector<std::vector<double>> cand; // when given: the best of the start, both ends and these candidates
};
inline trace &tr() { static trace t; return t; }
inline void reset() { tr() = trace(); }
class opt {
  algorithm a;
  unsigned n;
  std::vector<double> lb, ub;
  vfunc f = nullptr;
  void *d = nullptr;

public:
  opt(algorithm a_, unsigned n_) : a(a_), n(n_) { tr().algo = a_; }
  void set_lower_bounds(const std::vector<double> &v) { lb = v; }
  void set_upper_bounds(const std::vector<double> &v) { ub = v; }
  void set_min_objective(vfunc f_, void *d_) { f = f_, d = d_; }
  void set_xtol_rel(double t) { tr().xtol = t; }
  int optimize(std::vector<double> &x, double &minf) {
    trace &t = tr();
    int c = t.calls++;
    if (x.size() != n || lb.size() != n || ub.size() != n) throw std::invalid_argument("nlopt: dimension");
    for (unsigned i = 0; i < n; ++i)
      if (x[i] < lb[i] || x[i] > ub[i]) throw std::invalid_argument("nlopt: start out of bounds");
    t.x0 = x, t.lb = lb, t.ub = ub;
    std::vector<double> none, y(n);
    double f0 = t.nearer ? f(x, none, d) : 0;
    if (t.pick) y = t.pick(x);
    else if (!t.cand.empty()) {
      y = x;
      double fy = f(y, none, d);
      auto c2 = t.cand;
      c2.push_back(lb), c2.push_back(ub);
      for (auto &z : c2) {
        bool in = z.size() == n;
        for (unsigned i = 0; in && i < n; ++i) in = !(z[i] < lb[i]) && !(z[i] > ub[i]);
        if (!in) continue;
        double fz = f(z, none, d);
        if (fz < fy) y = z, fy = fz;
      }
    }
    else
      for (unsigned i = 0; i < n; ++i) { // any point of the box
        double s = sym::real("nlopt" + std::to_string(c) + "_" + std::to_string(i), -16, 16);
        sym::assume_le(lb[i], s), sym::assume_le(s, ub[i]);
        y[i] = s;
      }
    minf = f(y, none, d);
    if (t.nearer) sym::assume_le(minf, f0);
    if (t.gradient) {
      std::vector<double> g(n, 0.);
      f(y, g, d);
      sym::check(g.size() == n, "gradient size");
      for (unsigned i = 0; i < n && i < g.size(); ++i) {
        double r;
        if (sym::native) {
          r = g[i] + 1 + std::abs(g[i]);
          double h = 1e-6, fy = f(y, none, d);
          for (double e : {h, -h}) { // either side, for points on a knot
            auto p = y;
            p[i] += e;
            if (p[i] < lb[i] || p[i] > ub[i]) continue;
            double q = (f(p, none, d) - fy) / e;
            if (std::abs(g[i] - q) <= 1e-3 * (1 + std::abs(q))) r = g[i];
          }
        } else
          r = __sym_deriv(minf, y[i]);
        sym::eq(g[i], r, "gradient of the objective", 1e-6);
      }
    }
    x = y, t.x = y;
    return 1;
  }
};
} // namespace nlopt
#endif
