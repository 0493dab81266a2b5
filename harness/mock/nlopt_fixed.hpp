// NLopt for the schedule checks: a deterministic optimiser without state, which
// evaluates the objective at the start and answers with the start.
#ifndef NLOPT_HPP
#define NLOPT_HPP
#include <stdexcept>
#include <vector>
namespace nlopt {
enum algorithm { GN_DIRECT = 0, LN_PRAXIS, LD_LBFGS, LD_MMA, LD_SLSQP, LN_COBYLA, LN_NELDERMEAD, LN_SBPLX, LN_BOBYQA, GN_ISRES, NUM_ALGORITHMS };
typedef double (*vfunc)(const std::vector<double> &x, std::vector<double> &grad, void *data);
inline void reset() {}
class opt {
  vfunc f = nullptr;
  void *d = nullptr;

public:
  opt(algorithm, unsigned) {}
  void set_lower_bounds(const std::vector<double> &) {}
  void set_upper_bounds(const std::vector<double> &) {}
  void set_min_objective(vfunc f_, void *d_) { f = f_, d = d_; }
  void set_xtol_rel(double) {}
  int optimize(std::vector<double> &x, double &minf) {
    std::vector<double> g(x.size(), 0.);
    minf = f(x, g, d);
    return 1;
  }
};
} // namespace nlopt
#endif
