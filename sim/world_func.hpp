// Function-algebra world: seeded histories over FunctionBase/FunctionExpression
// with memory exhaustion and throwing user-supplied functions, compared with
// the reference model.
#pragma once
#include "sim.hpp"
#include "model.hpp"
#include <gsplines/Basis/Basis0101.hpp>
#include <gsplines/Basis/BasisLagrange.hpp>
#include <gsplines/Basis/BasisLegendre.hpp>
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <gsplines/Functions/FunctionExpression.hpp>
#include <gsplines/GSpline.hpp>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace fw {
using gsplines::functions::FunctionBase;
using gsplines::functions::FunctionExpression;

struct UserError : std::runtime_error { UserError() : std::runtime_error("user function failed") {} };
extern long g_user_countdown;         // >0: the n-th call into user code throws
extern bool g_user_fired;
void user_tick();

// a user-supplied function: vector polynomial
class UserFn : public gsplines::functions::FunctionInheritanceHelper<UserFn, gsplines::functions::Function, UserFn> {
 public:
  std::vector<std::vector<double>> c_;
  UserFn(std::pair<double, double> d, std::vector<std::vector<double>> c)
      : FunctionInheritanceHelper(d, c.size(), "UserFn"), c_(std::move(c)) {}
  UserFn(const UserFn& o) : FunctionInheritanceHelper(o), c_(o.c_) { user_tick(); }
  void value_impl(const Eigen::Ref<const Eigen::VectorXd> t, Eigen::Ref<Eigen::MatrixXd> r) const override;
 protected:
  UserFn* deriv_impl(std::size_t k) const override;
};

struct Obj {
  std::unique_ptr<FunctionBase> p;
  model::P m;
  int ord = 0;               // derivative orders stacked below
  std::string txt;
};
struct Opts {
  int max_steps = 14;
  bool faults = false;       // inject one fault in some steps
  bool enumerate = false;    // C02: try every allocation point of the step
  bool check = true;         // compare with the model
};
struct World {
  Opts o;
  std::vector<Obj> pool;
  explicit World(Opts op) : o(op) {}
  void run();
  void step(); void inverted();
  void integrate(size_t ia, size_t ib);
  void check(const Obj& x, const char* when);
  void check_all(const char* when);
  Obj leaf();
  bool any_fault = false;
  int force = -1, nfocus = 0, focus[4] = {0, 0, 0, 0};
};
}  // namespace fw
