#pragma once
#include <ifopt/cost_term.h>
#include <ifopt/variable_set.h>
namespace ifopt {
class Problem {
 public:
  using VecBound = Component::VecBound; using Jacobian = Component::Jacobian; using VectorXd = Component::VectorXd;
  Problem() : constraints_("constraint-sets", false), costs_("cost-terms", true) { variables_ = std::make_shared<Composite>("variable-sets", false); }
  virtual ~Problem() = default;
  void AddVariableSet(std::shared_ptr<VariableSet> v) { variables_->AddComponent(v); }
  void AddConstraintSet(ConstraintSet::Ptr c) { c->LinkWithVariables(variables_); constraints_.AddComponent(c); }
  void AddCostSet(std::shared_ptr<CostTerm> c) { c->LinkWithVariables(variables_); costs_.AddComponent(c); }
  int GetNumberOfOptimizationVariables() const { return variables_->GetRows(); }
  bool HasCostTerms() const { return costs_.GetRows() > 0; }
  VecBound GetBoundsOnOptimizationVariables() const { return variables_->GetBounds(); }
  VectorXd GetVariableValues() const { return variables_->GetValues(); }
  void SetVariables(const double* x) { variables_->SetVariables(Eigen::Map<const VectorXd>(x, GetNumberOfOptimizationVariables())); }
  double EvaluateCostFunction(const double* x) { VectorXd g = VectorXd::Zero(1); if (HasCostTerms()) { SetVariables(x); g = costs_.GetValues(); } return g(0); }
  VectorXd EvaluateCostFunctionGradient(const double* x) {
    int n = GetNumberOfOptimizationVariables(); Jacobian jac(1, n);
    if (HasCostTerms()) { SetVariables(x); jac = costs_.GetJacobian(); }
    return VectorXd(Eigen::MatrixXd(jac).row(0).transpose());
  }
  int GetNumberOfConstraints() const { return constraints_.GetRows(); }
  VecBound GetBoundsOnConstraints() const { return constraints_.GetBounds(); }
  VectorXd EvaluateConstraints(const double* x) { SetVariables(x); return constraints_.GetValues(); }
  Jacobian GetJacobianOfConstraints() const { return constraints_.GetJacobian(); }
  Jacobian GetJacobianOfCosts() const { return costs_.GetJacobian(); }
  Composite::Ptr GetOptVariables() const { return variables_; }
  const Composite& GetConstraints() const { return constraints_; }
  const Composite& GetCosts() const { return costs_; }
  void PrintCurrent() const {}
  void EvalNonzerosOfJacobian(const double* x, double* values) { SetVariables(x); Jacobian j = GetJacobianOfConstraints(); j.makeCompressed(); std::copy(j.valuePtr(), j.valuePtr() + j.nonZeros(), values); }
  void SaveCurrent() { x_prev_.push_back(variables_->GetValues()); }
  int GetIterationCount() const { return (int)x_prev_.size(); }
  void SetOptVariables(int iter) { variables_->SetVariables(x_prev_.at((std::size_t)iter)); }
  void SetOptVariablesFinal() { if (!x_prev_.empty()) variables_->SetVariables(x_prev_.back()); }

 private:
  Composite::Ptr variables_;
  Composite constraints_;
  Composite costs_;
  std::vector<VectorXd> x_prev_;
};
}  // namespace ifopt
