#pragma once
#include <ifopt/constraint_set.h>
namespace ifopt {
class CostTerm : public ConstraintSet {
 public:
  CostTerm(const std::string& name) : ConstraintSet(1, name) {}
  virtual ~CostTerm() = default;
  virtual double GetCost() const = 0;

 private:
  VectorXd GetValues() const final { VectorXd c(1); c(0) = GetCost(); return c; }
  VecBound GetBounds() const final { return VecBound(GetRows(), NoBound); }
};
}  // namespace ifopt
