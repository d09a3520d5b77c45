// Stand-in for the external ifopt library: the same interface, written from its
// documentation; the solver behind it is the simulator's.
#pragma once
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <algorithm>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

#include <ifopt/bounds.h>

namespace ifopt {
class Component {
 public:
  using Ptr = std::shared_ptr<Component>;
  using Jacobian = Eigen::SparseMatrix<double, Eigen::RowMajor>;
  using VectorXd = Eigen::VectorXd;
  using VecBound = std::vector<Bounds>;
  Component(int num_rows, const std::string& name) : num_rows_(num_rows), name_(name) {}
  virtual ~Component() = default;
  virtual VectorXd GetValues() const = 0;
  virtual VecBound GetBounds() const = 0;
  virtual void SetVariables(const VectorXd& x) = 0;
  virtual Jacobian GetJacobian() const = 0;
  int GetRows() const { return num_rows_; }
  std::string GetName() const { return name_; }
  virtual void Print(double, int&) const {}
  void SetRows(int num_rows) { num_rows_ = num_rows; }
  static const int kSpecifyLater = -1;

 private:
  int num_rows_;
  std::string name_;
};

class Composite : public Component {
 public:
  using Ptr = std::shared_ptr<Composite>;
  using ComponentVec = std::vector<Component::Ptr>;
  Composite(const std::string& name, bool is_cost) : Component(0, name), is_cost_(is_cost) {}
  void AddComponent(const Component::Ptr& c) {
    for (const auto& k : components_) if (k->GetName() == c->GetName()) throw std::runtime_error("duplicated component name");
    components_.push_back(c);
    if (is_cost_) SetRows(1); else SetRows(GetRows() + c->GetRows());
  }
  void ClearComponents() { components_.clear(); SetRows(0); }
  VectorXd GetValues() const override {
    VectorXd g = VectorXd::Zero(GetRows()); int row = 0;
    for (const auto& c : components_) { int n = c->GetRows(); VectorXd v = c->GetValues(); g.middleRows(row, n) += v; if (!is_cost_) row += n; }
    return g;
  }
  Jacobian GetJacobian() const override {
    int nvar = components_.empty() ? 0 : (int)components_.front()->GetJacobian().cols();
    Jacobian jac(GetRows(), nvar); int row = 0;
    for (const auto& c : components_) {
      Jacobian j = c->GetJacobian();
      for (int k = 0; k < j.outerSize(); ++k) for (Jacobian::InnerIterator it(j, k); it; ++it) jac.coeffRef(row + (int)it.row(), it.col()) += it.value();
      if (!is_cost_) row += c->GetRows();
    }
    jac.makeCompressed();
    return jac;
  }
  VecBound GetBounds() const override { VecBound r; for (const auto& c : components_) { auto b = c->GetBounds(); r.insert(r.end(), b.begin(), b.end()); } return r; }
  void SetVariables(const VectorXd& x) override { int row = 0; for (auto& c : components_) { int n = c->GetRows(); c->SetVariables(x.middleRows(row, n)); row += n; } }
  const Component::Ptr GetComponent(const std::string& name) const {
    for (const auto& c : components_) if (c->GetName() == name) return c;
    throw std::runtime_error("component doesn't exist: " + name);
  }
  template <typename T> std::shared_ptr<T> GetComponent(const std::string& name) const { return std::dynamic_pointer_cast<T>(GetComponent(name)); }
  void PrintAll() const {}
  const ComponentVec GetComponents() const { return components_; }

 private:
  ComponentVec components_;
  bool is_cost_;
};
}  // namespace ifopt
