#pragma once
#include <ifopt/problem.h>
namespace ifopt {
class IpoptSolver;
// the simulator decides what the solver does
struct OptionCall { std::string name; int type; std::string s; int i; double d; };
struct SolverHook { virtual ~SolverHook() = default; virtual int solve(IpoptSolver&, Problem&) = 0; virtual void option(const OptionCall&) {} };
inline SolverHook*& solver_hook() { static SolverHook* h = nullptr; return h; }
class Solver { public: using Ptr = std::shared_ptr<Solver>; virtual ~Solver() = default; virtual void Solve(Problem& nlp) = 0; int GetReturnStatus() const { return status_; } protected: int status_ = -199; };
class IpoptSolver : public Solver {
 public:
  using Ptr = std::shared_ptr<IpoptSolver>;
  IpoptSolver() {}
  void Solve(Problem& nlp) override { status_ = -199; if (solver_hook()) status_ = solver_hook()->solve(*this, nlp); }
  void SetOption(const std::string& name, const std::string& v) { put({name, 0, v, 0, 0}); }
  void SetOption(const std::string& name, int v) { put({name, 1, "", v, 0}); }
  void SetOption(const std::string& name, double v) { put({name, 2, "", 0, v}); }
  double GetTotalWallclockTime() { return 0; }
  std::vector<OptionCall> options;


 private:
  void put(const OptionCall& c) { if (solver_hook()) solver_hook()->option(c); options.push_back(c); }
};
}  // namespace ifopt
