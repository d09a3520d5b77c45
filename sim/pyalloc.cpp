// Memory of the Python extension under simulation: what is released is
// overwritten at once and not reused, so that an array that outlives its
// owner shows it.
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <ifopt/ipopt_solver.h>
extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
static unsigned char g_fill = 0xDB; static bool g_keep = false; static unsigned long g_released = 0;
__attribute__((visibility("default"))) void sim_py_release(int fill, int keep) { g_fill = (unsigned char)fill; g_keep = keep != 0; }
__attribute__((visibility("default"))) unsigned long sim_py_released() { return g_released; }
void __wrap_free(void* p) { if (!p) return; g_released++; memset(p, g_fill, malloc_usable_size(p)); if (!g_keep) __real_free(p); }
void* __wrap_malloc(size_t n) { return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { return __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { return __real_realloc(p, n); }
}
void* operator new(size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }

// the external solver: leaves the starting point behind and reports success
namespace { struct Solver : ifopt::SolverHook { int solve(ifopt::IpoptSolver&, ifopt::Problem& p) override { Eigen::VectorXd x = p.GetVariableValues(); p.EvaluateCostFunction(x.data()); p.SetVariables(x.data()); return 0; } } g_solver;
struct Install { Install() { ifopt::solver_hook() = &g_solver; } } g_install; }
