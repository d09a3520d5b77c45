// Thread simulation: what the scheduler and the code it schedules share.
#pragma once
#include <cstddef>
#include <cstdint>
namespace thr {
enum { MAXT = 4, MAXOP = 6 };
struct Op { int k, a, b, c; double x; };
struct Prog { int flavour, T, var, cold; int n[MAXT]; Op op[MAXT][MAXOP]; };
// provided by the bodies (instrumented)
int op_kinds(int flavour);
int cold_kind(int i);                      // kinds that need nothing made before
const char* op_name(int flavour, int k);
void setup(const Prog& p);                 // before the threads start
void body(const Prog& p, int t);           // what thread t does
// provided by the scheduler (not instrumented)
void out(double x);                        // a value the thread obtained
void out_failed();                         // an operation of the thread failed
void at_op(int k);                         // the thread starts an operation
}  // namespace thr
