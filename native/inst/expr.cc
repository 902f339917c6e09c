// Every operator of /repo behind one name for the verifier. The wrappers call
// the repository's functions without dynamic dispatch; access is opened.
#include <algorithm>
#include <cmath>
#include <functional>
#include <limits>
#include <string>
#include <vector>
#include <boost/icl/continuous_interval.hpp>
#include <boost/noncopyable.hpp>
#define private public
#define protected public
#include "src/expression/boolean.h"
#include "src/expression/conditional.h"
#include "src/expression/constant.h"
#include "src/expression/numerical.h"

namespace scram::mef {
#define OP(X)                                              \
  inline double X##_value(X& e) { return e.X::value(); }   \
  inline double X##_sample(X& e) { return e.X::DoSample(); } \
  inline Interval X##_interval(X& e) { return e.X::interval(); } \
  inline void X##_validate(const X& e) { e.X::Validate(); }
OP(Neg) OP(Add) OP(Sub) OP(Mul) OP(Div) OP(Abs) OP(Acos) OP(Asin) OP(Atan) OP(Cos) OP(Sin) OP(Tan) OP(Cosh) OP(Sinh) OP(Tanh)
OP(Exp) OP(Log) OP(Log10) OP(Mod) OP(Pow) OP(Sqrt) OP(Ceil) OP(Floor) OP(Min) OP(Max) OP(Mean)
OP(Not) OP(And) OP(Or) OP(Eq) OP(Df) OP(Lt) OP(Gt) OP(Leq) OP(Geq) OP(Ite) OP(Switch)
}  // namespace scram::mef
