// The C++ operators of expressions, every overload and operand order.
#include <boost/python.hpp>
#include <Eigen/Dense>
#include <eigenpy/eigenpy.hpp>
#include "placo/problem/problem.h"
#include "placo/problem/expression.h"
#include "placo/problem/constraint.h"
#include "placo/problem/sparsity.h"

using namespace boost::python;
using namespace placo::problem;
typedef Expression Ex;
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;
typedef ProblemConstraint PC;

BOOST_PYTHON_MODULE(vfx_problem)
{
  def("neg", +[](Ex& a) -> Ex { return -a; });
  def("add_ee", +[](Ex& a, Ex& b) -> Ex { return a + b; });
  def("add_ev", +[](Ex& a, V b) -> Ex { return a + b; });
  def("add_ve", +[](V a, Ex& b) -> Ex { return a + b; });
  def("add_ed", +[](Ex& a, double b) -> Ex { return a + b; });
  def("add_de", +[](double a, Ex& b) -> Ex { return a + b; });
  def("sub_ee", +[](Ex& a, Ex& b) -> Ex { return a - b; });
  def("sub_ev", +[](Ex& a, V b) -> Ex { return a - b; });
  def("sub_ve", +[](V a, Ex& b) -> Ex { return a - b; });
  def("sub_ed", +[](Ex& a, double b) -> Ex { return a - b; });
  def("sub_de", +[](double a, Ex& b) -> Ex { return a - b; });
  def("mul_ed", +[](Ex& a, double b) -> Ex { return a * b; });
  def("mul_de", +[](double a, Ex& b) -> Ex { return a * b; });
  def("mul_ee", +[](Ex& a, Ex& b) -> Ex { return a * b; });
  def("mul_me", +[](M a, Ex& b) -> Ex { return a * b; });
  def("stack", +[](Ex& a, Ex& b) -> Ex { return a / b; });
  def("left_multiply", +[](Ex& a, M b) -> Ex { return a.left_multiply(b); });
  def("slice", +[](Ex& a, int s, int n) -> Ex { return a.slice(s, n); });
  def("slice1", +[](Ex& a, int s) -> Ex { return a.slice(s); });
  def("ge_ee", +[](Ex& a, Ex& b) -> PC { return a >= b; });
  def("ge_ev", +[](Ex& a, V b) -> PC { return a >= b; });
  def("ge_ve", +[](V a, Ex& b) -> PC { return a >= b; });
  def("ge_ed", +[](Ex& a, double b) -> PC { return a >= b; });
  def("ge_de", +[](double a, Ex& b) -> PC { return a >= b; });
  def("le_ee", +[](Ex& a, Ex& b) -> PC { return a <= b; });
  def("le_ev", +[](Ex& a, V b) -> PC { return a <= b; });
  def("le_ve", +[](V a, Ex& b) -> PC { return a <= b; });
  def("le_ed", +[](Ex& a, double b) -> PC { return a <= b; });
  def("le_de", +[](double a, Ex& b) -> PC { return a <= b; });
  def("eq_ee", +[](Ex& a, Ex& b) -> PC { return a == b; });
  def("eq_ev", +[](Ex& a, V b) -> PC { return a == b; });
  def("eq_ve", +[](V a, Ex& b) -> PC { return a == b; });
  def("eq_ed", +[](Ex& a, double b) -> PC { return a == b; });
  def("eq_de", +[](double a, Ex& b) -> PC { return a == b; });
  def("interval_contains", +[](int s, int e, int i) { return Sparsity::Interval(s, e).contains(i); });
}
