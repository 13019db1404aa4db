// Robot model, tools and solver accessors that placo.so does not bind.
#include <pinocchio/fwd.hpp>
#include <boost/python.hpp>
#include <Eigen/Dense>
#include <eigenpy/eigenpy.hpp>
#include <fstream>
#include "placo/model/robot_wrapper.h"
#include "placo/tools/segment.h"
#include "placo/tools/utils.h"
#include "placo/kinematics/kinematics_solver.h"
#include "placo/dynamics/dynamics_solver.h"

using namespace boost::python;
using placo::model::RobotWrapper;

BOOST_PYTHON_MODULE(vfx_robot)
{
  def("joint_jacobian", +[](RobotWrapper& r, std::string j, std::string ref) -> Eigen::MatrixXd { return r.joint_jacobian(j, ref); });
  def("joint_jacobian_time_variation",
      +[](RobotWrapper& r, std::string j, std::string ref) -> Eigen::MatrixXd { return r.joint_jacobian_time_variation(j, ref); });
  def("get_lambdas", +[](placo::tools::Segment& a, placo::tools::Segment& b) {
    auto l = a.get_lambdas(b);
    return make_tuple(l.first, l.second);
  });
  def("safe_acos", +[](double v) { return placo::tools::safe_acos(v); });
  def("file_exists", +[](std::string v) { return placo::tools::file_exists(v); });
  def("tasks_count", +[](placo::kinematics::KinematicsSolver& s) { return (int)s.get_tasks().size(); });
  def("kin_status", +[](placo::kinematics::KinematicsSolver& s) {
    std::ostringstream o;
    s.dump_status_stream(o);
    return o.str();
  });
  def("dyn_status", +[](placo::dynamics::DynamicsSolver& s) {
    std::ostringstream o;
    s.dump_status_stream(o);
    return o.str();
  });
}
