// Reaches the public C++ API that placo.so does not bind, so that the Python oracles can judge it.
#include <pinocchio/fwd.hpp>
#include <boost/python.hpp>
#include <Eigen/Dense>
#include <eigenpy/eigenpy.hpp>
#include <cstring>
#include "placo/humanoid/walk_pattern_generator.h"
#include "placo/humanoid/walk_tasks.h"
#include "placo/humanoid/dummy_walk.h"
#include "placo/humanoid/footsteps_planner_repetitive.h"
#include "placo/humanoid/footsteps_planner_naive.h"
#include "placo/humanoid/humanoid_parameters.h"

using namespace boost::python;
using namespace placo::humanoid;
using Traj = WalkPatternGenerator::Trajectory;
using Side = HumanoidRobot::Side;

// An object as a C++ user gets it (`WalkTasks tasks;`), over memory that held something else before
template <typename T>
T* on_garbage()
{
  void* p = ::operator new(sizeof(T));
  std::memset(p, 0x5A, sizeof(T));
  return new (p) T;
}

BOOST_PYTHON_MODULE(vfx_walk)
{
  def("WalkTasks", on_garbage<WalkTasks>, return_value_policy<manage_new_object>());
  def("HumanoidParameters", on_garbage<HumanoidParameters>, return_value_policy<manage_new_object>());
  def("Support", on_garbage<FootstepsPlanner::Support>, return_value_policy<manage_new_object>());
  def("parts", +[](Traj& t) {
    list l;
    for (auto& p : t.parts)
    {
      l.append(p);
    }
    return l;
  });
  def("get_T_world_foot", +[](Traj& t, Side s, double x) { return t.get_T_world_foot(s, x); });
  def("get_v_world_foot", +[](Traj& t, Side s, double x) { return t.get_v_world_foot(s, x); });
  def("get_v_world_left", +[](Traj& t, double x) { return t.get_v_world_left(x); });
  def("get_yaw_world_left", +[](Traj& t, double x) { return t.get_yaw_world_left(x); });
  def("get_yaw_world_right", +[](Traj& t, double x) { return t.get_yaw_world_right(x); });
  def("get_yaw_world_foot", +[](Traj& t, Side s, double x) { return t.get_yaw_world_foot(s, x); });
  def("get_yaw_world_trunk", +[](Traj& t, double x) { return t.get_yaw_world_trunk(x); });
  def("is_flying", +[](Traj& t, Side s, double x) { return t.is_flying(s, x); });
  def("remaining_supports", +[](Traj& t, double x) { return t.remaining_supports(x); });
  def("part_com", +[](WalkPatternGenerator::TrajectoryPart& p, double x) { return p.com_trajectory.pos(x); });
  def("part_swing", +[](WalkPatternGenerator::TrajectoryPart& p, double x) { return p.swing_trajectory.pos(x); });

  def("set_pid", +[](WalkTasks& w, double delay, double kp, double ki, double kd, double lambda) {
    w.com_delay = delay;
    w.K_p = kp;
    w.K_i = ki;
    w.K_d = kd;
    w.lambda = lambda;
  });
  def("update_tasks_and_pid", +[](WalkTasks& w, Traj& t, double x, Eigen::Vector2d dcm, double omega, double elapsed) {
    w.update_tasks_and_pid(t, x, dcm, omega, elapsed);
  });

  def("opposite_frame", +[](HumanoidParameters& p, Side s, Eigen::Affine3d T, double x, double y, double a) {
    return p.opposite_frame(s, T, x, y, a);
  });
  def("neutral_frame", +[](HumanoidParameters& p, Side s, Eigen::Affine3d T, double x, double y, double a) {
    return p.neutral_frame(s, T, x, y, a);
  });
  def("set_clipping", +[](FootstepsPlanner& p, int k) {
    p.footstep_clipping = k == 0 ? HumanoidParameters::FootstepClipping::Conic :
                          k == 1 ? HumanoidParameters::FootstepClipping::Ellipsoid :
                                   HumanoidParameters::FootstepClipping::Box;
  });
  def("other_side", +[](Side s) { return HumanoidRobot::other_side(s); });
  def("string_to_side", +[](std::string s) { return HumanoidRobot::string_to_side(s); });
  def("camera_look_at", +[](HumanoidRobot& r, Eigen::Vector3d p) {
    double pan = 0, tilt = 0;
    bool ok = r.camera_look_at(pan, tilt, p);
    return make_tuple(ok, pan, tilt);
  });
}
