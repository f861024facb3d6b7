// Stands in for proxqp_adapter.cpp in monitors that do not drive the ProxQP-based solver.
#include "probe.hpp"
namespace H { std::shared_ptr<ProxIface> makeProx(std::shared_ptr<crocoddyl::ShootingProblem>) { throw std::logic_error("not built with ProxQP"); } }
