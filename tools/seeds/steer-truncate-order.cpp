#include "paths/path_constant_steer.h"
#include "models/kinematic_bicycle_model.h"
#include <cmath>
using namespace Planner;
int main()
{
	auto m = makeRef<KinematicBicycleModel>(2.6, 1.3);
	PathConstantSteer p(m, Pose2d(1, 2, 0.3), 0.2, 4.0, Direction::Forward);
	Pose2d want = p.Interpolate(0.5);
	p.Truncate(0.5);
	Pose2d got = p.GetFinalState();
	return std::hypot(want.x() - got.x(), want.y() - got.y()) < 1e-9 ? 0 : 1;
}
