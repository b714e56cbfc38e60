#include "models/kinematic_bicycle_model.h"
#include <cmath>
using namespace Planner;
int main()
{
	KinematicBicycleModel m(2.6, 1.3);
	Pose2d p(1, 2, 0.4);
	Pose2d a = m.ConstantSteer(m.ConstantSteer(p, 0.3, 1.5), 0.3, 2.0), b = m.ConstantSteer(p, 0.3, 3.5);
	return std::hypot(a.x() - b.x(), a.y() - b.y()) < 1e-6 ? 0 : 1;
}
