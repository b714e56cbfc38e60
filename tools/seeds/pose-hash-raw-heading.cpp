#include "geometry/2dplane.h"
#include <cstdio>
using namespace Planner;
int main()
{
	Pose2d a(1.0, 2.0, 7.0), b(1.0, 2.0, 0.0);
	b.theta = 7.0;
	if (!std::equal_to<Pose2d>()(a, b)) return 0;
	return std::hash<Pose2d>()(a) == std::hash<Pose2d>()(b) ? 0 : 1;
}
