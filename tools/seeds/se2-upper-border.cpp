#include "state_space/state_space_se2.h"
using namespace Planner;
int main()
{
	StateSpaceSE2 s(Pose2d(-5, -4, -3), Pose2d(5, 4, 3));
	return s.ValidateBounds(Pose2d(1, 4, 0)) && s.ValidateBounds(Pose2d(5, 1, 0)) && s.ValidateBounds(Pose2d(-5, -4, -3)) ? 0 : 1;
}
