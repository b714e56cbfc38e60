#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/obstacle.h"
#include "state_validator/gvd.h"
using namespace Planner;
int main()
{
	ObstacleListOccupancyMap map(1.0f);
	map.InitializeSize(20, 10);
	auto c = map.WorldPositionToGridCell(Point2d(-9.5, -4.5));
	auto d = map.WorldPositionToGridCell(Point2d(9.5, 4.5));
	return c.row == 0 && c.col == 0 && d.row == 19 && d.col == 9 ? 0 : 1;
}
