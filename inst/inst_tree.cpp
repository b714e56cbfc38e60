#include "core/base.h"
#include "utils/tree.h"
#include "utils/node.h"
#include "geometry/2dplane.h"
template class Planner::Tree<Planner::Point2d, 2>;
template class Planner::Node<Planner::TreeNodeData<Planner::Point2d, Planner::NullClass>>;
