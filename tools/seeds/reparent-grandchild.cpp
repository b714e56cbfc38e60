#include "core/base.h"
#include "utils/node.h"
using namespace Planner;
using N = Node<int>;
int main()
{
	for (int depth = 1; depth < 5; depth++) {
		Scope<N> root = makeScope<N>(0);
		N* top = root->AddChild(makeScope<N>(1));
		N* low = top;
		for (int i = 0; i < depth; i++)
			low = low->AddChild(makeScope<N>(2 + i));
		N::Reparent(top, low, root);
		if (top->GetParent() != low || low->GetParent() != root.get())
			return 1;
		int count = 0;
		root->PreOrderTraversal([&](const N&) { count++; });
		if (count != depth + 2)
			return 2;
	}
	return 0;
}
