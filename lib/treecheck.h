// Structural oracle for the red-black tree, through its public links
#pragma once
#include "mc.h"
#include "containers/tree.h"

struct TreeShape
{
	std::string canon;
	int height = 0;
	uint64 count = 0;
};

// Returns black height; verifies parent links, colors and balance
template<typename NodeT>
int treeWalk(const NodeT * node, const NodeT * parent, int depth, TreeShape & shape, std::vector<const NodeT*> & order)
{
	if (!node) { shape.canon += '.'; return 1; }
	if (depth > 200) mc::fail("tree: a path of over 200 nodes (links form a cycle?)");
	MC_CHECK(node->parent == parent, "tree: wrong parent link");
	const bool red = node->color == BinaryNodeColor::RED;
	if (red) MC_CHECK(parent && parent->color == BinaryNodeColor::BLACK, "tree: a red node has a red parent or is the root");
	shape.canon += red ? 'r' : 'b';
	const uint64 before = shape.count++;
	if (depth > shape.height) shape.height = depth;
	int l = treeWalk<NodeT>(node->left, node, depth + 1, shape, order);
	order.push_back(node);
	int r = treeWalk<NodeT>(node->right, node, depth + 1, shape, order);
	MC_CHECK(l == r, "tree: paths with different numbers of black nodes (not balanced)");
	if (node->left || node->right || !parent)
	{
		auto * m = const_cast<NodeT*>(node);
		const NodeT * lo = node, * hi = node, * top = node; while (lo->left) lo = lo->left; while (hi->right) hi = hi->right; while (top->parent) top = top->parent;
		MC_CHECK(node->getMin() == lo && m->getMin() == lo && node->getMax() == hi && m->getMax() == hi, "tree: leftmost or rightmost node of a subtree");
		MC_CHECK(node->getRoot() == top && m->getRoot() == top, "tree: root of a subtree");
	}
	MC_CHECK(node->getNumNodes() == shape.count - before, "tree: a subtree of %llu nodes has %llu", (unsigned long long)(shape.count - before), (unsigned long long)node->getNumNodes());
	return l + (red ? 0 : 1);
}

template<typename TreeT>
TreeShape checkTree(const TreeT & tree)
{
	using NodeT = typename TreeT::NodeT;
	TreeShape shape;
	std::vector<const NodeT*> order;
	treeWalk<NodeT>(tree.getRoot(), nullptr, 1, shape, order);
	MC_CHECK(shape.count == tree.getNumNodes(), "tree: %llu nodes linked, count says %llu", (unsigned long long)shape.count, (unsigned long long)tree.getNumNodes());
	int log = 0; while ((1ull << log) < shape.count + 1) ++log;
	MC_CHECK(shape.height <= 2 * log, "tree: height %d with %llu nodes", shape.height, (unsigned long long)shape.count);
	for (size_t i = 0; i < order.size(); ++i)
	{
		const NodeT * prev = i ? order[i - 1] : nullptr;
		const NodeT * next = i + 1 < order.size() ? order[i + 1] : nullptr;
		MC_CHECK(order[i]->prev == prev && order[i]->next == next, "tree: node %zu of %zu is threaded to the wrong neighbour", i, order.size());
	}
	MC_CHECK(tree.getMin() == (order.empty() ? nullptr : order.front()), "tree: getMin");
	MC_CHECK(const_cast<TreeT&>(tree).getMin() == tree.getMin() && const_cast<TreeT&>(tree).getMax() == tree.getMax(), "tree: getMin or getMax of a constant tree");
	MC_CHECK(tree.getMax() == (order.empty() ? nullptr : order.back()), "tree: getMax");
	return shape;
}
