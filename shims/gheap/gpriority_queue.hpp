// Stand-in for the git submodule gheap, which is empty in this sandbox.
#ifndef VERIF_SHIM_GPRIORITY_QUEUE_HPP
#define VERIF_SHIM_GPRIORITY_QUEUE_HPP
#include <queue>
#include <vector>
#include <functional>
template <class Heap, class T, class Container = std::vector<T>,
		class Compare = std::less<T> >
class gpriority_queue : public std::priority_queue<T, Container, Compare> {
	typedef std::priority_queue<T, Container, Compare> base;
public:
	gpriority_queue() : base() {}
	template <class It> gpriority_queue(It first, It last)
		: base(first, last) {}
};
#endif
