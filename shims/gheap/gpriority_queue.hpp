#pragma once
#include <queue>
template<class Heap, class T, class C, class L> class gpriority_queue : public std::priority_queue<T, C, L> {
public:
	gpriority_queue() {}
	template<class It> gpriority_queue(It a, It b) : std::priority_queue<T, C, L>(a, b) {}
};
