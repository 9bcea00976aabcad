#pragma once
#include <set>
namespace btree { template<class T> class btree_set : public std::set<T> { public: using std::set<T>::set; }; }
