#pragma once
#include <map>
namespace btree { template<class K, class V> class btree_map : public std::map<K, V> { public: using std::map<K,V>::map; }; }
