#pragma once
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <cstring>
#include <cstdint>
namespace spp {
template<class T> struct spp_hash : public std::hash<T> {};
template<class T> inline void hash_combine(std::size_t &seed, T const &v) {
	seed ^= std::hash<T>()(v) + 0x9e3779b97f4a7c15ull + (seed << 12) + (seed >> 4);
}
template<class K, class V, class H=spp_hash<K>, class E=std::equal_to<K> >
class sparse_hash_map : public std::unordered_map<K, V, H, E> {
public:
	typedef std::unordered_map<K, V, H, E> base;
	sparse_hash_map() {}
	sparse_hash_map(std::size_t n) : base(n) {}
	void resize(std::size_t n) { this->rehash(n); }
	void clear_deleted_key() {}
	void clear_no_resize() { this->clear(); }
};
template<class K, class H=spp_hash<K>, class E=std::equal_to<K> >
class sparse_hash_set : public std::unordered_set<K, H, E> {
public:
	typedef std::unordered_set<K, H, E> base;
	sparse_hash_set() {}
	sparse_hash_set(std::size_t n) : base(n) {}
	void resize(std::size_t n) { this->rehash(n); }
	void clear_deleted_key() {}
	void clear_no_resize() { this->clear(); }
};
}
