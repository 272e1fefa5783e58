// Stand-in for the git submodule sparsepp, which is empty in this sandbox.
// Same names and semantics (the std::unordered_map API that disco-dop uses);
// only memory layout and iteration order can differ.
#ifndef VERIF_SHIM_SPP_H
#define VERIF_SHIM_SPP_H
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <functional>
#include <unordered_map>
#include <unordered_set>
namespace spp {
template <typename K> struct spp_hash {
	size_t operator()(const K& k) const { return std::hash<K>()(k); }
};
inline size_t shim_mix(uint64_t x) {
	x ^= x >> 33; x *= 0xff51afd7ed558ccdULL;
	x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL;
	x ^= x >> 33; return (size_t) x;
}
template <typename T> inline void hash_combine(size_t& seed, T const& v) {
	seed ^= shim_mix((uint64_t) v) + 0x9e3779b97f4a7c15ULL
			+ (seed << 6) + (seed >> 2);
}
template <typename K, typename D, typename H = spp_hash<K> >
class sparse_hash_map : public std::unordered_map<K, D, H> {
	typedef std::unordered_map<K, D, H> base;
public:
	sparse_hash_map() : base() {}
	sparse_hash_map(size_t n) : base(n) {}
	void resize(size_t n) { this->reserve(n); }
	void clear_deleted_key() {}
	void clear_no_resize() { this->clear(); }
};
template <typename V, typename H = spp_hash<V> >
class sparse_hash_set : public std::unordered_set<V, H> {
	typedef std::unordered_set<V, H> base;
public:
	sparse_hash_set() : base() {}
	sparse_hash_set(size_t n) : base(n) {}
	void resize(size_t n) { this->reserve(n); }
	void clear_deleted_key() {}
	void clear_no_resize() { this->clear(); }
};
}
#endif
