// Stand-in for the git submodule cpp-btree, which is empty in this sandbox.
#ifndef VERIF_SHIM_SAFE_BTREE_MAP_H
#define VERIF_SHIM_SAFE_BTREE_MAP_H
#include <map>
namespace btree {
template <typename K, typename V>
class safe_btree_map : public std::map<K, V> {};
template <typename K, typename V>
class btree_map : public std::map<K, V> {};
}
#endif
