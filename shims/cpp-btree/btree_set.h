// Stand-in for the git submodule cpp-btree, which is empty in this sandbox.
#ifndef VERIF_SHIM_BTREE_SET_H
#define VERIF_SHIM_BTREE_SET_H
#include <set>
namespace btree {
template <typename T> class btree_set : public std::set<T> {};
}
#endif
