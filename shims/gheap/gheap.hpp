// Stand-in for the git submodule gheap, which is empty in this sandbox.
#ifndef VERIF_SHIM_GHEAP_HPP
#define VERIF_SHIM_GHEAP_HPP
#include <cstddef>
template <std::size_t Fanout = 2, std::size_t PageChunks = 1> struct gheap {};
#endif
