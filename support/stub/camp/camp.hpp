// Stand-in for the camp submodule (absent offline). Only what Umpire's host build uses.
#ifndef VERIF_CAMP_CAMP_HPP
#define VERIF_CAMP_CAMP_HPP
namespace camp { struct sink_t { template <typename... T> constexpr sink_t(T...) {} }; }
#define CAMP_EXPAND(expr) (static_cast<void>(::camp::sink_t{((expr), 0)...}))
#include "camp/list.hpp"
#endif
