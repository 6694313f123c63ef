#ifndef VERIF_CAMP_LIST_HPP
#define VERIF_CAMP_LIST_HPP
namespace camp { template <typename... Ts> struct list {}; }
#endif
