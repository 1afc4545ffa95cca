// Minimal stand-in for the camp submodule (absent in this offline tree): only
// the declarations that Umpire's host code uses.
#ifndef VERIF_CAMP_HPP
#define VERIF_CAMP_HPP
#include <initializer_list>
#define CAMP_EXPAND(...) static_cast<void>(::std::initializer_list<int>{((void)(__VA_ARGS__), 0)...})
#endif
