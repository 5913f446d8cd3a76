// One translation unit per (check, group): registers a scenario set for every type of the group.
#include "groups.h"
#include CHECK_HEADER
#define TYPE(id, len, leaf, plen, pleaf, ...) \
  static bool MC_CAT(reg_, id) = (check::Register<__VA_ARGS__>::run(#id, Bounds{len, leaf}, Bounds{plen, pleaf}), true);
TYPES
