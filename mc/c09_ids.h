// Types that differ in nothing but their name, compiled in several units.
#pragma once
#include "c09.h"
struct Entry { std::string (*make)(); int (*read)(std::string const&); };   // read: 0 accepted, 1 runtime_error, 2.. other
inline std::vector<Entry>& many_all() { static std::vector<Entry> v; return v; }
