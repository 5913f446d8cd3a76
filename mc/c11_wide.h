// One base class with hundreds of derived classes, compiled in several units.
#pragma once
#include "api.h"
struct WideBase : checkpoint::SerializableBase<WideBase> { int id = 0; virtual ~WideBase() = default; virtual int cls() const = 0; virtual std::string see() const = 0; virtual void set(int) = 0; template <typename S> void serialize(S& s) { s | id; } };
struct WideEntry { int cls; WideBase* (*make)(); };
inline std::vector<WideEntry>& wide_all() { static std::vector<WideEntry> v; return v; }
inline std::string& wide_calls() { static std::string s; return s; }
