// The type universe, in groups that are compiled separately (-DGROUP=n).
// TYPE(id, len, leaf, pair_len, pair_leaf, type...): bounds when enumerating one value, and when enumerating a pair.
#pragma once
#include "types.h"
using namespace uni;   // NOLINT: harness code
using std::string;

#define GROUPS 12
#if GROUP == 0
#define TYPES \
  TYPE(bool_t, 1, 2, 1, 2, bool) TYPE(char_t, 1, 6, 1, 3, char) TYPE(schar_t, 1, 6, 1, 2, signed char) \
  TYPE(uchar_t, 1, 6, 1, 2, unsigned char) TYPE(short_t, 1, 6, 1, 2, short) TYPE(ushort_t, 1, 6, 1, 2, unsigned short) \
  TYPE(int_t, 1, 8, 1, 3, int) TYPE(uint_t, 1, 8, 1, 2, unsigned) TYPE(long_t, 1, 8, 1, 2, long) TYPE(ulong_t, 1, 8, 1, 2, unsigned long) \
  TYPE(llong_t, 1, 8, 1, 2, long long) TYPE(ullong_t, 1, 8, 1, 2, unsigned long long) TYPE(float_t, 1, 7, 1, 3, float) \
  TYPE(double_t, 1, 7, 1, 2, double) TYPE(ldouble_t, 1, 7, 1, 2, long double)
#elif GROUP == 1
#define TYPES \
  TYPE(char16, 1, 6, 1, 2, char16_t) TYPE(wchar, 1, 6, 1, 2, wchar_t) TYPE(e8, 1, 6, 1, 3, E8) TYPE(e32, 1, 6, 1, 2, E32) \
  TYPE(e64, 1, 6, 1, 2, E64) TYPE(eb, 1, 2, 1, 2, EB) TYPE(nanos, 1, 6, 1, 2, std::chrono::nanoseconds) \
  TYPE(dsec, 1, 6, 1, 2, std::chrono::duration<double>) TYPE(minutes32, 1, 6, 1, 2, std::chrono::duration<int32_t, std::ratio<60>>) \
  TYPE(bytes_in, 1, 3, 1, 2, BytesIntrusive) TYPE(bytes_base, 1, 3, 1, 2, BytesBase) TYPE(bytes_ext, 1, 4, 1, 2, BytesExternal) TYPE(big, 1, 3, 1, 2, Big)
#elif GROUP == 2
#define TYPES \
  TYPE(str, 1, 12, 1, 5, string) TYPE(v_int, 3, 2, 3, 1, std::vector<int>) TYPE(v_char, 3, 2, 3, 1, std::vector<char>) TYPE(v_bool, 6, 2, 3, 2, std::vector<bool>) \
  TYPE(v_str, 3, 3, 2, 2, std::vector<string>) TYPE(v_v_int, 2, 2, 2, 1, std::vector<std::vector<int>>) TYPE(v_alloc, 3, 2, 2, 1, std::vector<short, CountingAlloc<short>>) \
  TYPE(v_big, 2, 2, 2, 1, std::vector<Big>) TYPE(v_enum, 3, 2, 2, 1, std::vector<E32>) TYPE(v_over, 2, 2, 2, 1, std::vector<Over>)
#elif GROUP == 3
#define TYPES \
  TYPE(l_int, 4, 2, 3, 1, std::list<int>) TYPE(l_str, 3, 3, 2, 2, std::list<string>) TYPE(d_int, 4, 2, 3, 1, std::deque<int>) TYPE(d_str, 3, 3, 2, 2, std::deque<string>) \
  TYPE(d_bool, 4, 2, 3, 1, std::deque<bool>) TYPE(l_v_str, 2, 2, 2, 1, std::list<std::vector<string>>) TYPE(d_l_int, 2, 2, 2, 1, std::deque<std::list<int>>) \
  TYPE(a_int, 1, 3, 1, 1, std::array<int, 3>) TYPE(a_str, 1, 4, 1, 2, std::array<string, 2>) TYPE(a_v, 2, 2, 1, 1, std::array<std::vector<string>, 2>) TYPE(a_0, 1, 1, 1, 1, std::array<int, 0>) \
  TYPE(a_a, 1, 2, 1, 1, std::array<std::array<short, 2>, 2>)
#elif GROUP == 4
#define TYPES \
  TYPE(m_int_str, 3, 3, 2, 2, std::map<int, string>) TYPE(mm_int_int, 3, 2, 2, 2, std::multimap<int, int>) TYPE(s_str, 3, 3, 2, 3, std::set<string>) \
  TYPE(ms_int, 4, 2, 3, 2, std::multiset<int>) TYPE(s_cmp, 3, 4, 2, 3, std::set<int, OddFirst>) TYPE(m_cmp, 2, 3, 2, 2, std::map<int, string, std::greater<int>>) \
  TYPE(mm_cmp, 2, 2, 2, 2, std::multimap<string, int, std::greater<string>>) TYPE(ms_cmp, 3, 3, 2, 2, std::multiset<string, std::greater<string>>)
#elif GROUP == 5
#define TYPES \
  TYPE(m_pair, 2, 2, 1, 2, std::map<std::pair<int, string>, int>) TYPE(m_m, 2, 2, 2, 1, std::map<string, std::map<int, int>>) \
  TYPE(m_v, 2, 2, 2, 1, std::map<int, std::vector<string>>) TYPE(s_v, 2, 2, 2, 1, std::set<std::vector<int>>) TYPE(s_user, 2, 2, 1, 1, std::set<Intrusive>) \
  TYPE(m_uptr, 2, 2, 2, 1, std::map<int, std::unique_ptr<string>>) TYPE(v_m, 2, 2, 2, 1, std::vector<std::map<int, char>>)
#elif GROUP == 6
#define TYPES \
  TYPE(um, 3, 3, 2, 2, std::unordered_map<int, string>) TYPE(umm, 3, 2, 2, 2, std::unordered_multimap<string, int>) TYPE(us, 3, 3, 2, 3, std::unordered_set<string>) \
  TYPE(ums, 4, 2, 3, 2, std::unordered_multiset<int>) TYPE(us_same, 3, 3, 2, 2, std::unordered_set<int, SameHash>) \
  TYPE(um_hash, 2, 2, 1, 2, std::unordered_map<string, std::vector<int>, LenHash, FirstEq>) TYPE(umm_hash, 2, 3, 2, 2, std::unordered_multimap<int, string, SameHash>) \
  TYPE(ums_hash, 3, 3, 2, 2, std::unordered_multiset<string, LenHash, FirstEq>) TYPE(um_um, 2, 2, 2, 1, std::unordered_map<int, std::unordered_set<string>>)
#elif GROUP == 7
#define TYPES \
  TYPE(o_int, 1, 6, 1, 3, std::optional<int>) TYPE(o_str, 1, 6, 1, 4, std::optional<string>) TYPE(o_v, 2, 2, 2, 2, std::optional<std::vector<string>>) TYPE(o_o, 1, 3, 1, 2, std::optional<std::optional<string>>) \
  TYPE(var, 2, 3, 2, 2, std::variant<int, string, std::vector<int>>) TYPE(var_bytes, 1, 4, 1, 2, std::variant<int, double, bool>) TYPE(var_str2, 1, 3, 1, 2, std::variant<string, bool, char, Intrusive>) \
  TYPE(v_o, 2, 2, 2, 1, std::vector<std::optional<string>>) TYPE(v_var, 2, 2, 2, 1, std::vector<std::variant<int, string>>) TYPE(var_many, 1, 2, 1, 1, std::variant<char, short, int, long, float, double, string, E8, std::vector<char>, std::optional<int>>) \
  TYPE(var_move, 1, 2, 1, 2, std::variant<int, std::unique_ptr<string>, MoveOnly>)
#elif GROUP == 8
#define TYPES \
  TYPE(p_is, 1, 6, 1, 3, std::pair<int, string>) TYPE(p_p, 1, 2, 1, 1, std::pair<std::pair<string, bool>, std::vector<int>>) TYPE(t_0, 1, 1, 1, 1, std::tuple<>) TYPE(t_1, 1, 6, 1, 4, std::tuple<string>) \
  TYPE(t_3, 2, 2, 2, 1, std::tuple<int, string, std::vector<short>>) TYPE(t_t, 1, 2, 1, 1, std::tuple<std::tuple<string, char>, double, std::pair<int, int>>) TYPE(t_mv, 1, 2, 1, 2, std::tuple<std::unique_ptr<int>, string>) \
  TYPE(v_t, 2, 2, 2, 1, std::vector<std::tuple<char, string>>) TYPE(q_int, 4, 2, 3, 2, std::queue<int>) TYPE(q_str, 3, 3, 2, 2, std::queue<string>) TYPE(v_q, 2, 2, 2, 1, std::vector<std::queue<string>>)
#elif GROUP == 9
#define TYPES \
  TYPE(u_int, 1, 6, 1, 3, std::unique_ptr<int>) TYPE(u_str, 1, 6, 1, 4, std::unique_ptr<string>) TYPE(u_del, 1, 4, 1, 3, std::unique_ptr<string, NullOk<string>>) TYPE(u_u, 1, 4, 1, 2, std::unique_ptr<std::unique_ptr<string>>) \
  TYPE(v_u, 3, 2, 2, 2, std::vector<std::unique_ptr<int>>) TYPE(l_u, 3, 2, 2, 2, std::list<std::unique_ptr<string>>) TYPE(d_u, 2, 2, 2, 2, std::deque<std::unique_ptr<string>>) \
  TYPE(tree, 2, 1, 2, 1, Tree) TYPE(u_tree, 2, 1, 1, 1, std::unique_ptr<Tree>) TYPE(rose, 2, 1, 2, 1, Rose) TYPE(u_v, 2, 2, 2, 1, std::unique_ptr<std::vector<string>>)
#elif GROUP == 10
#define TYPES \
  TYPE(user_in, 1, 3, 1, 2, Intrusive) TYPE(user_non, 2, 2, 2, 1, NonIntrusive) TYPE(tagged, 1, 3, 1, 2, Tagged) TYPE(recon, 1, 4, 1, 2, Recon) TYPE(free_recon, 2, 2, 2, 1, FreeRecon) \
  TYPE(move_only, 1, 3, 1, 2, MoveOnly) TYPE(inherit, 2, 2, 1, 2, Inherit) TYPE(raw_array, 5, 1, 3, 1, RawArray) TYPE(empty, 1, 1, 1, 1, Empty) TYPE(tmpl, 1, 4, 1, 3, Tmpl<string>) \
  TYPE(over, 1, 3, 1, 2, Over) TYPE(split, 1, 3, 1, 2, Split) TYPE(selfref, 3, 2, 2, 2, SelfRef)
#elif GROUP == 11
#define TYPES \
  TYPE(v_tagged, 2, 2, 2, 1, std::vector<Tagged>) TYPE(l_recon, 2, 2, 2, 1, std::list<Recon>) TYPE(d_free, 2, 1, 1, 1, std::deque<FreeRecon>) TYPE(v_move, 2, 2, 2, 1, std::vector<MoveOnly>) \
  TYPE(l_move, 2, 2, 2, 1, std::list<MoveOnly>) TYPE(v_user, 2, 2, 2, 1, std::vector<Intrusive>) TYPE(um_user, 2, 2, 2, 1, std::unordered_map<string, Intrusive>) TYPE(o_tagged, 1, 3, 1, 2, std::optional<Tagged>) \
  TYPE(v_empty, 3, 1, 2, 1, std::vector<Empty>) TYPE(l_tmpl, 2, 2, 2, 1, std::list<Tmpl<std::vector<int>>>) TYPE(a_move, 1, 2, 1, 1, std::array<std::unique_ptr<string>, 2>) \
  TYPE(q_move, 2, 2, 2, 1, std::queue<Tagged>) TYPE(v_self, 2, 2, 2, 1, std::vector<SelfRef>) TYPE(u_over, 1, 2, 1, 2, std::unique_ptr<Over>) TYPE(v_split, 2, 2, 2, 1, std::vector<Split>)
#endif
