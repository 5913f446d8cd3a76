#pragma once
#include "Kokkos_Core.hpp"
namespace Kokkos { namespace Experimental {
// One-dimensional and resizable, in chunks of a power of two that never move.
template <typename D, typename... P> struct DynamicView {
  using traits = Impl::Traits<D, P...>;
  using data_type = D; using array_layout = typename traits::array_layout; using value_type = typename traits::value_type; using size_type = std::size_t; using memory_traits = typename traits::memory_traits;
  static constexpr std::integral_constant<std::size_t, 1> rank{};
  struct State { std::string label; std::vector<std::unique_ptr<Impl::Block<value_type>>> chunks; std::size_t size = 0; };
  DynamicView() = default;
  DynamicView(std::string const& label, unsigned min_chunk, unsigned max_extent) : state_(std::make_shared<State>()) {
    while ((1u << shift_) < min_chunk) shift_++;
    max_ = (max_extent + (1u << shift_) - 1) >> shift_;
    state_->label = label;
  }
  std::size_t chunk_size() const { return std::size_t(1) << shift_; }
  std::size_t allocation_extent() const { return (state_ ? state_->chunks.size() : 0) << shift_; }
  std::size_t size() const { return state_ ? state_->size : 0; }
  template <typename I> std::size_t extent(I i) const { return i == 0 ? size() : 1; }
  template <typename I> std::size_t stride(I) const { return 0; }
  std::size_t span() const { return 0; }
  bool span_is_contiguous() const { return false; }
  value_type* data() const { return nullptr; }
  std::string label() const { return state_ ? state_->label : std::string(); }
  int use_count() const { return int(state_.use_count()); }
  void resize_serial(std::size_t n) {
    if (!state_ || (n + chunk_size() - 1) >> shift_ > max_) { if (!n) return; Kokkos::abort("DynamicView: resize beyond the maximal extent"); }
    std::size_t k = (n + chunk_size() - 1) >> shift_;
    while (state_->chunks.size() > k) state_->chunks.pop_back();
    while (state_->chunks.size() < k) state_->chunks.emplace_back(new Impl::Block<value_type>("", chunk_size(), false));
    state_->size = n;
  }
  value_type& operator()(std::size_t i) const { if (i >= size()) Kokkos::abort("index out of bounds"); return state_->chunks[i >> shift_]->data[i & (chunk_size() - 1)]; }
private:
  unsigned shift_ = 0, max_ = 0; std::shared_ptr<State> state_;
};
}}
