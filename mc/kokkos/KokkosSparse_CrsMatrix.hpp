#pragma once
#include "Kokkos_StaticCrsGraph.hpp"
namespace KokkosSparse {
template <typename T, typename I = int> struct CrsMatrix {
  Kokkos::StaticCrsGraph<I> graph; Kokkos::View<T*> values;
  CrsMatrix() = default;
  CrsMatrix(std::string const&, I cols, Kokkos::View<T*> const& v, Kokkos::StaticCrsGraph<I> const& g) : graph(g), values(v), cols_(cols) {}
  I numCols() const { return cols_; }
private:
  I cols_ = 0;
};
}
