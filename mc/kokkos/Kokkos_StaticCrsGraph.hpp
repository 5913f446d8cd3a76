#pragma once
#include "Kokkos_Core.hpp"
namespace Kokkos {
template <typename I, typename... P> struct StaticCrsGraph { View<I*, P...> entries; View<std::size_t*, P...> row_map; View<std::size_t*, P...> row_block_offsets; };
}
