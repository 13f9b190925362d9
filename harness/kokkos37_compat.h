// Force-included (CMAKE_CXX_FLAGS) in every C++ file of /repo/_build, because apt has Kokkos 3.7
// and core/src/mpi/ViewCommunicator.h uses the 4.1 spelling "View::rank()" of the constant that
// 3.7 calls "View::rank" (an enum). "X::rank()" becomes "X::rank"; "rank(a, b)" is left alone.
#pragma once
#include <numeric> // std::accumulate, which newer Kokkos headers bring in
#define rank(...) rank __VA_OPT__((__VA_ARGS__))
