#pragma once
#include "pbt.h"
#include "DyabloSession.hpp"
// shared main : MPI + Kokkos session, then the runner. Library chatter on stdout is discarded.
inline int pbt_main(int argc, char** argv, std::map<std::string, pbt::PropFn> props)
{
  if (!getenv("PBT_VERBOSE"))
  {
    if (!freopen("/dev/null", "w", stdout)) return 3;
  }
  dyablo::DyabloSession session(argc, argv);
  pbt::Runner r;
  r.props = std::move(props);
  return r.run(argc, argv);
}
