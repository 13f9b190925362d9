// run a piece of code as if the job had only its first n processes
#pragma once
#include "pbt.h"
#include "utils/mpi/GlobalMpiSession.h"
#include "utils/mpi/MpiComm.h"
namespace hc {
template <class F> void on_procs(pbt::Case& c, int n, const F& f)
{
  int me = pbt::real_rank();
  MPI_Comm sub;
  MPI_Comm_split(vp_real_world, me < n ? 0 : 1, me, &sub);
  dyablo::MpiComm& w = dyablo::GlobalMpiSession::get_comm_world();
  dyablo::MpiComm keep = w;
  if (me < n)
  {
    vp_world_comm = sub;
    w = dyablo::MpiComm(sub);
    auto back = [&]() { w = keep; vp_world_comm = vp_real_world; };
    try { f(); }
    catch (...) { back(); throw; }
    back();
  }
  MPI_Barrier(vp_real_world);
  MPI_Comm_free(&sub);
  c.sync();
}
} // namespace hc
