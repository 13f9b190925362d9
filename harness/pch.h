#include "kokkos37_compat.h"
#include <Kokkos_Core.hpp>
#include <Kokkos_UnorderedMap.hpp>
#include <Kokkos_StdAlgorithms.hpp>
#include <mpi.h>
// MPI_COMM_WORLD becomes a variable, so that a driver can run the code on the first n processes of
// the job only (see subcomm.h); by default it is the real world.
inline MPI_Comm vp_real_world = MPI_COMM_WORLD;
inline MPI_Comm vp_world_comm = MPI_COMM_WORLD;
#undef MPI_COMM_WORLD
#define MPI_COMM_WORLD (vp_world_comm)
#include <hdf5.h>
#include <cmath>
#include <map>
#include <memory>
#include <vector>
#include <string>
#include <sstream>
#include <fstream>
#include <iostream>
#include <set>
#include <algorithm>
#include <functional>
