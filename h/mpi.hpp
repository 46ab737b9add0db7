// MPI job frame of the monitors: every rank draws the same random numbers, so each knows what all ranks send.
#pragma once
#define VF_NO_MAIN
#include <mpi.h>
#include "vf.hpp"
#include <conduit_relay_mpi.hpp>
static MPI_Comm g_rev, g_dup;
static void slow(vf::Rng &r, int rank) { for (int i = 0; i < 8; i++) { bool b = r.chance(0.03); int us = (int)r.below(400); if (b && i == rank) usleep(us); } }
int main(int argc, char **argv) {
  MPI_Init(&argc, &argv); int rank, n; MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &n);
  MPI_Comm_split(MPI_COMM_WORLD, 0, n - rank, &g_rev); MPI_Comm_dup(MPI_COMM_WORLD, &g_dup);
  vf::hooks().abort = []() { MPI_Abort(MPI_COMM_WORLD, 98); };
  int rc = vf::vf_main(argc, argv, rank, n);
  MPI_Barrier(MPI_COMM_WORLD); MPI_Comm_free(&g_rev); MPI_Comm_free(&g_dup); MPI_Finalize(); return rc;
}
