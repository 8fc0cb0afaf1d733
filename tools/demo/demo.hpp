#pragma once
#include <base.hpp>
#include <universal_dofs.hpp>
#include <mpiwrap_extension.hpp>
#include <eqchierarchy.hpp>
#include <utils_arrays_tables.hpp>
#include <utils_sparseLA.hpp>
#include <parallelvector.hpp>
#include <parallel_matrices.hpp>
#include <dcc_map.hpp>
#include <hybrid_matrix.hpp>
#include <iostream>
using namespace amg;
static int rk, np;
static int bad = 0;
#define CHECK(c, ...) do { if (!(c)) { bad++; std::cerr << "rank " << rk << ": " << #c << " fails: " << __VA_ARGS__ << std::endl; } } while (0)
static shared_ptr<ParallelDofs> PD (std::vector<std::vector<int>> dps, int bs = 1)
{
  TableCreator<int> c(dps.size());
  for (; !c.Done(); c++) for (size_t i = 0; i < dps.size(); i++) for (int q : dps[i]) c.Add(i, q);
  return make_shared<ParallelDofs>(NgMPI_Comm(NG_MPI_COMM_WORLD), c.MoveTable(), bs, false);
}
extern "C" void Py_Initialize ();
void Demo ();
int main (int argc, char ** argv)
{
  Py_Initialize(); ngcore::InitMPI();   // imports mpi4py, which initialises MPI
  NgMPI_Comm c(NG_MPI_COMM_WORLD); rk = c.Rank(); np = c.Size();
  try { Demo(); } catch (std::exception & e) { bad++; std::cerr << "rank " << rk << ": exception " << e.what() << std::endl; }
  int all = c.AllReduce(bad, NG_MPI_SUM);
  if (rk == 0) std::cerr << (all ? "BROKEN" : "fine") << std::endl;
  NG_MPI_Finalize();
  fflush(stdout); _exit(all ? 1 : 0);
}
