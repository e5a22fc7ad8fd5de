#include "lts.h"
extern "C" int edge_main(int, char **);
#ifdef PP_USE_MPI
extern "C" void mpi_setup();
#endif
static void entry(int) { static char n[] = "edge"; char *a[] = {n, 0}; edge_main(1, a); lts::checkFiles(); }
int main(int argc, char **argv) {
  eng_args(argc, argv); lts::parse();
#ifdef PP_USE_MPI
  mpi_setup();
#endif
  return eng_run(argc, argv, "lts", lts::S.nRanks, lts::S.nThreads, entry, 0);
}
