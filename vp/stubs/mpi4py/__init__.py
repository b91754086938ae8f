"""Stand-in for mpi4py (not installed here): ranks are processes that meet through files in VP_MPI_DIR."""
