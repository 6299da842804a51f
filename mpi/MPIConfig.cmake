# The MPI, BigMPI and cereal of the checks (see include/mpi.h)
if(NOT TARGET MPI::MPI_C)
  add_library(MPI::MPI_C INTERFACE IMPORTED)
  set_target_properties(MPI::MPI_C PROPERTIES INTERFACE_INCLUDE_DIRECTORIES
    "${CMAKE_CURRENT_LIST_DIR}/include")
  add_library(MPI::MPI_CXX INTERFACE IMPORTED)
  set_target_properties(MPI::MPI_CXX PROPERTIES INTERFACE_INCLUDE_DIRECTORIES
    "${CMAKE_CURRENT_LIST_DIR}/include")
endif()
set(MPI_FOUND TRUE)
set(MPI_C_FOUND TRUE)
