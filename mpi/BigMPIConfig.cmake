if(NOT TARGET bigmpi::bigmpi)
  add_library(bigmpi::bigmpi INTERFACE IMPORTED)
  set_target_properties(bigmpi::bigmpi PROPERTIES INTERFACE_INCLUDE_DIRECTORIES
    "${CMAKE_CURRENT_LIST_DIR}/include")
endif()
set(BigMPI_FOUND TRUE)
