# Included by CMake right after project(stempy): build.sh passes this file as
# CMAKE_PROJECT_stempy_INCLUDE. thirdparty/pybind11 is an empty git submodule
# here, so its add_subdirectory() becomes find_package(pybind11), which finds
# Ubuntu's pybind11-dev. A submodule that is filled in is used as it is.
macro(add_subdirectory dir)
  if("${dir}" MATCHES "thirdparty/pybind11$" AND NOT EXISTS "${dir}/CMakeLists.txt")
    find_package(pybind11 CONFIG REQUIRED)
  else()
    _add_subdirectory("${dir}" ${ARGN})
  endif()
endmacro()
