# mi-programoptions and mi-cpptest (metno's own libraries) are in no package
# repository that is reachable here, and /repo/CMakeLists.txt requires both.
# This lets the configure step get past those two find_package() calls.
# It supplies no target, header or library: the targets that use them
# (src/binSrc/*, test/*.cc) cannot be built, and build.sh does not name them.
macro(skip_mi method package)
  if("${package}" MATCHES "^mi-(programoptions|cpptest)$")
    message(STATUS "${package} is not available: what needs it is not built")
    set(${package}_FOUND TRUE)
    set(${package}_VERSION "1.0.0") # only to pass the version check
  endif()
endmacro()
cmake_language(SET_DEPENDENCY_PROVIDER skip_mi SUPPORTED_METHODS FIND_PACKAGE)
