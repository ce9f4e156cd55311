# Included right after /repo's project(freud): the same source selection as /opt/vp/build.sh
# uses, optionally restricted to some source directories of the static library (VF_DIRS), so
# that a check compiles only what its property needs.
set(CMAKE_EXPORT_COMPILE_COMMANDS OFF)
if(VF_FULL AND NOT VF_DIRS)
elseif(NOT VF_DIRS)
  include(/opt/vp/cmake/partial.cmake)
else()
  # only the lists of partial.cmake: add_library can be overridden once
  file(READ /opt/vp/cmake/partial.cmake _vf_text)
  string(FIND "${_vf_text}" "function(add_library" _vf_pos)
  string(SUBSTRING "${_vf_text}" 0 ${_vf_pos} _vf_text)
  file(WRITE "${CMAKE_BINARY_DIR}/vf_lists.cmake" "${_vf_text}")
  include("${CMAKE_BINARY_DIR}/vf_lists.cmake")
  function(add_library _name)
    set(_args ${ARGN})
    if(CMAKE_CURRENT_SOURCE_DIR STREQUAL "${PROJECT_SOURCE_DIR}/freud")
      if(NOT VF_FULL)
        list(REMOVE_ITEM _args ${VP_LEFT_OUT} ${VP_COMPILE_ONLY})
        list(FILTER _args EXCLUDE REGEX "^${PROJECT_SOURCE_DIR}/extern/voro\\+\\+/")
      endif()
      if(_name STREQUAL "freud")
        set(_keep)
        foreach(_a IN LISTS _args)
          if(_a MATCHES "^(${VF_DIRS})/" OR _a MATCHES "/extern/" OR NOT _a MATCHES "/")
            list(APPEND _keep ${_a})
          endif()
        endforeach()
        set(_args ${_keep})
      else()
        set(_stub "/opt/vp/cmake/left_out${_name}.cc")
        if(EXISTS "${_stub}" AND NOT VF_FULL)
          list(APPEND _args "${_stub}")
        endif()
      endif()
    endif()
    _add_library(${_name} ${_args})
  endfunction()
endif()
