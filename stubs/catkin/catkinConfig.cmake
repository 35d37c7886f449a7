# Stand-in for catkin: checks that the components asked for exist, and gives the scripted ROS.
#
# VERIF_ROS_KNOWN lists the components that exist.
foreach(c ${catkin_FIND_COMPONENTS})
  list(FIND VERIF_ROS_KNOWN "${c}" i)
  if(i EQUAL -1)
    message(FATAL_ERROR "Could not find a package configuration file provided by \"${c}\"")
  endif()
endforeach()
set(catkin_FOUND TRUE)
set(catkin_INCLUDE_DIRS "")
set(catkin_LIBRARIES "")
foreach(c ${catkin_FIND_COMPONENTS})
  if(c STREQUAL "roscpp")
    list(APPEND catkin_INCLUDE_DIRS ${VERIF_STUBS}/roscpp_include)
    list(APPEND catkin_LIBRARIES ${VERIF_STUBS}/ros_lib/libverifros.a)
  elseif(EXISTS ${VERIF_STUBS}/${c}_include)
    list(APPEND catkin_INCLUDE_DIRS ${VERIF_STUBS}/${c}_include)
  endif()
endforeach()
set(catkin_EXPORTED_TARGETS "")
macro(catkin_package)
  set(verif_args ${ARGN})
  file(APPEND ${CMAKE_BINARY_DIR}/catkin_package.txt "${verif_args}\n")
  file(WRITE ${CMAKE_BINARY_DIR}/project.txt "${PROJECT_NAME}\n")
endmacro()
