#!/bin/bash
# usage: prepare.sh SCRATCH -- builds the stand-in for ROS and lays it out as catkin components.
set -e
cd "$1/stubs"
(cd ros_lib && g++ -std=c++11 -O1 -I ../ros_include -c rosstub.cpp -o rosstub.o && ar rcs libverifros.a rosstub.o)
for c in roscpp:ros std_msgs:std_msgs verif_msgs:verif_msgs; do
  mkdir -p "${c%%:*}_include"
  cp -r "ros_include/${c##*:}" "${c%%:*}_include/"
done
