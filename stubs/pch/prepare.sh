#!/bin/bash
# usage: prepare.sh SCRATCH -- precompiles the headers for generated C++, and the stand-in for ROS.
set -e
cd "$1/stubs/pch"
mkdir -p std_pch ros_pch
g++ -std=c++11 -O0 -x c++-header std.h -o std_pch/std.h.gch & a=$!
g++ -std=c++11 -O0 -I ../ros_include -x c++-header ros.h -o ros_pch/ros.h.gch & b=$!
(cd ../ros_lib && g++ -std=c++11 -O1 -I ../ros_include -c rosstub.cpp -o rosstub.o && ar rcs libverifros.a rosstub.o) & c=$!
wait $a; wait $b; wait $c
