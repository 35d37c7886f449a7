// Command bb checks properties of the rtcg tools from the outside.
//
// It needs $VERIF_BIN (directory of the built tools), $VERIF_SCRATCH (a directory to work in), and, for some
// properties, $VERIF_STUBS (stand-ins for ROS and catkin).
package main

import "verif/harness/pbt"

func main() { pbt.Main() }
