#ifndef VERIF_PCH_ROS_H
#define VERIF_PCH_ROS_H
#include "std.h"
#include "ros/ros.h"
#include "std_msgs/Bool.h"
#include "std_msgs/Empty.h"
#include "std_msgs/Float64.h"
#include "std_msgs/Int32.h"
#include "std_msgs/String.h"
#include "std_msgs/UInt32.h"
#include "verif_msgs/Natural.h"
#include "verif_msgs/Text.h"
#include "verif_msgs/Whole.h"
#endif
