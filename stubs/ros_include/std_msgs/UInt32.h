#ifndef VERIF_std_msgs_UInt32_H
#define VERIF_std_msgs_UInt32_H
#include "ros/ros.h"
namespace std_msgs
{
struct UInt32
{
  typedef std::shared_ptr<UInt32> Ptr;
  typedef std::shared_ptr<UInt32 const> ConstPtr;
  uint32_t data = uint32_t();
};
typedef UInt32::Ptr UInt32Ptr;
typedef UInt32::ConstPtr UInt32ConstPtr;
}
#endif
