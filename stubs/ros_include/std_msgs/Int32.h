#ifndef VERIF_std_msgs_Int32_H
#define VERIF_std_msgs_Int32_H
#include "ros/ros.h"
namespace std_msgs
{
struct Int32
{
  typedef std::shared_ptr<Int32> Ptr;
  typedef std::shared_ptr<Int32 const> ConstPtr;
  int32_t data = int32_t();
};
typedef Int32::Ptr Int32Ptr;
typedef Int32::ConstPtr Int32ConstPtr;
}
#endif
