#ifndef VERIF_verif_msgs_Natural_H
#define VERIF_verif_msgs_Natural_H
#include "ros/ros.h"
namespace verif_msgs
{
struct Natural
{
  typedef std::shared_ptr<Natural> Ptr;
  typedef std::shared_ptr<Natural const> ConstPtr;
  uint64_t data = uint64_t();
};
typedef Natural::Ptr NaturalPtr;
typedef Natural::ConstPtr NaturalConstPtr;
}

#endif
