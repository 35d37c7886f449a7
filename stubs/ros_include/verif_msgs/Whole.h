#ifndef VERIF_verif_msgs_Whole_H
#define VERIF_verif_msgs_Whole_H
#include "ros/ros.h"
namespace verif_msgs
{
struct Whole
{
  typedef std::shared_ptr<Whole> Ptr;
  typedef std::shared_ptr<Whole const> ConstPtr;
  int64_t data = int64_t();
};
typedef Whole::Ptr WholePtr;
typedef Whole::ConstPtr WholeConstPtr;
}

#endif
