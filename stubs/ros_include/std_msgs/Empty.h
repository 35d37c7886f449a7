#ifndef VERIF_std_msgs_Empty_H
#define VERIF_std_msgs_Empty_H
#include "ros/ros.h"
namespace std_msgs
{
struct Empty
{
  typedef std::shared_ptr<Empty> Ptr;
  typedef std::shared_ptr<Empty const> ConstPtr;
};
typedef Empty::Ptr EmptyPtr;
typedef Empty::ConstPtr EmptyConstPtr;
}
namespace verif
{
template <> struct Payload<std_msgs::Empty>
{
  static std::string get(const std_msgs::Empty&) { return ""; }
  static void set(std_msgs::Empty&, const std::string&) {}
};
}
#endif
