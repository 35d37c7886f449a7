#ifndef VERIF_std_msgs_Float64_H
#define VERIF_std_msgs_Float64_H
#include "ros/ros.h"
namespace std_msgs
{
struct Float64
{
  typedef std::shared_ptr<Float64> Ptr;
  typedef std::shared_ptr<Float64 const> ConstPtr;
  double data = double();
};
typedef Float64::Ptr Float64Ptr;
typedef Float64::ConstPtr Float64ConstPtr;
}
namespace verif
{
template <> struct Payload<std_msgs::Float64>
{
  static std::string get(const std_msgs::Float64& m) { return num(m.data); }
  static void set(std_msgs::Float64& m, const std::string& p) { m.data = std::stod(p); }
};
}
#endif
