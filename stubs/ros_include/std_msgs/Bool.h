#ifndef VERIF_std_msgs_Bool_H
#define VERIF_std_msgs_Bool_H
#include "ros/ros.h"
namespace std_msgs
{
struct Bool
{
  typedef std::shared_ptr<Bool> Ptr;
  typedef std::shared_ptr<Bool const> ConstPtr;
  uint8_t data = uint8_t();
};
typedef Bool::Ptr BoolPtr;
typedef Bool::ConstPtr BoolConstPtr;
}
namespace verif
{
template <> struct Payload<std_msgs::Bool>
{
  static std::string get(const std_msgs::Bool& m) { return m.data ? "1" : "0"; }
  static void set(std_msgs::Bool& m, const std::string& p) { m.data = p == "1"; }
};
}
#endif
