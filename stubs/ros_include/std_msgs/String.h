#ifndef VERIF_std_msgs_String_H
#define VERIF_std_msgs_String_H
#include "ros/ros.h"
namespace std_msgs
{
struct String
{
  typedef std::shared_ptr<String> Ptr;
  typedef std::shared_ptr<String const> ConstPtr;
  std::string data = std::string();
};
typedef String::Ptr StringPtr;
typedef String::ConstPtr StringConstPtr;
}
namespace verif
{
template <> struct Payload<std_msgs::String>
{
  static std::string get(const std_msgs::String& m) { return m.data; }
  static void set(std_msgs::String& m, const std::string& p) { m.data = p; }
};
}
#endif
