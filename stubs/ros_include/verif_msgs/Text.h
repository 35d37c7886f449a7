#ifndef VERIF_verif_msgs_Text_H
#define VERIF_verif_msgs_Text_H
#include "ros/ros.h"
namespace verif_msgs
{
struct Text
{
  typedef std::shared_ptr<Text> Ptr;
  typedef std::shared_ptr<Text const> ConstPtr;
  std::string data = std::string();
};
typedef Text::Ptr TextPtr;
typedef Text::ConstPtr TextConstPtr;
}
namespace verif
{
template <> struct Payload<verif_msgs::Text>
{
  static std::string get(const verif_msgs::Text& m) { return m.data; }
  static void set(verif_msgs::Text& m, const std::string& p) { m.data = p; }
};
}
#endif
