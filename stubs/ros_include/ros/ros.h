// Scripted stand-in for roscpp, for running generated tests without ROS.
//
// ros::spin() plays the script named by $VERIF_ROS_SCRIPT, and everything that the test does is written to the
// file named by $VERIF_ROS_LOG.  Script lines:
//
//   msg TOPIC HEX   delivers a message with the given payload to each subscriber of TOPIC
//   delay           fires the shorter-period timer, if there are several
//   timeout         fires the longest-period timer
//   late            from here on, callbacks are delivered although the node has been shut down
#ifndef VERIF_ROS_H
#define VERIF_ROS_H

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace boost
{
using std::shared_ptr;
using std::make_shared;
using std::bind;
using std::function;
}

namespace verif
{

std::string hex(const std::string& s);
std::string unhex(const std::string& s);

// Messages describe their payloads with these.
template <class M> struct Payload
{
  static std::string get(const M& m) { std::ostringstream s; s << m.data; return s.str(); }
  static void set(M& m, const std::string& p) { std::istringstream s(p); s >> m.data; if (!s) throw std::runtime_error("bad payload " + p); }
};

struct Subscription
{
  std::string topic;
  std::function<void(const std::string&)> deliver;
};

struct TimerImpl
{
  double period;
  bool oneshot, started;
  std::function<void()> fire;
};

void note(const std::string& line);
void add(const std::shared_ptr<Subscription>& s);
void add(const std::shared_ptr<TimerImpl>& t);
std::string num(double x);
bool running();
void stop();
void play(bool once);

}

namespace ros
{

inline void init(int&, char**, const std::string& name, uint32_t = 0) { verif::note("init " + name); }
inline bool ok() { return verif::running(); }
inline void shutdown() { verif::stop(); verif::note("shutdown"); }
inline void requestShutdown() { shutdown(); }

struct Time { double sec; explicit Time(double s = 0) : sec(s) {} static Time now() { return Time(); } };

struct Duration
{
  double sec;
  explicit Duration(double s = 0) : sec(s) {}
  Duration(int32_t s, int32_t ns) : sec(s + ns * 1e-9) {}
  double toSec() const { return sec; }
  bool sleep() const { return true; }
};
typedef Duration WallDuration;

struct TimerEvent { Time last_expected, last_real, current_expected, current_real; };
typedef std::function<void(const TimerEvent&)> TimerCallback;

class Timer
{
public:
  void start() { if (impl_) impl_->started = true; }
  void stop() { if (impl_) impl_->started = false; }
  std::shared_ptr<verif::TimerImpl> impl_;
};

class Subscriber
{
public:
  void shutdown() { impl_.reset(); }
  std::shared_ptr<verif::Subscription> impl_;
};

class Publisher
{
public:
  template <class M> void publish(const M& m) const
  {
    verif::note(std::string(valid_ ? "pub " : "badpub ") + (valid_ ? topic_ : "?") + " " + verif::hex(verif::Payload<M>::get(m)));
  }
  template <class M> void publish(const std::shared_ptr<M>& m) const { publish(*m); }
  uint32_t getNumSubscribers() const { return 1; }
  bool valid_ = false;
  std::string topic_;
};

// How each kind of callback parameter gets its message.
template <class P> struct Adapter
{
  typedef typename std::remove_cv<typename std::remove_reference<P>::type>::type M;
  static const M& get(const std::shared_ptr<M>& m) { return *m; }
};
template <class T> struct PtrAdapter
{
  typedef typename std::remove_cv<T>::type M;
  static std::shared_ptr<T> get(const std::shared_ptr<M>& m) { return m; }
};
template <class T> struct Adapter<std::shared_ptr<T>> : PtrAdapter<T> {};
template <class T> struct Adapter<const std::shared_ptr<T>> : PtrAdapter<T> {};
template <class T> struct Adapter<const std::shared_ptr<T>&> : PtrAdapter<T> {};

class NodeHandle
{
public:
  explicit NodeHandle(const std::string& = "") {}

  template <class M> Publisher advertise(const std::string& topic, uint32_t, bool = false)
  {
    verif::note("adv " + topic);
    Publisher p;
    p.valid_ = true;
    p.topic_ = topic;
    return p;
  }

  template <class P, class F> Subscriber sub(const std::string& topic, F f)
  {
    typedef typename Adapter<P>::M M;
    verif::note("sub " + topic);
    Subscriber s;
    s.impl_ = std::make_shared<verif::Subscription>();
    s.impl_->topic = topic;
    s.impl_->deliver = [f](const std::string& payload) {
      auto m = std::make_shared<M>();
      verif::Payload<M>::set(*m, payload);
      f(Adapter<P>::get(m));
    };
    verif::add(s.impl_);
    return s;
  }

  template <class P, class T> Subscriber subscribe(const std::string& topic, uint32_t, void (T::*f)(P), T* obj)
  {
    return sub<P>(topic, [f, obj](typename std::conditional<std::is_reference<P>::value, P, const P&>::type m) { (obj->*f)(m); });
  }
  template <class P> Subscriber subscribe(const std::string& topic, uint32_t, void (*f)(P))
  {
    return sub<P>(topic, f);
  }
  template <class M> Subscriber subscribe(const std::string& topic, uint32_t, std::function<void(const std::shared_ptr<M const>&)> f)
  {
    return sub<const std::shared_ptr<M const>&>(topic, f);
  }

  Timer createTimer(Duration period, TimerCallback f, bool oneshot = false, bool autostart = true)
  {
    verif::note("timer " + verif::num(period.sec));
    Timer t;
    t.impl_ = std::make_shared<verif::TimerImpl>();
    t.impl_->period = period.sec;
    t.impl_->oneshot = oneshot;
    t.impl_->started = autostart;
    t.impl_->fire = [f]() { f(TimerEvent()); };
    verif::add(t.impl_);
    return t;
  }
  template <class T> Timer createTimer(Duration period, void (T::*f)(const TimerEvent&), T* obj, bool oneshot = false, bool autostart = true)
  {
    return createTimer(period, TimerCallback([f, obj](const TimerEvent& e) { (obj->*f)(e); }), oneshot, autostart);
  }
  template <class... A> Timer createWallTimer(A&&... a) { return createTimer(std::forward<A>(a)...); }
  bool ok() const { return ros::ok(); }
};

}

namespace ros
{

inline void spin() { verif::play(false); }
inline void spinOnce() { verif::play(true); }
struct Rate { explicit Rate(double) {} explicit Rate(Duration) {} bool sleep() { return true; } };
inline void waitForShutdown() { verif::play(false); }

}

#define VERIF_ROS_LOG_STREAM(level, args) do { std::cerr << "[" level "] " << args << std::endl; } while (0)
#define ROS_DEBUG_STREAM(args) VERIF_ROS_LOG_STREAM("DEBUG", args)
#define ROS_INFO_STREAM(args) VERIF_ROS_LOG_STREAM("INFO", args)
#define ROS_WARN_STREAM(args) VERIF_ROS_LOG_STREAM("WARN", args)
#define ROS_ERROR_STREAM(args) VERIF_ROS_LOG_STREAM("ERROR", args)
#define ROS_FATAL_STREAM(args) VERIF_ROS_LOG_STREAM("FATAL", args)

#endif
