// Implementation of the scripted stand-in for roscpp; see ros/ros.h.
#include "ros/ros.h"

namespace verif
{

std::string hex(const std::string& s)
{
  static const char* digits = "0123456789abcdef";
  std::string r = "x";
  for (unsigned char c : s) { r += digits[c >> 4]; r += digits[c & 15]; }
  return r;
}


std::string unhex(const std::string& s)
{
  std::string r;
  for (size_t i = 1; i + 1 < s.size(); i += 2) r += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
  return r;
}

struct World
{
  bool ok = true, late = false, done = false;
  std::ifstream script;
  std::ofstream log;
  std::vector<std::weak_ptr<Subscription>> subs;
  std::vector<std::weak_ptr<TimerImpl>> timers;
  World()
  {
    if (const char* p = std::getenv("VERIF_ROS_LOG")) log.open(p);
    if (const char* p = std::getenv("VERIF_ROS_SCRIPT")) script.open(p);
  }
  void note(const std::string& line) { log << line << std::endl; }
};

World& world()
{
  static World w;
  return w;
}


void fireTimer(bool longest)
{
  std::shared_ptr<TimerImpl> best;
  int live = 0;
  for (auto& w : world().timers)
    if (auto t = w.lock())
    {
      live++;
      if (!best || (longest ? t->period > best->period : t->period < best->period)) best = t;
    }
  if (!best || !best->started || (!longest && live < 2))
  {
    note("notimer");
    return;
  }
  if (best->oneshot) best->started = false;
  best->fire();
}

// play delivers the callbacks of the script: all of them, or the next one.
void play(bool once)
{
  World& w = world();
  if (w.done) { note("respin"); return; }
  std::string line;
  while (std::getline(w.script, line))
  {
    std::istringstream ls(line);
    std::string op;
    ls >> op;
    if (op == "late") { w.late = true; continue; }
    if (!w.ok && !w.late) return;
    note("> " + op);
    if (op == "msg")
    {
      std::string topic, payload;
      ls >> topic >> payload;
      bool any = false;
      auto subs = w.subs;
      for (auto& ws : subs)
      {
        auto s = ws.lock();
        if (s && s->topic == topic) { any = true; s->deliver(unhex(payload)); }
      }
      if (!any) note("nosub " + topic);
    }
    else if (op == "delay") fireTimer(false);
    else if (op == "timeout") fireTimer(true);
    if (once) return;
  }
  note("endofscript");
  w.done = true;
  w.ok = false;
}

void note(const std::string& line) { world().note(line); }
void add(const std::shared_ptr<Subscription>& s) { world().subs.push_back(s); }
void add(const std::shared_ptr<TimerImpl>& t) { world().timers.push_back(t); }
std::string num(double x) { std::ostringstream s; s << x; return s.str(); }
bool running() { return world().ok; }
void stop() { world().ok = false; }

}
