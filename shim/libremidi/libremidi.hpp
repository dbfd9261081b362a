#pragma once
// Simulated MIDI ports: a process-wide registry of virtual ports the simulator drives.
#include <libremidi/api.hpp>
#include <libremidi/message.hpp>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
namespace libremidi
{
inline constexpr API default_platform_api() { return API::DUMMY; }
class midi_in;
struct sim_midi
{
  std::map<int, midi_in*> inputs;
  std::vector<std::pair<int, message>> sent;
  bool fail_send{};
  static sim_midi& get() { static sim_midi s; return s; }
};
class midi_in
{
public:
  midi_in(API, std::string) { }
  ~midi_in() { close_port(); }
  void open_port(int p, std::string) { close_port(); port = p; sim_midi::get().inputs[p] = this; }
  void close_port() { if(port >= 0) sim_midi::get().inputs.erase(port); port = -1; }
  template <typename F> void set_callback(F f) { cb = f; }
  unsigned get_port_count() { return 2; }
  std::string get_port_name(unsigned i) { return "sim-in-" + std::to_string(i); }
  std::function<void(const message&)> cb;
  int port{-1};
};
class midi_out
{
public:
  midi_out(API, std::string) { }
  void open_port(int p, std::string) { port = p; }
  void close_port() { port = -1; }
  void send_message(const message& m)
  {
    if(sim_midi::get().fail_send) throw std::runtime_error("midi send failed");
    if(port >= 0) sim_midi::get().sent.push_back({port, m});
  }
  unsigned get_port_count() { return 2; }
  std::string get_port_name(unsigned i) { return "sim-out-" + std::to_string(i); }
  int port{-1};
};
}
