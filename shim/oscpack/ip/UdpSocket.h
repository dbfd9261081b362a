// Simulated UDP transport with the oscpack socket API. It runs over the sockets API,
// which in the simulator is the simulated network.
#pragma once
#include <oscpack/osc/OscTypes.h>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace oscpack
{
class IpEndpointName
{
public:
  enum : unsigned long { ANY_ADDRESS = 0xFFFFFFFFul };
  enum { ANY_PORT = -1 };
  IpEndpointName() : address(ANY_ADDRESS), port(ANY_PORT) { }
  IpEndpointName(int p) : address(ANY_ADDRESS), port(p) { }
  IpEndpointName(unsigned long a, int p) : address(a), port(p) { }
  IpEndpointName(const char* host, int p = ANY_PORT);
  unsigned long address;
  int port;
  enum { ADDRESS_STRING_LENGTH = 17, ADDRESS_AND_PORT_STRING_LENGTH = 23 };
  void AddressAsString(char* s) const;
  void AddressAndPortAsString(char* s) const;
  friend bool operator==(const IpEndpointName& a, const IpEndpointName& b)
  {
    return a.address == b.address && a.port == b.port;
  }
  friend bool operator!=(const IpEndpointName& a, const IpEndpointName& b) { return !(a == b); }
};

class PacketListener
{
public:
  virtual ~PacketListener() { }
  virtual void ProcessPacket(const char* data, int size, const IpEndpointName& remoteEndpoint) = 0;
};
class TimerListener
{
public:
  virtual ~TimerListener() { }
  virtual void TimerExpired() = 0;
};

namespace detail
{
struct Implementation
{
  int fd{-1};
  bool connected{};
  Implementation();
  ~Implementation();
  Implementation(const Implementation&) = delete;
};
struct mux_state;
template <typename Impl_T>
class UdpSocket
{
public:
  UdpSocket() { }
  virtual ~UdpSocket() { }
  void SetEnableBroadcast(bool);
  void SetAllowReuse(bool) { }
  IpEndpointName LocalEndpointFor(const IpEndpointName& remote) const;
  void Connect(const IpEndpointName& remote);
  void Send(const char* data, std::size_t size);
  void SendTo(const IpEndpointName& remote, const char* data, std::size_t size);
  void Bind(const IpEndpointName& local);
  bool IsBound() const { return bound_; }
  int LocalPort() const;
  std::size_t ReceiveFrom(IpEndpointName& remote, char* data, std::size_t size);

  Impl_T impl_;
  bool bound_{};
};
template <typename Impl_T>
class SocketReceiveMultiplexer
{
public:
  SocketReceiveMultiplexer();
  ~SocketReceiveMultiplexer();
  void AttachSocketListener(Impl_T* socket, PacketListener* listener);
  void DetachSocketListener(Impl_T* socket, PacketListener* listener);
  void AttachPeriodicTimerListener(int ms, TimerListener* l);
  void Run();
  void Break();
  void AsynchronousBreak();

private:
  std::unique_ptr<mux_state> st_;
};
template <typename Impl_T>
class UdpTransmitSocketT : public UdpSocket<Impl_T>
{
public:
  UdpTransmitSocketT(const IpEndpointName& remote) { this->Connect(remote); }
};
template <typename Impl_T>
class UdpListeningReceiveSocket : public UdpSocket<Impl_T>
{
  SocketReceiveMultiplexer<Impl_T> mux_;
  PacketListener* listener_;

public:
  UdpListeningReceiveSocket(const IpEndpointName& local, PacketListener* listener)
      : listener_(listener)
  {
    this->Bind(local);
    mux_.AttachSocketListener(&this->impl_, listener_);
  }
  ~UdpListeningReceiveSocket() { mux_.DetachSocketListener(&this->impl_, listener_); }
  void Run() { mux_.Run(); }
  void Break() { mux_.Break(); }
  void AsynchronousBreak() { mux_.AsynchronousBreak(); }
};
}
using UdpSocket = detail::UdpSocket<detail::Implementation>;
using UdpTransmitSocket = detail::UdpTransmitSocketT<detail::Implementation>;
using UdpListeningReceiveSocket = detail::UdpListeningReceiveSocket<detail::Implementation>;
}
