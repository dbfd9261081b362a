// Implementation of the stand-in oscpack library (see oscpack/osc/OscTypes.h).
// Follows the encoding and the validation of oscpack 1.1.
#include <oscpack/osc/OscOutboundPacketStream.h>
#include <oscpack/osc/OscPacketListener.h>
#include <oscpack/osc/OscPrintReceivedElements.h>
#include <oscpack/ip/UdpSocket.h>

#include <arpa/inet.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <unistd.h>
#include <algorithm>
#include <cerrno>

namespace oscpack
{
namespace
{
uint32 rd32(const char* p)
{
  unsigned char b[4];
  memcpy(b, p, 4);
  return (uint32(b[0]) << 24) | (uint32(b[1]) << 16) | (uint32(b[2]) << 8) | b[3];
}
uint64 rd64(const char* p) { return (uint64(rd32(p)) << 32) | rd32(p + 4); }
void wr32(char* p, uint32 v)
{
  p[0] = char(v >> 24);
  p[1] = char(v >> 16);
  p[2] = char(v >> 8);
  p[3] = char(v);
}
void wr64(char* p, uint64 v)
{
  wr32(p, uint32(v >> 32));
  wr32(p + 4, uint32(v));
}
const char* FindStr4End(const char* p)
{
  if(p[0] == '\0')
    return p + 4;
  p += 3;
  while(*p)
    p += 4;
  return p + 1;
}
const char* FindStr4End(const char* p, const char* end)
{
  if(p >= end)
    return 0;
  if(p[0] == '\0')
    return p + 4;
  p += 3;
  end -= 1;
  while(p < end && *p)
    p += 4;
  if(*p)
    return 0;
  return p + 1;
}
}

// ---- outbound
OutboundPacketStream::OutboundPacketStream(char* buffer, std::size_t capacity)
    : data_(buffer)
    , end_(data_ + capacity)
    , typeTagsCurrent_(end_)
    , messageCursor_(data_)
    , argumentCurrent_(data_)
    , elementSizePtr_(0)
    , messageIsInProgress_(false)
{
}
OutboundPacketStream::~OutboundPacketStream() { }
char* OutboundPacketStream::BeginElement(char* beginPtr)
{
  if(elementSizePtr_ == 0)
  {
    elementSizePtr_ = reinterpret_cast<uint32*>(data_);
    return beginPtr;
  }
  else
  {
    *reinterpret_cast<uint32*>(beginPtr)
        = static_cast<uint32>(reinterpret_cast<char*>(elementSizePtr_) - data_);
    elementSizePtr_ = reinterpret_cast<uint32*>(beginPtr);
    return beginPtr + 4;
  }
}
void OutboundPacketStream::EndElement(char* endPtr)
{
  if(elementSizePtr_ == reinterpret_cast<uint32*>(data_))
  {
    elementSizePtr_ = 0;
  }
  else
  {
    uint32* prev = reinterpret_cast<uint32*>(data_ + *elementSizePtr_);
    uint32 sz = static_cast<uint32>(endPtr - reinterpret_cast<char*>(elementSizePtr_)) - 4;
    wr32(reinterpret_cast<char*>(elementSizePtr_), sz);
    elementSizePtr_ = prev;
  }
}
bool OutboundPacketStream::ElementSizeSlotRequired() const { return elementSizePtr_ != 0; }
void OutboundPacketStream::CheckForAvailableBundleSpace()
{
  std::size_t required = Size() + (ElementSizeSlotRequired() ? 4 : 0) + 16;
  if(required > Capacity())
    throw OutOfBufferMemoryException();
}
void OutboundPacketStream::CheckForAvailableMessageSpace(const char* addressPattern)
{
  std::size_t required = Size() + (ElementSizeSlotRequired() ? 4 : 0)
                         + RoundUp4(std::strlen(addressPattern) + 1) + 4;
  if(required > Capacity())
    throw OutOfBufferMemoryException();
}
void OutboundPacketStream::CheckForAvailableArgumentSpace(std::size_t argumentLength)
{
  std::size_t required
      = (argumentCurrent_ - data_) + argumentLength + RoundUp4((end_ - typeTagsCurrent_) + 3);
  if(required > Capacity())
    throw OutOfBufferMemoryException();
}
void OutboundPacketStream::Clear()
{
  typeTagsCurrent_ = end_;
  messageCursor_ = data_;
  argumentCurrent_ = data_;
  elementSizePtr_ = 0;
  messageIsInProgress_ = false;
}
std::size_t OutboundPacketStream::Capacity() const { return end_ - data_; }
std::size_t OutboundPacketStream::Size() const
{
  std::size_t result = argumentCurrent_ - data_;
  if(IsMessageInProgress())
    result += RoundUp4((end_ - typeTagsCurrent_) + 2);
  return result;
}
const char* OutboundPacketStream::Data() const { return data_; }
bool OutboundPacketStream::IsReady() const
{
  return !IsMessageInProgress() && !IsBundleInProgress();
}
bool OutboundPacketStream::IsMessageInProgress() const { return messageIsInProgress_; }
bool OutboundPacketStream::IsBundleInProgress() const { return elementSizePtr_ != 0; }

OutboundPacketStream& OutboundPacketStream::operator<<(const BundleInitiator& rhs)
{
  if(IsMessageInProgress())
    throw MessageInProgressException();
  CheckForAvailableBundleSpace();
  messageCursor_ = BeginElement(messageCursor_);
  std::memcpy(messageCursor_, "#bundle\0", 8);
  wr64(messageCursor_ + 8, rhs.timeTag);
  messageCursor_ += 16;
  argumentCurrent_ = messageCursor_;
  return *this;
}
OutboundPacketStream& OutboundPacketStream::operator<<(const BundleTerminator&)
{
  if(!IsBundleInProgress())
    throw BundleNotInProgressException();
  if(IsMessageInProgress())
    throw MessageInProgressException();
  EndElement(messageCursor_);
  return *this;
}
OutboundPacketStream& OutboundPacketStream::operator<<(const BeginMessage& rhs)
{
  if(IsMessageInProgress())
    throw MessageInProgressException();
  CheckForAvailableMessageSpace(rhs.addressPattern);
  messageCursor_ = BeginElement(messageCursor_);
  std::size_t n = std::strlen(rhs.addressPattern);
  std::memcpy(messageCursor_, rhs.addressPattern, n + 1);
  messageCursor_ += n + 1;
  std::size_t i = n + 1;
  while(i & 3)
  {
    *messageCursor_++ = '\0';
    ++i;
  }
  argumentCurrent_ = messageCursor_;
  typeTagsCurrent_ = end_;
  messageIsInProgress_ = true;
  return *this;
}
OutboundPacketStream& OutboundPacketStream::operator<<(const MessageTerminator&)
{
  if(!IsMessageInProgress())
    throw MessageNotInProgressException();
  std::size_t typeTagsCount = end_ - typeTagsCurrent_;
  if(typeTagsCount)
  {
    std::vector<char> temp(typeTagsCurrent_, typeTagsCurrent_ + typeTagsCount);
    std::size_t slot = RoundUp4(typeTagsCount + 2);
    std::size_t args = argumentCurrent_ - messageCursor_;
    std::memmove(messageCursor_ + slot, messageCursor_, args);
    messageCursor_[0] = ',';
    for(std::size_t i = 0; i < typeTagsCount; ++i)
      messageCursor_[i + 1] = temp[(typeTagsCount - 1) - i];
    char* p = messageCursor_ + 1 + typeTagsCount;
    for(std::size_t i = 0; i < (slot - (typeTagsCount + 1)); ++i)
      *p++ = '\0';
    typeTagsCurrent_ = end_;
    messageCursor_ += args + slot;
  }
  else
  {
    std::memcpy(messageCursor_, ",\0\0\0", 4);
    messageCursor_ += 4;
  }
  argumentCurrent_ = messageCursor_;
  EndElement(messageCursor_);
  messageIsInProgress_ = false;
  return *this;
}
OutboundPacketStream& OutboundPacketStream::operator<<(bool rhs)
{
  CheckForAvailableArgumentSpace(0);
  *(--typeTagsCurrent_) = rhs ? 'T' : 'F';
  return *this;
}
OutboundPacketStream& OutboundPacketStream::operator<<(const NilType&)
{
  CheckForAvailableArgumentSpace(0);
  *(--typeTagsCurrent_) = 'N';
  return *this;
}
OutboundPacketStream& OutboundPacketStream::operator<<(const InfinitumType&)
{
  CheckForAvailableArgumentSpace(0);
  *(--typeTagsCurrent_) = 'I';
  return *this;
}
#define OSC_ARG32(T, TAG, EXPR)                                   \
  OutboundPacketStream& OutboundPacketStream::operator<<(T rhs)   \
  {                                                               \
    CheckForAvailableArgumentSpace(4);                            \
    *(--typeTagsCurrent_) = TAG;                                  \
    uint32 u;                                                     \
    EXPR;                                                         \
    wr32(argumentCurrent_, u);                                    \
    argumentCurrent_ += 4;                                        \
    return *this;                                                 \
  }
#define OSC_ARG64(T, TAG, EXPR)                                   \
  OutboundPacketStream& OutboundPacketStream::operator<<(T rhs)   \
  {                                                               \
    CheckForAvailableArgumentSpace(8);                            \
    *(--typeTagsCurrent_) = TAG;                                  \
    uint64 u;                                                     \
    EXPR;                                                         \
    wr64(argumentCurrent_, u);                                    \
    argumentCurrent_ += 8;                                        \
    return *this;                                                 \
  }
OSC_ARG32(int32, 'i', u = uint32(rhs))
OSC_ARG32(float, 'f', std::memcpy(&u, &rhs, 4))
OSC_ARG32(char, 'c', u = uint32(int32(rhs)))
OSC_ARG32(const RgbaColor&, 'r', u = rhs.value)
OSC_ARG32(const MidiMessage&, 'm', u = rhs.value)
OSC_ARG64(int64, 'h', u = uint64(rhs))
OSC_ARG64(const TimeTag&, 't', u = rhs.value)
OSC_ARG64(double, 'd', std::memcpy(&u, &rhs, 8))
#define OSC_STR(T, TAG, P)                                                    \
  OutboundPacketStream& OutboundPacketStream::operator<<(T rhs)               \
  {                                                                           \
    std::size_t n = std::strlen(P);                                           \
    CheckForAvailableArgumentSpace(RoundUp4(n + 1));                          \
    *(--typeTagsCurrent_) = TAG;                                              \
    std::memcpy(argumentCurrent_, P, n + 1);                                  \
    argumentCurrent_ += n + 1;                                                \
    std::size_t i = n + 1;                                                    \
    while(i & 3)                                                              \
    {                                                                         \
      *argumentCurrent_++ = '\0';                                             \
      ++i;                                                                    \
    }                                                                         \
    return *this;                                                             \
  }
OSC_STR(const char*, 's', rhs)
OSC_STR(const Symbol&, 'S', rhs.value)
OutboundPacketStream& OutboundPacketStream::operator<<(const Blob& rhs)
{
  CheckForAvailableArgumentSpace(4 + RoundUp4(rhs.size));
  *(--typeTagsCurrent_) = 'b';
  wr32(argumentCurrent_, rhs.size);
  argumentCurrent_ += 4;
  if(rhs.size)
    std::memcpy(argumentCurrent_, rhs.data, rhs.size);
  argumentCurrent_ += rhs.size;
  std::size_t i = rhs.size;
  while(i & 3)
  {
    *argumentCurrent_++ = '\0';
    ++i;
  }
  return *this;
}
OutboundPacketStream& OutboundPacketStream::operator<<(const ArrayInitiator&)
{
  CheckForAvailableArgumentSpace(0);
  *(--typeTagsCurrent_) = '[';
  return *this;
}
OutboundPacketStream& OutboundPacketStream::operator<<(const ArrayTerminator&)
{
  CheckForAvailableArgumentSpace(0);
  *(--typeTagsCurrent_) = ']';
  return *this;
}

// ---- inbound
bool ReceivedPacket::IsBundle() const { return (Size() > 0 && Contents()[0] == '#'); }
bool ReceivedBundleElement::IsBundle() const { return (Size() > 0 && Contents()[0] == '#'); }
osc_bundle_element_size_t ReceivedBundleElement::Size() const { return rd32(sizePtr_); }
bool ReceivedMessageArgument::AsBool() const
{
  if(!typeTagPtr_)
    throw MissingArgumentException();
  else if(*typeTagPtr_ == 'T')
    return true;
  else if(*typeTagPtr_ == 'F')
    return false;
  throw WrongArgumentTypeException();
}
bool ReceivedMessageArgument::AsBoolUnchecked() const
{
  if(!typeTagPtr_)
    throw MissingArgumentException();
  return *typeTagPtr_ == 'T';
}
#define OSC_GET(RET, NAME, TAG)                    \
  RET ReceivedMessageArgument::As##NAME() const    \
  {                                                \
    if(!typeTagPtr_)                               \
      throw MissingArgumentException();            \
    else if(*typeTagPtr_ == TAG)                   \
      return As##NAME##Unchecked();                \
    throw WrongArgumentTypeException();            \
  }
OSC_GET(int32, Int32, 'i')
OSC_GET(float, Float, 'f')
OSC_GET(char, Char, 'c')
OSC_GET(uint32, RgbaColor, 'r')
OSC_GET(uint32, MidiMessage, 'm')
OSC_GET(int64, Int64, 'h')
OSC_GET(uint64, TimeTag, 't')
OSC_GET(double, Double, 'd')
OSC_GET(const char*, String, 's')
OSC_GET(const char*, Symbol, 'S')
int32 ReceivedMessageArgument::AsInt32Unchecked() const { return int32(rd32(argumentPtr_)); }
float ReceivedMessageArgument::AsFloatUnchecked() const
{
  uint32 u = rd32(argumentPtr_);
  float f;
  memcpy(&f, &u, 4);
  return f;
}
char ReceivedMessageArgument::AsCharUnchecked() const { return char(rd32(argumentPtr_)); }
uint32 ReceivedMessageArgument::AsRgbaColorUnchecked() const { return rd32(argumentPtr_); }
uint32 ReceivedMessageArgument::AsMidiMessageUnchecked() const { return rd32(argumentPtr_); }
int64 ReceivedMessageArgument::AsInt64Unchecked() const { return int64(rd64(argumentPtr_)); }
uint64 ReceivedMessageArgument::AsTimeTagUnchecked() const { return rd64(argumentPtr_); }
double ReceivedMessageArgument::AsDoubleUnchecked() const
{
  uint64 u = rd64(argumentPtr_);
  double f;
  memcpy(&f, &u, 8);
  return f;
}
void ReceivedMessageArgument::AsBlob(const void*& data, osc_bundle_element_size_t& size) const
{
  if(!typeTagPtr_)
    throw MissingArgumentException();
  else if(*typeTagPtr_ == 'b')
    AsBlobUnchecked(data, size);
  else
    throw WrongArgumentTypeException();
}
void ReceivedMessageArgument::AsBlobUnchecked(
    const void*& data, osc_bundle_element_size_t& size) const
{
  osc_bundle_element_size_t r = (osc_bundle_element_size_t)rd32(argumentPtr_);
  if(!IsValidElementSizeValue(r))
    throw MalformedMessageException("invalid blob size");
  size = r;
  data = (void*)(argumentPtr_ + 4);
}
std::size_t ReceivedMessageArgument::ComputeArrayItemCount() const
{
  if(!IsArrayBegin())
    throw WrongArgumentTypeException();
  std::size_t result = 0;
  unsigned int level = 0;
  const char* t = typeTagPtr_ + 1;
  while(*t)
  {
    switch(*t++)
    {
      case '[':
        level += 1;
        break;
      case ']':
        if(level == 0)
          return result;
        level -= 1;
        break;
      default:
        if(level == 0)
          ++result;
    }
  }
  return result;
}
void ReceivedMessageArgumentIterator::Advance()
{
  if(!value_.typeTagPtr_)
    return;
  switch(*value_.typeTagPtr_++)
  {
    case '\0':
      --value_.typeTagPtr_;
      break;
    case 'T':
    case 'F':
    case 'N':
    case 'I':
      break;
    case 'i':
    case 'f':
    case 'c':
    case 'r':
    case 'm':
      value_.argumentPtr_ += 4;
      break;
    case 'h':
    case 't':
    case 'd':
      value_.argumentPtr_ += 8;
      break;
    case 's':
    case 'S':
      value_.argumentPtr_ = FindStr4End(value_.argumentPtr_);
      break;
    case 'b': {
      uint32 n = rd32(value_.argumentPtr_);
      value_.argumentPtr_ = value_.argumentPtr_ + 4 + RoundUp4(n);
    }
    break;
    case '[':
    case ']':
      break;
    default:
      --value_.typeTagPtr_;
      break;
  }
}
ReceivedMessage::ReceivedMessage(const ReceivedPacket& packet)
    : addressPattern_(packet.Contents())
{
  Init(packet.Contents(), packet.Size());
}
ReceivedMessage::ReceivedMessage(const ReceivedBundleElement& e)
    : addressPattern_(e.Contents())
{
  Init(e.Contents(), e.Size());
}
bool ReceivedMessage::AddressPatternIsUInt32() const { return addressPattern_[0] == '\0'; }
uint32 ReceivedMessage::AddressPatternAsUInt32() const { return rd32(addressPattern_); }
void ReceivedMessage::Init(const char* message, osc_bundle_element_size_t size)
{
  if(!IsValidElementSizeValue(size))
    throw MalformedMessageException("invalid message size");
  if(size == 0)
    throw MalformedMessageException("zero length messages not permitted");
  if(!IsMultipleOf4(size))
    throw MalformedMessageException("message size must be multiple of four");
  const char* end = message + size;
  typeTagsBegin_ = FindStr4End(addressPattern_, end);
  if(typeTagsBegin_ == 0)
    throw MalformedMessageException("unterminated address pattern");
  if(typeTagsBegin_ == end)
  {
    typeTagsBegin_ = 0;
    typeTagsEnd_ = 0;
    arguments_ = 0;
  }
  else
  {
    if(*typeTagsBegin_ != ',')
      throw MalformedMessageException("type tags not present");
    if(*(typeTagsBegin_ + 1) == '\0')
    {
      typeTagsBegin_ = 0;
      typeTagsEnd_ = 0;
      arguments_ = 0;
    }
    else
    {
      arguments_ = FindStr4End(typeTagsBegin_, end);
      if(arguments_ == 0)
        throw MalformedMessageException("type tags were not terminated before end of message");
      ++typeTagsBegin_;
      const char* typeTag = typeTagsBegin_;
      const char* argument = arguments_;
      unsigned int arrayLevel = 0;
      do
      {
        switch(*typeTag)
        {
          case 'T':
          case 'F':
          case 'N':
          case 'I':
            break;
          case '[':
            ++arrayLevel;
            break;
          case ']':
            if(arrayLevel == 0)
              throw MalformedMessageException("unexpected array end");
            --arrayLevel;
            break;
          case 'i':
          case 'f':
          case 'c':
          case 'r':
          case 'm':
            if(argument == end)
              throw MalformedMessageException("arguments exceed message size");
            argument += 4;
            if(argument > end)
              throw MalformedMessageException("arguments exceed message size");
            break;
          case 'h':
          case 't':
          case 'd':
            if(argument == end)
              throw MalformedMessageException("arguments exceed message size");
            argument += 8;
            if(argument > end)
              throw MalformedMessageException("arguments exceed message size");
            break;
          case 's':
          case 'S':
            if(argument == end)
              throw MalformedMessageException("arguments exceed message size");
            argument = FindStr4End(argument, end);
            if(argument == 0)
              throw MalformedMessageException("unterminated string argument");
            break;
          case 'b': {
            if(argument + 4 > end)
              throw MalformedMessageException("arguments exceed message size");
            uint32 n = rd32(argument);
            if(n > uint32(end - argument - 4))
              throw MalformedMessageException("arguments exceed message size");
            argument = argument + 4 + RoundUp4(n);
            if(argument > end)
              throw MalformedMessageException("arguments exceed message size");
          }
          break;
          default:
            throw MalformedMessageException("unknown type tag");
        }
      } while(*++typeTag != '\0');
      typeTagsEnd_ = typeTag;
      if(arrayLevel != 0)
        throw MalformedMessageException(
            "array was not terminated before end of message (expected ']' end of array tag)");
    }
  }
}
ReceivedBundle::ReceivedBundle(const ReceivedPacket& p)
    : elementCount_(0)
{
  Init(p.Contents(), p.Size());
}
ReceivedBundle::ReceivedBundle(const ReceivedBundleElement& e)
    : elementCount_(0)
{
  Init(e.Contents(), e.Size());
}
void ReceivedBundle::Init(const char* bundle, osc_bundle_element_size_t size)
{
  if(!IsValidElementSizeValue(size))
    throw MalformedBundleException("invalid bundle size");
  if(size < 16)
    throw MalformedBundleException("packet too short for bundle");
  if(!IsMultipleOf4(size))
    throw MalformedBundleException("bundle size must be multiple of four");
  if(std::memcmp(bundle, "#bundle\0", 8) != 0)
    throw MalformedBundleException("bad bundle address pattern");
  end_ = bundle + size;
  timeTag_ = bundle + 8;
  const char* p = timeTag_ + 8;
  while(p < end_)
  {
    if(p + 4 > end_)
      throw MalformedBundleException("packet too short for elementSize");
    uint32 elementSize = rd32(p);
    if((elementSize & 3) != 0)
      throw MalformedBundleException("bundle element size must be multiple of four");
    if(elementSize > uint32(end_ - p - 4))
      throw MalformedBundleException("packet too short for bundle element");
    p += 4 + elementSize;
    if(p > end_)
      throw MalformedBundleException("packet too short for bundle element");
    ++elementCount_;
  }
  if(p != end_)
    throw MalformedBundleException("bundle contents ");
}
uint64 ReceivedBundle::TimeTag() const { return rd64(timeTag_); }

// ---- printing
std::ostream& operator<<(std::ostream& os, const ReceivedMessageArgument& a)
{
  switch(a.TypeTag())
  {
    case 'T':
      return os << "true";
    case 'F':
      return os << "false";
    case 'i':
      return os << a.AsInt32Unchecked();
    case 'f':
      return os << a.AsFloatUnchecked();
    case 's':
      return os << a.AsStringUnchecked();
    case 'S':
      return os << a.AsSymbolUnchecked();
    default:
      return os << a.TypeTag();
  }
}
std::ostream& operator<<(std::ostream& os, const ReceivedMessage& m)
{
  os << "[" << m.AddressPattern();
  for(auto i = m.ArgumentsBegin(); i != m.ArgumentsEnd(); ++i)
    os << " " << *i;
  return os << "]";
}
std::ostream& operator<<(std::ostream& os, const ReceivedBundle& b)
{
  return os << "{bundle " << b.ElementCount() << "}";
}
std::ostream& operator<<(std::ostream& os, const ReceivedPacket& p)
{
  if(p.IsBundle())
    return os << ReceivedBundle(p);
  return os << ReceivedMessage(p);
}

// ---- sockets
namespace
{
sockaddr_in to_sa(const IpEndpointName& e)
{
  sockaddr_in s{};
  s.sin_family = AF_INET;
  s.sin_addr.s_addr = e.address == IpEndpointName::ANY_ADDRESS ? htonl(INADDR_ANY)
                                                               : htonl(uint32_t(e.address));
  s.sin_port = e.port == IpEndpointName::ANY_PORT ? 0 : htons(uint16_t(e.port));
  return s;
}
IpEndpointName from_sa(const sockaddr_in& s)
{
  return IpEndpointName(
      s.sin_addr.s_addr == htonl(INADDR_ANY) ? (unsigned long)IpEndpointName::ANY_ADDRESS
                                             : ntohl(s.sin_addr.s_addr),
      s.sin_port == 0 ? int(IpEndpointName::ANY_PORT) : ntohs(s.sin_port));
}
}
IpEndpointName::IpEndpointName(const char* host, int p)
    : port(p)
{
  if(host[0] == '\0' || (host[0] == '*' && host[1] == '\0'))
    address = ANY_ADDRESS;
  else if(std::strcmp(host, "localhost") == 0)
    address = 0x7f000001ul;
  else
  {
    in_addr a{};
    address = inet_pton(AF_INET, host, &a) == 1 ? ntohl(a.s_addr) : 0;
  }
}
void IpEndpointName::AddressAsString(char* s) const
{
  if(address == ANY_ADDRESS)
    std::strcpy(s, "<any>");
  else
    std::snprintf(
        s, ADDRESS_STRING_LENGTH, "%d.%d.%d.%d", (int)((address >> 24) & 0xFF),
        (int)((address >> 16) & 0xFF), (int)((address >> 8) & 0xFF), (int)(address & 0xFF));
}
void IpEndpointName::AddressAndPortAsString(char* s) const
{
  char a[32];
  AddressAsString(a);
  if(port == ANY_PORT)
    std::snprintf(s, ADDRESS_AND_PORT_STRING_LENGTH, "%s:<any>", a);
  else
    std::snprintf(s, ADDRESS_AND_PORT_STRING_LENGTH, "%s:%d", a, port & 0xFFFF);
}

namespace detail
{
Implementation::Implementation()
{
  fd = ::socket(AF_INET, SOCK_DGRAM, 0);
  if(fd < 0)
    throw std::runtime_error("unable to create udp socket\n");
}
Implementation::~Implementation()
{
  if(fd >= 0)
    ::close(fd);
}
struct mux_state
{
  int pipefd[2]{-1, -1};
  volatile bool brk{};
  std::vector<std::pair<PacketListener*, Implementation*>> sockets;
  std::vector<std::pair<int, TimerListener*>> timers;
};
template <>
void UdpSocket<Implementation>::SetEnableBroadcast(bool b)
{
  int v = b;
  ::setsockopt(impl_.fd, SOL_SOCKET, SO_BROADCAST, &v, sizeof(v));
}
template <>
IpEndpointName UdpSocket<Implementation>::LocalEndpointFor(const IpEndpointName&) const
{
  sockaddr_in s{};
  socklen_t l = sizeof(s);
  ::getsockname(impl_.fd, (sockaddr*)&s, &l);
  return from_sa(s);
}
template <>
void UdpSocket<Implementation>::Connect(const IpEndpointName& r)
{
  auto s = to_sa(r);
  if(::connect(impl_.fd, (sockaddr*)&s, sizeof(s)) < 0)
    throw std::runtime_error("unable to connect udp socket\n");
  impl_.connected = true;
}
template <>
void UdpSocket<Implementation>::Send(const char* d, std::size_t n)
{
  ::send(impl_.fd, d, n, 0);
}
template <>
void UdpSocket<Implementation>::SendTo(const IpEndpointName& r, const char* d, std::size_t n)
{
  auto s = to_sa(r);
  ::sendto(impl_.fd, d, n, 0, (sockaddr*)&s, sizeof(s));
}
template <>
void UdpSocket<Implementation>::Bind(const IpEndpointName& l)
{
  auto s = to_sa(l);
  if(::bind(impl_.fd, (sockaddr*)&s, sizeof(s)) < 0)
    throw std::runtime_error("unable to bind udp socket\n");
  bound_ = true;
}
template <>
int UdpSocket<Implementation>::LocalPort() const
{
  sockaddr_in s{};
  socklen_t l = sizeof(s);
  ::getsockname(impl_.fd, (sockaddr*)&s, &l);
  return ntohs(s.sin_port);
}
template <>
std::size_t UdpSocket<Implementation>::ReceiveFrom(IpEndpointName& r, char* d, std::size_t n)
{
  sockaddr_in s{};
  socklen_t l = sizeof(s);
  ssize_t k = ::recvfrom(impl_.fd, d, n, 0, (sockaddr*)&s, &l);
  if(k < 0)
    return 0;
  r = from_sa(s);
  return k;
}
template <>
SocketReceiveMultiplexer<Implementation>::SocketReceiveMultiplexer()
    : st_{std::make_unique<mux_state>()}
{
  if(::pipe(st_->pipefd) != 0)
    throw std::runtime_error("creation of asynchronous break pipes failed\n");
}
template <>
SocketReceiveMultiplexer<Implementation>::~SocketReceiveMultiplexer()
{
  ::close(st_->pipefd[0]);
  ::close(st_->pipefd[1]);
}
template <>
void SocketReceiveMultiplexer<Implementation>::AttachSocketListener(
    Implementation* s, PacketListener* l)
{
  st_->sockets.push_back({l, s});
}
template <>
void SocketReceiveMultiplexer<Implementation>::DetachSocketListener(
    Implementation* s, PacketListener* l)
{
  auto& v = st_->sockets;
  v.erase(
      std::remove(v.begin(), v.end(), std::pair<PacketListener*, Implementation*>{l, s}),
      v.end());
}
template <>
void SocketReceiveMultiplexer<Implementation>::AttachPeriodicTimerListener(
    int ms, TimerListener* l)
{
  // libossia attaches a timer that lives on the stack of the caller and never
  // detaches it; like the upstream multiplexer, only timers attached before
  // Run() ever fire.
  st_->timers.push_back({ms, l});
}
template <>
void SocketReceiveMultiplexer<Implementation>::Run()
{
  st_->brk = false;
  std::vector<char> data(65536);
  while(!st_->brk)
  {
    std::vector<pollfd> p;
    p.push_back({st_->pipefd[0], POLLIN, 0});
    for(auto& s : st_->sockets)
      p.push_back({s.second->fd, POLLIN, 0});
    int r = ::poll(p.data(), p.size(), -1);
    if(st_->brk)
      break;
    if(r < 0)
    {
      if(errno == EINTR)
        continue;
      throw std::runtime_error("error during select\n");
    }
    if(p[0].revents & POLLIN)
    {
      char c;
      (void)!::read(st_->pipefd[0], &c, 1);
    }
    if(st_->brk)
      break;
    for(std::size_t i = 0; i < st_->sockets.size() && i + 1 < p.size(); i++)
    {
      if(p[i + 1].revents & POLLIN)
      {
        sockaddr_in s{};
        socklen_t l = sizeof(s);
        ssize_t n
            = ::recvfrom(st_->sockets[i].second->fd, data.data(), data.size(), 0, (sockaddr*)&s, &l);
        if(n > 0)
        {
          st_->sockets[i].first->ProcessPacket(data.data(), (int)n, from_sa(s));
          if(st_->brk)
            break;
        }
      }
    }
  }
}
template <>
void SocketReceiveMultiplexer<Implementation>::Break()
{
  st_->brk = true;
}
template <>
void SocketReceiveMultiplexer<Implementation>::AsynchronousBreak()
{
  st_->brk = true;
  (void)!::write(st_->pipefd[1], "!", 1);
}
}
}
