// Stand-in for the (absent) oscpack fork used by libossia: the API of oscpack 1.1
// in namespace oscpack, plus the fork's extensions libossia relies on.
#pragma once
#define INCLUDED_OSCPACK_OSCTYPES_H 1
#include <cstddef>
#include <cstdint>
#include <string_view>
namespace oscpack
{
typedef long int64;
typedef unsigned long uint64;
typedef signed int int32;
typedef unsigned int uint32;
enum ValueTypeSizes
{
  OSC_SIZEOF_INT32 = 4,
  OSC_SIZEOF_UINT32 = 4,
  OSC_SIZEOF_INT64 = 8,
  OSC_SIZEOF_UINT64 = 8,
};
typedef int32 osc_bundle_element_size_t;
enum
{
  OSC_INT32_MAX = 0x7FFFFFFF,
  OSC_BUNDLE_ELEMENT_SIZE_MAX = 0x7FFFFFFC
};
inline bool IsValidElementSizeValue(osc_bundle_element_size_t x)
{
  return x >= 0 && x <= OSC_BUNDLE_ELEMENT_SIZE_MAX;
}
inline bool IsMultipleOf4(osc_bundle_element_size_t x) { return (x & 3) == 0; }
inline constexpr std::size_t RoundUp4(std::size_t x) { return (x + 3) & ~std::size_t(3); }

enum TypeTagValues : char
{
  TRUE_TYPE_TAG = 'T',
  FALSE_TYPE_TAG = 'F',
  NIL_TYPE_TAG = 'N',
  INFINITUM_TYPE_TAG = 'I',
  INT32_TYPE_TAG = 'i',
  FLOAT_TYPE_TAG = 'f',
  CHAR_TYPE_TAG = 'c',
  RGBA_COLOR_TYPE_TAG = 'r',
  MIDI_MESSAGE_TYPE_TAG = 'm',
  INT64_TYPE_TAG = 'h',
  TIME_TAG_TYPE_TAG = 't',
  DOUBLE_TYPE_TAG = 'd',
  STRING_TYPE_TAG = 's',
  SYMBOL_TYPE_TAG = 'S',
  BLOB_TYPE_TAG = 'b',
  ARRAY_BEGIN_TYPE_TAG = '[',
  ARRAY_END_TYPE_TAG = ']'
};
struct BundleInitiator
{
  explicit BundleInitiator(uint64 t) : timeTag(t) { }
  uint64 timeTag;
};
struct BeginBundleImmediate : BundleInitiator
{
  BeginBundleImmediate() : BundleInitiator(1) { }
};
inline BundleInitiator BeginBundle(uint64 t = 1) { return BundleInitiator(t); }
struct BundleTerminator { };
struct EndBundle : BundleTerminator { };
struct BeginMessage
{
  explicit BeginMessage(const char* a) : addressPattern(a) { }
  const char* addressPattern;
};
struct BeginMessageN
{
  explicit BeginMessageN(std::string_view a) : addressPattern(a) { }
  std::string_view addressPattern;
};
struct MessageTerminator { };
struct EndMessage : MessageTerminator { };
struct NilType { };
struct OscNil : NilType { };
struct InfinitumType { };
struct Infinitum : InfinitumType { };
struct RgbaColor
{
  constexpr RgbaColor() : value{} { }
  constexpr explicit RgbaColor(uint32 v) : value(v) { }
  uint32 value;
  constexpr operator uint32() const { return value; }
};
struct MidiMessage
{
  MidiMessage() { }
  explicit MidiMessage(uint32 v) : value(v) { }
  uint32 value;
  operator uint32() const { return value; }
};
struct TimeTag
{
  TimeTag() { }
  explicit TimeTag(uint64 v) : value(v) { }
  uint64 value;
  operator uint64() const { return value; }
};
struct Symbol
{
  Symbol() { }
  explicit Symbol(const char* v) : value(v) { }
  const char* value;
  operator const char*() const { return value; }
};
struct Blob
{
  Blob() { }
  explicit Blob(const void* d, std::size_t s) : data(d), size(osc_bundle_element_size_t(s)) { }
  const void* data;
  osc_bundle_element_size_t size;
};
struct ArrayInitiator { };
struct BeginArray : ArrayInitiator { };
struct ArrayTerminator { };
struct EndArray : ArrayTerminator { };
}
