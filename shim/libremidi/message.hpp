#pragma once
// Stand-in for libremidi: plain MIDI 1.0 channel messages.
#include <cstddef>
#include <cstdint>
#include <vector>
namespace libremidi
{
using midi_bytes = std::vector<unsigned char>;
enum class message_type : uint8_t
{
  INVALID = 0,
  NOTE_OFF = 0x80,
  NOTE_ON = 0x90,
  POLY_PRESSURE = 0xA0,
  CONTROL_CHANGE = 0xB0,
  PROGRAM_CHANGE = 0xC0,
  AFTERTOUCH = 0xD0,
  PITCH_BEND = 0xE0
};
inline uint8_t clamp(int v, int lo, int hi) { return uint8_t(v < lo ? lo : (v > hi ? hi : v)); }
struct message
{
  midi_bytes bytes;
  double timestamp{};
  static uint8_t cmd(message_type t, int ch) { return uint8_t(uint8_t(t) | clamp(ch - 1, 0, 15)); }
  static message note_on(uint8_t c, uint8_t n, uint8_t v) { return {{cmd(message_type::NOTE_ON, c), n, v}}; }
  static message note_off(uint8_t c, uint8_t n, uint8_t v) { return {{cmd(message_type::NOTE_OFF, c), n, v}}; }
  static message control_change(uint8_t c, uint8_t n, uint8_t v) { return {{cmd(message_type::CONTROL_CHANGE, c), n, v}}; }
  static message program_change(uint8_t c, uint8_t n) { return {{cmd(message_type::PROGRAM_CHANGE, c), n}}; }
  static message pitch_bend(uint8_t c, int v) { return {{cmd(message_type::PITCH_BEND, c), uint8_t(v & 0x7f), uint8_t((v >> 7) & 0x7f)}}; }
  int get_channel() const
  {
    if(bytes.empty() || (bytes[0] & 0xF0) == 0xF0 || bytes[0] < 0x80) return 0;
    return (bytes[0] & 0xF) + 1;
  }
  message_type get_message_type() const
  {
    return bytes.empty() || bytes[0] < 0x80 || bytes[0] >= 0xF0 ? message_type::INVALID : message_type(bytes[0] & 0xF0);
  }
  unsigned char operator[](std::size_t i) const { return bytes[i]; }
};
}
