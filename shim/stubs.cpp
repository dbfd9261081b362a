// Pieces of libossia that drive real hardware: never reached in a simulated run.
#include <string>
namespace ossia
{
class audio_engine;
audio_engine* make_audio_engine(std::string, std::string, std::string, std::string, int&, int&, int&, int&)
{
  return nullptr;
}
}
