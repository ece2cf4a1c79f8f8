#pragma once
#include <string>
namespace qlten {
class Timer { public: Timer(); Timer(const std::string &); double PrintElapsed(int precision = 5); double Elapsed(); void Restart(); void Suspend(); };
}
