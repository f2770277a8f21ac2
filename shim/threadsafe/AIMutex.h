#pragma once
#include <mutex>
class AIMutex : public std::mutex { };
