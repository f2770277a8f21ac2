// Channels must have static storage: hand out zero-initialized static storage.
#pragma once
#include <libcwd/debug.h>
#include <atomic>
#include <new>
#include <unistd.h>
namespace lw {
__attribute__((no_sanitize("thread"), noinline)) inline void* channel_store()
{
  alignas(libcwd::Channel) static unsigned char store[128][sizeof(libcwd::Channel)];
  static int n;
  if (n == 128) { (void)!write(2, "too many channels\n", 18); _exit(2); }
  return store[n++];
}
inline libcwd::Channel* new_channel(char const* label, bool add = true) { return new (channel_store()) libcwd::Channel(label, add); }
} // namespace lw
