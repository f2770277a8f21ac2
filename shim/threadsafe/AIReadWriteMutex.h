// Stand-in for the missing git submodule include/threadsafe (not available offline).
// Only the interface that libcwd uses.  Semantics follow AIReadWriteMutex of github.com/CarloWood/threadsafe:
// many readers or one writer; a reader may upgrade (rd2wrlock), which throws when another upgrade is
// already pending, after which that reader has to release its read lock and call rd2wryield().
#pragma once
#include "utils/macros.h"
#include <condition_variable>
#include <exception>
#include <mutex>

#ifdef VX_MC
#include "mcrt.h"
// Known to the controlled scheduler.
class AIReadWriteMutex
{
  long unused_ = 0;
 public:
  void rdlock(bool = false) { mc_rdlock(this); }
  void rdunlock() { mc_rdunlock(this); }
  void wrlock() { mc_wrlock(this); }
  void wrunlock() { mc_wrunlock(this); }
  void rd2wrlock() { if (!mc_rd2wrlock(this)) throw std::exception(); }
  void wr2rdlock() { mc_wr2rdlock(this); }
  void rd2wryield() { mc_rd2wryield(this); }
};
#else
class AIReadWriteMutex
{
 private:
  std::mutex m_;
  std::condition_variable cv_;
  int readers_ = 0;             // Number of read locks held.
  bool writer_ = false;         // True while write locked.
  bool rd2wr_waiting_ = false;  // True while a reader is waiting to become the writer.

 public:
  void rdlock(bool = false)
  {
    std::unique_lock<std::mutex> lk(m_);
    cv_.wait(lk, [this] { return !writer_ && !rd2wr_waiting_; });
    ++readers_;
  }
  void rdunlock()
  {
    std::unique_lock<std::mutex> lk(m_);
    --readers_;
    cv_.notify_all();
  }
  void wrlock()
  {
    std::unique_lock<std::mutex> lk(m_);
    cv_.wait(lk, [this] { return !writer_ && readers_ == 0; });
    writer_ = true;
  }
  void wrunlock()
  {
    std::unique_lock<std::mutex> lk(m_);
    writer_ = false;
    cv_.notify_all();
  }
  void rd2wrlock()
  {
    std::unique_lock<std::mutex> lk(m_);
    if (rd2wr_waiting_)
      throw std::exception();
    rd2wr_waiting_ = true;
    cv_.wait(lk, [this] { return readers_ == 1; });
    rd2wr_waiting_ = false;
    readers_ = 0;
    writer_ = true;
    cv_.notify_all();
  }
  void wr2rdlock()
  {
    std::unique_lock<std::mutex> lk(m_);
    writer_ = false;
    readers_ = 1;
    cv_.notify_all();
  }
  void rd2wryield()
  {
    std::unique_lock<std::mutex> lk(m_);
    cv_.wait(lk, [this] { return !rd2wr_waiting_; });
  }
};
#endif
