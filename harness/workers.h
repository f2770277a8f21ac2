// Threads that do one operation at a time, when told to.
#pragma once
#include <condition_variable>
#include <functional>
#include <mutex>
#include <thread>

namespace lw {

class Worker
{
  std::mutex m_;
  std::condition_variable cv_;
  std::function<void()> job_;
  bool has_ = false, quit_ = false;
  std::thread t_;
 public:
  Worker() : t_([this] {
    for (;;)
    {
      std::unique_lock<std::mutex> l(m_);
      cv_.wait(l, [this] { return has_ || quit_; });
      if (!has_) return;
      std::function<void()> j = std::move(job_);
      l.unlock();
      j();
      l.lock();
      has_ = false;
      cv_.notify_all();
    }
  }) { }
  ~Worker() { end(); }
  void run(std::function<void()> f)
  {
    std::unique_lock<std::mutex> l(m_);
    job_ = std::move(f);
    has_ = true;
    cv_.notify_all();
    cv_.wait(l, [this] { return !has_; });
  }
  // End the thread; all its thread_local destructors have run when this returns.
  void end()
  {
    if (!t_.joinable()) return;
    { std::lock_guard<std::mutex> l(m_); quit_ = true; cv_.notify_all(); }
    t_.join();
  }
};

} // namespace lw
