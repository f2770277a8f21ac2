// Stand-in for the missing git submodule include/threadsafe (not available offline).
// Only the interface that libcwd uses.
#pragma once
#include "debug.h"
#include "utils/macros.h"
#include <memory>
#include <utility>
#include <mutex>
#include <new>

namespace threadsafe {

template <typename T, typename POLICY>
class Unlocked;

template <class U> class ConstReadAccess;
template <class U> class ReadAccess;
template <class U> class WriteAccess;
template <class U> class ConstAccess;
template <class U> class Access;

namespace policy {

template <class RWMUTEX>
class ReadWrite
{
 public:
  RWMUTEX mutex_;
  template <class U> struct access { using rat = ReadAccess<U>; using crat = ReadAccess<U>; using wat = WriteAccess<U>; };
  void rd2wryield() { mutex_.rd2wryield(); }
};

template <class MUTEX>
class Primitive
{
 public:
  MUTEX mutex_;
  template <class U> struct access { using rat = Access<U>; using crat = Access<U>; using wat = Access<U>; };
};

} // namespace policy

template <typename T, typename POLICY>
class Unlocked : public POLICY
{
 public:
  using data_type = T;
  using policy_type = POLICY;
  using rat = typename POLICY::template access<Unlocked>::rat;
  using crat = typename POLICY::template access<Unlocked>::crat;
  using wat = typename POLICY::template access<Unlocked>::wat;

  template <typename... ARGS>
  Unlocked(ARGS&&... args) : data_(std::forward<ARGS>(args)...) { }
  Unlocked(Unlocked const&) = delete;
  Unlocked& operator=(Unlocked const&) = delete;

 private:
  T data_;
  friend class ReadAccess<Unlocked>;
  friend class WriteAccess<Unlocked>;
  friend class Access<Unlocked>;
};

// Read access.
template <class U>
class ReadAccess
{
 private:
  U* u_;
  bool upgraded_ = false;       // True while a WriteAccess made from us exists.
  friend class WriteAccess<U>;

 public:
  explicit ReadAccess(U const& u) : u_(const_cast<U*>(std::addressof(u))) { u_->mutex_.rdlock(); }
  ReadAccess(ReadAccess const&) = delete;
  ~ReadAccess() { u_->mutex_.rdunlock(); }

  typename U::data_type const* operator->() const { return std::addressof(u_->data_); }
  typename U::data_type const& operator*() const { return u_->data_; }
};

// Write access; either obtained directly or by upgrading a read access.
template <class U>
class WriteAccess
{
 private:
  U* u_;
  bool from_read_;

 public:
  explicit WriteAccess(U& u) : u_(std::addressof(u)), from_read_(false) { u_->mutex_.wrlock(); }
  explicit WriteAccess(ReadAccess<U>& r) : u_(r.u_), from_read_(true) { u_->mutex_.rd2wrlock(); }
  WriteAccess(WriteAccess const&) = delete;
  ~WriteAccess()
  {
    if (from_read_)
      u_->mutex_.wr2rdlock();
    else
      u_->mutex_.wrunlock();
  }

  typename U::data_type* operator->() const { return std::addressof(u_->data_); }
  typename U::data_type& operator*() const { return u_->data_; }
};

// Exclusive access with a plain mutex.
template <class U>
class Access
{
 private:
  U* u_;

 public:
  explicit Access(U const& u) : u_(const_cast<U*>(std::addressof(u))) { u_->mutex_.lock(); }
  Access(Access const&) = delete;
  ~Access() { u_->mutex_.unlock(); }

  typename U::data_type* operator->() const { return std::addressof(u_->data_); }
  typename U::data_type& operator*() const { return u_->data_; }
};

} // namespace threadsafe
