// Verification shim: absl::Mutex as a scheduling seam of the simulator.
#ifndef SHIM_ABSL_SYNCHRONIZATION_MUTEX_H_
#define SHIM_ABSL_SYNCHRONIZATION_MUTEX_H_
#include "absl/base/attributes.h"
#include "absl/base/thread_annotations.h"
namespace shim_sync {
struct MutexState { int writer = 0; int readers = 0; unsigned long long id = 0; };
void LockExclusive(MutexState* m);
bool TryLockExclusive(MutexState* m);
void UnlockExclusive(MutexState* m);
void LockShared(MutexState* m);
void UnlockShared(MutexState* m);
void AssertHeld(const MutexState* m);
}  // namespace shim_sync
namespace absl {
class ABSL_LOCKABLE Mutex {
 public:
  Mutex() = default;
  ~Mutex() = default;
  Mutex(const Mutex&) = delete;
  Mutex& operator=(const Mutex&) = delete;
  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { shim_sync::LockExclusive(&s_); }
  void Unlock() ABSL_UNLOCK_FUNCTION() { shim_sync::UnlockExclusive(&s_); }
  void lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { Lock(); }
  void unlock() ABSL_UNLOCK_FUNCTION() { Unlock(); }
  bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return shim_sync::TryLockExclusive(&s_); }
  void ReaderLock() ABSL_SHARED_LOCK_FUNCTION() { shim_sync::LockShared(&s_); }
  void ReaderUnlock() ABSL_UNLOCK_FUNCTION() { shim_sync::UnlockShared(&s_); }
  void WriterLock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { Lock(); }
  void WriterUnlock() ABSL_UNLOCK_FUNCTION() { Unlock(); }
  void AssertHeld() const ABSL_ASSERT_EXCLUSIVE_LOCK() { shim_sync::AssertHeld(&s_); }
  void AssertReaderHeld() const ABSL_ASSERT_SHARED_LOCK() {}
 private:
  shim_sync::MutexState s_;
};
class ABSL_SCOPED_LOCKABLE MutexLock {
 public:
  explicit MutexLock(Mutex* m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m_->Lock(); }
  explicit MutexLock(Mutex& m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(&m) { m_->Lock(); }
  MutexLock(const MutexLock&) = delete;
  ~MutexLock() ABSL_UNLOCK_FUNCTION() { m_->Unlock(); }
 private:
  Mutex* m_;
};
using WriterMutexLock = MutexLock;
class ABSL_SCOPED_LOCKABLE ReaderMutexLock {
 public:
  explicit ReaderMutexLock(Mutex* m) ABSL_SHARED_LOCK_FUNCTION(m) : m_(m) { m_->ReaderLock(); }
  ReaderMutexLock(const ReaderMutexLock&) = delete;
  ~ReaderMutexLock() ABSL_UNLOCK_FUNCTION() { m_->ReaderUnlock(); }
 private:
  Mutex* m_;
};
class ABSL_SCOPED_LOCKABLE ReleasableMutexLock {
 public:
  explicit ReleasableMutexLock(Mutex* m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m_->Lock(); }
  ~ReleasableMutexLock() ABSL_UNLOCK_FUNCTION() { if (m_) m_->Unlock(); }
  void Release() ABSL_UNLOCK_FUNCTION() { m_->Unlock(); m_ = nullptr; }
 private:
  Mutex* m_;
};
}  // namespace absl
#endif
