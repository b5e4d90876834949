#include "gtest/gtest.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include "absl/synchronization/mutex.h"
namespace shim_log {
void CheckFail(const char* f, int l, const std::string& m) { fprintf(stderr, "%s:%d] %s\n", f, l, m.c_str()); abort(); }
void LogMessage(int, const char*, int, const std::string&) {}
}
namespace shim_sync { void LockExclusive(MutexState*m){m->writer=1;} bool TryLockExclusive(MutexState*){return true;} void UnlockExclusive(MutexState*m){m->writer=0;} void LockShared(MutexState*){} void UnlockShared(MutexState*){} void AssertHeld(const MutexState*){} }
int main(int c, char** v) { testing::InitGoogleTest(&c, v); return RUN_ALL_TESTS(); }
