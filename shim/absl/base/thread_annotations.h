#pragma once
#define ABSL_GUARDED_BY(x)
#define ABSL_PT_GUARDED_BY(x)
#define ABSL_ACQUIRED_AFTER(...)
#define ABSL_ACQUIRED_BEFORE(...)
#define ABSL_EXCLUSIVE_LOCKS_REQUIRED(...)
#define ABSL_SHARED_LOCKS_REQUIRED(...)
#define ABSL_LOCKS_EXCLUDED(...)
#define ABSL_LOCK_RETURNED(x)
#define ABSL_LOCKABLE
#define ABSL_SCOPED_LOCKABLE
#define ABSL_EXCLUSIVE_LOCK_FUNCTION(...)
#define ABSL_SHARED_LOCK_FUNCTION(...)
#define ABSL_UNLOCK_FUNCTION(...)
#define ABSL_NO_THREAD_SAFETY_ANALYSIS
#define ABSL_ASSERT_EXCLUSIVE_LOCK(...)
#define ABSL_ASSERT_SHARED_LOCK(...)
