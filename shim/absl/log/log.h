// Stand-in for absl/log/log.h: logging has an empty body, LOG(FATAL) aborts.
#pragma once
#include "absl/log/check.h"
#include "absl/base/log_severity.h"
#define VF_LOG_DROP \
  switch (0) case 0: default: if (true) {} else ::vf_log::Drop{} && ::vf_log::NullStream{}
#define VF_LOG_INFO VF_LOG_DROP
#define VF_LOG_WARNING VF_LOG_DROP
#define VF_LOG_ERROR VF_LOG_DROP
#define VF_LOG_FATAL VF_FATAL("LOG(FATAL)")
#define VF_LOG_QFATAL VF_FATAL("LOG(QFATAL)")
#define VF_LOG_DFATAL VF_LOG_DROP
#define LOG(severity) VF_LOG_##severity
#define DLOG(severity) VF_LOG_DROP
#define VLOG(n) VF_LOG_DROP
#define PLOG(severity) LOG(severity)
#define LOG_IF(severity, cond) VF_LOG_IF_##severity(cond)
#define VF_LOG_IF_INFO(cond) VF_LOG_DROP
#define VF_LOG_IF_WARNING(cond) VF_LOG_DROP
#define VF_LOG_IF_ERROR(cond) VF_LOG_DROP
#define VF_LOG_IF_FATAL(cond) CHECK(!(cond))
#define LOG_EVERY_N(severity, n) VF_LOG_DROP
#define LOG_FIRST_N(severity, n) VF_LOG_DROP
#define LOG_EVERY_POW_2(severity) VF_LOG_DROP
#define LOG_EVERY_N_SEC(severity, n) VF_LOG_DROP
#define VLOG_IS_ON(n) false
#define LOG_IF_EVERY_N_SEC(severity, cond, n) LOG_IF(severity, cond)
#define LOG_IF_EVERY_N(severity, cond, n) LOG_IF(severity, cond)
