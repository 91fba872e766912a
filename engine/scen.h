#pragma once
#include "NanoLogCpp17.h"
#include "RuntimeLogger.h"
#include "NanoLog.h"
#include "mc.h"
#include "oracle.h"
#include <thread>
using namespace NanoLog::LogLevels;
std::string mcfmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
// one logging call, bracketed by bookkeeping
#define LV(level, tag, fmt, ...) do { int h_ = mc::logBegin(tag, mcfmt(fmt, ##__VA_ARGS__), __LINE__, #level); NANO_LOG(level, fmt, ##__VA_ARGS__); mc::logEnd(h_); } while (0)
#define L(tag, fmt, ...) LV(NOTICE, tag, fmt, ##__VA_ARGS__)
#define SYNC() do { int s_ = mc::syncBegin(); NanoLog::sync(); mc::syncEnd(s_); } while (0)
