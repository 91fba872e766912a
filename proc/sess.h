// Small logging programs (C++17 and preprocessor builds) for the appended-executions and severity checks.
#pragma once
#ifdef PREPROCESSOR_NANOLOG
#include "NanoLog.h"
#else
#include "NanoLogCpp17.h"
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <thread>
using namespace NanoLog::LogLevels;
// Announces what must be decodable: "<unix time> <file>:<line> LEVEL|text"
#define M(LV, F, ...) do { printf("%ld " __FILE__ ":%d " #LV "|" F "\n", (long)time(nullptr), __LINE__, ##__VA_ARGS__); NANO_LOG(LV, F, ##__VA_ARGS__); } while (0)
