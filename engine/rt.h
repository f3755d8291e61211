#pragma once
#include <cstdint>
namespace rt {
[[noreturn]] void Fail(const char* sig, const char* fmt, ...);
[[noreturn]] void EngineError(const char* fmt, ...);
bool IsOn();
void Block(const char* what, bool (*pred)(void*), void* arg);
bool BlockTimed(const char* what, bool (*pred)(void*), void* arg, int64_t timeout_ns);
void ObjOp(void* p, const char* what, bool write, bool acq, bool rel);
void In(int d);  // +1: the engine takes no notice of what this thread does until -1
void ObjEvent(void* p, bool write, bool acq, bool rel);
}
