// Discovery: branch traces and comparison constants of instrumented calls
#pragma once
#include "core.hpp"
extern bool disc_on;
void disc_pc(uintptr_t pc);
void disc_cmp(uintptr_t pc, i64 a, i64 b, int size);
void disc_cmpd(uintptr_t pc, double a, double b);
