// Kernel-level checks: one entry per kernel family and precision.
#pragma once
#include "lib.h"
struct KernTest { std::string name; char prec; int weight; void (*run)(Ctx &); };
std::vector<KernTest> &kerns();
struct RegKern { RegKern(KernTest t) { kerns().push_back(t); } };
