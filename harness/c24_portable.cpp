// C24: the same claims for the code selected on compilers without GNU intrinsics.
#include "sym.h"
#include <cstdint>
#include <cstddef>
#undef __GNUC__
#undef __clang__
#undef __BMI2__
#include "c24.cpp"
