#pragma once
#include <cstddef>
#include <cstdio>
#include <cstdlib>
extern "C" {
#include "/usr/include/picosat/picosat.h"
}
