#pragma once
#include "pbt.hpp"
#include "zpl.h"
using namespace pbt;
typedef int64_t i64;
