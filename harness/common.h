#pragma once
#include "vs.h"
#include <cstddef>
#include <cstdint>
#ifndef TIER
#define TIER 0
#endif
