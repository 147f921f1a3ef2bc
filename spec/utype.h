// an unpacked type given directly: VFT fraction, VET exponent
#pragma once
#include "vp.h"
#include "unpacked.h"
typedef Unpacked<VFT, VET> UT;
typedef VFT FT;
typedef VET ET;
constexpr int W = sizeof(FT) * 8;
