#pragma once
#include <folly/lang/Bits.h>
