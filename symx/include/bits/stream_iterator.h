#pragma once
#include "../sx_iosfwd.h"
