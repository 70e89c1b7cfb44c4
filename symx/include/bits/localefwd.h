#pragma once
#include "../sx_iosfwd.h"
#include <cctype>
