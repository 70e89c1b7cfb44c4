// Stand-in for zstr (compressed streams): plain streams.
#pragma once
#include <fstream>
#include <sstream>
#include <memory>
namespace zstr { typedef std::ifstream ifstream; typedef std::ofstream ofstream; typedef std::istream istream; typedef std::ostream ostream; }
