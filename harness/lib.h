// The library under check, from /repo's working tree.
#pragma once
#include "symx.h"
#include <cmp/core/definitions.cpp>
#include <cmp/unicode/definitions.cpp>
#ifndef NO_IO
#include <cmp/io/definitions.cpp>
#endif
#include <cmp/unicode/formatters.hpp>
