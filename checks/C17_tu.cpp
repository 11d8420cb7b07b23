// The second translation unit of the check of C17.
#define UNIT unitB
#include "C17.hpp"
