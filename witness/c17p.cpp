// The same for the portable implementation.
#define PORTABLE
#include "c17.cpp"
