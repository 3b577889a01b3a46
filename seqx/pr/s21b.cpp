// DEFS:  -DFN_LOG_MAX_LOG_SIZE=10000
#include "s21.cpp"
