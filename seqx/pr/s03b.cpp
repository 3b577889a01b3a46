// DEFS: -DFN_LOG_MAX_LOG_QUEUE_SIZE=11 -DFN_LOG_MAX_DEVICE_SIZE=5 -DFN_LOG_MAX_LOG_SIZE=10000
#include "s03.cpp"
