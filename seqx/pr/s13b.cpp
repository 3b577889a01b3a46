// DEFS: -DFN_LOG_MAX_LOG_SIZE=9300
// C13 with records larger than a stdio buffer: writes fail inside the record, not at the flush
#define UNIT 460
#include "s13.cpp"
