// The allocation interface for builds without accounting (ThreadSanitizer).
#include "bridge.h"
AllocStats alloc_stats() { return {0, 0, 0}; }
void alloc_reset_peak() {}
void alloc_set_limit(size_t) {}
void alloc_set_fill(unsigned char) {}
void alloc_set_refuse(size_t) {}
