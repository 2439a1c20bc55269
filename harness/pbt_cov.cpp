// Collects the library's inline 8-bit coverage counters (built without instrumentation itself).
#include <stdint.h>
extern "C" {
uint8_t* pbt_cov_begin; uint8_t* pbt_cov_end;
void __sanitizer_cov_8bit_counters_init(uint8_t* start, uint8_t* stop) {
  if (!pbt_cov_begin || start < pbt_cov_begin) pbt_cov_begin = start;
  if (stop > pbt_cov_end) pbt_cov_end = stop;
}
void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}
}
