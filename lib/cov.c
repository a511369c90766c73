/* Edge coverage for the sanitized parser build: counts per edge, readable and resettable through ctypes. */
#include <stdint.h>
#include <string.h>
__attribute__((visibility("default"))) uint8_t vp_cov[65536];
__attribute__((visibility("default"))) uint32_t vp_cov_n;
__attribute__((visibility("hidden"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    if (a == b || *a) return;
    for (; a < b; a++) *a = ++vp_cov_n & 65535;
}
__attribute__((visibility("hidden"))) void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    uint8_t *p = &vp_cov[*g & 65535];
    if (*p < 255) (*p)++;
}
