// command line options read by instruction selection: off
#include <cstdint>
extern "C" {
uint64_t flagStorage[32] __asm__("_ZN4cmmc16enableAggressiveE");
}
#ifdef VF_NATIVE
extern "C" {
uint64_t debugFlagStorage[32] __asm__("_ZN4cmmc3mir9debugISelE");
}
#endif
