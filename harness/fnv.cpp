// FNV-1a against its definition.  params: 0 length, 1 width
#include "vs.h"
#include <cachelot/common.h>
#include <cachelot/hash_fnv1a.h>
using namespace cachelot;
void vs_main() {
    unsigned n = (unsigned)vs_param(0); char* b = new char[n ? n : 1]; vs_make_symbolic(b, n, "data");
    if (vs_param(1) == 32) { uint32_t r = 2166136261u; for (unsigned i = 0; i < n; ++i) { r ^= (unsigned char)b[i]; r *= 16777619u; } uint32_t g = fnv1a<uint32>::hasher()(slice(b, n)); vs_check(g == r, "32-bit hash is not FNV-1a"); vs_obs_u64("hash", g); }
    else { uint64_t r = 14695981039346656037ull; for (unsigned i = 0; i < n; ++i) { r ^= (unsigned char)b[i]; r *= 1099511628211ull; } uint64_t g = fnv1a<uint64>::hasher()(slice(b, n)); vs_check(g == r, "64-bit hash is not FNV-1a"); vs_obs_u64("hash", g); }
    vs_cover("end");
}
