/* libc memory functions defined so that constant lengths, offsets and contents stay constant in the verifier
 * (their specification in executable form; CBMC's own models are used where this file is not listed). */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#ifndef V_NATIVE
void* memcpy(void* d, void const* s, size_t n)
{
  unsigned char* a = d; unsigned char const* b = s;
  if(n == 2 && __CPROVER_OBJECT_SIZE(d) == 2) { *(uint16_t*)d = (uint16_t)(b[0] | (b[1] << 8)); }
  else if(n == 4 && __CPROVER_OBJECT_SIZE(d) == 4) { *(uint32_t*)d = (uint32_t)b[0] | (uint32_t)b[1] << 8 | (uint32_t)b[2] << 16 | (uint32_t)b[3] << 24; }
  else for(size_t vf_mi = 0; vf_mi < n; ++vf_mi) a[vf_mi] = b[vf_mi];
  return d;
}
void* memset(void* d, int c, size_t n)
{
  if(c == 0 && n <= 512 && __CPROVER_OBJECT_SIZE(d) == n && __CPROVER_POINTER_OFFSET(d) == 0) { char z[n]; __CPROVER_array_set(z, 0); __CPROVER_array_replace((char*)d, z); return d; }
  unsigned char* a = d; for(size_t vf_mi = 0; vf_mi < n; ++vf_mi) a[vf_mi] = (unsigned char)c;
  return d;
}
void* calloc(size_t n, size_t m) { void* p = malloc(n * m); memset(p, 0, n * m); return p; }
#endif
