/* Contracts of rbusBuffer_Write and rbusBuffer_Read in executable form (the real functions are proved to satisfy
 * them by units C14/buffer_write, C14/buffer_read): Write appends len bytes to the stream and keeps what was
 * there, Read returns the next len bytes iff that many were written and not yet read, else fails and changes nothing. */
#ifndef V_NATIVE
#ifndef VF_STREAM
#define VF_STREAM 256
#endif
static unsigned char vf_G[VF_STREAM];
void rbusBuffer_Write(rbusBuffer_t b, void const* data, int len)
{
  if(b == NULL || data == NULL) return;
  int at = b->posWrite;
  __CPROVER_assert(len >= 0 && at >= 0 && at + len <= VF_STREAM, "contract: room in the specification stream");
  if(len == 1) vf_G[at] = *(unsigned char const*)data;
  else if(len == 2) { uint16_t v = *(uint16_t const*)data; vf_G[at] = (unsigned char)v; vf_G[at+1] = (unsigned char)(v >> 8); }
  else if(len == 4) { uint32_t v = *(uint32_t const*)data; for(int k = 0; k < 4; ++k) vf_G[at+k] = (unsigned char)(v >> (8*k)); }
  else if(len == 8) { uint64_t v = *(uint64_t const*)data; for(int k = 0; k < 8; ++k) vf_G[at+k] = (unsigned char)(v >> (8*k)); }
  else for(int vf_w = 0; vf_w < len; ++vf_w) vf_G[at + vf_w] = ((unsigned char const*)data)[vf_w];
  b->posWrite = at + len; b->data = vf_G; b->lenAlloc = VF_STREAM;
}
int rbusBuffer_Read(rbusBuffer_t const b, void* data, int len)
{
  if(b == NULL || data == NULL) return -1;
  int at = b->posRead;
  if(len < 0 || at + len > b->posWrite) return -1;
  if(len == 1) *(unsigned char*)data = vf_G[at];
  else if(len == 2) *(uint16_t*)data = (uint16_t)(vf_G[at] | (vf_G[at+1] << 8));
  else if(len == 4) { uint32_t v = 0; for(int k = 0; k < 4; ++k) v |= (uint32_t)vf_G[at+k] << (8*k); *(uint32_t*)data = v; }
  else if(len == 8) { uint64_t v = 0; for(int k = 0; k < 8; ++k) v |= (uint64_t)vf_G[at+k] << (8*k); *(uint64_t*)data = v; }
  else for(int vf_r = 0; vf_r < len; ++vf_r) ((unsigned char*)data)[vf_r] = vf_G[at + vf_r];
  b->posRead = at + len; return 0;
}
#endif
