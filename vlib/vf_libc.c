/* Executable specifications of libc functions for which the verifier has no built-in model.
 * Always linked; unused ones are dropped. */
#ifndef V_NATIVE
#include <stddef.h>
void* memchr(void const* p, int c, size_t n) { unsigned char const* b = p; for(size_t i = 0; i < n; i++) if(b[i] == (unsigned char)c) return (void*)(b + i); return 0; }
size_t strnlen(char const* s, size_t n) { size_t i = 0; while(i < n && s[i]) i++; return i; }
char* strstr(char const* h, char const* n)
{
  for(; ; h++)
  {
    size_t i = 0;
    while(n[i] && h[i] == n[i]) i++;
    if(!n[i]) return (char*)h;
    if(!*h) return 0;
  }
}
static int vf_sep(char c, char const* d) { for(; *d; d++) if(*d == c) return 1; return 0; }
char* strtok_r(char* s, char const* d, char** save)
{
  if(!s) s = *save;
  while(*s && vf_sep(*s, d)) s++;
  if(!*s) { *save = s; return 0; }
  char* t = s;
  while(*s && !vf_sep(*s, d)) s++;
  if(*s) *s++ = 0;
  *save = s;
  return t;
}
static char* vf_tok;
char* strtok(char* s, char const* d) { return strtok_r(s, d, &vf_tok); }
char* strpbrk(char const* s, char const* a) { for(; *s; s++) if(vf_sep(*s, a)) return (char*)s; return 0; }
size_t strcspn(char const* s, char const* r) { size_t i = 0; while(s[i] && !vf_sep(s[i], r)) i++; return i; }
size_t strspn(char const* s, char const* a) { size_t i = 0; while(s[i] && vf_sep(s[i], a)) i++; return i; }
#endif
