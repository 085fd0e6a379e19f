//@ desc: a cache cut short at any point, or with any type, length or name overwritten, is discarded: nothing of the damaged part is restored, nothing is read outside the file, what precedes the damage is restored unaltered
//@ functions: rbusSubscriptions_loadCache rbusSubscriptions_create rbusBuffer_Read rbusBuffer_ReadInt32 rbusBuffer_ReadUInt16 rbusBuffer_Reserve
//@ sources: src/rbus/rbus_subscriptions.c src/rbus/rbus_buffer.c src/rbus/rbus_element.c src/rtmessage/rtList.c src/rtmessage/rtMemory.c vlib/vf_mem.c
//@ unwind: 16
//@ unwindset: memcpy.0:300,memset.0:520,vf_fwrite.0:150,vf_fread.0:150,strlen.0:40,strcpy.0:20,strcmp.0:30,memchr.0:270,same.0:20,vf_harness.0:20,vf_harness.1:20,vf_harness.2:20,vf_harness.3:20,vf_harness.4:20
//@ flags: --object-bits 11 --max-field-sensitivity-array-size 600
//@ timeout: 60
//@ defs: -U_TIME_BITS -U_FILE_OFFSET_BITS -Dfopen=vf_fopen -Dfclose=vf_fclose -Dfwrite=vf_fwrite -Dfread=vf_fread -Dfseek=vf_fseek -Dftell=vf_ftell -Dremove=vf_remove -Daccess=vf_access -Dkill=vf_kill -Dstat=vf_stat
//@ kind: bounded
//@ bound: a cache of one or two subscriptions with arbitrary attributes; the first subscription cut at every point, the second at its ends and inside; or every value of each type and integer length field, boundary values of the name lengths, a name without terminator, a name ending early, one field at a time
//@ trusted: the file system returns what was written (model in the harness); kill(pid, 0) tells whether a process runs; filters by their codec (C18); the address rtList reserves as a sentinel is no data item
//@ variant: cut0 -DN=1 -DMODE=0 -DFROM=0 -DTO=11
//@ variant: cut11 -DN=1 -DMODE=0 -DFROM=11 -DTO=22
//@ variant: cut22 -DN=1 -DMODE=0 -DFROM=22 -DTO=33
//@ variant: cut33 -DN=1 -DMODE=0 -DFROM=33 -DTO=44
//@ variant: cut44 -DN=1 -DMODE=0 -DFROM=44 -DTO=55
//@ variant: cut55 -DN=1 -DMODE=0 -DFROM=55 -DTO=66
//@ variant: cut66 -DN=1 -DMODE=0 -DFROM=66 -DTO=77
//@ variant: cut77 -DN=1 -DMODE=0 -DFROM=77 -DTO=82
//@ variant: second82 -DN=2 -DMODE=0 -DFROM=82 -DTO=84
//@ variant: second90 -DN=2 -DMODE=0 -DFROM=90 -DTO=92
//@ variant: second137 -DN=2 -DMODE=0 -DFROM=137 -DTO=139
//@ variant: type0 -DN=1 -DMODE=1 -DFIELD=0
//@ variant: type1 -DN=1 -DMODE=1 -DFIELD=1
//@ variant: type2 -DN=1 -DMODE=1 -DFIELD=2
//@ variant: type3 -DN=1 -DMODE=1 -DFIELD=3
//@ variant: type4 -DN=1 -DMODE=1 -DFIELD=4
//@ variant: type5 -DN=1 -DMODE=1 -DFIELD=5
//@ variant: type6 -DN=1 -DMODE=1 -DFIELD=6
//@ variant: type7 -DN=1 -DMODE=1 -DFIELD=7
//@ variant: type8 -DN=1 -DMODE=1 -DFIELD=8
//@ variant: length2 -DN=1 -DMODE=2 -DFIELD=2
//@ variant: length3 -DN=1 -DMODE=2 -DFIELD=3
//@ variant: length4 -DN=1 -DMODE=2 -DFIELD=4
//@ variant: length5 -DN=1 -DMODE=2 -DFIELD=5
//@ variant: length6 -DN=1 -DMODE=2 -DFIELD=6
//@ variant: length7 -DN=1 -DMODE=2 -DFIELD=7
//@ variant: length8 -DN=1 -DMODE=2 -DFIELD=8
//@ variant: namelength0 -DN=1 -DMODE=4 -DFIELD=0
//@ variant: namelength1 -DN=1 -DMODE=4 -DFIELD=1
//@ variant: terminator0 -DN=1 -DMODE=3 -DFIELD=0
//@ variant: inside0 -DN=1 -DMODE=5 -DFIELD=0
//@ variant: terminator1 -DN=1 -DMODE=3 -DFIELD=1
//@ variant: inside1 -DN=1 -DMODE=5 -DFIELD=1
#undef fopen
#undef fclose
#undef fread
#include "vf.h" /* reads its inputs from real files */
#define fopen vf_fopen
#define fclose vf_fclose
#define fread vf_fread
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
#include <sys/stat.h>
#include "rbus_subscriptions.h"
#include "rbus_handle.h"
#include "rbus_buffer.h"
#include "rbus_tokenchain.h"
#include "rbus_intervalsubscription.h"
#define L0 4
#ifndef FIELD
#define FIELD 0
#endif
#ifndef L1
#define L1 4
#endif
#ifndef L2
#define L2 4
#endif
#ifndef GONE
#define GONE 9
#endif
struct _rbusSubscriptions { rbusHandle_t handle; elementNode* root; char* componentName; char* tmpDir; rtList subList; };
/* the file */
static unsigned char disk[520]; static size_t dsize, dpos; static bool exists; static FILE fobj;
FILE* fopen(char const* p, char const* m) { (void)p; if(m[0] == 'w') { exists = true; dsize = 0; } dpos = 0; return exists ? &fobj : NULL; }
int fclose(FILE* f) { (void)f; return 0; }
size_t fwrite(void const* p, size_t s, size_t n, FILE* f) { (void)f; V_CHECK(s == 1 && dpos + n <= sizeof(disk), "the model's file is large enough"); for(size_t i = 0; i < n; i++) disk[dpos + i] = ((unsigned char const*)p)[i]; dpos += n; if(dpos > dsize) dsize = dpos; return n; }
size_t fread(void* p, size_t s, size_t n, FILE* f) { (void)f; V_CHECK(s == 1, ""); size_t i; for(i = 0; i < n && dpos < dsize; i++) ((unsigned char*)p)[i] = disk[dpos++]; return i; }
int fseek(FILE* f, long o, int w) { (void)f; dpos = w == SEEK_END ? dsize + o : (size_t)o; return 0; }
long ftell(FILE* f) { (void)f; return (long)dpos; }
int remove(char const* p) { (void)p; exists = false; dsize = 0; return 0; }
int stat(char const* p, struct stat* st) { (void)p; (void)st; return exists ? 0 : -1; }
int access(char const* p, int m) { (void)p; (void)m; return 0; }
#ifndef V_NATIVE
int snprintf(char* s, size_t n, char const* f, ...) { (void)f; if(n) s[0] = 0; return 0; }
int atoi(char const* s) { return s[0] >= '1' && s[0] <= '9' ? s[0] - '0' : 0; }
#endif
int kill(pid_t p, int sig) { V_CHECK(sig == 0, "no process is signalled"); return p == 7 ? -1 : 0; }
/* filters by their codec */
static char filt[4];
static rbusFilter_t filter(unsigned k) { return k < 4 ? (rbusFilter_t)&filt[k] : NULL; }
void rbusFilter_Retain(rbusFilter_t f) { (void)f; }
void rbusFilter_Release(rbusFilter_t f) { (void)f; }
int rbusFilter_Compare(rbusFilter_t a, rbusFilter_t b) { return a == b ? 0 : 1; }
void rbusFilter_Encode(rbusFilter_t f, rbusBuffer_t b) { rbusBuffer_WriteInt32TLV(b, (int32_t)((char*)f - filt)); }
int rbusFilter_Decode(rbusFilter_t* f, rbusBuffer_t const b) { uint16_t t, l; int32_t i; if(rbusBuffer_ReadUInt16(b, &t) < 0 || rbusBuffer_ReadUInt16(b, &l) < 0 || rbusBuffer_ReadInt32(b, &i) < 0) return -1; *f = (rbusFilter_t)&filt[i & 3]; return 0; }
static TokenChain chain[4]; static unsigned chains;
TokenChain* TokenChain_create(char const* n, elementNode* e) { (void)n; (void)e; return &chain[chains++]; }
void TokenChain_destroy(TokenChain* c) { (void)c; }
bool TokenChain_match(TokenChain* c, elementNode* n) { (void)c; (void)n; return false; }
void rbusInterval_RemoveSubscriptionRecord(rbusHandle_t h, elementNode* n, rbusSubscription_t* s) { (void)h; (void)n; (void)s; }
static bool same(char const* a, char const* b) { for(size_t i = 0; ; i++) { if(a[i] != b[i]) return false; if(!a[i]) return true; } }
V_HARNESS
{
  static char sentinel; extern void* rtListReuseData; rtListReuseData = &sentinel; /* no data is the sentinel */
  static char const* const who[3] = { GONE == 0 ? "ab.7" : "ab.5", GONE == 1 ? "ab.7" : "c.6", "d.5" };
  static char nm[3][256]; static size_t const len[3] = { L0, L1, L2 };
  for(int i = 0; i < N; i++) for(size_t q = 0; q < len[i]; q++) nm[i][q] = "A.bc"[(q + (size_t)i) & 3];
  struct { int32_t comp, in, du; bool raw, autop; uint32_t id; rbusFilter_t f; } w[3];
  rbusSubscriptions_t a = NULL, b = NULL;
  rbusSubscriptions_create(&a, NULL, "prov", NULL, "/tmp");
  V_CHECK(a != NULL, "created"); size_t n = 0;
  for(int i = 0; i < N; i++)
  {
    w[i].comp = (int32_t)vf_u32(); w[i].in = (int32_t)vf_u32(); w[i].du = (int32_t)vf_u32(); w[i].raw = vf_bool(); w[i].autop = vf_bool();
    w[i].f = i == 1 ? NULL : filter(i); /* with and without */
    rbusSubscription_t* s = rbusSubscriptions_addSubscription(a, who[i], nm[i], w[i].comp, w[i].f, w[i].in, w[i].du, w[i].autop, NULL, w[i].raw);
    V_CHECK(s != NULL, "subscribed"); w[i].id = s->subscriptionId;
  }
  size_t const total = dsize, rec = 4 + 5 + 4 + L0 + 1 + 7 * 8 + 8, rec2 = 4 + 4 + 4 + L1 + 1 + 7 * 8;
  V_CHECK(total == (N == 2 ? rec + rec2 : rec), "the format this unit damages");
#if MODE == 0
  for(size_t cut = FROM; cut < TO; cut++) if(cut < total)
  {
    dsize = cut; exists = true; b = NULL;
    rbusSubscriptions_create(&b, NULL, "prov", NULL, "/tmp"); rtList_GetSize(b->subList, &n);
    V_CHECK(n == (cut >= rec ? 1 : 0), "exactly the complete subscriptions are restored");
    V_CHECK(cut == rec || !exists, "a cache cut short is discarded");
    if(n == 1)
    {
      rtListItem it; rbusSubscription_t* s; rtList_GetFront(b->subList, &it); rtListItem_GetData(it, (void**)&s);
      V_CHECK(same(s->listener, who[0]) && same(s->eventName, nm[0]) && s->componentId == w[0].comp && s->interval == w[0].in && s->duration == w[0].du && s->rawData == w[0].raw && s->autoPublish == w[0].autop && s->subscriptionId == w[0].id && s->filter == w[0].f, "unaltered");
    }
    dsize = total;
  }
#elif MODE == 4
  static uint16_t const bad[] = { 0, 1, 2, 4, 6, 7, 78, 79, 255, 256, 257, 4096, 65535 };
  for(unsigned i = 0; i < sizeof(bad) / sizeof(bad[0]); i++)
  {
    size_t p = FIELD ? 11 : 2; b = NULL; exists = true; dsize = total; disk[p] = bad[i] & 255; disk[p + 1] = bad[i] >> 8;
    rbusSubscriptions_create(&b, NULL, "prov", NULL, "/tmp"); rtList_GetSize(b->subList, &n);
    V_CHECK(n == 0, "nothing of a damaged cache is restored"); V_CHECK(!exists, "a damaged cache is discarded");
  }
#else
  /* where the nine fields of a record begin */
  static size_t const at[9] = { 0, 4 + 5, 18, 26, 34, 42, 50, 58, 66 };
  bool ok = true;
#if MODE == 1 || MODE == 2
  size_t p = at[FIELD] + (MODE == 2 ? 2 : 0); unsigned char x = vf_u8(), y = vf_u8();
  ok = x == disk[p] && y == disk[p + 1]; disk[p] = x; disk[p + 1] = y;
#else
  size_t const t = FIELD ? 13 + L0 : 8; V_CHECK(disk[t] == 0, "the terminator");
  if(MODE == 3) disk[t] = 120; else disk[t - 2] = 0; /* no terminator; a terminator inside */
  ok = false;
#endif
  rbusSubscriptions_create(&b, NULL, "prov", NULL, "/tmp"); rtList_GetSize(b->subList, &n);
  if(!ok) { V_CHECK(n == 0, "nothing of a damaged cache is restored"); V_CHECK(!exists, "a damaged cache is discarded"); V_REACH("damaged"); }
  else { V_CHECK(n == 1, "an intact cache is restored"); }
#if MODE < 3
  if(ok) V_REACH("intact");
#endif
#endif
  V_REACH("end");
  V_END;
}
