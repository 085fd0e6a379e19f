//@ desc: subscriptions saved to the cache are restored by a restarted provider in full: every name, subscriber, component, interval, duration, raw-data and auto-publish flag, identifier and filter, whatever their values, and only those whose subscriber still runs
//@ functions: rbusSubscriptions_saveCache rbusSubscriptions_loadCache rbusSubscriptions_create rbusSubscriptions_addSubscription rbusSubscriptions_getListenerPid rbusSubscriptions_isListenerRunning rbusBuffer_WriteStringTLV rbusBuffer_WriteInt32TLV rbusBuffer_Reserve rbusBuffer_ReadInt32 rbusBuffer_ReadUInt16
//@ sources: src/rbus/rbus_subscriptions.c src/rbus/rbus_buffer.c src/rbus/rbus_element.c src/rtmessage/rtList.c src/rtmessage/rtMemory.c vlib/vf_mem.c
//@ unwind: 16
//@ unwindset: memcpy.0:420,memset.0:420,vf_fwrite.0:520,vf_fread.0:520,strlen.0:270,strcpy.0:270,strcmp.0:30,memchr.0:270,same.0:270,vf_harness.0:270
//@ flags: --object-bits 11 --max-field-sensitivity-array-size 600
//@ timeout: 60
//@ defs: -U_TIME_BITS -U_FILE_OFFSET_BITS -Dfopen=vf_fopen -Dfclose=vf_fclose -Dfwrite=vf_fwrite -Dfread=vf_fread -Dfseek=vf_fseek -Dftell=vf_ftell -Dremove=vf_remove -Daccess=vf_access -Dkill=vf_kill -Dstat=vf_stat
//@ kind: bounded
//@ bound: one to three subscriptions; name lengths as in the variants, covering cache sizes at and around the buffer's block boundaries and the longest name; all attribute values arbitrary
//@ trusted: the file system returns what was written (model in the harness); kill(pid, 0) tells whether a process runs; filters by their codec (C18); the address rtList reserves as a sentinel is no data item
//@ variant: one -DN=1 -DL0=4
//@ variant: two -DN=2 -DL0=4 -DL1=9
//@ variant: three -DN=3 -DL0=3 -DL1=4 -DL2=5
//@ variant: block -DN=1 -DL0=50
//@ variant: block_less -DN=1 -DL0=49
//@ variant: block_more -DN=1 -DL0=51
//@ variant: first_block -DN=1 -DL0=10
//@ variant: longest -DN=1 -DL0=255
//@ variant: first_gone -DN=2 -DL0=4 -DL1=5 -DGONE=0
//@ variant: second_gone -DN=2 -DL0=4 -DL1=5 -DGONE=1
#undef fopen
#undef fclose
#undef fread
#include "vf.h" /* reads its inputs from real files */
#define fopen vf_fopen
#define fclose vf_fclose
#define fread vf_fread
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
#include <sys/stat.h>
#include "rbus_subscriptions.h"
#include "rbus_handle.h"
#include "rbus_buffer.h"
#include "rbus_tokenchain.h"
#include "rbus_intervalsubscription.h"
#ifndef L1
#define L1 4
#endif
#ifndef L2
#define L2 4
#endif
#ifndef GONE
#define GONE 9
#endif
struct _rbusSubscriptions { rbusHandle_t handle; elementNode* root; char* componentName; char* tmpDir; rtList subList; };
/* the file */
static unsigned char disk[520]; static size_t dsize, dpos; static bool exists; static FILE fobj;
FILE* fopen(char const* p, char const* m) { (void)p; if(m[0] == 'w') { exists = true; dsize = 0; } dpos = 0; return exists ? &fobj : NULL; }
int fclose(FILE* f) { (void)f; return 0; }
size_t fwrite(void const* p, size_t s, size_t n, FILE* f) { (void)f; V_CHECK(s == 1 && dpos + n <= sizeof(disk), "the model's file is large enough"); for(size_t i = 0; i < n; i++) disk[dpos + i] = ((unsigned char const*)p)[i]; dpos += n; if(dpos > dsize) dsize = dpos; return n; }
size_t fread(void* p, size_t s, size_t n, FILE* f) { (void)f; V_CHECK(s == 1, ""); size_t i; for(i = 0; i < n && dpos < dsize; i++) ((unsigned char*)p)[i] = disk[dpos++]; return i; }
int fseek(FILE* f, long o, int w) { (void)f; dpos = w == SEEK_END ? dsize + o : (size_t)o; return 0; }
long ftell(FILE* f) { (void)f; return (long)dpos; }
int remove(char const* p) { (void)p; exists = false; dsize = 0; return 0; }
int stat(char const* p, struct stat* st) { (void)p; (void)st; return exists ? 0 : -1; }
int access(char const* p, int m) { (void)p; (void)m; return 0; }
#ifndef V_NATIVE
int snprintf(char* s, size_t n, char const* f, ...) { (void)f; if(n) s[0] = 0; return 0; }
int atoi(char const* s) { return s[0] >= '1' && s[0] <= '9' ? s[0] - '0' : 0; }
#endif
int kill(pid_t p, int sig) { V_CHECK(sig == 0, "no process is signalled"); return p == 7 ? -1 : 0; }
/* filters by their codec */
static char filt[4];
static rbusFilter_t filter(unsigned k) { return k < 4 ? (rbusFilter_t)&filt[k] : NULL; }
void rbusFilter_Retain(rbusFilter_t f) { (void)f; }
void rbusFilter_Release(rbusFilter_t f) { (void)f; }
int rbusFilter_Compare(rbusFilter_t a, rbusFilter_t b) { return a == b ? 0 : 1; }
void rbusFilter_Encode(rbusFilter_t f, rbusBuffer_t b) { rbusBuffer_WriteInt32TLV(b, (int32_t)((char*)f - filt)); }
int rbusFilter_Decode(rbusFilter_t* f, rbusBuffer_t const b) { uint16_t t, l; int32_t i; if(rbusBuffer_ReadUInt16(b, &t) < 0 || rbusBuffer_ReadUInt16(b, &l) < 0 || rbusBuffer_ReadInt32(b, &i) < 0) return -1; *f = (rbusFilter_t)&filt[i & 3]; return 0; }
static TokenChain chain[4]; static unsigned chains;
TokenChain* TokenChain_create(char const* n, elementNode* e) { (void)n; (void)e; return &chain[chains++]; }
void TokenChain_destroy(TokenChain* c) { (void)c; }
bool TokenChain_match(TokenChain* c, elementNode* n) { (void)c; (void)n; return false; }
void rbusInterval_RemoveSubscriptionRecord(rbusHandle_t h, elementNode* n, rbusSubscription_t* s) { (void)h; (void)n; (void)s; }
static bool same(char const* a, char const* b) { for(size_t i = 0; ; i++) { if(a[i] != b[i]) return false; if(!a[i]) return true; } }
V_HARNESS
{
  static char sentinel; extern void* rtListReuseData; rtListReuseData = &sentinel; /* no data is the sentinel */
  static char const* const who[3] = { GONE == 0 ? "ab.7" : "ab.5", GONE == 1 ? "ab.7" : "c.6", "d.5" };
  static char nm[3][256]; static size_t const len[3] = { L0, L1, L2 };
  for(int i = 0; i < N; i++) for(size_t q = 0; q < len[i]; q++) nm[i][q] = "A.bc"[(q + (size_t)i) & 3];
  struct { int32_t comp, in, du; bool raw, autop; uint32_t id; rbusFilter_t f; } w[3];
  rbusSubscriptions_t a = NULL, b = NULL;
  rbusSubscriptions_create(&a, NULL, "prov", NULL, "/tmp");
  V_CHECK(a != NULL, "created"); size_t n = 0;
  for(int i = 0; i < N; i++)
  {
    w[i].comp = (int32_t)vf_u32(); w[i].in = (int32_t)vf_u32(); w[i].du = (int32_t)vf_u32(); w[i].raw = vf_bool(); w[i].autop = vf_bool();
    w[i].f = i == 1 ? NULL : filter(i); /* with and without */
    rbusSubscription_t* s = rbusSubscriptions_addSubscription(a, who[i], nm[i], w[i].comp, w[i].f, w[i].in, w[i].du, w[i].autop, NULL, w[i].raw);
    V_CHECK(s != NULL, "subscribed"); w[i].id = s->subscriptionId;
  }
  /* the provider stops and starts again */
  rbusSubscriptions_create(&b, NULL, "prov", NULL, "/tmp");
  rtList_GetSize(b->subList, &n); V_CHECK(n == N - (GONE < N ? 1 : 0), "exactly the saved subscriptions of running subscribers are restored");
  rtListItem it; rtList_GetFront(b->subList, &it);
  for(int i = 0; i < N; i++) if(i != GONE)
  {
    V_CHECK(it != NULL, "restored"); rbusSubscription_t* s; rtListItem_GetData(it, (void**)&s); rtListItem_GetNext(it, &it);
    V_CHECK(same(s->listener, who[i]), "the subscriber is restored"); V_CHECK(same(s->eventName, nm[i]), "the name is restored");
    V_CHECK(s->componentId == w[i].comp, "the component is restored"); V_CHECK(s->interval == w[i].in, "the interval is restored"); V_CHECK(s->duration == w[i].du, "the duration is restored");
    V_CHECK(s->rawData == w[i].raw, "the raw-data mode is restored"); V_CHECK(s->autoPublish == w[i].autop, "auto-publish is restored"); V_CHECK(s->subscriptionId == w[i].id, "the identifier is restored");
    V_CHECK(s->filter == w[i].f, "the filter is restored"); V_CHECK(s->instances != NULL && s->tokens == NULL && s->element == NULL, "not attached yet");
    V_REACH("one restored");
  }
  V_CHECK(exists, "an intact cache is kept");
  V_REACH("end");
  V_END;
}
