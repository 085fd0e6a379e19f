//@ desc: a subscription is found exactly by name, subscriber, component, filter, interval, duration and raw-data mode, whatever these are; it is attached to exactly the elements its name denotes; removing one removes exactly it
//@ functions: rbusSubscriptions_addSubscription rbusSubscriptions_getSubscription rbusSubscriptions_removeSubscription rbusSubscriptions_onSubscriptionCreated subscriptionKeyCompare subscriptionFree addElementSubscription removeElementSubscription
//@ sources: src/rbus/rbus_subscriptions.c src/rbus/rbus_element.c src/rtmessage/rtList.c src/rtmessage/rtMemory.c
//@ stub: rbusSubscriptions_saveCache
//@ unwind: 12
//@ timeout: 100
//@ kind: bounded
//@ bound: three subscriptions whose names are those of the variant (elements of two rows of a table, a wildcard over the table, a plain property; equal names included); subscribers, component ids, intervals, durations, raw-data flags and filters arbitrary
//@ trusted: the address rtList reserves as a sentinel is no data item; TokenChain_match holds exactly for the elements a name denotes (C21); rbusFilter_Compare is zero exactly for equal filters (C18); rbusFilter_Retain and rbusFilter_Release count (C07); the cache file writer is the subject of C23
//@ variant: r1_r1_r2 -DN0="D.T.1.P" -DN1="D.T.1.P" -DDEAD=1 -DN2="D.T.2.P"
//@ variant: r1_w_r2 -DN0="D.T.1.P" -DN1="D.T.*.P" -DDEAD=1 -DN2="D.T.2.P"
//@ variant: w_r1_q -DN0="D.T.*.P" -DN1="D.T.1.P" -DDEAD=1 -DN2="D.Q"
//@ variant: q_w_w -DN0="D.Q" -DN1="D.T.*.P" -DDEAD=1 -DN2="D.T.*.P"
//@ variant: r2_q_r1 -DN0="D.T.2.P" -DN1="D.Q" -DDEAD=1 -DN2="D.T.1.P"
#include "vf.h"
#include "rbus_subscriptions.h"
#include "rbus_handle.h"
#include "rbus_intervalsubscription.h"
#include "rbus_tokenchain.h"
static char const* const name[3] = { N0, N1, N2 };
static unsigned saves;
#ifdef V_NATIVE
#define SAVED(c) true
#else
#define SAVED(c) (c)
void rbusSubscriptions_saveCache(rbusSubscriptions_t s) { (void)s; saves++; }
#endif
/* filters: three distinct ones and none; equal exactly if the same */
static char filt[3]; static int refs[3];
static rbusFilter_t filter(unsigned k) { return k < 3 ? (rbusFilter_t)&filt[k] : NULL; }
int rbusFilter_Compare(rbusFilter_t a, rbusFilter_t b) { return a == b ? 0 : 1; }
void rbusFilter_Retain(rbusFilter_t f) { refs[(char*)f - filt]++; }
void rbusFilter_Release(rbusFilter_t f) { refs[(char*)f - filt]--; }
static unsigned stopped; static rbusSubscription_t* stopped_sub;
void rbusInterval_RemoveSubscriptionRecord(rbusHandle_t h, elementNode* n, rbusSubscription_t* s) { (void)h; (void)n; stopped++; stopped_sub = s; }
struct _rbusSubscriptions { rbusHandle_t handle; elementNode* root; char* componentName; char* tmpDir; rtList subList; };

static elementNode root, D, T, Q, tmpl, tmplP, row[3], rowP[3];
static void node(elementNode* n, elementNode* parent, elementNode* child, elementNode* next, char const* nm, char const* full, rbusElementType_t t)
{ n->parent = parent; n->child = child; n->nextSibling = next; n->name = (char*)nm; n->fullName = (char*)full; n->type = t; }
struct key { char listener[2]; int32_t comp, interval, duration; bool raw; unsigned f; };
static struct key any(void) { struct key k = {{0}}; k.listener[0] = vf_bool() ? 'a' : 'b'; k.comp = (int32_t)vf_u32(); k.interval = (int32_t)vf_u32(); k.duration = (int32_t)vf_u32(); k.raw = vf_bool(); k.f = vf_u8() & 3; return k; }
static bool same(struct key a, struct key b) { return a.listener[0] == b.listener[0] && a.comp == b.comp && a.interval == b.interval && a.duration == b.duration && a.raw == b.raw && a.f == b.f; }
static bool streq(char const* a, char const* b) { for(int i = 0; i < 9; i++) { if(a[i] != b[i]) return false; if(!a[i]) break; } return true; }
static bool has(elementNode* n, rbusSubscription_t* s)
{
  unsigned c = 0; rtListItem i = NULL; if(!n->subscriptions) return false;
  rtList_GetFront(n->subscriptions, &i);
  while(i) { void* d; rtListItem_GetData(i, &d); if(d == s) c++; rtListItem_GetNext(i, &i); }
  V_CHECK(c <= 1, "an element lists a subscription once"); return c == 1;
}
static bool covers(rbusSubscription_t* s, elementNode* n)
{
  unsigned c = 0; rtListItem i = NULL; rtList_GetFront(s->instances, &i);
  while(i) { void* d; rtListItem_GetData(i, &d); if(d == n) c++; rtListItem_GetNext(i, &i); }
  V_CHECK(c <= 1, "a subscription lists an element once"); return c == 1;
}
static bool denotes(char const* nm, int r) { return nm[2] == 'T' && (nm[4] == '*' || nm[4] == '1' + r); }
/* names: which elements they denote (C21) */
static TokenChain chain[3]; static unsigned chains;
TokenChain* TokenChain_create(char const* n, elementNode* e) { (void)n; (void)e; return &chain[chains++]; }
void TokenChain_destroy(TokenChain* c) { (void)c; }
bool TokenChain_match(TokenChain* c, elementNode* n)
{
  char const* nm = name[c - chain];
  return n == &Q ? nm[2] == 'Q' : n == &rowP[0] ? denotes(nm, 0) : n == &rowP[1] ? denotes(nm, 1) : n == &rowP[2] ? denotes(nm, 2) : false;
}
V_HARNESS
{
  static char sentinel; extern void* rtListReuseData; rtListReuseData = &sentinel; /* no data is the sentinel */
  struct key k[3]; rbusSubscription_t* s[3];
  node(&root, NULL, &D, NULL, "root", "root", 0); node(&D, &root, &T, NULL, "D", "D", 0);
  node(&T, &D, &tmpl, &Q, "T", "D.T", RBUS_ELEMENT_TYPE_TABLE); node(&Q, &D, NULL, NULL, "Q", "D.Q", RBUS_ELEMENT_TYPE_PROPERTY);
  node(&tmpl, &T, &tmplP, &row[0], "{i}", "D.T.{i}", 0); node(&tmplP, &tmpl, NULL, NULL, "P", "D.T.{i}.P", RBUS_ELEMENT_TYPE_PROPERTY);
  static char const* const rn[3] = { "1", "2", "3" }; static char const* const rf[3] = { "D.T.1", "D.T.2", "D.T.3" };
  for(int i = 0; i < 3; i++) { node(&row[i], &T, &rowP[i], i == 0 ? &row[1] : NULL, rn[i], rf[i], 0); node(&rowP[i], &row[i], NULL, NULL, "P", "", RBUS_ELEMENT_TYPE_PROPERTY); }
  struct _rbusSubscriptions R = {0}; R.root = &root; R.componentName = "c"; R.tmpDir = "/nonexistent"; rtList_Create(&R.subList);
  for(int i = 0; i < 3; i++)
  {
    k[i] = any();
    for(int j = 0; j < i; j++) V_ASSUME(!(streq(name[i], name[j]) && same(k[i], k[j]))); /* the caller refuses an identical one: unit impl */
    V_CHECK(rbusSubscriptions_getSubscription(&R, k[i].listener, name[i], k[i].comp, filter(k[i].f), k[i].interval, k[i].duration, k[i].raw) == NULL, "a subscription not made yet is not found");
    s[i] = rbusSubscriptions_addSubscription(&R, k[i].listener, name[i], k[i].comp, filter(k[i].f), k[i].interval, k[i].duration, vf_bool(), name[i][2] == 'Q' ? &Q : &tmplP, k[i].raw);
    V_CHECK(s[i] != NULL, "the subscription is made");
    V_CHECK(SAVED(saves == (unsigned)i + 1), "the change is saved");
  }
  for(int i = 0; i < 3; i++)
  {
    V_CHECK(rbusSubscriptions_getSubscription(&R, k[i].listener, name[i], k[i].comp, filter(k[i].f), k[i].interval, k[i].duration, k[i].raw) == s[i], "each subscription is found by its attributes");
    V_CHECK(s[i]->componentId == k[i].comp && s[i]->interval == k[i].interval && s[i]->duration == k[i].duration && s[i]->rawData == k[i].raw && s[i]->filter == filter(k[i].f) && s[i]->listener[0] == k[i].listener[0] && streq(s[i]->eventName, name[i]), "the attributes are kept");
    for(int j = 0; j < i; j++) V_CHECK(s[i]->subscriptionId != s[j]->subscriptionId, "subscriptions have distinct identifiers");
    for(int r = 0; r < 2; r++) V_CHECK(covers(s[i], &rowP[r]) == denotes(name[i], r) && has(&rowP[r], s[i]) == denotes(name[i], r), "attached to exactly the elements denoted");
    V_CHECK(has(&Q, s[i]) == (name[i][2] == 'Q') && !has(&D, s[i]) && !has(&T, s[i]) && !has(&row[0], s[i]) && !has(&row[1], s[i]), "attached to no other element");
  }
  struct key x = any();
  rbusSubscription_t* f = rbusSubscriptions_getSubscription(&R, x.listener, name[0], x.comp, filter(x.f), x.interval, x.duration, x.raw);
  for(int i = 0; i < 3; i++) V_CHECK((f == s[i]) == (streq(name[i], name[0]) && same(k[i], x)), "found exactly if every attribute agrees");
  V_CHECK(rbusSubscriptions_getSubscription(&R, x.listener, "D.T", x.comp, filter(x.f), x.interval, x.duration, x.raw) == NULL, "another name is not found");
  saves = 0; rbusSubscriptions_removeSubscription(&R, s[DEAD]); V_CHECK(SAVED(saves == 1), "the change is saved");
  for(int i = 0; i < 3; i++)
  {
    f = rbusSubscriptions_getSubscription(&R, k[i].listener, name[i], k[i].comp, filter(k[i].f), k[i].interval, k[i].duration, k[i].raw);
    V_CHECK(f == (i != DEAD ? s[i] : NULL), "removing one subscription removes it and no other");
    for(int r = 0; r < 2; r++) V_CHECK(has(&rowP[r], s[i]) == (i != DEAD && denotes(name[i], r)), "elements drop exactly the removed subscription");
  }
  int held = 0; for(int i = 0; i < 3; i++) { int c = 0; for(int j = 0; j < 3; j++) if(j != DEAD && k[j].f == (unsigned)i) c++; held += refs[i] != c; } V_CHECK(held == 0, "each live subscription holds its filter, and only these");
  V_REACH("end");
  V_END;
}
