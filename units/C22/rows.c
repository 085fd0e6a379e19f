//@ desc: adding a row attaches its elements to exactly the wildcard subscriptions; deleting a row removes exactly the subscriptions made for its elements by name, ends their interval publication and detaches the wildcard ones, leaving every other subscription as it was
//@ functions: rbusSubscriptions_onTableRowAdded rbusSubscriptions_onTableRowRemoved rbusSubscriptions_onElementCreated rbusSubscriptions_onElementDeleted rbusSubscriptions_getSubscription rbusSubscriptions_removeSubscription subscriptionFree addElementSubscription removeElementSubscription
//@ sources: src/rbus/rbus_subscriptions.c src/rbus/rbus_element.c src/rtmessage/rtList.c src/rtmessage/rtMemory.c
//@ stub: rbusSubscriptions_saveCache
//@ unwind: 12
//@ timeout: 100
//@ kind: bounded
//@ bound: three subscriptions whose names are those of the variant (elements of two rows of a table, a wildcard over the table, a plain property; equal names included); subscribers, component ids, intervals, durations, raw-data flags and filters pairwise different in one attribute
//@ trusted: the address rtList reserves as a sentinel is no data item; TokenChain_match holds exactly for the elements a name denotes (C21); rbusFilter_Compare is zero exactly for equal filters (C18); rbusFilter_Retain and rbusFilter_Release count (C07); the cache file writer is the subject of C23
//@ variant: r1_r1_r2 -DN0="D.T.1.P" -DN1="D.T.1.P" -DN2="D.T.2.P"
//@ variant: r1_w_r2 -DN0="D.T.1.P" -DN1="D.T.*.P" -DN2="D.T.2.P"
//@ variant: w_r1_q -DN0="D.T.*.P" -DN1="D.T.1.P" -DN2="D.Q"
//@ variant: q_w_w -DN0="D.Q" -DN1="D.T.*.P" -DN2="D.T.*.P"
//@ variant: r2_q_r1 -DN0="D.T.2.P" -DN1="D.Q" -DN2="D.T.1.P"
#include "vf.h"
#include "rbus_subscriptions.h"
#include "rbus_handle.h"
#include "rbus_intervalsubscription.h"
#include "rbus_tokenchain.h"
static char const* const name[3] = { N0, N1, N2 };
static unsigned saves;
#ifdef V_NATIVE
#define SAVED(c) true
#else
#define SAVED(c) (c)
void rbusSubscriptions_saveCache(rbusSubscriptions_t s) { (void)s; saves++; }
#endif
/* filters: three distinct ones and none; equal exactly if the same */
static char filt[3]; static int refs[3];
static rbusFilter_t filter(unsigned k) { return k < 3 ? (rbusFilter_t)&filt[k] : NULL; }
int rbusFilter_Compare(rbusFilter_t a, rbusFilter_t b) { return a == b ? 0 : 1; }
void rbusFilter_Retain(rbusFilter_t f) { refs[(char*)f - filt]++; }
void rbusFilter_Release(rbusFilter_t f) { refs[(char*)f - filt]--; }
static unsigned stopped; static rbusSubscription_t* stopped_sub;
void rbusInterval_RemoveSubscriptionRecord(rbusHandle_t h, elementNode* n, rbusSubscription_t* s) { (void)h; (void)n; stopped++; stopped_sub = s; }
struct _rbusSubscriptions { rbusHandle_t handle; elementNode* root; char* componentName; char* tmpDir; rtList subList; };

static elementNode root, D, T, Q, tmpl, tmplP, row[3], rowP[3];
static void node(elementNode* n, elementNode* parent, elementNode* child, elementNode* next, char const* nm, char const* full, rbusElementType_t t)
{ n->parent = parent; n->child = child; n->nextSibling = next; n->name = (char*)nm; n->fullName = (char*)full; n->type = t; }
struct key { char listener[2]; int32_t comp, interval, duration; bool raw; unsigned f; };
static struct key const kk[3] = { {"a", 1, 0, 0, false, 0}, {"a", 1, 5, 0, false, 0}, {"b", 1, 5, 0, false, 3} };
static bool streq(char const* a, char const* b) { for(int i = 0; i < 9; i++) { if(a[i] != b[i]) return false; if(!a[i]) break; } return true; }
static bool has(elementNode* n, rbusSubscription_t* s)
{
  unsigned c = 0; rtListItem i = NULL; if(!n->subscriptions) return false;
  rtList_GetFront(n->subscriptions, &i);
  while(i) { void* d; rtListItem_GetData(i, &d); if(d == s) c++; rtListItem_GetNext(i, &i); }
  V_CHECK(c <= 1, "an element lists a subscription once"); return c == 1;
}
static bool covers(rbusSubscription_t* s, elementNode* n)
{
  unsigned c = 0; rtListItem i = NULL; rtList_GetFront(s->instances, &i);
  while(i) { void* d; rtListItem_GetData(i, &d); if(d == n) c++; rtListItem_GetNext(i, &i); }
  V_CHECK(c <= 1, "a subscription lists an element once"); return c == 1;
}
static bool denotes(char const* nm, int r) { return nm[2] == 'T' && (nm[4] == '*' || nm[4] == '1' + r); }
/* names: which elements they denote (C21) */
static TokenChain chain[3]; static unsigned chains;
TokenChain* TokenChain_create(char const* n, elementNode* e) { (void)n; (void)e; return &chain[chains++]; }
void TokenChain_destroy(TokenChain* c) { (void)c; }
bool TokenChain_match(TokenChain* c, elementNode* n)
{
  char const* nm = name[c - chain];
  return n == &Q ? nm[2] == 'Q' : n == &rowP[0] ? denotes(nm, 0) : n == &rowP[1] ? denotes(nm, 1) : n == &rowP[2] ? denotes(nm, 2) : false;
}
V_HARNESS
{
  static char sentinel; extern void* rtListReuseData; rtListReuseData = &sentinel; /* no data is the sentinel */
  struct key k[3]; rbusSubscription_t* s[3];
  node(&root, NULL, &D, NULL, "root", "root", 0); node(&D, &root, &T, NULL, "D", "D", 0);
  node(&T, &D, &tmpl, &Q, "T", "D.T", RBUS_ELEMENT_TYPE_TABLE); node(&Q, &D, NULL, NULL, "Q", "D.Q", RBUS_ELEMENT_TYPE_PROPERTY);
  node(&tmpl, &T, &tmplP, &row[0], "{i}", "D.T.{i}", 0); node(&tmplP, &tmpl, NULL, NULL, "P", "D.T.{i}.P", RBUS_ELEMENT_TYPE_PROPERTY);
  static char const* const rn[3] = { "1", "2", "3" }; static char const* const rf[3] = { "D.T.1", "D.T.2", "D.T.3" };
  for(int i = 0; i < 3; i++) { node(&row[i], &T, &rowP[i], i == 0 ? &row[1] : NULL, rn[i], rf[i], 0); node(&rowP[i], &row[i], NULL, NULL, "P", "", RBUS_ELEMENT_TYPE_PROPERTY); }
  struct _rbusSubscriptions R = {0}; R.root = &root; R.componentName = "c"; R.tmpDir = "/nonexistent"; rtList_Create(&R.subList);
  for(int i = 0; i < 3; i++)
  {
    k[i] = kk[i];
    s[i] = rbusSubscriptions_addSubscription(&R, k[i].listener, name[i], k[i].comp, filter(k[i].f), k[i].interval, k[i].duration, vf_bool(), name[i][2] == 'Q' ? &Q : &tmplP, k[i].raw);
    V_CHECK(s[i] != NULL, "the subscription is made");
    V_CHECK(SAVED(saves == (unsigned)i + 1), "the change is saved");
  }
  rbusSubscription_t* f;
  /* a row appears */
  row[1].nextSibling = &row[2]; rbusSubscriptions_onTableRowAdded(&R, &row[2]);
  for(int i = 0; i < 3; i++) V_CHECK(covers(s[i], &rowP[2]) == denotes(name[i], 2) && has(&rowP[2], s[i]) == denotes(name[i], 2), "a new row's elements are attached to exactly the wildcard subscriptions");
  /* a row goes */
  saves = 0; unsigned gone = 0, live[3]; bool stop = false;
  for(int i = 0; i < 3; i++) { live[i] = !(denotes(name[i], 0) && name[i][4] != '*'); if(!live[i]) { gone++; if(k[i].interval) stop = true; } }
  rbusSubscriptions_onTableRowRemoved(&R, &row[0]);
  V_CHECK(!rowP[0].subscriptions, "the deleted row's elements have no subscription left");
  V_CHECK(SAVED(!gone || saves > 0), "the change is saved");
  V_CHECK((stopped > 0) == stop, "the interval publication of a removed subscription ends");
  size_t n = 0; rtList_GetSize(R.subList, &n); V_CHECK(n == 3 - gone, "exactly the subscriptions made for the row's elements are removed");
  row[1].nextSibling = &row[2]; tmpl.nextSibling = &row[1];
  for(int i = 0; i < 3; i++)
  {
    f = rbusSubscriptions_getSubscription(&R, k[i].listener, name[i], k[i].comp, filter(k[i].f), k[i].interval, k[i].duration, k[i].raw);
    V_CHECK(f == (live[i] ? s[i] : NULL), "and no other");
    if(live[i]) for(int r = 1; r < 3; r++) V_CHECK(covers(s[i], &rowP[r]) == denotes(name[i], r) && has(&rowP[r], s[i]) == denotes(name[i], r), "what remains is attached as before");
    if(live[i]) V_CHECK(!covers(s[i], &rowP[0]), "no subscription refers to the deleted row");
  }
  int held = 0; for(int i = 0; i < 3; i++) { int c = 0; for(int j = 0; j < 3; j++) if(live[j] && k[j].f == (unsigned)i) c++; held += refs[i] != c; } V_CHECK(held == 0, "each live subscription holds its filter, and only these");
  V_REACH("end");
  V_END;
}
