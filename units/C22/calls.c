//@ desc: subscribe and unsubscribe requests and a client's disconnect: an identical second subscription is refused, a refused one leaves nothing behind, an unsubscribe removes exactly the subscription with these attributes, a disconnect removes all subscriptions of that client and no other, and a property is polled for changes exactly while a subscription needs it
//@ functions: subscribeHandlerImpl rbusSubscriptions_handleClientDisconnect rbusSubscriptions_addSubscription rbusSubscriptions_getSubscription rbusSubscriptions_removeSubscription elementHasAutoPubSubscriptions
//@ sources: src/rbus/rbus.c src/rbus/rbus_subscriptions.c src/rbus/rbus_element.c src/rtmessage/rtList.c src/rtmessage/rtMemory.c
//@ nsources: @all
//@ stub: rbusSubscriptions_saveCache retrieveInstanceElement
//@ unwind: 12
//@ timeout: 100
//@ kind: bounded
//@ bound: one history of subscriptions of two clients to a property and an event differing in one attribute each (as given by the variant), provider with or without a handler, all refusals of the provider's handler, auto-publish on or off, elements present or gone at the disconnect
//@ trusted: the address rtList reserves as a sentinel is no data item; TokenChain_match holds exactly for the elements a name denotes (C21); rbusFilter_Compare is zero exactly for equal filters (C18); polling and interval publication by their interfaces (C26, C25); the cache file writer is the subject of C23
//@ variant: interval_plain -DINT=5 -DDUR=0 -DFIL=3 -DHAN=0 -DAUTO=2 -DGONE=0
//@ variant: interval_auto -DINT=5 -DDUR=0 -DFIL=3 -DHAN=1 -DAUTO=1 -DGONE=0
//@ variant: interval_manual -DINT=5 -DDUR=0 -DFIL=3 -DHAN=1 -DAUTO=0 -DGONE=0
//@ variant: interval_gone -DINT=5 -DDUR=0 -DFIL=3 -DHAN=1 -DAUTO=2 -DGONE=1
//@ variant: filter_plain -DINT=0 -DDUR=0 -DFIL=0 -DHAN=0 -DAUTO=2 -DGONE=0
//@ variant: filter_auto -DINT=0 -DDUR=0 -DFIL=0 -DHAN=1 -DAUTO=1 -DGONE=0
//@ variant: filter_manual -DINT=0 -DDUR=0 -DFIL=0 -DHAN=1 -DAUTO=0 -DGONE=0
//@ variant: filter_gone -DINT=0 -DDUR=0 -DFIL=0 -DHAN=1 -DAUTO=2 -DGONE=1
//@ variant: duration_plain -DINT=5 -DDUR=9 -DFIL=1 -DHAN=0 -DAUTO=2 -DGONE=0
//@ variant: duration_auto -DINT=5 -DDUR=9 -DFIL=1 -DHAN=1 -DAUTO=1 -DGONE=0
//@ variant: duration_manual -DINT=5 -DDUR=9 -DFIL=1 -DHAN=1 -DAUTO=0 -DGONE=0
//@ variant: duration_gone -DINT=5 -DDUR=9 -DFIL=1 -DHAN=1 -DAUTO=2 -DGONE=1
//@ variant: refused -DINT=0 -DDUR=0 -DFIL=3 -DHAN=1 -DAUTO=2 -DGONE=0 -DREFUSE
#include "vf.h"
#include <rbus.h>
#include "rbus_subscriptions.h"
#include "rbus_handle.h"
#include "rbus_element.h"
#include "rbus_tokenchain.h"
int subscribeHandlerImpl(rbusHandle_t handle, bool added, elementNode* el, char const* eventName, char const* listener, int32_t componentId, int32_t interval, int32_t duration, rbusFilter_t filter, int rawData, uint32_t* subscriptionId);
struct _rbusSubscriptions { rbusHandle_t handle; elementNode* root; char* componentName; char* tmpDir; rtList subList; };
static elementNode root, D, Q, E; static bool row_gone;
#ifndef V_NATIVE
void rbusSubscriptions_saveCache(rbusSubscriptions_t s) { (void)s; }
int pthread_mutex_lock(pthread_mutex_t* m) { (void)m; return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { (void)m; return 0; }
#endif
elementNode* retrieveInstanceElement(elementNode* r, char const* n) { (void)r; return row_gone ? NULL : n[2] == 'Q' ? &Q : &E; }
static char filt[3];
static rbusFilter_t filter(unsigned k) { return k < 3 ? (rbusFilter_t)&filt[k] : NULL; }
int rbusFilter_Compare(rbusFilter_t a, rbusFilter_t b) { return a == b ? 0 : 1; }
void rbusFilter_Retain(rbusFilter_t f) { (void)f; }
void rbusFilter_Release(rbusFilter_t f) { (void)f; }
static TokenChain chain[8]; static elementNode* on[8]; static unsigned chains;
TokenChain* TokenChain_create(char const* n, elementNode* e) { (void)n; on[chains] = e; return &chain[chains++]; }
void TokenChain_destroy(TokenChain* c) { (void)c; }
bool TokenChain_match(TokenChain* c, elementNode* n) { return on[c - chain] == n; }
/* polling and interval publication */
static bool polled; static rbusSubscription_t* publ[8]; static unsigned npubl;
void rbusValueChange_AddPropertyNode(rbusHandle_t h, elementNode* n) { (void)h; V_CHECK(n == &Q, "only properties are polled"); polled = true; }
void rbusValueChange_RemovePropertyNode(rbusHandle_t h, elementNode* n) { (void)h; V_CHECK(n == &Q, "only properties are polled"); polled = false; }
rbusError_t rbusInterval_AddSubscriptionRecord(rbusHandle_t h, elementNode* n, rbusSubscription_t* s) { (void)h; (void)n; npubl++; return RBUS_ERROR_SUCCESS; }
void rbusInterval_RemoveSubscriptionRecord(rbusHandle_t h, elementNode* n, rbusSubscription_t* s) { (void)h; (void)n; V_CHECK(npubl > 0, "only a running publication ends"); npubl--; }
/* the provider's handler */
static rbusError_t answer; static bool wants_auto, called; static rbusEventSubAction_t act; static rbusFilter_t hfilter; static int32_t hinterval; static bool sets_auto;
static rbusError_t handler(rbusHandle_t h, rbusEventSubAction_t a, char const* n, rbusFilter_t f, int32_t i, bool* autop) { (void)h; (void)n; called = true; act = a; hfilter = f; hinterval = i; if(sets_auto) *autop = wants_auto; return answer; }
static struct _rbusHandle H; static struct _rbusSubscriptions R; static uint32_t id;
static size_t count(void) { size_t n = 0; rtList_GetSize(R.subList, &n); return n; }
static int sub(bool add, elementNode* e, char const* who, int32_t comp, int32_t in, int32_t du, unsigned f, bool raw)
{ called = false; int rc = subscribeHandlerImpl(&H, add, e, e == &Q ? "D.Q" : "D.E", who, comp, in, du, filter(f), raw, &id);
  if(called) V_CHECK(act == (add ? RBUS_EVENT_ACTION_SUBSCRIBE : RBUS_EVENT_ACTION_UNSUBSCRIBE) && hfilter == filter(f) && hinterval == in, "the provider is told what is asked");
  return rc; }
static rbusSubscription_t* get(elementNode* e, char const* who, int32_t comp, int32_t in, int32_t du, unsigned f, bool raw)
{ return rbusSubscriptions_getSubscription(&R, who, e == &Q ? "D.Q" : "D.E", comp, filter(f), in, du, raw); }
static void node(elementNode* n, elementNode* parent, elementNode* child, elementNode* next, char const* nm, char const* full, rbusElementType_t t)
{ n->parent = parent; n->child = child; n->nextSibling = next; n->name = (char*)nm; n->fullName = (char*)full; n->type = t; }
V_HARNESS
{
  static char sentinel; extern void* rtListReuseData; rtListReuseData = &sentinel; /* no data is the sentinel */
  node(&root, NULL, &D, NULL, "root", "root", 0); node(&D, &root, &Q, NULL, "D", "D", 0);
  node(&Q, &D, NULL, &E, "Q", "D.Q", RBUS_ELEMENT_TYPE_PROPERTY); node(&E, &D, NULL, NULL, "E", "D.E", RBUS_ELEMENT_TYPE_EVENT);
  R.root = &root; R.componentName = "c"; R.tmpDir = "/nonexistent"; rtList_Create(&R.subList); R.handle = &H;
  H.subscriptions = &R; H.elementRoot = &root; bool handled = HAN; if(handled) Q.cbTable.eventSubHandler = E.cbTable.eventSubHandler = handler;
  /* refused subscriptions leave nothing behind */
#ifdef REFUSE
  answer = (rbusError_t)vf_u8(); V_ASSUME(answer != RBUS_ERROR_SUCCESS);
  V_CHECK(sub(true, &Q, "a", 1, 0, 0, 3, false) == (int)answer && count() == 0 && !polled, "a subscription the provider refuses is not made");
  V_CHECK(called, "the provider is asked");
#else
  V_CHECK(sub(true, &Q, "a", 1, 0, 0, 3, true) == RBUS_ERROR_INVALID_INPUT && count() == 0 && !polled, "a raw-data subscription to a property is refused and not made");
  V_CHECK(!called || act == RBUS_EVENT_ACTION_UNSUBSCRIBE, "the provider is not left believing it was");
  V_CHECK(sub(true, NULL, "a", 1, 0, 0, 3, false) != RBUS_ERROR_SUCCESS && count() == 0, "no element, no subscription");
  /* subscriptions of two clients */
  sets_auto = AUTO != 2; wants_auto = AUTO == 1; bool autop = !(sets_auto && !wants_auto);
  V_CHECK(sub(true, &Q, "a", 1, 0, 0, 3, false) == RBUS_ERROR_SUCCESS && count() == 1, "made"); uint32_t id0 = id;
  V_CHECK(polled == autop, "a property is polled exactly while a subscription needs it");
  V_CHECK(sub(true, &Q, "a", 1, 0, 0, 3, false) == RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST && count() == 1, "an identical second subscription is refused");
  V_CHECK(sub(true, &Q, "a", 1, INT, DUR, FIL, false) == RBUS_ERROR_SUCCESS && count() == 2 && id != id0, "one that differs is made");
  V_CHECK(npubl == (INT != 0 && autop), "an interval subscription is published at its interval");
  V_CHECK(sub(true, &Q, "b", 1, INT, DUR, FIL, false) == RBUS_ERROR_SUCCESS && count() == 3, "one of another client is made");
  V_CHECK(sub(true, &Q, "a", 2, INT, DUR, FIL, false) == RBUS_ERROR_SUCCESS && count() == 4, "one of another component of the client is made");
  sets_auto = false;
  V_CHECK(sub(true, &E, "a", 1, 0, 0, FIL, true) == RBUS_ERROR_SUCCESS && count() == 5, "a raw-data subscription to an event is made");
  V_CHECK(sub(true, &E, "b", 1, 0, 0, FIL, false) == RBUS_ERROR_SUCCESS && count() == 6, "made");
  /* unsubscribing what is not subscribed */
  V_CHECK(sub(false, &Q, "b", 1, INT + 1, DUR, FIL, false) == RBUS_ERROR_INVALID_INPUT && count() == 6, "only what is subscribed is unsubscribed: interval");
  V_CHECK(sub(false, &Q, "b", 1, INT, DUR + 1, FIL, false) == RBUS_ERROR_INVALID_INPUT && count() == 6, "duration");
  V_CHECK(sub(false, &Q, "b", 1, INT, DUR, FIL ^ 1, false) == RBUS_ERROR_INVALID_INPUT && count() == 6, "filter");
  V_CHECK(sub(false, &Q, "b", 2, INT, DUR, FIL, false) == RBUS_ERROR_INVALID_INPUT && count() == 6, "component");
  V_CHECK(sub(false, &E, "b", 1, 0, 0, FIL, true) != RBUS_ERROR_SUCCESS && count() == 6, "raw data");
  /* unsubscribing one */
  V_CHECK(sub(false, &Q, "a", 2, INT, DUR, FIL, false) == RBUS_ERROR_SUCCESS && count() == 5 && !get(&Q, "a", 2, INT, DUR, FIL, false), "an unsubscribe removes the subscription");
  V_CHECK(get(&Q, "a", 1, 0, 0, 3, false) && get(&Q, "a", 1, INT, DUR, FIL, false) && get(&Q, "b", 1, INT, DUR, FIL, false) && get(&E, "a", 1, 0, 0, FIL, true) && get(&E, "b", 1, 0, 0, FIL, false), "and no other");
  V_CHECK(polled == autop && npubl == (INT != 0 && autop ? 2 : 0), "the others are served as before");
  /* a client disconnects */
  row_gone = GONE; bool gone = row_gone;
  rbusSubscriptions_handleClientDisconnect(&H, &R, "a");
  V_CHECK(!get(&Q, "a", 1, 0, 0, 3, false) && !get(&Q, "a", 1, INT, DUR, FIL, false) && !get(&E, "a", 1, 0, 0, FIL, true), "a disconnect removes every subscription of the client");
  V_CHECK(count() == 2 && get(&Q, "b", 1, INT, DUR, FIL, false) && get(&E, "b", 1, 0, 0, FIL, false), "and no other client's");
  if(!gone)
  {
    V_CHECK(polled == (INT == 0 && autop) && npubl == (INT != 0 && autop), "polling and publication go on exactly for the other client");
    V_CHECK(sub(false, &Q, "b", 1, INT, DUR, FIL, false) == RBUS_ERROR_SUCCESS && count() == 1 && !polled && npubl == 0, "the last unsubscribe ends polling and publication");
    V_CHECK(Q.subscriptions == NULL && E.subscriptions != NULL, "the element keeps no subscription");
#if !GONE
    V_REACH("last");
#endif
  }
#endif
  V_REACH("end");
  V_END;
}
