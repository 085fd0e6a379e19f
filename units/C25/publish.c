//@ desc: publishing delivers the event exactly once to each subscription entitled to it, in its own name and with its own options, with exactly the event's data (marked only for the filtered subscriber whose condition switched), whoever else subscribed and whichever deliveries fail; the caller's data stays as it was
//@ functions: rbusEvent_Publish _copy_event_data rbusEventData_appendToMessage rbusEventData_updateFromMessage rbusObject_appendToMessage
//@ sources: src/rbus/rbus.c src/rbus/rbus_property.c src/rbus/rbus_object.c src/rbus/rbus_value.c src/rbus/rbus_buffer.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c src/rtmessage/rtList.c vlib/vf_mem.c
//@ nsources: @all
//@ unwind: 12
//@ unwindset: memcpy.0:100,strcpy.0:30,memset.0:200,strlen.0:40,strcmp.0:40,one.0:5,one.1:5,one.2:5,vf_harness.0:8,vf_harness.1:8
//@ flags: --object-bits 13
//@ defs: -DVF_MSG_FIELDS=36
//@ timeout: 100
//@ kind: bounded
//@ bound: up to three subscriptions, each with the kind given by the variant or enumerated (plain, raw, filter switching on, off, staying true, staying false), every single delivery failing or none; values arbitrary
//@ trusted: element lookup by its contract (C20); filter evaluation by its contract (C18); bus messages by their contract (C11); delivery to a subscriber by an arbitrary outcome; mutexes never fail
//@ variant: value_plain1 -DK0=PLAIN -DVC=1 -DLO=0 -DHI=1
//@ variant: value_plain2 -DK0=PLAIN -DVC=1 -DLO=2 -DHI=3
//@ variant: value_plain3 -DK0=PLAIN -DVC=1 -DLO=4 -DHI=5
//@ variant: value_raw1 -DK0=RAW -DVC=1 -DLO=0 -DHI=1
//@ variant: value_raw2 -DK0=RAW -DVC=1 -DLO=2 -DHI=3
//@ variant: value_raw3 -DK0=RAW -DVC=1 -DLO=4 -DHI=5
//@ variant: value_on1 -DK0=ON -DVC=1 -DLO=0 -DHI=1
//@ variant: value_on2 -DK0=ON -DVC=1 -DLO=2 -DHI=3
//@ variant: value_on3 -DK0=ON -DVC=1 -DLO=4 -DHI=5
//@ variant: value_off1 -DK0=OFF -DVC=1 -DLO=0 -DHI=1
//@ variant: value_off2 -DK0=OFF -DVC=1 -DLO=2 -DHI=3
//@ variant: value_off3 -DK0=OFF -DVC=1 -DLO=4 -DHI=5
//@ variant: value_stays1 -DK0=STAYT -DVC=1 -DLO=0 -DHI=1
//@ variant: value_stays2 -DK0=STAYT -DVC=1 -DLO=2 -DHI=3
//@ variant: value_stays3 -DK0=STAYT -DVC=1 -DLO=4 -DHI=5
//@ variant: value_not1 -DK0=STAYF -DVC=1 -DLO=0 -DHI=1
//@ variant: value_not2 -DK0=STAYF -DVC=1 -DLO=2 -DHI=3
//@ variant: value_not3 -DK0=STAYF -DVC=1 -DLO=4 -DHI=5
//@ variant: general_plain1 -DK0=PLAIN -DVC=0 -DLO=0 -DHI=1
//@ variant: general_filter1 -DK0=STAYF -DVC=0 -DLO=0 -DHI=1
//@ variant: general_filter3 -DK0=STAYF -DVC=0 -DLO=4 -DHI=5
//@ variant: three_a -DTHREE -DK0=ON -DK1=PLAIN -DK2=OFF -DVC=1 -DF=-1
//@ variant: three_a_f0 -DTHREE -DK0=ON -DK1=PLAIN -DK2=OFF -DVC=1 -DF=0
//@ variant: three_a_f1 -DTHREE -DK0=ON -DK1=PLAIN -DK2=OFF -DVC=1 -DF=1
//@ variant: three_b -DTHREE -DK0=STAYT -DK1=ON -DK2=PLAIN -DVC=1 -DF=-1
//@ variant: three_b_f0 -DTHREE -DK0=STAYT -DK1=ON -DK2=PLAIN -DVC=1 -DF=0
//@ variant: three_b_f1 -DTHREE -DK0=STAYT -DK1=ON -DK2=PLAIN -DVC=1 -DF=1
//@ variant: three_c -DTHREE -DK0=RAW -DK1=OFF -DK2=ON -DVC=1 -DF=-1
//@ variant: three_c_f0 -DTHREE -DK0=RAW -DK1=OFF -DK2=ON -DVC=1 -DF=0
//@ variant: three_c_f1 -DTHREE -DK0=RAW -DK1=OFF -DK2=ON -DVC=1 -DF=1
//@ variant: nodata -DNODATA -DVC=0
//@ variant: refused -DREFUSED -DVC=1
#include "vf.h"
#include <rbus.h>
#include "rbus_handle.h"
#include "rbus_element.h"
#include "rbus_subscriptions.h"
#include "rbuscore.h"
#include "vf_msg.h"
#define PLAIN 0
#define RAW 1
#define ON 2
#define OFF 3
#define STAYT 4
#define STAYF 5
#ifndef V_NATIVE
struct _rbusFilter { rbusFilter_RelationOperator_t op; rbusValue_t v; };
void rbusFilter_InitRelation(rbusFilter_t* f, rbusFilter_RelationOperator_t op, rbusValue_t v) { *f = malloc(sizeof **f); (*f)->op = op; (*f)->v = v; rbusValue_Retain(v); }
rbusFilter_ExpressionType_t rbusFilter_GetType(rbusFilter_t f) { (void)f; return RBUS_FILTER_EXPRESSION_RELATION; }
rbusFilter_RelationOperator_t rbusFilter_GetRelationOperator(rbusFilter_t f) { return f->op; }
rbusValue_t rbusFilter_GetRelationValue(rbusFilter_t f) { return f->v; }
void rbusFilter_Release(rbusFilter_t f) { (void)f; }
#endif
static elementNode el; static bool registered; static rbusEvent_t ev; static rbusObject_t evdata; static rbusValue_t newv, oldv;
static int nsub, kind[3], fail, got[3], calls; static rbusSubscription_t sub[3];
static rbusFilter_t fil[3];
static char const* const listener[3] = { "L.0", "L.1", "L.2" }; static char const* const as[3] = { "A.*.e", "A.1.e", "A.[x].e" };
elementNode* retrieveInstanceElement(elementNode* root, char const* name) { (void)root; return registered && strcmp(name, "A.1.e") == 0 ? &el : NULL; }
bool rbusFilter_Apply(rbusFilter_t f, rbusValue_t v)
{
  for(int i = 0; i < nsub; i++) if(f == fil[i]) { V_CHECK(v == newv || v == oldv, "filters judge the old and the new value");
    return kind[i] == STAYT || (kind[i] == ON && v == newv) || (kind[i] == OFF && v == oldv); }
  V_CHECK(false, "only a subscription's own filter is applied"); return false;
}
rbusError_t rbusEventData_updateFromMessage(rbusEvent_t* event, rbusFilter_t* filter, uint32_t* interval, uint32_t* duration, int32_t* componentId, rbusMessage msg);
static bool count_prop(rbusObject_t o, char const* n, int want) { int c = 0; for(rbusProperty_t p = rbusObject_GetProperties(o); p; p = rbusProperty_GetNext(p)) if(strcmp(rbusProperty_GetName(p), n) == 0) c++; return c == want; }
rbusCoreError_t rbus_publishSubscriberEvent(const char* sender, const char* event, const char* to, rbusMessage out, uint32_t id, bool raw)
{
  int i = 0; while(i < nsub && strcmp(to, listener[i]) != 0) i++;
  V_CHECK(i < nsub, "nobody else is notified"); got[i]++; V_CHECK(!raw && id == sub[i].subscriptionId, "under the subscription's own id");
  V_CHECK(strcmp(sender, "prov") == 0 && strcmp(event, as[i]) == 0, "by the provider, under the subscribed name");
#ifdef V_NATIVE
  { uint8_t const* d; uint32_t n; rbusMessage c; rbusMessage_ToBytes(out, (uint8_t**)&d, &n); rbusMessage_FromBytes(&c, d, n); out = c; }
#endif
  rbusEvent_t e = {0}; rbusFilter_t f = NULL; uint32_t iv = 0, du = 0; int32_t ci = 0;
  V_CHECK(rbusEventData_updateFromMessage(&e, &f, &iv, &du, &ci, out) == RBUS_ERROR_SUCCESS, "the event is well formed");
  V_CHECK(strcmp(e.name, "A.1.e") == 0 && e.type == ev.type, "the event's own name and type");
  V_CHECK(iv == (uint32_t)sub[i].interval && du == (uint32_t)sub[i].duration && ci == sub[i].componentId && (f != NULL) == (sub[i].filter != NULL), "the subscription's own options");
  if(f) { V_CHECK(rbusFilter_GetRelationOperator(f) == RBUS_FILTER_OPERATOR_LESS_THAN && rbusValue_GetInt32(rbusFilter_GetRelationValue(f)) == 1000 + i, "the subscription's own filter"); rbusFilter_Release(f); }
  V_CHECK((e.data != NULL) == (evdata != NULL), "data exactly if the event has data");
  if(evdata)
  {
    rbusValue_t a = rbusObject_GetValue(e.data, "value"), b = rbusObject_GetValue(e.data, "oldValue"), by = rbusObject_GetValue(e.data, "by"), mark = rbusObject_GetValue(e.data, "filter");
    V_CHECK(a && rbusValue_GetType(a) == RBUS_INT32 && rbusValue_GetInt32(a) == rbusValue_GetInt32(newv), "the new value");
    V_CHECK(b && rbusValue_GetType(b) == RBUS_INT32 && rbusValue_GetInt32(b) == rbusValue_GetInt32(oldv), "the old value");
    V_CHECK(by && rbusValue_GetType(by) == RBUS_INT32 && rbusValue_GetInt32(by) == 77, "the other data");
    bool marked = VC && (kind[i] == ON || kind[i] == OFF);
    V_CHECK((mark != NULL) == marked, "a filter mark exactly for a filter that switched");
    if(marked) V_CHECK(rbusValue_GetType(mark) == RBUS_BOOLEAN && rbusValue_GetBoolean(mark) == (kind[i] == ON), "which says how it switched");
    V_CHECK(count_prop(e.data, "filter", marked) && rbusProperty_Count(rbusObject_GetProperties(e.data)) == (uint32_t)(3 + marked), "and nothing else");
    rbusObject_Release(e.data);
  }
  calls++;
  return calls - 1 == fail ? RBUSCORE_ERROR_DESTINATION_UNREACHABLE : RBUSCORE_SUCCESS;
}
static struct _rbusHandle h;
static void one(int n, int k0, int k1, int k2, int f)
{
  extern void* rtListReuseData; static char sentinel; rtListReuseData = &sentinel;
  nsub = n; kind[0] = k0; kind[1] = k1; kind[2] = k2; fail = f; calls = 0; registered = true;
  rtList l; rtList_Create(&l); int want = 0;
  for(int i = 0; i < n; i++) { got[i] = 0; memset(&sub[i], 0, sizeof sub[i]); sub[i].listener = (char*)listener[i]; sub[i].eventName = (char*)as[i]; sub[i].subscriptionId = vf_u32();
    sub[i].interval = vf_i32(); sub[i].duration = vf_i32(); sub[i].componentId = vf_i32(); sub[i].rawData = kind[i] == RAW; if(kind[i] >= ON) { rbusValue_t v = rbusValue_InitInt32(1000 + i); rbusFilter_InitRelation(&fil[i], RBUS_FILTER_OPERATOR_LESS_THAN, v); rbusValue_Release(v); sub[i].filter = fil[i]; }
    rtList_PushBack(l, &sub[i], NULL); }
  el.subscriptions = l;
  ev.name = "A.1.e"; ev.type = VC ? RBUS_EVENT_VALUE_CHANGED : RBUS_EVENT_GENERAL;
#ifdef NODATA
  evdata = NULL;
#else
  newv = rbusValue_InitInt32(vf_i32()); oldv = rbusValue_InitInt32(vf_i32()); rbusObject_Init(&evdata, "d");
  { rbusValue_t by = rbusValue_InitInt32(77); rbusObject_SetValue(evdata, "value", newv); rbusObject_SetValue(evdata, "oldValue", oldv); rbusObject_SetValue(evdata, "by", by); rbusValue_Release(by); }
#endif
  ev.data = evdata;
  rbusError_t e = rbusEvent_Publish(&h, &ev);
  bool failed = f >= 0 && f < calls;
  V_CHECK((e == RBUS_ERROR_SUCCESS) == !failed, "success exactly if every delivery succeeded");
  for(int i = 0; i < n; i++) { want = kind[i] == PLAIN || (kind[i] >= ON && !(VC && kind[i] >= STAYT)); V_CHECK(got[i] == want, "each entitled subscriber is notified exactly once, the others not at all"); }
  V_CHECK(ev.data == evdata && strcmp(ev.name, "A.1.e") == 0, "the caller's event stays");
  if(evdata) { V_CHECK(rbusObject_GetValue(evdata, "filter") == NULL && rbusProperty_Count(rbusObject_GetProperties(evdata)) == 3, "the caller's data stays");
    rbusObject_Release(evdata); rbusValue_Release(newv); rbusValue_Release(oldv); }
}
V_HARNESS
{
  memset(&h, 0, sizeof h); h.componentName = "prov"; h.m_handleType = RBUS_HWDL_TYPE_REGULAR; h.componentId = 1;
  pthread_mutex_init(&h.handle_subsMutex, NULL);
#if defined REFUSED
  registered = true; memset(&ev, 0, sizeof ev); ev.type = vf_bool() ? RBUS_EVENT_VALUE_CHANGED : RBUS_EVENT_GENERAL; nsub = 0; fail = -1;
  ev.name = "A.2.e"; V_CHECK(rbusEvent_Publish(&h, &ev) == RBUS_ERROR_ELEMENT_DOES_NOT_EXIST, "an event that is not registered is refused");
  el.subscriptions = NULL; ev.name = "A.1.e"; V_CHECK(rbusEvent_Publish(&h, &ev) == RBUS_ERROR_NOSUBSCRIBERS, "without subscribers the caller is told");
  { extern void* rtListReuseData; static char sentinel; rtListReuseData = &sentinel; nsub = 1; kind[0] = PLAIN; rtList l; rtList_Create(&l); memset(&sub[0], 0, sizeof sub[0]); sub[0].listener = "L.0"; sub[0].eventName = "A.*.e"; rtList_PushBack(l, &sub[0], NULL); el.subscriptions = l; }
  ev.type = RBUS_EVENT_VALUE_CHANGED; V_CHECK(rbusEvent_Publish(&h, &ev) == RBUS_ERROR_INVALID_INPUT, "a value change without values is refused");
  rbusObject_Init(&ev.data, "d"); newv = rbusValue_InitInt32(1); rbusObject_SetValue(ev.data, "value", newv); V_CHECK(rbusEvent_Publish(&h, &ev) == RBUS_ERROR_INVALID_INPUT, "a value change without the old value is refused");
  h.m_handleType = RBUS_HWDL_TYPE_REGULAR + 1; V_CHECK(rbusEvent_Publish(&h, &ev) == RBUS_ERROR_INVALID_HANDLE, "only a provider's handle publishes");
  V_CHECK(calls == 0, "nobody is notified");
#elif defined NODATA
  one(2, PLAIN, STAYF, 0, -1);
#elif defined THREE
  one(3, K0, K1, K2, F);
#else
  if(LO == 0) { one(1, K0, 0, 0, -1); one(1, K0, 0, 0, 0); }
  for(int k = LO; k <= HI; k++) one(2, K0, k, 0, -1);
#endif
  V_REACH("end");
  V_END;
}
