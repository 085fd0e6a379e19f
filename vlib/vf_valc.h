/* Values by their contract (C13: what is set is what is got; C16: comparison), integers, objects and properties only.
 * Under the verifier this stands for the real rbus_value.c where values are only carried along; natively (replay) the
 * real functions run. */
#ifndef VF_VALC_H
#define VF_VALC_H
#ifndef V_NATIVE
#include <stdlib.h>
#include <stdint.h>
#include <rbus.h>
struct _rbusValue { int refs; rbusValueType_t type; int32_t i; rbusObject_t o; rbusProperty_t p; };
rbusValue_t rbusValue_Init(rbusValue_t* pv) { rbusValue_t v = malloc(sizeof *v); v->refs = 1; v->type = RBUS_NONE; v->i = 0; v->o = NULL; v->p = NULL; if(pv) *pv = v; return v; }
void rbusValue_Retain(rbusValue_t v) { if(v) v->refs++; }
static void vf_clear(rbusValue_t v) { if(v->o) rbusObject_Release(v->o); if(v->p) rbusProperty_Release(v->p); v->o = NULL; v->p = NULL; }
void rbusValue_Release(rbusValue_t v) { if(v && --v->refs == 0) { vf_clear(v); free(v); } }
rbusValueType_t rbusValue_GetType(rbusValue_t v) { return v ? v->type : RBUS_NONE; }
rbusValue_t rbusValue_InitInt32(int32_t i) { rbusValue_t v = rbusValue_Init(NULL); v->type = RBUS_INT32; v->i = i; return v; }
void rbusValue_SetInt32(rbusValue_t v, int32_t i) { vf_clear(v); v->type = RBUS_INT32; v->i = i; }
int32_t rbusValue_GetInt32(rbusValue_t v) { return v->i; }
void rbusValue_SetObject(rbusValue_t v, struct _rbusObject* o) { if(o) rbusObject_Retain(o); vf_clear(v); v->type = RBUS_OBJECT; v->o = o; }
struct _rbusObject* rbusValue_GetObject(rbusValue_t v) { return v->o; }
void rbusValue_SetProperty(rbusValue_t v, struct _rbusProperty* p) { if(p) rbusProperty_Retain(p); vf_clear(v); v->type = RBUS_PROPERTY; v->p = p; }
struct _rbusProperty* rbusValue_GetProperty(rbusValue_t v) { return v->p; }
int rbusValue_Compare(rbusValue_t a, rbusValue_t b) { return a->type != b->type || a->i != b->i; }
#endif
#endif
