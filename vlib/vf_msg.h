/* Bus messages by their contract (property C11): a message is the sequence of fields written to it, read back in
 * order; reading a field as another kind fails.  The real functions are under contract in units C11; under the
 * verifier this executable contract stands for them, natively (replay) the real functions run. */
#ifndef VF_MSG_H
#define VF_MSG_H
#include <rbuscore_message.h>
#ifndef V_NATIVE
#ifndef VF_MSG_FIELDS
#define VF_MSG_FIELDS 24
#endif
struct vf_field { int kind; int64_t i; double d; char* s; uint8_t const* b; uint32_t n; struct _rbusMessage* m; };
struct _rbusMessage { int refs, n, r; struct vf_field f[VF_MSG_FIELDS]; };
enum { VF_INT = 1, VF_STR, VF_BIN, VF_DBL, VF_MSG };
void rbusMessage_Init(rbusMessage* m) { *m = malloc(sizeof(struct _rbusMessage)); (*m)->refs = 1; (*m)->n = (*m)->r = 0; }
void rbusMessage_Retain(rbusMessage m) { m->refs++; }
void rbusMessage_Release(rbusMessage m) { if(m) { V_CHECK(m->refs > 0, "message released at most as often as retained"); m->refs--; } }
static struct vf_field* vf_put(rbusMessage m, int kind)
{ V_CHECK(m->n < VF_MSG_FIELDS, "specification message has room"); struct vf_field* f = &m->f[m->n++]; f->kind = kind; return f; }
static struct vf_field* vf_get(rbusMessage m, int kind)
{ if(m->r >= m->n) return NULL; struct vf_field* f = &m->f[m->r++]; return f->kind == kind ? f : NULL; }
rtError rbusMessage_SetString(rbusMessage m, char const* v)
{ struct vf_field* f = vf_put(m, VF_STR); if(!v) v = ""; size_t n = strlen(v) + 1; f->s = malloc(n); for(size_t vf_i = 0; vf_i < n; ++vf_i) f->s[vf_i] = v[vf_i]; return RT_OK; }
rtError rbusMessage_GetString(rbusMessage const m, char const** v) { struct vf_field* f = vf_get(m, VF_STR); if(!f) return RT_FAIL; *v = f->s; return RT_OK; }
rtError rbusMessage_SetBytes(rbusMessage m, uint8_t const* v, uint32_t n)
{ struct vf_field* f = vf_put(m, VF_BIN); uint8_t* b = malloc(n ? n : 1); for(uint32_t vf_i = 0; vf_i < n; ++vf_i) b[vf_i] = v[vf_i]; f->b = b; f->n = n; return RT_OK; }
rtError rbusMessage_GetBytes(rbusMessage m, uint8_t const** v, uint32_t* n) { struct vf_field* f = vf_get(m, VF_BIN); if(!f) return RT_FAIL; *v = f->b; *n = f->n; return RT_OK; }
rtError rbusMessage_SetInt32(rbusMessage m, int32_t v) { vf_put(m, VF_INT)->i = v; return RT_OK; }
rtError rbusMessage_GetInt32(rbusMessage const m, int32_t* v) { struct vf_field* f = vf_get(m, VF_INT); if(!f) return RT_FAIL; *v = (int32_t)f->i; return RT_OK; }
rtError rbusMessage_GetUInt32(rbusMessage const m, uint32_t* v) { struct vf_field* f = vf_get(m, VF_INT); if(!f) return RT_FAIL; *v = (uint32_t)f->i; return RT_OK; }
rtError rbusMessage_SetInt64(rbusMessage m, int64_t v) { vf_put(m, VF_INT)->i = v; return RT_OK; }
rtError rbusMessage_GetInt64(rbusMessage const m, int64_t* v) { struct vf_field* f = vf_get(m, VF_INT); if(!f) return RT_FAIL; *v = f->i; return RT_OK; }
rtError rbusMessage_SetDouble(rbusMessage m, double v) { vf_put(m, VF_DBL)->d = v; return RT_OK; }
rtError rbusMessage_GetDouble(rbusMessage const m, double* v) { struct vf_field* f = vf_get(m, VF_DBL); if(!f) return RT_FAIL; *v = f->d; return RT_OK; }
rtError rbusMessage_SetMessage(rbusMessage m, rbusMessage const item) { vf_put(m, VF_MSG)->m = item; item->refs++; return RT_OK; }
rtError rbusMessage_GetMessage(rbusMessage const m, rbusMessage* v)
{ struct vf_field* f = vf_get(m, VF_MSG); if(!f) return RT_FAIL; rbusMessage_Init(v); (*v)->n = f->m->n; for(int vf_i = 0; vf_i < f->m->n; ++vf_i) (*v)->f[vf_i] = f->m->f[vf_i]; return RT_OK; }
void rbusMessage_ToDebugString(rbusMessage m, char** s, uint32_t* n) { *s = malloc(1); (*s)[0] = 0; *n = 0; }
static int vf_msg_count(rbusMessage m) { return m->n; }
#endif
#endif
