//@ desc: looking up an arbitrary name finds exactly the element whose name it is, and nothing otherwise
//@ functions: retrieveElement retrieveInstanceElement retrieveInstanceElementEx insertElement
//@ sources: src/rbus/rbus_element.c src/rtmessage/rtMemory.c vlib/vf_mem.c
//@ unwind: 10
//@ unwindset: strlen.0:40,strcpy.0:40,strdup.0:40,memcpy.0:400,memset.0:400
//@ flags: --object-bits 12
//@ timeout: 60
//@ kind: bounded
//@ bound: names of one to three one-character parts; three trees: siblings, nested objects, a table with one row
//@ trusted: strtok_r splits the name at its dots (model in the harness); mutexes never fail; snprintf for the formats "%s.%s", "%s" and "%u" (model in the harness)
//@ variant: siblings1 -DH=1 -DPARTS=1
//@ variant: siblings2 -DH=1 -DPARTS=2
//@ variant: siblings3 -DH=1 -DPARTS=3
//@ variant: nested1 -DH=2 -DPARTS=1
//@ variant: nested2 -DH=2 -DPARTS=2
//@ variant: nested3 -DH=2 -DPARTS=3
//@ variant: table1 -DH=3 -DPARTS=1
//@ variant: table2 -DH=3 -DPARTS=2
//@ variant: table3 -DH=3 -DPARTS=3
#include "vf.h"
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <pthread.h>
#include <rbus.h>
#include "rbus_element.h"
#ifndef V_NATIVE
static int depth;
int pthread_mutexattr_init(pthread_mutexattr_t* a) { return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t* a, int t) { return 0; }
int pthread_mutex_init(pthread_mutex_t* m, pthread_mutexattr_t const* a) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { depth++; return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { V_CHECK(depth > 0, "only a held lock is released"); depth--; return 0; }
static size_t put(char* d, size_t n, size_t at, char const* s) { while(*s) { if(at + 1 < n) d[at] = *s; at++; s++; } return at; }
int snprintf(char* d, size_t n, char const* f, ...)
{
  va_list l; va_start(l, f); size_t at = 0;
  if(f[1] == 'u') { unsigned v = va_arg(l, unsigned); V_CHECK(v < 10, "one digit"); d[0] = (char)('0' + v); at = 1; }
  else { char const* a = va_arg(l, char const*); at = put(d, n, at, a); if(f[2]) { char const* b = va_arg(l, char const*); at = put(d, n, at, "."); at = put(d, n, at, b); } }
  d[at < n ? at : n - 1] = 0; va_end(l); return (int)at;
}
/* the name asked for has one-character parts */
static bool asked; static unsigned part; static char tok[4][2];
char* strtok_r(char* t, char const* d, char** save)
{
  if(asked) { if(t) part = 0; if(part >= PARTS) return NULL; return tok[part++]; }
  if(t) *save = t;
  if(!*save || !**save) return NULL;
  char* r = *save; char* p = r; while(*p && *p != '.') p++;
  if(*p) *p++ = 0;
  *save = p; return r;
}
char* strdup(char const* t) { size_t n = asked ? 2 * PARTS : strlen(t) + 1; char* r = malloc(n); V_ASSUME(r != NULL); memcpy(r, t, n); return r; }
#else
#define depth 0
#endif
enum { P = RBUS_ELEMENT_TYPE_PROPERTY, T = RBUS_ELEMENT_TYPE_TABLE, E = RBUS_ELEMENT_TYPE_EVENT, M = RBUS_ELEMENT_TYPE_METHOD };
static elementNode* root;
static uintptr_t tag[12]; static rbusElementType_t kind[12]; static unsigned regs;
/* registers an element; answers its number */
static unsigned reg(char* name, rbusElementType_t type)
{
  unsigned k = regs++; tag[k] = vf_u64(); kind[k] = type;
  rbusDataElement_t e = { name, type, { (rbusGetHandler_t)tag[k], (rbusSetHandler_t)(tag[k] + 1), (rbusTableAddRowHandler_t)(tag[k] + 2), (rbusTableRemoveRowHandler_t)(tag[k] + 3), (rbusEventSubHandler_t)(tag[k] + 4), (rbusMethodHandler_t)(tag[k] + 5) } };
  if(type == T) { e.cbTable.getHandler = NULL; tag[k] = 0; } /* tables with a get handler have no rows */
  elementNode* n = insertElement(root, &e); V_CHECK(n != NULL, "registered"); V_CHECK(depth == 0, "the lock is released");
  return k;
}
static elementNode* row(char const* table, uint32_t nr, char const* alias) { elementNode* t = retrieveInstanceElement(root, table); V_CHECK(t != NULL, "the table is found"); elementNode* r = instantiateTableRow(t, nr, alias); V_CHECK(r != NULL && r->parent == t, "the row is added to its table"); V_CHECK(depth == 0, "the lock is released"); return r; }
static void drop_(char const* name) { elementNode* e = retrieveElement(root, name); V_CHECK(e != NULL, "the element to remove is found"); removeElement(e); V_CHECK(depth == 0, "the lock is released"); }
static bool same(char const* a, char const* b) { for(size_t i = 0; ; i++) { if(a[i] != b[i]) return false; if(!a[i]) return true; } }
static void is(elementNode* e, unsigned k, char const* full)
{
  V_CHECK(e != NULL, "a registered element is found"); V_CHECK(same(e->fullName, full), "under its full name"); V_CHECK(e->type == kind[k], "with its type");
  if(kind[k] != T) { V_CHECK((uintptr_t)e->cbTable.getHandler == tag[k] && (uintptr_t)e->cbTable.setHandler == tag[k] + 1 && (uintptr_t)e->cbTable.eventSubHandler == tag[k] + 4 && (uintptr_t)e->cbTable.methodHandler == tag[k] + 5, "with its handlers"); }
}
#define has(name, k) is(retrieveInstanceElement(root, name), k, name)
#define decl(name, k) is(retrieveElement(root, name), k, name) /* the registration itself, also for names of rows */
static void no(char const* name) { V_CHECK(retrieveInstanceElement(root, name) == NULL, "a name that is not registered is not found"); V_CHECK(depth == 0, "the lock is released"); }
static unsigned size(elementNode* n) { unsigned k = 0; for(; n; n = n->nextSibling) k += 1 + size(n->child); return k; }
#define count(k) V_CHECK(size(root->child) == (k), "the tree holds the registered elements and nothing else")
static bool names(char const* s, char const* full) { for(size_t i = 0; ; i++) { if(full[i] != s[i]) return false; if(!s[i]) return true; } }
V_HARNESS
{
  root = getEmptyElementNode(); root->name = strdup("p"); char s[2 * PARTS];
#if H == 1
  static char const* const all[] = { "A", "A.b", "A.c", "D" }; reg("A.b", P); reg("A.c", M); reg("D", E);
#elif H == 2
  static char const* const all[] = { "A", "A.b", "A.b.c", "b" }; reg("A.b.c", P); reg("b", E);
#else
  static char const* const all[] = { "T", "T.3", "T.3.b", "c" }; reg("T.{i}.", T); reg("T.{i}.b", P); reg("c", P); row("T", 3, NULL);
#endif
  for(int i = 0; i < PARTS; i++) { s[2 * i] = (char)vf_u8(); V_ASSUME(s[2 * i] && s[2 * i] != '.' && s[2 * i] != '*'); s[2 * i + 1] = i == PARTS - 1 ? 0 : '.'; }
#ifndef V_NATIVE
  for(int i = 0; i < PARTS; i++) { tok[i][0] = s[2 * i]; tok[i][1] = 0; }
  asked = true;
#endif
  elementNode* e = retrieveInstanceElement(root, s); V_CHECK(depth == 0, "the lock is released"); bool any = false;
  for(unsigned i = 0; i < sizeof(all) / sizeof(all[0]); i++) if(names(s, all[i])) { any = true; V_CHECK(e != NULL && same(e->fullName, all[i]), "a registered name is found"); }
  if(!any) { V_CHECK(e == NULL, "a name that is not registered is not found"); V_REACH("none"); }
  V_REACH("end");
  V_END;
}
