//@ desc: after each history of registrations, row additions, row deletions and removals every registered element, and only those, is found under its name with its type and handlers, in each row of its tables (also through the row's alias), wherever the registrations come in the history; locks are released
//@ functions: insertElement retrieveElement retrieveInstanceElement retrieveInstanceElementEx removeElement removeElementInternal freeElementNode freeElementRecurse pruneTree createElementChain duplicateNode instantiateTableRow deleteTableRow replicateAcrossTableRowInstances replicateAcrossTableRowInstancesInternal getEmptyElementNode
//@ sources: src/rbus/rbus_element.c src/rtmessage/rtMemory.c vlib/vf_mem.c
//@ unwind: 12
//@ unwindset: strlen.0:40,strcpy.0:40,strdup.0:40,memcpy.0:400,memset.0:400
//@ flags: --object-bits 12
//@ timeout: 60
//@ kind: bounded
//@ bound: the histories of the variants (three to nine operations, tables nested at most twice, at most two rows each); handlers arbitrary
//@ trusted: mutexes never fail; snprintf for the formats "%s.%s", "%s" and "%u" (model in the harness)
//@ variant: flat -DH=1
//@ variant: reordered -DH=2
//@ variant: rows -DH=3
//@ variant: row_deleted -DH=4
//@ variant: late -DH=5
//@ variant: table_late -DH=6
//@ variant: table_twice -DH=7
//@ variant: nested -DH=8
//@ variant: nested_late -DH=9
//@ variant: nested_table_late -DH=10
//@ variant: removed -DH=11
//@ variant: removed_in_rows -DH=12
//@ variant: removed_parent -DH=13
//@ variant: pruned -DH=14
//@ variant: kept_registered -DH=15
//@ variant: table_removed -DH=16
//@ variant: one_row_only -DH=17
//@ variant: handlers_replaced -DH=18
//@ variant: middle_row_deleted -DH=19
//@ variant: object_becomes_element -DH=20
#include "vf.h"
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <pthread.h>
#include <rbus.h>
#include "rbus_element.h"
#ifndef V_NATIVE
static int depth;
int pthread_mutexattr_init(pthread_mutexattr_t* a) { return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t* a, int t) { return 0; }
int pthread_mutex_init(pthread_mutex_t* m, pthread_mutexattr_t const* a) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { depth++; return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { V_CHECK(depth > 0, "only a held lock is released"); depth--; return 0; }
static size_t put(char* d, size_t n, size_t at, char const* s) { while(*s) { if(at + 1 < n) d[at] = *s; at++; s++; } return at; }
int snprintf(char* d, size_t n, char const* f, ...)
{
  va_list l; va_start(l, f); size_t at = 0;
  if(f[1] == 'u') { unsigned v = va_arg(l, unsigned); V_CHECK(v < 10, "one digit"); d[0] = (char)('0' + v); at = 1; }
  else { char const* a = va_arg(l, char const*); at = put(d, n, at, a); if(f[2]) { char const* b = va_arg(l, char const*); at = put(d, n, at, "."); at = put(d, n, at, b); } }
  d[at < n ? at : n - 1] = 0; va_end(l); return (int)at;
}
#else
#define depth 0
#endif
enum { P = RBUS_ELEMENT_TYPE_PROPERTY, T = RBUS_ELEMENT_TYPE_TABLE, E = RBUS_ELEMENT_TYPE_EVENT, M = RBUS_ELEMENT_TYPE_METHOD };
static elementNode* root;
static uintptr_t tag[12]; static rbusElementType_t kind[12]; static unsigned regs;
/* registers an element; answers its number */
static unsigned reg(char* name, rbusElementType_t type)
{
  unsigned k = regs++; tag[k] = vf_u64(); kind[k] = type;
  rbusDataElement_t e = { name, type, { (rbusGetHandler_t)tag[k], (rbusSetHandler_t)(tag[k] + 1), (rbusTableAddRowHandler_t)(tag[k] + 2), (rbusTableRemoveRowHandler_t)(tag[k] + 3), (rbusEventSubHandler_t)(tag[k] + 4), (rbusMethodHandler_t)(tag[k] + 5) } };
  if(type == T) { e.cbTable.getHandler = NULL; tag[k] = 0; } /* tables with a get handler have no rows */
  elementNode* n = insertElement(root, &e); V_CHECK(n != NULL, "registered"); V_CHECK(depth == 0, "the lock is released");
  return k;
}
static elementNode* row(char const* table, uint32_t nr, char const* alias) { elementNode* t = retrieveInstanceElement(root, table); V_CHECK(t != NULL, "the table is found"); elementNode* r = instantiateTableRow(t, nr, alias); V_CHECK(r != NULL && r->parent == t, "the row is added to its table"); V_CHECK(depth == 0, "the lock is released"); return r; }
static void drop(char const* name) { elementNode* e = retrieveElement(root, name); V_CHECK(e != NULL, "the element to remove is found"); removeElement(e); V_CHECK(depth == 0, "the lock is released"); }
static bool same(char const* a, char const* b) { for(size_t i = 0; ; i++) { if(a[i] != b[i]) return false; if(!a[i]) return true; } }
static void is(elementNode* e, unsigned k, char const* full)
{
  V_CHECK(e != NULL, "a registered element is found"); V_CHECK(same(e->fullName, full), "under its full name"); V_CHECK(e->type == kind[k], "with its type");
  if(kind[k] != T) { V_CHECK((uintptr_t)e->cbTable.getHandler == tag[k] && (uintptr_t)e->cbTable.setHandler == tag[k] + 1 && (uintptr_t)e->cbTable.eventSubHandler == tag[k] + 4 && (uintptr_t)e->cbTable.methodHandler == tag[k] + 5, "with its handlers"); }
}
#define has(name, k) is(retrieveInstanceElement(root, name), k, name)
#define decl(name, k) is(retrieveElement(root, name), k, name) /* the registration itself, also for names of rows */
static void no(char const* name) { V_CHECK(retrieveInstanceElement(root, name) == NULL, "a name that is not registered is not found"); V_CHECK(depth == 0, "the lock is released"); }
static unsigned size(elementNode* n) { unsigned k = 0; for(; n; n = n->nextSibling) k += 1 + size(n->child); return k; }
#define count(k) V_CHECK(size(root->child) == (k), "the tree holds the registered elements and nothing else")
V_HARNESS
{
  root = getEmptyElementNode(); root->name = strdup("p");
  unsigned a, b, c, d, t, u;
  char r1 = '3', r2 = '1'; uint32_t n1 = r1 - '0', n2 = r2 - '0';
#define NAME(v, pre, r, post) char v[] = pre "?" post; v[sizeof(pre) - 1] = r
#if H == 1
  a = reg("A.b", P); b = reg("A.c", M); c = reg("A.d.e", E); d = reg("F", P);
  has("A.b", a); has("A.c", b); has("A.d.e", c); has("F", d); no("A.x"); no("A.b.c"); no("b"); no("A.d.f"); no("G"); no("A.d.e.f"); no(""); count(6);
#elif H == 2
  d = reg("F", P); c = reg("A.d.e", E); b = reg("A.c", M); a = reg("A.b", P);
  has("A.b", a); has("A.c", b); has("A.d.e", c); has("F", d); no("A.x"); no("A.b.c"); count(6);
#elif H == 3
  t = reg("A.T.{i}.", T); a = reg("A.T.{i}.b", P); c = reg("A.T.{i}.o.c", P); row("A.T.", 3, "kk"); row("A.T", 1, NULL);
  has("A.T", t); has("A.T.3.b", a); has("A.T.1.o.c", c); is(retrieveInstanceElement(root, "A.T.[kk].o.c"), c, "A.T.3.o.c"); no("A.T.3.c"); no("A.T.[k].b"); no("A.T.[kkk].b"); no("A.T.[kj].b"); no("A.T.[].b"); no("A.T.kk.b"); no("A.T.[kk.b"); decl("A.T.{i}.b", a); is(retrieveElement(root, "A.T.3.b"), a, "A.T.{i}.b"); is(retrieveElement(root, "A.T.[kk].b"), a, "A.T.{i}.b"); count(14);
#elif H == 4
  t = reg("A.T.{i}.", T); a = reg("A.T.{i}.b", P); elementNode* q = row("A.T.", n1, NULL); row("A.T.", n2, "k");
  deleteTableRow(q); V_CHECK(depth == 0, "the lock is released"); NAME(x1, "A.T.", r1, ".b"); NAME(x2, "A.T.", r2, ".b"); NAME(x3, "A.T.", r1, "");
  no(x1); no(x3); has(x2, a); has("A.T", t); decl("A.T.{i}.b", a); count(6);
#elif H == 5
  t = reg("A.T.{i}.", T); row("A.T.", n1, NULL); a = reg("A.T.{i}.b", P); row("A.T.", n2, NULL); c = reg("A.T.{i}.o.c", M);
  NAME(x1, "A.T.", r1, ".b"); NAME(x2, "A.T.", r2, ".b"); NAME(x3, "A.T.", r1, ".o.c"); NAME(x4, "A.T.", r2, ".o.c");
  has(x1, a); has(x2, a); has(x3, c); has(x4, c); decl("A.T.{i}.o.c", c); count(14);
#elif H == 6
  a = reg("A.T.{i}.b", P); t = reg("A.T.{i}.", T); row("A.T.", n1, NULL); NAME(x1, "A.T.", r1, ".b");
  has("A.T", t); decl("A.T.{i}.b", a); has(x1, a); count(6);
#elif H == 7
  t = reg("A.T.{i}.", T); a = reg("A.T.{i}.b", P); row("A.T.", n1, NULL); t = reg("A.T.{i}", T); NAME(x1, "A.T.", r1, ".b");
  has("A.T", t); decl("A.T.{i}.b", a); has(x1, a); count(6);
#elif H == 8
  t = reg("T.{i}.", T); u = reg("T.{i}.U.{i}.", T); a = reg("T.{i}.U.{i}.b", P); row("T.", n1, NULL); NAME(ut, "T.", r1, ".U."); row(ut, n2, NULL);
  char x1[] = "T.?.U.?.b"; x1[2] = r1; x1[6] = r2; NAME(x2, "T.", r1, ".U"); char x3[] = "T.?.U.?.b"; x3[2] = r2; x3[6] = r1;
  has(x1, a); has(x2, u); no(x3); decl("T.{i}.U.{i}.b", a); is(retrieveElement(root, x3), a, "T.{i}.U.{i}.b"); count(11);
#elif H == 9
  t = reg("T.{i}.", T); u = reg("T.{i}.U.{i}.", T); row("T.", n1, NULL); NAME(ut, "T.", r1, ".U."); row(ut, n2, NULL); a = reg("T.{i}.U.{i}.b", P);
  char x1[] = "T.?.U.?.b"; x1[2] = r1; x1[6] = r2; NAME(x2, "T.", r1, ".U.{i}.b"); has(x1, a); has(x2, a); decl("T.{i}.U.{i}.b", a); count(11);
#elif H == 10
  t = reg("T.{i}.", T); row("T.", n1, NULL); a = reg("T.{i}.U.{i}.b", P); u = reg("T.{i}.U.{i}.", T); NAME(ut, "T.", r1, ".U"); has(ut, u); row(ut, n2, NULL);
  char x1[] = "T.?.U.?.b"; x1[2] = r1; x1[6] = r2; has(x1, a); decl("T.{i}.U.{i}.b", a); count(11);
#elif H == 11
  a = reg("A.b", P); b = reg("A.c", P); c = reg("A.d.e", E); drop("A.c"); no("A.c"); has("A.b", a); has("A.d.e", c); count(4);
#elif H == 12
  t = reg("T.{i}.", T); a = reg("T.{i}.b", P); c = reg("T.{i}.o.c", P); row("T.", n1, NULL); row("T.", n2, NULL); drop("T.{i}.o.c");
  NAME(x1, "T.", r1, ".b"); NAME(x2, "T.", r2, ".b"); NAME(x3, "T.", r1, ".o.c"); NAME(x4, "T.", r2, ".o"); has(x1, a); has(x2, a); no(x3); no(x4); no("T.{i}.o.c"); decl("T.{i}.b", a); count(7);
#elif H == 13
  a = reg("A.b", P); c = reg("A.b.c", P); drop("A.b"); has("A.b.c", c); count(3);
#elif H == 14
  a = reg("A.b.c.d", P); b = reg("A.e", P); drop("A.b.c.d"); no("A.b.c.d"); no("A.b"); has("A.e", b); count(2);
  drop("A.e"); no("A"); count(0); c = reg("A.e", M); has("A.e", c); count(2);
#elif H == 15
  a = reg("A.b", P); c = reg("A.b.c.d", P); drop("A.b.c.d"); has("A.b", a); no("A.b.c.d"); no("A.b.c"); count(2);
#elif H == 16
  t = reg("A.T.{i}.", T); b = reg("A.c", P); row("A.T.", n1, NULL); row("A.T.", n2, NULL); drop("A.T.{i}."); NAME(x1, "A.T.", r1, ""); no(x1); no("A.T"); has("A.c", b); count(2);
#elif H == 17
  t = reg("T.{i}.", T); row("T.", n1, NULL); row("T.", n2, NULL); static char x1[] = "T.?.b"; x1[2] = r1; a = reg(x1, P); NAME(x2, "T.", r2, ".b"); has(x1, a); no(x2); no("T.{i}.b"); count(5);
#elif H == 18
  t = reg("T.{i}.", T); a = reg("T.{i}.b", P); row("T.", n1, NULL); a = reg("T.{i}.b", M); NAME(x1, "T.", r1, ".b"); has(x1, a); decl("T.{i}.b", a); count(5);
#elif H == 19
  t = reg("T.{i}.", T); a = reg("T.{i}.b", P); row("T.", 3, NULL); elementNode* q = row("T.", 4, "k"); row("T.", 5, "l"); deleteTableRow(q); has("T.3.b", a); no("T.4.b"); no("T.[k].b"); has("T.5.b", a); is(retrieveInstanceElement(root, "T.[l].b"), a, "T.5.b"); row("T.", 4, NULL); has("T.4.b", a); count(9);
#elif H == 20
  t = reg("T.{i}.", T); row("T.", n1, NULL); a = reg("T.{i}.o.b", P); c = reg("T.{i}.o", M); NAME(x1, "T.", r1, ".o"); NAME(x2, "T.", r1, ".o.b"); has(x1, c); has(x2, a); decl("T.{i}.o", c); count(7);
#endif
  V_REACH("end");
  freeElementNode(root);
  V_END;
}
