//@ desc: names that cannot denote an instance of the registered element (bad row numbers, unclosed aliases, too many or too few parts, stray dots, no name) are refused and leave nothing behind; every other form is accepted, one-character and unnested names included
//@ functions: TokenChain_create TokenChain_destroy
//@ sources: src/rbus/rbus_tokenchain.c src/rtmessage/rtMemory.c
//@ unwind: 26
//@ flags: --memory-leak-check
//@ kind: bounded
//@ bound: the names listed in the unit
#include "vf.h"
#include "rbus_tokenchain.h"
static elementNode r, d, t, i, p, m, n;
static void bad(char const* s, elementNode* at) { V_CHECK(TokenChain_create(s, at) == NULL, "a name that denotes no instance is refused"); }
static void good(char const* s, elementNode* at, elementNode* in) { TokenChain* c = TokenChain_create(s, at); V_CHECK(c && TokenChain_match(c, in), "a name that denotes the instance is accepted and matches it"); TokenChain_destroy(c); }
static elementNode row, q;
V_HARNESS
{
  d.parent = &r; d.name = "D"; t.parent = &d; t.name = "Tab"; t.type = RBUS_ELEMENT_TYPE_TABLE; i.parent = &t; i.name = "{i}"; p.parent = &i; p.name = "P"; p.type = RBUS_ELEMENT_TYPE_PROPERTY; m.parent = &r; m.name = "M"; m.type = RBUS_ELEMENT_TYPE_EVENT; n.parent = &r; n.name = "Name"; n.type = RBUS_ELEMENT_TYPE_EVENT;
  row.parent = &t; row.name = "10"; row.alias = "al"; q.parent = &row; q.name = "P"; q.type = RBUS_ELEMENT_TYPE_PROPERTY;
  bad(NULL, &p); bad("", &p); bad("D", NULL); bad(".", &m); bad(".M", &m);
  bad("D.Tab.0.P", &p); bad("D.Tab.x.P", &p); bad("D.Tab.-1.P", &p); bad("D.Tab.[al.P", &p); bad("D.Tab..P", &p); bad("D.Tab.[].P", &p); bad("D.Tab.{i}.P", &p);
  bad("Tab.10.P", &p); bad("X.D.Tab.10.P", &p); bad("D.Tab.10", &p); bad("P", &p);
  good("D.Tab.10.P", &p, &q); good("D.Tab.[al].P", &p, &q); good("D.Tab.*.P", &p, &q); good("D.Tab.10.P.", &p, &q); good("D.Tab.10.", &i, &row); good("D.Tab.[al]", &i, &row); good("D.Tab.", &t, &t); good("D.Tab", &t, &t);
  good("M", &m, &m); good("Name", &n, &n); good("D", &d, &d);
  V_REACH("end");
  V_END;
}
