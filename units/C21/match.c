//@ desc: a subscription name matches an instance exactly if every part matches: literals and row numbers the name, an alias the alias of that row and nothing where the row has none, a wildcard any row; depth and element types must agree; for all names, aliases and types the instance may have
//@ functions: TokenChain_create TokenChain_match TokenChain_destroy
//@ sources: src/rbus/rbus_tokenchain.c src/rtmessage/rtMemory.c
//@ unwind: 26
//@ flags: --memory-leak-check
//@ kind: bounded
//@ bound: the subscription names listed as variants (every combination of row number, alias and wildcard over two nested tables, plain names); instance names and aliases of up to 4 arbitrary characters, arbitrary element types, depths 4 to 6
//@ variant: num_num -DSRC="Dv.Tb.1.Su.23.Pr"
//@ variant: num_alias -DSRC="Dv.Tb.12.Su.[al].Pr"
//@ variant: num_wild -DSRC="Dv.Tb.7.Su.*.Pr"
//@ variant: alias_num -DSRC="Dv.Tb.[x].Su.3.Pr"
//@ variant: alias_alias -DSRC="Dv.Tb.[al].Su.[7].Pr"
//@ variant: alias_wild -DSRC="Dv.Tb.[abc].Su.*.Pr"
//@ variant: wild_num -DSRC="Dv.Tb.*.Su.1.Pr"
//@ variant: wild_alias -DSRC="Dv.Tb.*.Su.[b1].Pr"
//@ variant: wild_wild -DSRC="Dv.Tb.*.Su.*.Pr"
//@ variant: short -DSRC="D.T.1.S.2.P"
#include "vf.h"
#include "rbus_tokenchain.h"
#define S_(x) #x
static char const src[] = SRC;
static char part[6][8]; /* the parts of the name, as written */
static elementNode reg[7], inst[8]; static char names[8][5], alias[8][5]; static bool has_alias[8];
static char const lit[6][4] = { "Dv", "Tb", "{i}", "Su", "{i}", "Pr" };
static bool eq(char const* a, char const* b) { for(int i = 0; i < 8; i++) { if(a[i] != b[i]) return false; if(!a[i]) return true; } return false; }
V_HARNESS
{
  /* the registered element: object, table, row template, table, row template, property */
  static const rbusElementType_t type[7] = { 0, 0, RBUS_ELEMENT_TYPE_TABLE, 0, RBUS_ELEMENT_TYPE_TABLE, 0, RBUS_ELEMENT_TYPE_PROPERTY };
  for(int i = 1; i < 7; i++) { reg[i].parent = &reg[i - 1]; reg[i].type = type[i]; reg[i].name = (char*)lit[i - 1]; }
  unsigned k = 0, j = 0; for(unsigned i = 0; src[i]; i++) { if(src[i] == '.') { k++; j = 0; } else part[k][j++] = src[i]; }
  TokenChain* c = TokenChain_create(src, &reg[6]);
  V_CHECK(c != NULL, "the name fits the registered element");
  for(int depth = 5; depth <= 7; depth++)
  {
    /* any instance of that depth */
    bool expect = depth == 6;
    for(int i = 1; i <= depth; i++)
    {
      inst[i].parent = &inst[i - 1]; inst[i].name = names[i]; uint8_t t = vf_u8(); inst[i].type = t & 7;
      for(int q = 0; q < 4; q++) { names[i][q] = (char)vf_u8(); alias[i][q] = (char)vf_u8(); } has_alias[i] = vf_bool(); inst[i].alias = has_alias[i] ? alias[i] : NULL;
    }
    inst[0].type = 0;
    if(depth == 6) for(int i = 1; i <= 6; i++)
    {
      char const* p = part[i - 1]; if(inst[i].type != type[i]) expect = false;
      if(i == 3 || i == 5)
      {
        if(p[0] == '[') { char a[8] = {0}; for(int q = 0; p[q + 1] != ']'; q++) a[q] = p[q + 1]; if(!has_alias[i] || !eq(a, alias[i])) expect = false; }
        else if(p[0] != '*' && !eq(p, names[i])) expect = false;
      }
      else if(!eq(p, names[i])) expect = false;
    }
    bool m = TokenChain_match(c, &inst[depth]);
    if(depth == 6) V_CHECK(m == expect, "the name matches exactly the instances it denotes"); else V_CHECK(!m, "an element at another depth never matches");
    if(depth == 6 && m) V_REACH("a match");
  }
  V_CHECK(!TokenChain_match(NULL, &inst[6]) && !TokenChain_match(c, NULL), "nothing matches nothing");
  TokenChain_destroy(c);
  V_REACH("end");
  V_END;
}
