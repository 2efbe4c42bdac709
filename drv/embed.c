/* A program that embeds potion: runs a file and afterwards still finds its own variables next to the
   start of the stack given to potion_create.  argv: -B|-X file */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "potion.h"
static unsigned long seed(int i) { return 0x5a5a000000000001ul + 977ul * i; }
int main(int argc, char **argv) {
  volatile struct { unsigned long lo[8]; unsigned long sp; unsigned long hi[8]; } m;
  static char text[1 << 20]; int bad = 0;
  m.sp = 0x571FF;
  for (int i = 0; i < 8; i++) m.lo[i] = seed(i), m.hi[i] = seed(20 + i);
  Potion *volatile P = potion_create((void *)&m.sp);
  FILE *f = fopen(argv[2], "r");
  text[fread(text, 1, sizeof text - 1, f)] = 0; fclose(f);
  P->flags = (Potion_Flags)(argv[1][1] == 'X' ? EXEC_JIT : EXEC_VM);
  PN v = potion_eval(P, potion_byte_str(P, text));
  for (int i = 0; i < 8; i++) bad += m.lo[i] != seed(i), bad += m.hi[i] != seed(20 + i);
  fflush(stdout);
  if (bad) printf("embed: %d words of the caller changed\n", bad);
  if (v && PN_IS_PTR(v) && PN_TYPE(v) == PN_TERROR) printf("embed: error\n");
  return 0;
}
