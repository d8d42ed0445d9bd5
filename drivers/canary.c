/* A defect of the kind asked for, to see that the sanitizer of this build reports it. */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
int main(int argc, char **argv)
{
  volatile int one = argc - 1; char *k = argv[1];
  if (!strcmp(k, "heap")) { volatile char *p = malloc(8); p[8 * one] = 1; }
  if (!strcmp(k, "stack")) { volatile char p[8]; volatile char *q = p; q[8 * one] = 1; }
  if (!strcmp(k, "global")) { static volatile char p[8]; volatile char *q = p; q[8 * one] = 1; }
  if (!strcmp(k, "free")) { char *p = malloc(8); free(p); *(volatile char *)p = 1; }
  if (!strcmp(k, "overflow")) { volatile int x = 2147483647; x = x + one; }
  if (!strcmp(k, "cast")) { volatile double d = 1e30; volatile int x = d * one; (void)x; }
  if (!strcmp(k, "shift")) { volatile int s = 40; volatile int x = one << s; (void)x; }
  if (!strcmp(k, "null")) { volatile int *volatile p = NULL; *p = 1; }
  if (!strcmp(k, "uninit")) { volatile int *p = malloc(40); if (p[one]) putchar('x'); }
  if (!strcmp(k, "uninitstack")) { volatile int p[10]; if (p[one]) putchar('x'); }
  return 0;
}
