/* libFuzzer target: element lines with every model, calendar texts and dates. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdio.h>
#include "norad.h"
#include "observe.h"

int date2mjd_nf(const char *date, double *mjd);
char *mjd2date(double mjd);
char *mjd2datef(double mjd);

static char *text(const uint8_t *p, size_t n) { char *c = malloc(n + 1); memcpy(c, p, n); c[n] = 0; return c; }

static void bad(const char *what) { fprintf(stderr, "BAD-TEXT: %s\n", what); abort(); }

int LLVMFuzzerTestOneInput(const uint8_t *p, size_t n)
{
  if (n < 10) return 0;
  double t; memcpy(&t, p + 1, 8);
  int sel = p[0] % 4; p += 9; n -= 9;
  if (sel == 0) { char *x = text(p, n); double m; date2mjd_nf(x, &m); free(x); return 0; }
  if (sel == 1) {
    char *x = mjd2date(t); if (x && (!*x || strlen(x) > 40)) bad("mjd2date");
    x = mjd2datef(t); if (x && (!*x || strlen(x) > 40)) bad("mjd2datef");
    return 0;
  }
  const uint8_t *q = memchr(p, '\n', n);
  if (!q) return 0;
  char *a = text(p, q - p), *b = text(q + 1, n - (q - p) - 1);
  tle_t tle;
  tle_checksum(a);
  int rc = parse_elements(a, b, &tle);
  free(a); free(b);
  if (rc < 0) return 0;
  if (!isfinite(t)) t = 0;
  /* minutes: within a million days, state vectors nearer (their integration takes its time) */
  t = fmod(t, tle.ephemeris_type == 'H' ? 1.44e6 : 1.44e9);
  int deep = select_ephemeris(&tle), m;
  if (deep < 0) return 0;
  for (m = 0; m < 5; m++) {
    static const int sizes[] = {N_SGP_PARAMS, N_SGP4_PARAMS, N_SGP8_PARAMS, N_SDP4_PARAMS, N_SDP8_PARAMS};
    if (tle.ephemeris_type == 'H' && m != 3) continue;
    double *s = malloc(sizes[m] * sizeof(double)), pos[3], vel[3]; int k;
    for (k = 0; k < 2; k++) {
      switch (m) {
        case 0: if (!k) SGP_init(s, &tle); SGP(t, &tle, s, pos, k ? NULL : vel); break;
        case 1: if (!k) SGP4_init(s, &tle); SGP4(t, &tle, s, pos, k ? NULL : vel); break;
        case 2: if (!k) SGP8_init(s, &tle); SGP8(t, &tle, s, pos, k ? NULL : vel); break;
        case 3: if (!k) SDP4_init(s, &tle); SDP4(t, &tle, s, pos, k ? NULL : vel); break;
        case 4: if (!k) SDP8_init(s, &tle); SDP8(t, &tle, s, pos, k ? NULL : vel); break;
      }
      t = -t * .5;
    }
    free(s);
  }
  return 0;
}
