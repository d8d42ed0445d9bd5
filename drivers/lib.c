/* Calls library functions named on standard input and prints what they return (hexadecimal floating point). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "norad.h"
#include "observe.h"

int date2mjd_nf(const char *date, double *mjd);
char *mjd2date(double mjd);
char *mjd2datef(double mjd);
double skysep_h(const double, const double, const double, const double);
double lmst_hr(const double jd, double lon, double *gmst);
void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, double *parang);
void lpsun_radec(double jd, double *ra, double *dec);
void earthtilt(double tjd, double *mobl, double *tobl, double *eq, double *dpsi, double *deps);
int calcnutation(double t, double *dpsi, double *deps) __attribute__((weak));   /* may become internal */
void ut2gmst(double, double *) __attribute__((weak));
void ut2gast(double, double *) __attribute__((weak));
void ut2last(double, double, double *) __attribute__((weak));
int zenith_site_ra(double, double, double *);
int zenith_site_ra_last(double, double, double *);

#define MAXSETS 64
static tle_t tles[MAXSETS];
static double *params[MAXSETS];

static void init_set(int k, int model)
{
  /* exactly the documented size, so that sanitizers see an overrun */
  static const int sizes[] = {N_SGP_PARAMS, N_SGP4_PARAMS, N_SGP8_PARAMS, N_SDP4_PARAMS, N_SDP8_PARAMS};
  free(params[k]);
  params[k] = malloc(sizes[model] * sizeof(double));
  switch (model) {
    case 0: SGP_init(params[k], &tles[k]); break;
    case 1: SGP4_init(params[k], &tles[k]); break;
    case 2: SGP8_init(params[k], &tles[k]); break;
    case 3: SDP4_init(params[k], &tles[k]); break;
    case 4: SDP8_init(params[k], &tles[k]); break;
  }
}

static int prop(int k, int model, double t, double *pos, double *vel)
{
  switch (model) {
    case 0: return SGP(t, &tles[k], params[k], pos, vel);
    case 1: return SGP4(t, &tles[k], params[k], pos, vel);
    case 2: return SGP8(t, &tles[k], params[k], pos, vel);
    case 3: return SDP4(t, &tles[k], params[k], pos, vel);
    default: return SDP8(t, &tles[k], params[k], pos, vel);
  }
}

static char *getl(void)
{
  static size_t cap[3]; static char *bufs[3]; static int w;
  w = (w + 1) % 3;
  ssize_t n = getline(&bufs[w], &cap[w], stdin);
  if (n < 0) exit(0);
  while (n > 0 && bufs[w][n - 1] == '\n') bufs[w][--n] = 0;
  /* exact-size copy: reading beyond the text is visible to the sanitizers */
  char *c = malloc(n + 1);
  memcpy(c, bufs[w], n + 1);
  return c;
}

int main(void)
{
  double a, b, c, d, r[8], pos[3], vel[3];
  int k, m, rc, i;
  char *l;

  for (;;) {
    l = getl();
    switch (*l) {
      case 'P': {   /* P slot, then two lines */
        char *l1 = getl(), *l2 = getl();
        k = atoi(l + 1);
        memset(&tles[k], 0, sizeof(tle_t));
        rc = parse_elements(l1, l2, &tles[k]);
        tle_t *t = &tles[k];
        printf("%d", rc);
        if (rc >= 0) {
          printf(" %a %a %a %a %a %a %a %a %a %a %d %d %d %d %d ", t->epoch, t->xndt2o, t->xndd6o, t->bstar, t->xincl, t->xnodeo,
             t->eo, t->omegao, t->xmo, t->xno, t->norad_number, t->bulletin_number, t->revolution_number,
             (unsigned char)t->classification, (unsigned char)t->ephemeris_type);
          for (i = 0; i < 8; i++) printf("%02x", (unsigned char)t->intl_desig[i]);
          printf(" %d", t->intl_desig[8]);
        }
        printf("\n");
        free(l1); free(l2);
        break;
      }
      case 'K': { char *x = getl(); printf("%d\n", tle_checksum(x)); free(x); break; }
      case 'W': sscanf(l + 1, "%d %d", &k, &m); sxpx_set_implementation_param(k, m); printf("ok\n"); break;
      case 'w': sscanf(l + 1, "%lf", &a); sxpx_set_dpsec_integration_step(a); printf("ok\n"); break;
      case 'E': printf("%d\n", select_ephemeris(&tles[atoi(l + 1)])); break;
      case 'I': sscanf(l + 1, "%d %d", &k, &m); init_set(k, m); printf("ok\n"); break;
      case 'T':     /* T slot model t novel */
        i = 0;
        sscanf(l + 1, "%d %d %lf %d", &k, &m, &a, &i);
        pos[0] = pos[1] = pos[2] = vel[0] = vel[1] = vel[2] = 7777.;
        rc = prop(k, m, a, pos, i ? NULL : vel);
        printf("%d %a %a %a %a %a %a\n", rc, pos[0], pos[1], pos[2], vel[0], vel[1], vel[2]);
        break;
      case 'D': { char *x = getl(); a = 12345.; rc = date2mjd_nf(x, &a); printf("%d %a\n", rc, a); free(x); break; }
      case 'm': { sscanf(l + 1, "%lf", &a); char *x = mjd2date(a); printf("%s\n", x ? x : "NULL"); break; }
      case 'f': { sscanf(l + 1, "%lf", &a); char *x = mjd2datef(a); printf("%s\n", x ? x : "NULL"); break; }
      case 's': sscanf(l + 1, "%lf %lf %lf %lf", &a, &b, &c, &d); printf("%a\n", skysep_h(a, b, c, d)); break;
      case 'l': sscanf(l + 1, "%lf %lf", &a, &b); c = lmst_hr(a, b, &d); printf("%a %a\n", c, d); break;
      case 'h': sscanf(l + 1, "%lf %lf %lf", &a, &b, &c); r[0] = r[1] = r[2] = -7777.; dechalat2alt(a, b, c, r, r + 1, r + 2);
        printf("%a %a %a\n", r[0], r[1], r[2]); break;
      case 'u': sscanf(l + 1, "%lf", &a); lpsun_radec(a, &b, &c); printf("%a %a\n", b, c); break;
      case 'e': sscanf(l + 1, "%lf", &a); earthtilt(a, r, r + 1, r + 2, r + 3, r + 4);
        printf("%a %a %a %a %a\n", r[0], r[1], r[2], r[3], r[4]); break;
      case 'n': sscanf(l + 1, "%lf", &a); if (!calcnutation) { printf("nan nan\n"); break; } calcnutation(a, &b, &c); printf("%a %a\n", b, c); break;
      case 'g': sscanf(l + 1, "%lf %lf", &a, &b); 
        /* through the zenith functions where these have become internal */
        zenith_site_ra(a - 2400000.5, 0., r); zenith_site_ra_last(a - 2400000.5, 0., r + 1); zenith_site_ra_last(a - 2400000.5, b, r + 2);
        r[0] /= 15.; r[1] /= 15.; r[2] /= 15.;
        if (ut2gmst) ut2gmst(a, r); if (ut2gast) ut2gast(a, r + 1); if (ut2last) ut2last(a, b, r + 2);
        printf("%a %a %a\n", r[0], r[1], r[2]); break;
      case 'z': sscanf(l + 1, "%lf %lf", &a, &b); zenith_site_ra(a, b, r); zenith_site_ra_last(a, b, r + 1);
        printf("%a %a\n", r[0], r[1]); break;
      case 'o': sscanf(l + 1, "%lf %lf %lf %lf", &a, &b, &c, &d); /* jd lat lon ht(rad, m) */
        earth_lat_alt_to_parallax(b, d, r, r + 1); observer_cartesian_coords(a, c, r[0], r[1], pos);
        printf("%a %a %a\n", pos[0], pos[1], pos[2]); break;
      case 'q': sscanf(l + 1, "%lf %lf %lf", &a, &b, &c); epoch_of_date_to_j2000(a, &b, &c); printf("%a %a\n", b, c); break;
      default: printf("?\n");
    }
    free(l);
    fflush(stdout);
  }
}
