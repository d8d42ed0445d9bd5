From 90255052e573efefb0ff3be56113deb8320a13f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 01/60] fix: a switch followed by other characters made option
 parsing loop forever

---
 src/sat_skymap.c     | 15 ++++++++-------
 src/sat_visibility.c | 11 ++++++++---
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 038ea04..4917347 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -124,6 +124,10 @@
 #include "chealpix.h"
 #include "sat_skymap_def.h"
 
+/* Command line options without and with a value */
+#define SWITCHES	"hEGHITV"
+#define PARAMETERS	"adDijlnprsSt"
+
 
 /*
   From Spherical coords in radians (e.g. RA, Dec) to unit vector
@@ -402,7 +406,10 @@ int main(int argc, char **argv)
     if ( argv[i][0] == '-' ) {
 		opt = argv[i][1];
 		par_pos = 2;
-		if ( argv[i][2] == 0 ) {  /* blank after option */
+		if ( opt != 0 && strchr(SWITCHES, opt) ) {  /* switches take no value */
+		  if ( argv[i][2] != 0 )
+			opt = 0;
+		} else if ( opt != 0 && strchr(PARAMETERS, opt) && argv[i][2] == 0 ) {  /* blank after option */
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
 		  ++i;
 		  par_pos = 0;
@@ -416,27 +423,21 @@ int main(int argc, char **argv)
  	  case 'E':
 		p.geoloc_reference = true;
 		p.geoloc_requested = true;
-		i--;
 		break;
  	  case 'G':
 		p.geoloc_requested = true;
-		i--;
 		break;
  	  case 'H':
 		p.haversine = true;
-		i--;
 		break;
  	  case 'I':
 		p.info_only = true;
-		i--;
 		break;
  	  case 'T':
 		p.use_deftledir = true;
-		i--;
 		break;
  	  case 'V':
 		p.sunlit_only = true;
-		i--;
 		break;
 
 	  /* Parameters */
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index d9d0e06..28e8437 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -274,6 +274,10 @@
 #include "chealpix.h"
 #include "sat_visibility_def.h"
 
+/* Command line options without and with a value */
+#define SWITCHES	"hNT"
+#define PARAMETERS	"adDijlrst"
+
 
 /*
   From Spherical coords in radians (e.g. RA, Dec) to unit vector
@@ -577,7 +581,10 @@ int main(int argc, char **argv)
     if ( argv[i][0] == '-' ) {
 		opt = argv[i][1];
 		par_pos = 2;
-		if ( argv[i][2] == 0 ) {  /* blank after option */
+		if ( opt != 0 && strchr(SWITCHES, opt) ) {  /* switches take no value */
+		  if ( argv[i][2] != 0 )
+			opt = 0;
+		} else if ( opt != 0 && strchr(PARAMETERS, opt) && argv[i][2] == 0 ) {  /* blank after option */
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
 		  ++i;
 		  par_pos = 0;
@@ -590,11 +597,9 @@ int main(int argc, char **argv)
 		exit(0);
  	  case 'N':
 		p.skip_daytime = true;
-		i--;
 		break;
  	  case 'T':
 		p.use_deftledir = true;
-		i--;
 		break;
 
 	  /* Parameters */
-- 
2.43.0


From ceb311125b9b6014dd1d70bb7b8ab925ca0ad1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 02/60] fix: an option without its value at the end of the
 command line dereferenced NULL

---
 src/sat_skymap.c     | 7 ++++++-
 src/sat_visibility.c | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 4917347..7c84613 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -411,7 +411,12 @@ int main(int argc, char **argv)
 			opt = 0;
 		} else if ( opt != 0 && strchr(PARAMETERS, opt) && argv[i][2] == 0 ) {  /* blank after option */
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
-		  ++i;
+		  if ( ++i == argc )  {
+		    open_json();
+		    sprintf(errmsg, "Missing value for command-line option '-%c'", opt);
+  		    close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		    exit(-2);
+		  }
 		  par_pos = 0;
 		}
 	switch( opt )
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 28e8437..421cb56 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -586,7 +586,12 @@ int main(int argc, char **argv)
 			opt = 0;
 		} else if ( opt != 0 && strchr(PARAMETERS, opt) && argv[i][2] == 0 ) {  /* blank after option */
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
-		  ++i;
+		  if ( ++i == argc )  {
+		    open_json();
+		    sprintf(errmsg, "Missing value for command-line option '-%c'", opt);
+  		    close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
+		    exit(-2);
+		  }
 		  par_pos = 0;
 		}
 	switch( opt )
-- 
2.43.0


From ccb335aed20a61ab0cc54f98b8e1622abf719164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 03/60] fix: names, file names and arguments are escaped in the
 JSON output

---
 src/sat_skymap.c     | 56 +++++++++++++++++++++++++++++++++++++-------
 src/sat_visibility.c | 56 +++++++++++++++++++++++++++++++++++++-------
 2 files changed, 96 insertions(+), 16 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 7c84613..be5c438 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -158,6 +158,37 @@ char *trimend(char *str)
 }
 
 
+/*
+  Print a string as the content of a JSON string: quotes, backslashes and control
+  characters are escaped, bytes which are not valid UTF-8 are taken as Latin-1
+*/
+void print_json_str(const char *str)
+{
+  const unsigned char *c = (const unsigned char *)str;
+  int i, n;
+
+  while ( *c ) {
+	if ( *c == '"' || *c == '\\' )
+	  printf("\\%c", *c++);
+	else if ( *c < 32 || *c == 127 )
+	  printf("\\u%04x", *c++);
+	else if ( *c < 128 )
+	  putchar(*c++);
+	else {
+	  n = (*c >= 0xc2 && *c <= 0xdf) ? 2 : (*c >= 0xe0 && *c <= 0xef) ? 3 : (*c >= 0xf0 && *c <= 0xf4) ? 4 : 0;
+	  for ( i = 1; i < n && (c[i] & 0xc0) == 0x80; i++ )
+		;
+	  if ( n == 0 || i < n || (*c == 0xe0 && c[1] < 0xa0) || (*c == 0xed && c[1] > 0x9f) ||
+	       (*c == 0xf0 && c[1] < 0x90) || (*c == 0xf4 && c[1] > 0x8f) )
+		printf("\\u%04x", *c++);
+	  else
+		while ( n-- )
+		  putchar(*c++);
+	}
+  }
+}
+
+
 void Usage() {
   printf("Usage:\n  %s tle_file [OPTIONS]\n\n"
   "OPTIONS are:\n"
@@ -198,10 +229,12 @@ void open_json() {
 
 void add_params_json(Params p) {
   printf("\"input_params\": {"
-    "\"tle_file\": \"%s\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
+    "\"tle_file\": \"");
+  print_json_str(p.tle_file_name);
+  printf("\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
     "\"mjd\": %11.5lf, \"epoch_UTC\": \"%s\", \"gmst\":%8.4lf, \"delta_time_s\": %d, \"max_sats\": %d, "
     "\"notes\": \"All coordinates and radius in degrees. GMST, LMST in hrs.\"}, ",
-    p.tle_file_name, p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd, p.date, p.gmst, p.delta_time, p.max_sats);
+    p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd, p.date, p.gmst, p.delta_time, p.max_sats);
 }
 
 void add_sundata_json(Sun sun) {
@@ -236,15 +269,19 @@ void close_stat_json(int argc, char **argv, bool input_list, int status, char *e
   int iarg = 1;
   printf(" \"run_command\": \"%s", progname);
   if ( input_list ) {
-	printf (" @%s", argv[1]);
+	printf (" @");
+	print_json_str(argv[1]);
 	iarg++;
   }
 
   for ( int i = iarg; i < argc; i++ ) {
-	printf (" %s", argv[i]);
+	putchar(' ');
+	print_json_str(argv[i]);
   }
-  printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d, \"n_sats\": %d,"
-	 " \"n_sunlit_sats\": %d}\n", status, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  printf("\", \"status\": %d, \"errmsg\": \"", status);
+  print_json_str(errmsg);
+  printf("\", \"n_sats_found\": %d, \"n_sats\": %d,"
+	 " \"n_sunlit_sats\": %d}\n", n_sats_found, n_sats, n_sunlit_sats);
 }
 
 
@@ -895,8 +932,11 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		  printf(" \"satellites\": [");
 		}
 
-		printf("{\"name\": \"%s\", \"intl_desig\": \"%s\", \"norad_n\": %d, ",
-			sat_name, intl_desig, tle.norad_number);
+		printf("{\"name\": \"");
+		print_json_str(sat_name);
+		printf("\", \"intl_desig\": \"");
+		print_json_str(intl_desig);
+		printf("\", \"norad_n\": %d, ", tle.norad_number);
 
 		if ( p.geoloc_requested )
 			add_satlatlon_json(geo);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 421cb56..ad7bb6c 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -309,6 +309,37 @@ char *trimend(char *str)
 }
 
 
+/*
+  Print a string as the content of a JSON string: quotes, backslashes and control
+  characters are escaped, bytes which are not valid UTF-8 are taken as Latin-1
+*/
+void print_json_str(const char *str)
+{
+  const unsigned char *c = (const unsigned char *)str;
+  int i, n;
+
+  while ( *c ) {
+	if ( *c == '"' || *c == '\\' )
+	  printf("\\%c", *c++);
+	else if ( *c < 32 || *c == 127 )
+	  printf("\\u%04x", *c++);
+	else if ( *c < 128 )
+	  putchar(*c++);
+	else {
+	  n = (*c >= 0xc2 && *c <= 0xdf) ? 2 : (*c >= 0xe0 && *c <= 0xef) ? 3 : (*c >= 0xf0 && *c <= 0xf4) ? 4 : 0;
+	  for ( i = 1; i < n && (c[i] & 0xc0) == 0x80; i++ )
+		;
+	  if ( n == 0 || i < n || (*c == 0xe0 && c[1] < 0xa0) || (*c == 0xed && c[1] > 0x9f) ||
+	       (*c == 0xf0 && c[1] < 0x90) || (*c == 0xf4 && c[1] > 0x8f) )
+		printf("\\u%04x", *c++);
+	  else
+		while ( n-- )
+		  putchar(*c++);
+	}
+  }
+}
+
+
 void Usage() {
   printf("Usage:\n  %s tle_file [OPTIONS]\n\n"
   "OPTIONS are:\n"
@@ -342,10 +373,12 @@ void open_json() {
 
 void add_params_json() {
   printf("\"input_params\": {"
-    "\"tle_file\": \"%s\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
+    "\"tle_file\": \"");
+  print_json_str(p.tle_file_name);
+  printf("\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
     "\"mjd_range\": [%11.5lf, %11.5lf], \"date_utc_range\": [\"%s\", \"%s\"], \"gmst\":%8.4lf, \"delta_time_s\": %d, "
     "\"notes\": \"All coordinates and radius in degrees. GMST, LMST in hrs.\"}, ",
-    p.tle_file_name, p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd[0], p.mjd[1], p.date[0], p.date[1], p.gmst, p.delta_time);
+    p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd[0], p.mjd[1], p.date[0], p.date[1], p.gmst, p.delta_time);
 }
 
 void add_fieldsdesc_json() {
@@ -391,15 +424,19 @@ void close_stat_json(int argc, char **argv, bool input_list, int status, char *e
   int iarg = 1;
   printf("\"run_command\": \"%s", progname);
   if ( input_list ) {
-	printf (" @%s", argv[1]);
+	printf (" @");
+	print_json_str(argv[1]);
 	iarg++;
   }
 
   for ( int i = iarg; i < argc; i++ ) {
-	printf (" %s", argv[i]);
+	putchar(' ');
+	print_json_str(argv[i]);
   }
-  printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d"
-	 "}\n", status, errmsg, n_sats_found);
+  printf("\", \"status\": %d, \"errmsg\": \"", status);
+  print_json_str(errmsg);
+  printf("\", \"n_sats_found\": %d"
+	 "}\n", n_sats_found);
 }
 
 
@@ -965,8 +1002,11 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 
 	add_fieldsdesc_json();
 	printf(" \"satellite\": ");
-	printf("{\"name\": \"%s\", \"intl_desig\": \"%s\", \"norad_n\": %d, ",
-		sat_name, intl_desig, tle.norad_number);
+	printf("{\"name\": \"");
+	print_json_str(sat_name);
+	printf("\", \"intl_desig\": \"");
+	print_json_str(intl_desig);
+	printf("\", \"norad_n\": %d, ", tle.norad_number);
 
 	sat_geoLocation(pos);
 	add_satlatlon_json("geoloc_start");
-- 
2.43.0


From 30eb502672b0d4cbbd794e3d57e5b3719fb124cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 04/60] fix: long arguments and file names overflowed
 fixed-size buffers

---
 src/mjd2date.c           |  4 ++--
 src/sat_skymap.c         | 40 ++++++++++++++++++++--------------------
 src/sat_skymap_def.h     |  6 +++---
 src/sat_visibility.c     | 36 ++++++++++++++++++------------------
 src/sat_visibility_def.h |  8 ++++----
 5 files changed, 47 insertions(+), 47 deletions(-)

diff --git a/src/mjd2date.c b/src/mjd2date.c
index 8105fd2..c799bab 100644
--- a/src/mjd2date.c
+++ b/src/mjd2date.c
@@ -22,7 +22,7 @@ static  const double HALF_S_IN_DAYS = 0.000005787037037037037e0;
 /* No fractional seconds */
 char *mjd2date(double mjd)
 { 
-  static char date[20];
+  static char date[32];
   int iy, im, id, h, mm, s;
   long jd, l, n, i, k;
   double dj, d1, d2, f1, f2, f, d;
@@ -76,7 +76,7 @@ char *mjd2date(double mjd)
 /* With fractional seconds (millisec) */
 char *mjd2datef(double mjd)
 { 
-  static char date[24];
+  static char date[32];
   int iy, im, id, h, mm, s, fs;
   long jd, l, n, i, k;
   double dj, d1, d2, f1, f2, f, d;
diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index be5c438..d811437 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -387,8 +387,8 @@ void sat_geoLocation(double gmst, double *pos,  Geoloc *geo) {
 
 int main(int argc, char **argv)
 {
-  char errmsg[128] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
-	sat_name[25], tle_path_file[200], opt, *endptr;
+  char errmsg[4400] = {""}, *tle_path = ".", line1[100], line2[100],
+	sat_name[25], tle_path_file[4200], opt, *endptr;  /* a path longer than PATH_MAX (4096) cannot be opened */
   double jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
 	 target_ra, target_dec, target_lon = 0, target_lat = 0;
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
@@ -430,8 +430,8 @@ int main(int argc, char **argv)
   p.use_deftledir = false;  /* If default directory with TLE files should be used (def. ./) */
   p.altrng_requested = false;  /* If altitude range filter requested */
   p.sunlit_only = false;  /* If only data for illuminated satellites requested */
-  p.intl_desig[0] = '\0';
-  p.satname[0] = '\0';
+  p.intl_desig = "";
+  p.satname = "";
   p.norad_n = 0;
   p.alt_min = 0;
   p.alt_max = 1e32;
@@ -494,15 +494,15 @@ int main(int argc, char **argv)
 		p.geoloc_requested = true;
 		break;
           case 'd':
-		strcpy(p.date, argv[i] + par_pos);
+		snprintf(p.date, sizeof(p.date), "%s", argv[i] + par_pos);
 		date2mjd_nf(argv[i] + par_pos, &p.mjd);
 		break;
  	  case 'D':
-		strcpy(tle_path, argv[i] + par_pos);
+		tle_path = argv[i] + par_pos;
 		p.use_deftledir = false;
 		break;
           case 'i':
-		strcpy(p.intl_desig, argv[i] + par_pos);
+		p.intl_desig = argv[i] + par_pos;
 		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
@@ -554,7 +554,7 @@ int main(int argc, char **argv)
 		in_region = false;
 		break;
           case 'S':
-		strcpy(p.satname, argv[i] + par_pos);
+		p.satname = argv[i] + par_pos;
 		len_satname = strlen(p.satname);
 		p.satname_filter = true;
 		break;
@@ -563,7 +563,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[i]);
+		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '%s'", argv[i]);
   		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(-2);
 		break;
@@ -574,7 +574,7 @@ int main(int argc, char **argv)
 
 /* Use default TLE repository dir. ? */
   if ( p.use_deftledir )
-	strcpy(tle_path, DEF_TLEDIR);
+	tle_path = DEF_TLEDIR;
 
   if ( !in_geopos ) {
 	Usage();
@@ -589,7 +589,7 @@ int main(int argc, char **argv)
 	p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, observer_loc2);
  
   const short fname_len = 64;
-  char *s, row[fname_len], norad_name[7], tle_list_file[200];
+  char *s, row[fname_len], norad_name[7], tle_list_file[4200];
   FILE *lisfile, *ifile;
 
   open_json();
@@ -603,9 +603,9 @@ int main(int argc, char **argv)
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
 	//tle_list_file = ++argv[1];
-	sprintf(tle_list_file, "%s/%s", tle_path, ++argv[iarg]);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, ++argv[iarg]);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
-		sprintf(errmsg, "Could not open input file %s", tle_list_file);
+		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(2);
 	}
@@ -716,9 +716,9 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
     char *lastchar;
     if ( !input_list ) {
 	if ( strchr(p.tle_file_name, '/') == NULL )
-	  sprintf(tle_path_file, "%s/%s", tle_path, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, p.tle_file_name);
 	else
-	  strcpy(tle_path_file, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s", p.tle_file_name);
 	read_tle_list = false;
     } else {
 
@@ -732,19 +732,19 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  *lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
-	sprintf(tle_path_file, "%s/%s", tle_path, tle_file_name);
+	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
     }
 //printf("\ntle_path_file: %s\n\n", tle_path_file);
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
-	sprintf(errmsg, "Could not open input file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
   	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(2);
     }
 
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
-	sprintf(errmsg, "Could not read first TLE line from file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(-2);
     }
@@ -774,10 +774,10 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
 
-		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
+		if ( !strncmp(intl_desig, p.intl_desig, len_intl_desig) )
 		  single_sat_found = true;
 	} else if ( p.satname_filter ) {
-		if ( memcmp(sat_name, p.satname, len_satname) )
+		if ( strncmp(sat_name, p.satname, len_satname) )
 		continue;
 	}
  
diff --git a/src/sat_skymap_def.h b/src/sat_skymap_def.h
index fd2f72d..263d04d 100644
--- a/src/sat_skymap_def.h
+++ b/src/sat_skymap_def.h
@@ -23,9 +23,9 @@ const char *progname = "sat_skymap",
 
   typedef struct myParams {
 	  char *tle_file_name,
-		date[24],
-		intl_desig[12],
-		satname[24];
+		date[32],
+		*intl_desig,
+		*satname;
 	 double lat,
 		lon,
 		ht_in_meters,
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index ad7bb6c..d64f259 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -581,8 +581,8 @@ void get_sat_PA_and_speed(double t_since) {
 
 int main(int argc, char **argv)
 {
-  char errmsg[128] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
-	sat_name[25], tle_path_file[200], opt, *endptr;
+  char errmsg[4400] = {""}, *tle_path = ".", line1[100], line2[100],
+	sat_name[25], tle_path_file[4200], opt, *endptr;  /* a path longer than PATH_MAX (4096) cannot be opened */
   double jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad;
   int i, par_pos, status = 0, n_sats_found = 0,
@@ -607,8 +607,8 @@ int main(int argc, char **argv)
   p.single_sat_n = false;      /* If enquire for just 1 satellite using its NORAD number */
   p.use_deftledir = false;     /* If default directory with TLE files should be used (def. ./) */
   p.altrng_requested = false;  /* If altitude range filter requested */
-  p.intl_desig[0] = '\0';
-  p.satname[0] = '\0';
+  p.intl_desig = "";
+  p.satname = "";
   p.alt_max = 1e32;
 
 
@@ -664,11 +664,11 @@ int main(int argc, char **argv)
 		date2mjd_nf(p.date[1], &p.mjd[1]);
 		break;
  	  case 'D':
-		strcpy(tle_path, argv[i] + par_pos);
+		tle_path = argv[i] + par_pos;
 		p.use_deftledir = false;
 		break;
           case 'i':
-		strcpy(p.intl_desig, argv[i] + par_pos);
+		p.intl_desig = argv[i] + par_pos;
 		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
@@ -708,7 +708,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[i]);
+		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '%s'", argv[i]);
   		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
 		exit(-2);
 		break;
@@ -720,7 +720,7 @@ int main(int argc, char **argv)
 
 /* Use default TLE repository dir. ? */
   if ( p.use_deftledir )
-	strcpy(tle_path, DEF_TLEDIR);
+	tle_path = DEF_TLEDIR;
 
   if ( !in_geopos ) {
 	Usage();
@@ -732,7 +732,7 @@ int main(int argc, char **argv)
   observer_cartesian_coords(jd[0], p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);
  
   const short fname_len = 64;
-  char row[fname_len], norad_name[7], tle_list_file[200];
+  char row[fname_len], norad_name[7], tle_list_file[4200];
   FILE *lisfile, *ifile = NULL;
 
   open_json();
@@ -745,9 +745,9 @@ int main(int argc, char **argv)
 
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
-	sprintf(tle_list_file, "%s/%s", tle_path, ++argv[iarg]);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, ++argv[iarg]);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
-		sprintf(errmsg, "Could not open input file %s", tle_list_file);
+		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 		exit(2);
 	}
@@ -773,9 +773,9 @@ int main(int argc, char **argv)
     char *lastchar;
     if ( !input_list ) {
 	if ( strchr(p.tle_file_name, '/') == NULL )
-	  sprintf(tle_path_file, "%s/%s", tle_path, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, p.tle_file_name);
 	else
-	  strcpy(tle_path_file, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s", p.tle_file_name);
 	read_tle_list = false;
     } else {
 
@@ -789,17 +789,17 @@ int main(int argc, char **argv)
 	  *lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
-	sprintf(tle_path_file, "%s/%s", tle_path, tle_file_name);
+	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
     }
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
-	sprintf(errmsg, "Could not open input file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
   	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 	exit(2);
     }
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
-	sprintf(errmsg, "Could not read first TLE line from file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
 	exit(-2);
     }
@@ -824,7 +824,7 @@ int main(int argc, char **argv)
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
 
-		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
+		if ( !strncmp(intl_desig, p.intl_desig, len_intl_desig) )
 		  single_sat_found = true;
 	}
  
@@ -849,7 +849,7 @@ int main(int argc, char **argv)
   fclose(ifile);
 
   if ( !single_sat_found ) {
-	sprintf(errmsg, "Satellite not found in %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
 	exit(1);
   }
diff --git a/src/sat_visibility_def.h b/src/sat_visibility_def.h
index 7552dfd..d53b4ca 100644
--- a/src/sat_visibility_def.h
+++ b/src/sat_visibility_def.h
@@ -23,9 +23,9 @@ const char *progname = "sat_visibility",
 
   typedef struct myParams {
 	  char *tle_file_name,
-		date[2][24],
-		intl_desig[12],
-		satname[24];
+		date[2][32],
+		*intl_desig,
+		*satname;
 	 double lat,
 		lon,
 		ht_in_meters,
@@ -62,7 +62,7 @@ const char *progname = "sat_visibility",
   } Sun;
 
   typedef struct mySat {
-	   char cur_date[24];
+	   char cur_date[32];
 	double  cur_mjd,
 		ra,
 		dec,
-- 
2.43.0


From 0550f40e477b2426af3c02edc047a3a4acebca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 05/60] fix: non-numeric, non-finite and zero-step option
 values are rejected

---
 src/sat_skymap.c     | 65 ++++++++++++++++++++++++++++++++++++++------
 src/sat_visibility.c | 60 +++++++++++++++++++++++++++++++++-------
 2 files changed, 107 insertions(+), 18 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index d811437..437c63f 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -285,6 +285,34 @@ void close_stat_json(int argc, char **argv, bool input_list, int status, char *e
 }
 
 
+/* Report an unusable command-line option value and exit */
+void bad_value(int argc, char **argv, char opt, const char *value)
+{
+  char errmsg[128];
+
+  snprintf(errmsg, sizeof(errmsg), "Invalid value for command-line option '-%c': '%s'", opt, value);
+  open_json();
+  close_stat_json(argc, argv, false, -1, errmsg, 0, 0, 0);
+  exit(-1);
+}
+
+
+/* Read n comma separated finite numbers; nothing else must follow. Return false if not possible. */
+bool read_numbers(const char *str, int n, double *val)
+{
+  char *end;
+
+  for ( int i = 0; i < n; i++ ) {
+	val[i] = strtod(str, &end);
+	if ( end == str || !isfinite(val[i]) || *end != (i < n - 1 ? ',' : '\0') )
+		return false;
+	str = end + 1;
+  }
+
+  return true;
+}
+
+
 /* GMST in hours. Reference:  The 1992 Astronomical Almanac, page B6. */
 /* Unused.
 static inline double myThetaG(double jd)
@@ -389,7 +417,7 @@ int main(int argc, char **argv)
 {
   char errmsg[4400] = {""}, *tle_path = ".", line1[100], line2[100],
 	sat_name[25], tle_path_file[4200], opt, *endptr;  /* a path longer than PATH_MAX (4096) cannot be opened */
-  double jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
+  double val[3], jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
 	 target_ra, target_dec, target_lon = 0, target_lat = 0;
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
 	 len_intl_desig = 0, len_satname = 0;
@@ -484,7 +512,10 @@ int main(int argc, char **argv)
 
 	  /* Parameters */
           case 'a':
-		sscanf(argv[i] + par_pos, "%lf,%lf", &p.alt_min, &p.alt_max);
+		if ( !read_numbers(argv[i] + par_pos, 2, val) )
+		  bad_value(argc, argv, opt, argv[i] + par_pos);
+		p.alt_min = val[0];
+		p.alt_max = val[1];
 		if ( p.alt_max < p.alt_min )  {
 		  double dummy = p.alt_max;
 		  p.alt_max = p.alt_min;
@@ -509,11 +540,19 @@ int main(int argc, char **argv)
 		in_region = false;
 		break;
           case 'j':
-		p.mjd = atof(argv[i] + par_pos);
+		if ( !read_numbers(argv[i] + par_pos, 1, &p.mjd) )
+		  bad_value(argc, argv, opt, argv[i] + par_pos);
 		strcpy(p.date, mjd2date(p.mjd));
 		break;
           case 'l':
-		sscanf(argv[i] + par_pos, "%lf,%lf,%lf", &p.lat, &p.lon, &p.ht_in_meters);
+		if ( read_numbers(argv[i] + par_pos, 3, val) )
+		  p.ht_in_meters = val[2];
+		else if ( !read_numbers(argv[i] + par_pos, 2, val) )  /* default height */
+		  bad_value(argc, argv, opt, argv[i] + par_pos);
+		if ( fabs(val[1]) > 360. )
+		  bad_value(argc, argv, opt, argv[i] + par_pos);
+		p.lat = val[0];
+		p.lon = val[1];
 		/* Longitude locally in the range [0, 360[ (not [-180, +180]) degrees */
 		if ( p.lon < 0. )
 		  p.lon += 360;
@@ -526,10 +565,15 @@ int main(int argc, char **argv)
 		in_geopos = true;
 		break;
           case 'n':
-		sscanf(argv[i] + par_pos, "%d", &p.max_sats);
+		if ( !read_numbers(argv[i] + par_pos, 1, val) || fabs(val[0]) > 2147483647. )
+		  bad_value(argc, argv, opt, argv[i] + par_pos);
+		p.max_sats = val[0];
 		break;
           case 'p':
-		sscanf(argv[i] + par_pos, "%lf,%lf", &p.ra_deg, &p.de_deg);
+		if ( !read_numbers(argv[i] + par_pos, 2, val) )
+		  bad_value(argc, argv, opt, argv[i] + par_pos);
+		p.ra_deg = val[0];
+		p.de_deg = val[1];
 		if ( p.ra_deg < 0. || p.ra_deg > 360. )  {
 		  open_json();
 		  sprintf(errmsg, "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
@@ -545,10 +589,13 @@ int main(int argc, char **argv)
 		in_region = true;
 		break;
           case 'r':
-		p.search_radius = atof(argv[i] + par_pos);
+		if ( !read_numbers(argv[i] + par_pos, 1, &p.search_radius) )
+		  bad_value(argc, argv, opt, argv[i] + par_pos);
 		break;
           case 's':
 		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
+		if ( endptr == argv[i] + par_pos || *endptr != '\0' )
+		  bad_value(argc, argv, opt, argv[i] + par_pos);
 		p.single_sat_n = true;
 		p.altrng_requested = false;  // No altitude filter
 		in_region = false;
@@ -559,7 +606,9 @@ int main(int argc, char **argv)
 		p.satname_filter = true;
 		break;
           case 't':
-		p.delta_time = atof(argv[i] + par_pos);
+		if ( !read_numbers(argv[i] + par_pos, 1, val) || fabs(val[0]) < 1. || fabs(val[0]) > 2147483647. )
+		  bad_value(argc, argv, opt, argv[i] + par_pos);
+		p.delta_time = val[0];
 		break;
           default:
 		open_json();
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index d64f259..66ac16a 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -440,6 +440,34 @@ void close_stat_json(int argc, char **argv, bool input_list, int status, char *e
 }
 
 
+/* Report an unusable command-line option value and exit */
+void bad_value(int argc, char **argv, char opt, const char *value)
+{
+  char errmsg[128];
+
+  snprintf(errmsg, sizeof(errmsg), "Invalid value for command-line option '-%c': '%s'", opt, value);
+  open_json();
+  close_stat_json(argc, argv, false, -1, errmsg, 0);
+  exit(-1);
+}
+
+
+/* Read n comma separated finite numbers; nothing else must follow. Return false if not possible. */
+bool read_numbers(const char *str, int n, double *val)
+{
+  char *end;
+
+  for ( int i = 0; i < n; i++ ) {
+	val[i] = strtod(str, &end);
+	if ( end == str || !isfinite(val[i]) || *end != (i < n - 1 ? ',' : '\0') )
+		return false;
+	str = end + 1;
+  }
+
+  return true;
+}
+
+
 /*
   Compute intesection points distance on Earth of the Satellite --> Sun connecting line.
   Set to 0, 0 (and 0 returned) if Earth not intercepted (satellite is illuminated).
@@ -583,7 +611,7 @@ int main(int argc, char **argv)
 {
   char errmsg[4400] = {""}, *tle_path = ".", line1[100], line2[100],
 	sat_name[25], tle_path_file[4200], opt, *endptr;  /* a path longer than PATH_MAX (4096) cannot be opened */
-  double jd[2], rho_sin_phi, rho_cos_phi,
+  double val[3], jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad;
   int i, par_pos, status = 0, n_sats_found = 0,
 	 len_intl_desig = 0;
@@ -646,7 +674,10 @@ int main(int argc, char **argv)
 
 	  /* Parameters */
           case 'a':
-		sscanf(argv[i] + par_pos, "%lf,%lf", &p.alt_min, &p.alt_max);
+		if ( !read_numbers(argv[i] + par_pos, 2, val) )
+		  bad_value(argc, argv, opt, argv[i] + par_pos);
+		p.alt_min = val[0];
+		p.alt_max = val[1];
 		if ( p.alt_max < p.alt_min )  {
 		  double dummy = p.alt_max;
 		  p.alt_max = p.alt_min;
@@ -674,16 +705,20 @@ int main(int argc, char **argv)
 		p.altrng_requested = false;  // No altitude filter
 		break;
           case 'j':
-		if ( strchr(argv[i] + par_pos, '-') != NULL ) {  // A minimal check
-			Usage();
-		        exit(0);
-		}
-		sscanf(argv[i] + par_pos, "%lf,%lf", &p.mjd[0], &p.mjd[1]);
+		if ( !read_numbers(argv[i] + par_pos, 2, p.mjd) )
+		  bad_value(argc, argv, opt, argv[i] + par_pos);
 		strcpy(p.date[0], mjd2date(p.mjd[0]));
 		strcpy(p.date[1], mjd2date(p.mjd[1]));
 		break;
           case 'l':
-		sscanf(argv[i] + par_pos, "%lf,%lf,%lf", &p.lat, &p.lon, &p.ht_in_meters);
+		if ( read_numbers(argv[i] + par_pos, 3, val) )
+		  p.ht_in_meters = val[2];
+		else if ( !read_numbers(argv[i] + par_pos, 2, val) )  /* default height */
+		  bad_value(argc, argv, opt, argv[i] + par_pos);
+		if ( fabs(val[1]) > 360. )
+		  bad_value(argc, argv, opt, argv[i] + par_pos);
+		p.lat = val[0];
+		p.lon = val[1];
 		/* Longitude locally in the range [0, 360[ (not [-180, +180]) degrees */
 		if ( p.lon < 0. )
 		  p.lon += 360;
@@ -696,15 +731,20 @@ int main(int argc, char **argv)
 		in_geopos = true;
 		break;
           case 'r':
-		p.search_radius = atof(argv[i] + par_pos);
+		if ( !read_numbers(argv[i] + par_pos, 1, &p.search_radius) )
+		  bad_value(argc, argv, opt, argv[i] + par_pos);
 		break;
           case 's':
 		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
+		if ( endptr == argv[i] + par_pos || *endptr != '\0' )
+		  bad_value(argc, argv, opt, argv[i] + par_pos);
 		p.single_sat_n = true;
 		p.altrng_requested = false;  // No altitude filter
 		break;
           case 't':
-		p.delta_time = atof(argv[i] + par_pos);
+		if ( !read_numbers(argv[i] + par_pos, 1, val) || val[0] < 1. || val[0] > 2147483647. )
+		  bad_value(argc, argv, opt, argv[i] + par_pos);
+		p.delta_time = val[0];
 		break;
           default:
 		open_json();
-- 
2.43.0


From d64de7092d9b3f2dd09ba17346371cdb2af8afe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 06/60] fix: invalid calendar dates are rejected and fractional
 seconds are used

---
 src/date2mjd_nf.c    | 23 +++++++++++++++++------
 src/sat_skymap.c     |  3 ++-
 src/sat_visibility.c | 13 +++++--------
 3 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/date2mjd_nf.c b/src/date2mjd_nf.c
index 695a0ee..3322764 100644
--- a/src/date2mjd_nf.c
+++ b/src/date2mjd_nf.c
@@ -1,7 +1,7 @@
 /*
-  From DATE in the form "2020-08-07T12:15:11" to MJD.
+  From DATE in the form "2020-08-07T12:15:11[.sss]" to MJD.
 
-  Return 0 un success.
+  Return 0 on success, -1 (and MJD 0) if DATE is not a valid date.
 
 
   LN@INAF-OAS, Aug 2006   Last change: 06/05/2024
@@ -16,12 +16,23 @@ static const double JD_OFF = 2400000.5;
 
 int date2mjd_nf(const char *date, double *mjd) {
 
-  int nr, y, m, d, h, mm, s;
+  static const int mdays[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
+  int nr, y, m, d, h, mm, s, n = 0;
   long a,b;
+  double fs = 0.;
 
-  nr = sscanf( date, "%4d-%2d-%2dT%2d:%2d:%2d", &y, &m, &d, &h, &mm, &s);
+  nr = sscanf( date, "%4d-%2d-%2dT%2d:%2d:%2d%n", &y, &m, &d, &h, &mm, &s, &n);
 
-  if ( nr == 6 ) {
+/* Fraction of second */
+  if ( nr == 6 && date[n] == '.' ) {
+    double digit = 0.1;
+    for ( n++; date[n] >= '0' && date[n] <= '9'; n++, digit /= 10. )
+      fs += (date[n] - '0') * digit;
+  }
+
+  if ( nr == 6 && date[n] == '\0' && date[strspn(date, "0123456789-T:.")] == '\0' && y >= 0 && m >= 1 && m <= 12 &&
+       d >= 1 && d <= mdays[m-1] + (m == 2 && (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0))) &&
+       h >= 0 && h < 24 && mm >= 0 && mm < 60 && s >= 0 && s <= 60 ) {
     if ( m<=2 ) {
       y--;
       m += 12;
@@ -31,7 +42,7 @@ int date2mjd_nf(const char *date, double *mjd) {
     *mjd = b + floor(365.25 * y) + floor(30.6001 * (m + 1)) + d + 1720994.5;
 //printf("mjd 1: %lf\n", *mjd);
 //printf("%f\n", roundf((s + 60 * (mm + 60 * h)) / 86400. * 100000)/100000);
-    *mjd += roundf((s + 60 * (mm + 60 * h)) / 86400. * 100000) / 100000;
+    *mjd += roundf((s + fs + 60 * (mm + 60 * h)) / 86400. * 100000) / 100000;
 
     *mjd -= JD_OFF;
 
diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 437c63f..c0a1ac2 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -526,7 +526,8 @@ int main(int argc, char **argv)
 		break;
           case 'd':
 		snprintf(p.date, sizeof(p.date), "%s", argv[i] + par_pos);
-		date2mjd_nf(argv[i] + par_pos, &p.mjd);
+		if ( date2mjd_nf(argv[i] + par_pos, &p.mjd) || strlen(argv[i] + par_pos) >= sizeof(p.date) )
+		  bad_value(argc, argv, opt, argv[i] + par_pos);
 		break;
  	  case 'D':
 		tle_path = argv[i] + par_pos;
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 66ac16a..5bc5e77 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -613,7 +613,7 @@ int main(int argc, char **argv)
 	sat_name[25], tle_path_file[4200], opt, *endptr;  /* a path longer than PATH_MAX (4096) cannot be opened */
   double val[3], jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad;
-  int i, par_pos, status = 0, n_sats_found = 0,
+  int i, par_pos, par_len, status = 0, n_sats_found = 0,
 	 len_intl_desig = 0;
   bool in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
@@ -686,13 +686,10 @@ int main(int argc, char **argv)
 		p.altrng_requested = true;
 		break;
           case 'd':
-		if ( strchr(argv[i] + par_pos, '-') == NULL ) {  // A minimal check
-			Usage();
-		        exit(0);
-		}
-		sscanf(argv[i] + par_pos, "%19s,%19s", p.date[0], p.date[1]);
-		date2mjd_nf(p.date[0], &p.mjd[0]);
-		date2mjd_nf(p.date[1], &p.mjd[1]);
+		if ( sscanf(argv[i] + par_pos, "%31[^,],%31[^,]%n", p.date[0], p.date[1], &par_len) != 2 ||
+		     argv[i][par_pos + par_len] != '\0' ||
+		     date2mjd_nf(p.date[0], &p.mjd[0]) || date2mjd_nf(p.date[1], &p.mjd[1]) )
+		  bad_value(argc, argv, opt, argv[i] + par_pos);
 		break;
  	  case 'D':
 		tle_path = argv[i] + par_pos;
-- 
2.43.0


From c4884fa34bbded60674f73e513d92dfb42768c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 07/60] fix: an MJD outside the range of mjd2date dereferenced
 NULL

---
 src/mjd2date.c       | 4 ++--
 src/sat_skymap.c     | 2 +-
 src/sat_visibility.c | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mjd2date.c b/src/mjd2date.c
index c799bab..f512c81 100644
--- a/src/mjd2date.c
+++ b/src/mjd2date.c
@@ -30,7 +30,7 @@ char *mjd2date(double mjd)
 
 /* Verify date is acceptable. */
   dj = DJ1 + mjd;
-  if (dj < DJMIN || dj > DJMAX) return 0;
+  if (!(dj >= DJMIN && dj <= DJMAX)) return 0;
 
 /* Copy the date, big then small, and re-align to midnight. */
   if (DJ1 >= mjd) {
@@ -84,7 +84,7 @@ char *mjd2datef(double mjd)
 
 /* Verify date is acceptable. */
   dj = DJ1 + mjd;
-  if (dj < DJMIN || dj > DJMAX) return 0;
+  if (!(dj >= DJMIN && dj <= DJMAX)) return 0;
 
 /* Copy the date, big then small, and re-align to midnight. */
   if (DJ1 >= mjd) {
diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index c0a1ac2..0be0a20 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -541,7 +541,7 @@ int main(int argc, char **argv)
 		in_region = false;
 		break;
           case 'j':
-		if ( !read_numbers(argv[i] + par_pos, 1, &p.mjd) )
+		if ( !read_numbers(argv[i] + par_pos, 1, &p.mjd) || mjd2date(p.mjd) == NULL )
 		  bad_value(argc, argv, opt, argv[i] + par_pos);
 		strcpy(p.date, mjd2date(p.mjd));
 		break;
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 5bc5e77..c27a74f 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -702,7 +702,7 @@ int main(int argc, char **argv)
 		p.altrng_requested = false;  // No altitude filter
 		break;
           case 'j':
-		if ( !read_numbers(argv[i] + par_pos, 2, p.mjd) )
+		if ( !read_numbers(argv[i] + par_pos, 2, p.mjd) || mjd2date(p.mjd[0]) == NULL || mjd2date(p.mjd[1]) == NULL )
 		  bad_value(argc, argv, opt, argv[i] + par_pos);
 		strcpy(p.date[0], mjd2date(p.mjd[0]));
 		strcpy(p.date[1], mjd2date(p.mjd[1]));
-- 
2.43.0


From a8f8f2fb7603b7dc6ebbc1cf040667fb43943b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 08/60] fix: years before 1000 are printed with four digits

---
 src/mjd2date.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mjd2date.c b/src/mjd2date.c
index f512c81..142e2c4 100644
--- a/src/mjd2date.c
+++ b/src/mjd2date.c
@@ -67,7 +67,7 @@ char *mjd2date(double mjd)
   f -= mm/1440.;
   s = (int)(f*86400);
 
-  sprintf(date, "%4d-%2.2d-%2.2dT%2.2d:%2.2d:%2.2d", iy, im, id, h, mm, s);
+  sprintf(date, "%4.4d-%2.2d-%2.2dT%2.2d:%2.2d:%2.2d", iy, im, id, h, mm, s);
 
   return date;
 }
@@ -123,7 +123,7 @@ char *mjd2datef(double mjd)
   f -= s/86400.;
   fs = (int)(f*8.64e7);
 
-  sprintf(date, "%4d-%2.2d-%2.2dT%2.2d:%2.2d:%2.2d.%3.3d", iy, im, id, h, mm, s, fs);
+  sprintf(date, "%4.4d-%2.2d-%2.2dT%2.2d:%2.2d:%2.2d.%3.3d", iy, im, id, h, mm, s, fs);
 
   return date;
 }
-- 
2.43.0


From 07a3c1649c33276df58bbba98d33bc6afb13053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 09/60] fix: satellite names of 23 or more characters were left
 unterminated and cut

---
 src/sat_skymap.c     | 22 +++++++++++++++-------
 src/sat_visibility.c | 22 +++++++++++++++-------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 0be0a20..e9f67b5 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -150,14 +150,24 @@ char *trimend(char *str)
 {
   char *end;
 
-  end = str + strlen(str) - 1;
-  while(end > str && isspace((unsigned char)*end)) end--;
-  end[1] = '\0';
+  end = str + strlen(str);
+  while(end > str && isspace((unsigned char)end[-1])) end--;
+  *end = '\0';
 
   return str;
 }
 
 
+/*
+  Copy the satellite name (at most 24 characters) from the name line
+*/
+void copy_name(char *name, const char *line)
+{
+  snprintf(name, 25, "%.24s", line);
+  trimend(name);
+}
+
+
 /*
   Print a string as the content of a JSON string: quotes, backslashes and control
   characters are escaped, bytes which are not valid UTF-8 are taken as Latin-1
@@ -799,8 +809,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	exit(-2);
     }
 
-    strncpy(sat_name, line1, 23);
-    trimend(sat_name);
+    copy_name(sat_name, line1);
 
     while ( fgets(line2, sizeof(line2), ifile) ) {
 
@@ -1011,8 +1020,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
       strcpy(line1, line2);
       if ( line2[0] != '1' && line2[0] != '2' ) {
-	  strncpy(sat_name, line2, 23);
-	  trimend(sat_name);
+	  copy_name(sat_name, line2);
       }
     }  // end while fgets(line2 ...
 
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index c27a74f..fb0d1e7 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -301,14 +301,24 @@ char *trimend(char *str)
 {
   char *end;
 
-  end = str + strlen(str) - 1;
-  while(end > str && isspace((unsigned char)*end)) end--;
-  end[1] = '\0';
+  end = str + strlen(str);
+  while(end > str && isspace((unsigned char)end[-1])) end--;
+  *end = '\0';
 
   return str;
 }
 
 
+/*
+  Copy the satellite name (at most 24 characters) from the name line
+*/
+void copy_name(char *name, const char *line)
+{
+  snprintf(name, 25, "%.24s", line);
+  trimend(name);
+}
+
+
 /*
   Print a string as the content of a JSON string: quotes, backslashes and control
   characters are escaped, bytes which are not valid UTF-8 are taken as Latin-1
@@ -841,8 +851,7 @@ int main(int argc, char **argv)
 	exit(-2);
     }
 
-    strncpy(sat_name, line1, 23);
-    trimend(sat_name);
+    copy_name(sat_name, line1);
 
     while ( fgets(line2, sizeof(line2), ifile) ) {
 
@@ -873,8 +882,7 @@ int main(int argc, char **argv)
 
       strcpy(line1, line2);
       if ( line2[0] != '1' && line2[0] != '2' ) {
-	strncpy(sat_name, line2, 23);
-	trimend(sat_name);
+	copy_name(sat_name, line2);
       }
     }  // end while fgets(line2 ...
 
-- 
2.43.0


From ce9726f24f2f04d7b8e2e5282e0e144dbbab3bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 10/60] fix: names starting with the digit 1 or 2 were taken
 for element lines

---
 src/sat_skymap.c     | 2 +-
 src/sat_visibility.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index e9f67b5..72caf04 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -1019,7 +1019,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
       }  // end TLE found
 
       strcpy(line1, line2);
-      if ( line2[0] != '1' && line2[0] != '2' ) {
+      if ( (line2[0] != '1' && line2[0] != '2') || line2[1] != ' ' ) {
 	  copy_name(sat_name, line2);
       }
     }  // end while fgets(line2 ...
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index fb0d1e7..c105bf9 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -881,7 +881,7 @@ int main(int argc, char **argv)
       }  // end TLE found
 
       strcpy(line1, line2);
-      if ( line2[0] != '1' && line2[0] != '2' ) {
+      if ( (line2[0] != '1' && line2[0] != '2') || line2[1] != ' ' ) {
 	copy_name(sat_name, line2);
       }
     }  // end while fgets(line2 ...
-- 
2.43.0


From 3bae7f06bedff1ce1d2acb8abced2bc307dcda3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:19 +0000
Subject: [PATCH 11/60] fix: the list of processed satellites overflowed at the
 11667th

---
 src/sat_skymap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 72caf04..4cd8e5e 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -849,7 +849,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("Found string '%s' at index = %ld ... skipping.\n", norad_name, s - sbuff);
 		continue;
 	} else {
-		if ( use_bufflen >= cur_bufflen ) {
+		if ( use_bufflen + 7 > cur_bufflen ) {
 		  cur_bufflen += extra_satbuff;
 //printf("\nRealloc extra bytes. Now %d \n", cur_bufflen);
 		  if ( (sbuff = (char *)realloc(sbuff, cur_bufflen)) == NULL ) {
-- 
2.43.0


From 2c11f9f2be62cbe818c8497e855cc057fdfb950c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 12/60] fix: designators with two- and three-letter pieces were
 cut, and -i also took other pieces of the launch

---
 src/sat_skymap.c     | 13 ++++++-------
 src/sat_visibility.c | 14 ++++++--------
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 4cd8e5e..6ec89d4 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -430,7 +430,7 @@ int main(int argc, char **argv)
   double val[3], jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
 	 target_ra, target_dec, target_lon = 0, target_lat = 0;
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
-	 len_intl_desig = 0, len_satname = 0;
+	 len_satname = 0;
   bool in_region = false,  /* used for single satellite request */
 	in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
@@ -545,7 +545,6 @@ int main(int argc, char **argv)
 		break;
           case 'i':
 		p.intl_desig = argv[i] + par_pos;
-		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
 		in_region = false;
@@ -829,11 +828,11 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 			single_sat_found = true;
 	 } else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
-			tle.intl_desig, tle.intl_desig + 2);
+			tle.intl_desig, trimend(tle.intl_desig + 2));
 
-		if ( !strncmp(intl_desig, p.intl_desig, len_intl_desig) )
+		if ( !strcmp(intl_desig, p.intl_desig) )
 		  single_sat_found = true;
 	} else if ( p.satname_filter ) {
 		if ( strncmp(sat_name, p.satname, len_satname) )
@@ -963,9 +962,9 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
 	  if ( !p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
-			tle.intl_desig, tle.intl_desig + 2);
+			tle.intl_desig, trimend(tle.intl_desig + 2));
 	  }
 
 	  d_ra = (ra1 - ra + TWOPI);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index c105bf9..07f4d56 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -623,8 +623,7 @@ int main(int argc, char **argv)
 	sat_name[25], tle_path_file[4200], opt, *endptr;  /* a path longer than PATH_MAX (4096) cannot be opened */
   double val[3], jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad;
-  int i, par_pos, par_len, status = 0, n_sats_found = 0,
-	 len_intl_desig = 0;
+  int i, par_pos, par_len, status = 0, n_sats_found = 0;
   bool in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
@@ -707,7 +706,6 @@ int main(int argc, char **argv)
 		break;
           case 'i':
 		p.intl_desig = argv[i] + par_pos;
-		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
 		break;
@@ -866,11 +864,11 @@ int main(int argc, char **argv)
 			single_sat_found = true;
 	} else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
-			tle.intl_desig, tle.intl_desig + 2);
+			tle.intl_desig, trimend(tle.intl_desig + 2));
 
-		if ( !strncmp(intl_desig, p.intl_desig, len_intl_desig) )
+		if ( !strcmp(intl_desig, p.intl_desig) )
 		  single_sat_found = true;
 	}
  
@@ -1036,9 +1034,9 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 
 	if ( !p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi(tle.intl_desig) > 57000 ? "19" : "20"),
-			tle.intl_desig, tle.intl_desig + 2);
+			tle.intl_desig, trimend(tle.intl_desig + 2));
 	}
 
 	t_since += p.delta_time * 1440. / SEC_IN_DAY;
-- 
2.43.0


From c10a44d6d194d8d73d8ea591321996164b1141b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:46 +0000
Subject: [PATCH 13/60] fix: with -V the first sunlit object after the
 requested satellite was reported in its place

---
 src/sat_skymap.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 6ec89d4..c4389f6 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -822,10 +822,11 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("NORAD:->%s\n", norad_name);
 
 	 char intl_desig[12] = {"none"};
+	 bool is_requested = false;  /* if this is the requested single satellite */
 	 if ( p.single_sat_n ) {
 		int norad_name_n = strtol(norad_name, &endptr, 10);
 		if ( norad_name_n == p.norad_n )
-			single_sat_found = true;
+			is_requested = true;
 	 } else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
 		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
@@ -833,15 +834,18 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 			tle.intl_desig, trimend(tle.intl_desig + 2));
 
 		if ( !strcmp(intl_desig, p.intl_desig) )
-		  single_sat_found = true;
+		  is_requested = true;
 	} else if ( p.satname_filter ) {
 		if ( strncmp(sat_name, p.satname, len_satname) )
 		continue;
 	}
  
 /* Single satellite requested? */
-	if ( single_sat && !single_sat_found )
-		continue;
+	if ( single_sat ) {
+		if ( single_sat_found || !is_requested )
+		  continue;
+		single_sat_found = true;
+	}
 /* Add a , to make it unique, and skip any previously met satellite */
 	strcat(norad_name, ",");
 	if ( (s = strstr(sbuff, norad_name)) != NULL ) {
@@ -1028,10 +1032,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
 
 end_checking:
-  if ( single_sat_found )
-	n_sats = 1;
-  else
-	n_sats = n_sats_found;  /* This is TODO using HEALPix IDs */
+  n_sats = n_sats_found;  /* This is TODO using HEALPix IDs */
 
   free(sbuff);
 
-- 
2.43.0


From 99c97df957edeba9f2fd8a96e68ae6e000469bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 14/60] fix: the effect of -a on single satellite requests
 depended on the option order

---
 src/sat_skymap.c     | 5 +----
 src/sat_visibility.c | 2 --
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index c4389f6..1339925 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -546,8 +546,6 @@ int main(int argc, char **argv)
           case 'i':
 		p.intl_desig = argv[i] + par_pos;
 		p.single_sat_i = true;
-		p.altrng_requested = false;  // No altitude filter
-		in_region = false;
 		break;
           case 'j':
 		if ( !read_numbers(argv[i] + par_pos, 1, &p.mjd) || mjd2date(p.mjd) == NULL )
@@ -607,8 +605,6 @@ int main(int argc, char **argv)
 		if ( endptr == argv[i] + par_pos || *endptr != '\0' )
 		  bad_value(argc, argv, opt, argv[i] + par_pos);
 		p.single_sat_n = true;
-		p.altrng_requested = false;  // No altitude filter
-		in_region = false;
 		break;
           case 'S':
 		p.satname = argv[i] + par_pos;
@@ -695,6 +691,7 @@ int main(int argc, char **argv)
   if ( p.single_sat_n || p.single_sat_i ) {
 	single_sat = true;
 	p.geoloc_requested = true;
+	p.altrng_requested = false;  // No altitude filter
   }
 
 /* Local Mean Sidereal Time & GMST */
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 07f4d56..74c941f 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -707,7 +707,6 @@ int main(int argc, char **argv)
           case 'i':
 		p.intl_desig = argv[i] + par_pos;
 		p.single_sat_i = true;
-		p.altrng_requested = false;  // No altitude filter
 		break;
           case 'j':
 		if ( !read_numbers(argv[i] + par_pos, 2, p.mjd) || mjd2date(p.mjd[0]) == NULL || mjd2date(p.mjd[1]) == NULL )
@@ -744,7 +743,6 @@ int main(int argc, char **argv)
 		if ( endptr == argv[i] + par_pos || *endptr != '\0' )
 		  bad_value(argc, argv, opt, argv[i] + par_pos);
 		p.single_sat_n = true;
-		p.altrng_requested = false;  // No altitude filter
 		break;
           case 't':
 		if ( !read_numbers(argv[i] + par_pos, 1, val) || val[0] < 1. || val[0] > 2147483647. )
-- 
2.43.0


From 7c878fee76ef387cbeee8f4cdbccd8532afaf753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 15/60] fix: -s did not find satellites with numbers above
 99999 (Alpha-5)

---
 src/sat_skymap.c     | 3 +--
 src/sat_visibility.c | 9 ++-------
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 1339925..1e26ffc 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -821,8 +821,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	 char intl_desig[12] = {"none"};
 	 bool is_requested = false;  /* if this is the requested single satellite */
 	 if ( p.single_sat_n ) {
-		int norad_name_n = strtol(norad_name, &endptr, 10);
-		if ( norad_name_n == p.norad_n )
+		if ( tle.norad_number == p.norad_n )
 			is_requested = true;
 	 } else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 74c941f..298f22d 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -775,7 +775,7 @@ int main(int argc, char **argv)
   observer_cartesian_coords(jd[0], p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);
  
   const short fname_len = 64;
-  char row[fname_len], norad_name[7], tle_list_file[4200];
+  char row[fname_len], tle_list_file[4200];
   FILE *lisfile, *ifile = NULL;
 
   open_json();
@@ -852,13 +852,8 @@ int main(int argc, char **argv)
     while ( fgets(line2, sizeof(line2), ifile) ) {
 
       if ( !parse_elements(line1, line2, &tle) ) { /* TLE found */
-/* First check if we have processed this sat already */
-	strncpy(norad_name, line1+2, 5);  /* this is tle.norad_number */
-	norad_name[5] = '\0';
-
 	if ( p.single_sat_n ) {
-		int norad_name_n = strtol(norad_name, &endptr, 10);
-		if ( norad_name_n == p.norad_n )
+		if ( tle.norad_number == p.norad_n )
 			single_sat_found = true;
 	} else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
-- 
2.43.0


From 5ab2e4cd4780ec5660b37a77b2c5076def5ea2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 16/60] fix: catalogue numbers beyond the int range wrapped to
 another satellite

---
 src/sat_skymap.c     | 3 ++-
 src/sat_visibility.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 1e26ffc..ebda6fa 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -602,7 +602,8 @@ int main(int argc, char **argv)
 		break;
           case 's':
 		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
-		if ( endptr == argv[i] + par_pos || *endptr != '\0' )
+		if ( endptr == argv[i] + par_pos || *endptr != '\0' ||
+		     p.norad_n != strtol(argv[i] + par_pos, &endptr, 10) )  /* not an int */
 		  bad_value(argc, argv, opt, argv[i] + par_pos);
 		p.single_sat_n = true;
 		break;
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 298f22d..ba7e1b5 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -740,7 +740,8 @@ int main(int argc, char **argv)
 		break;
           case 's':
 		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
-		if ( endptr == argv[i] + par_pos || *endptr != '\0' )
+		if ( endptr == argv[i] + par_pos || *endptr != '\0' ||
+		     p.norad_n != strtol(argv[i] + par_pos, &endptr, 10) )  /* not an int */
 		  bad_value(argc, argv, opt, argv[i] + par_pos);
 		p.single_sat_n = true;
 		break;
-- 
2.43.0


From efb3fe08ada48dbadffb26e20fa6f851ce4cdde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 17/60] fix: an error after the first listed satellite left the
 JSON output unclosed

---
 src/sat_skymap.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index ebda6fa..96d2051 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -275,6 +275,12 @@ void add_satlatlon_json(Geoloc geo) {
     printf( "\"geoloc\": {\"lat\":%7.3lf, \"lon\":%7.3lf, \"alt\":%9.2lf, \"theta\":%8.3lf}, ", geo.lat, geo.lon, geo.alt, geo.theta);
 }
 
+/* Close the array of satellites, if any was listed */
+void close_sats_json(bool info_only, int n_sats_found) {
+  if ( !info_only && n_sats_found > 0 )
+	printf("],");
+}
+
 void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found, int n_sats, int n_sunlit_sats) {
   int iarg = 1;
   printf(" \"run_command\": \"%s", progname);
@@ -795,6 +801,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
 	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
+	close_sats_json(p.info_only, n_sats_found);
   	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(2);
     }
@@ -802,6 +809,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
 	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
+	close_sats_json(p.info_only, n_sats_found);
 	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(-2);
     }
@@ -854,6 +862,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("\nRealloc extra bytes. Now %d \n", cur_bufflen);
 		  if ( (sbuff = (char *)realloc(sbuff, cur_bufflen)) == NULL ) {
 		    sprintf(errmsg, "Could not allocate required buffer memory");
+		    close_sats_json(p.info_only, n_sats_found);
 		    close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		    exit(1);
 		  }
@@ -884,6 +893,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* For malformed or partial tle (e.g. Bepi-Colombo) this could happen */
 	if ( isnan(ra) || isnan(dec) ) {
 		sprintf(errmsg, "Could not decode TLE data");
+		close_sats_json(p.info_only, n_sats_found);
 		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(1);
 	}
@@ -1033,8 +1043,7 @@ end_checking:
 
   free(sbuff);
 
-  if ( !p.info_only && n_sats_found > 0 )
-	printf("],");
+  close_sats_json(p.info_only, n_sats_found);
 
 /* For single satellite request report failure but do not rise an error flag */
   if ( single_sat && !single_sat_found )
-- 
2.43.0


From 3b674053a4c075a08e54b2b228dc3487c8cb625f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 18/60] fix: sat_skymap listed satellites whose position could
 not be computed

---
 src/norad.h      |  3 +++
 src/sat_skymap.c | 25 ++++++++++++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/norad.h b/src/norad.h
index ca6be37..d16da93 100644
--- a/src/norad.h
+++ b/src/norad.h
@@ -93,6 +93,9 @@ reasonable position/velocity was determined.       */
 #define SXPX_ERR_NEGATIVE_XN              -5
 #define SXPX_ERR_CONVERGENCE_FAIL         -6
 
+#define IS_SXPX_ERR( code) ((code) && (code) != SXPX_WARN_ORBIT_WITHIN_EARTH \
+                                  && (code) != SXPX_WARN_PERIGEE_WITHIN_EARTH)
+
 /* Function prototypes */
 /* norad.c */
 
diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 96d2051..2b3d4f4 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -872,7 +872,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	}
 
 	int is_deep = select_ephemeris(&tle),
-	    is_sunlit;
+	    is_sunlit, sxpx_status;
 //printf("is_deep: %d\n", is_deep);
 	double sat_params[N_SAT_PARAMS], ang_sep, ang_sep1, d_ra, d_dec,
 		ra, dec, ra1, dec1, sep_to_satellite, t_since,
@@ -881,13 +881,25 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
 	t_since = (jd - tle.epoch) * 1440.;  /* From days to minutes */
 
+	if ( is_deep < 0 ) {  /* Impossible elements */
+		sprintf(errmsg, "Could not decode TLE data");
+		close_sats_json(p.info_only, n_sats_found);
+		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		exit(1);
+	}
+
 	if ( is_deep ) {
 		SDP4_init(sat_params, &tle);
-		SDP4(t_since, &tle, sat_params, pos, NULL);
+		sxpx_status = SDP4(t_since, &tle, sat_params, pos, NULL);
 	} else {
 		SGP4_init(sat_params, &tle);
-		SGP4(t_since, &tle, sat_params, pos, NULL);
+		sxpx_status = SGP4(t_since, &tle, sat_params, pos, NULL);
 	}
+
+/* No position for decayed satellites */
+	if ( IS_SXPX_ERR(sxpx_status) )
+		continue;
+
 	get_satellite_ra_dec_delta(observer_loc, pos, &ra, &dec, &sep_to_satellite);
 
 /* For malformed or partial tle (e.g. Bepi-Colombo) this could happen */
@@ -921,9 +933,12 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	t_since += p.delta_time * 1440. / SEC_IN_DAY;
 
 	if ( is_deep )
-		SDP4(t_since, &tle, sat_params, pos, NULL);
+		sxpx_status = SDP4(t_since, &tle, sat_params, pos, NULL);
 	else
-		SGP4(t_since, &tle, sat_params, pos, NULL);
+		sxpx_status = SGP4(t_since, &tle, sat_params, pos, NULL);
+
+	if ( IS_SXPX_ERR(sxpx_status) )
+		continue;
 
 	get_satellite_ra_dec_delta(observer_loc2, pos, &ra1, &dec1, &unused_delta2);
 	epoch_of_date_to_j2000(jd, &ra1, &dec1);
-- 
2.43.0


From ab744ae3f52badb31bd1c5dbf9798d8b2fd4738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:01 +0000
Subject: [PATCH 19/60] fix: an inclination of exactly 180 degrees gave no
 position (0/0)

---
 src/common.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common.c b/src/common.c
index a6586b6..52346c9 100644
--- a/src/common.c
+++ b/src/common.c
@@ -136,7 +136,9 @@ int sxpx_posn_vel( const double xnode, const double a, const double ecc,
   /* Long period periodics */
    const double axn = ecc*cos(omega);
    double temp = 1/(a*(1.-ecc*ecc));
-   const double xlcof = .125 * a3ovk2 * sinio * (3+5*cosio)/ (1. + cosio);
+   const double min_one_plus_cosio = 1.5e-12;   /* avoid 0/0 at xincl = 180 deg */
+   const double xlcof = .125 * a3ovk2 * sinio * (3+5*cosio)
+               / (fabs( 1. + cosio) > min_one_plus_cosio ? 1. + cosio : min_one_plus_cosio);
    const double aycof = 0.25 * a3ovk2 * sinio;
    const double xll = temp*xlcof*axn;
    const double aynl = temp*aycof;
-- 
2.43.0


From afc330deedcc124f7e92699b352010b614bdf060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:41 +0000
Subject: [PATCH 20/60] fix: -E without -H mixed degrees and radians and did
 not wrap the longitude difference

---
 src/sat_skymap.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 2b3d4f4..71a9034 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -945,10 +945,8 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* Approx or precise separation? */
 	if ( !p.haversine ) {
 	  if ( p.geoloc_reference ) {
-		d_ra = geo.lon * DEG2RAD - target_lon + TWOPI;
-		if ( d_ra > PI )
-		  d_ra -= TWOPI;
-		d_dec = geo.lat - target_lat;
+		d_ra = remainder(geo.lon * DEG2RAD - target_lon, TWOPI);
+		d_dec = geo.lat * DEG2RAD - target_lat;
 		ang_sep = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
 		ang_sep1 = 2 * ang_sep;  // dummy
 	  } else {
-- 
2.43.0


From f36c7167384b06cb4dae7443e00e0afa90717016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 21/60] fix: RA differences across RA 0 were not taken the
 short way round

---
 src/sat_skymap.c     | 12 +++---------
 src/sat_visibility.c |  4 +---
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 71a9034..b83e555 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -950,14 +950,10 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		ang_sep = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
 		ang_sep1 = 2 * ang_sep;  // dummy
 	  } else {
-		d_ra = (ra - target_ra + TWOPI);
-		if ( d_ra > PI )
-		  d_ra -= TWOPI;
+		d_ra = remainder(ra - target_ra, TWOPI);  /* in the range -pi, pi */
 		d_dec = dec - target_dec;
 		ang_sep = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
-		d_ra = (ra1 - target_ra + TWOPI);
-		if ( d_ra > PI )
-		  d_ra -= TWOPI;
+		d_ra = remainder(ra1 - target_ra, TWOPI);
 		d_dec = dec1 - target_dec;
 		ang_sep1 = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
 	  }
@@ -991,9 +987,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 			tle.intl_desig, trimend(tle.intl_desig + 2));
 	  }
 
-	  d_ra = (ra1 - ra + TWOPI);
-	  if ( d_ra > PI )
-		d_ra -= TWOPI;
+	  d_ra = remainder(ra1 - ra, TWOPI);
 	  d_ra *= cos(dec);
 	  d_dec = dec1 - dec;
 	  posn_ang_of_motion = atan2(d_ra, d_dec);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index ba7e1b5..1266f54 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -602,9 +602,7 @@ void get_sat_PA_and_speed(double t_since) {
 	get_satellite_ra_dec_delta(geo.observer_loc, pos, &ra1, &dec1, &dist_to_satellite);  /* Returned RA, Dec in radians */
 	//-- epoch_of_date_to_j2000(t, &ra1, &dec1);  /* Do not apply precession */
 
-	d_ra = (ra1 - sat.ra + TWOPI);
-	if ( d_ra > PI )
-		d_ra -= TWOPI;
+	d_ra = remainder(ra1 - sat.ra, TWOPI);  /* in the range -pi, pi */
 	d_ra *= cos(sat.dec);
 	d_dec = dec1 - sat.dec;
 	sat.parang = atan2(d_ra, d_dec);
-- 
2.43.0


From cae6cc86df9696cc510d6e180a984357ff691ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 22/60] fix: the sunlit flag was computed at the second epoch
 instead of the requested time

---
 src/sat_skymap.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index b83e555..9aa05ad 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -877,6 +877,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	double sat_params[N_SAT_PARAMS], ang_sep, ang_sep1, d_ra, d_dec,
 		ra, dec, ra1, dec1, sep_to_satellite, t_since,
 		pos[3],  /* Satellite position vector */
+		eray[2],
 		unused_delta2;
 
 	t_since = (jd - tle.epoch) * 1440.;  /* From days to minutes */
@@ -923,6 +924,8 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
 	epoch_of_date_to_j2000(jd, &ra, &dec);  /* Approx precession. Returned RA, Dec in radians. */
 
+/* If satellite is in Sun light at the requested time (this is preliminary. TODO to account for Sun angular size) */
+	is_sunlit = ! intersect_satsun_sphere(pos, sun.d_km, eray);
 
 /* Compute position delta_time seconds later to
    1. check if object enters the requested region,
@@ -972,10 +975,8 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		p.satname_filter ||
 		ang_sep <= p.search_radius || ang_sep1 <= p.search_radius ) {  /* good enough */
 	  line1[16] = '\0';
-	  double speed, posn_ang_of_motion, eray[2];
+	  double speed, posn_ang_of_motion;
 
-/* If satellite is in Sun light (this is preliminary. TODO to account for Sun angular size) */
-	  is_sunlit = ! intersect_satsun_sphere(pos, sun.d_km, eray);
 //printf("\n\n%s to Sun ray intersect Earth at %lf  %lf\n\n", sat_name, eray[0], eray[1]);
 	  if ( p.sunlit_only && ! is_sunlit )
 		continue;
-- 
2.43.0


From 1125dd25463376931d23e2b913f9669ebd7eb893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 23/60] fix: run_command repeated or mangled the list file name
 given as last argument

---
 src/sat_skymap.c     | 10 ++--------
 src/sat_visibility.c | 10 ++--------
 2 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 9aa05ad..2b163cb 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -284,12 +284,6 @@ void close_sats_json(bool info_only, int n_sats_found) {
 void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found, int n_sats, int n_sunlit_sats) {
   int iarg = 1;
   printf(" \"run_command\": \"%s", progname);
-  if ( input_list ) {
-	printf (" @");
-	print_json_str(argv[1]);
-	iarg++;
-  }
-
   for ( int i = iarg; i < argc; i++ ) {
 	putchar(' ');
 	print_json_str(argv[i]);
@@ -665,7 +659,7 @@ int main(int argc, char **argv)
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
 	//tle_list_file = ++argv[1];
-	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, ++argv[iarg]);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, argv[iarg] + 1);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
 		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
@@ -693,7 +687,7 @@ int main(int argc, char **argv)
 
   sbuff[0] = '\0';
 
-  p.tle_file_name = argv[iarg];
+  p.tle_file_name = argv[iarg] + (input_list ? 1 : 0);
 
   if ( p.single_sat_n || p.single_sat_i ) {
 	single_sat = true;
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 1266f54..8a8a667 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -433,12 +433,6 @@ void add_sundata_json(char *label) {
 void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found) {
   int iarg = 1;
   printf("\"run_command\": \"%s", progname);
-  if ( input_list ) {
-	printf (" @");
-	print_json_str(argv[1]);
-	iarg++;
-  }
-
   for ( int i = iarg; i < argc; i++ ) {
 	putchar(' ');
 	print_json_str(argv[i]);
@@ -787,7 +781,7 @@ int main(int argc, char **argv)
 
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
-	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, ++argv[iarg]);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, argv[iarg] + 1);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
 		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
@@ -795,7 +789,7 @@ int main(int argc, char **argv)
 	}
   }
 
-  p.tle_file_name = argv[iarg];
+  p.tle_file_name = argv[iarg] + (input_list ? 1 : 0);
 
   if ( !p.single_sat_n && !p.single_sat_i ) {
 	sprintf(errmsg, "Need to input a NORAD ID or an international designator.");
-- 
2.43.0


From 9387d9400e6145d0d2cba71aa8a261bdc5136ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 24/60] fix: CRLF and long rows of a list file named the wrong
 file

---
 src/sat_skymap.c     | 7 ++-----
 src/sat_visibility.c | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 2b163cb..8534cc2 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -644,7 +644,7 @@ int main(int argc, char **argv)
   observer_cartesian_coords(jd + p.delta_time / SEC_IN_DAY,
 	p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, observer_loc2);
  
-  const short fname_len = 64;
+  const short fname_len = 4200;
   char *s, row[fname_len], norad_name[7], tle_list_file[4200];
   FILE *lisfile, *ifile;
 
@@ -770,7 +770,6 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* Loop on list of tle files or simple open of single input file */
   while ( read_tle_list ) {
 
-    char *lastchar;
     if ( !input_list ) {
 	if ( strchr(p.tle_file_name, '/') == NULL )
 	  snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, p.tle_file_name);
@@ -784,9 +783,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  break;
 	if ( row[0] == '#' )  /* Skip lines with comments */
 	  continue;
-	lastchar = tle_file_name + strlen(tle_file_name) - 1;  /* Drop linefeeds, CR, ... */
-	if (*lastchar < 32)
-	  *lastchar = (char) 0;
+	trimend(tle_file_name);  /* Drop linefeeds, CR, ... */
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
 	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 8a8a667..d39def7 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -767,7 +767,7 @@ int main(int argc, char **argv)
   earth_lat_alt_to_parallax(p.lat * DEG2RAD, p.ht_in_meters, &rho_cos_phi, &rho_sin_phi);
   observer_cartesian_coords(jd[0], p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);
  
-  const short fname_len = 64;
+  const short fname_len = 4200;
   char row[fname_len], tle_list_file[4200];
   FILE *lisfile, *ifile = NULL;
 
@@ -806,7 +806,6 @@ int main(int argc, char **argv)
 /* Loop on list of tle files or simple open of single input file */
   while ( read_tle_list ) {
 
-    char *lastchar;
     if ( !input_list ) {
 	if ( strchr(p.tle_file_name, '/') == NULL )
 	  snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, p.tle_file_name);
@@ -820,9 +819,7 @@ int main(int argc, char **argv)
 	  break;
 	if ( row[0] == '#' )  /* Skip lines with comments */
 	  continue;
-	lastchar = tle_file_name + strlen(tle_file_name) - 1;  /* Drop linefeeds, CR, ... */
-	if (*lastchar < 32)
-	  *lastchar = (char) 0;
+	trimend(tle_file_name);  /* Drop linefeeds, CR, ... */
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
 	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
-- 
2.43.0


From d51ca43d75cf167d74531367fb0abcfd19e253c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:48 +0000
Subject: [PATCH 25/60] fix: -T after -D and -j after -d overrode the
 documented precedence

---
 src/sat_skymap.c     | 12 +++++++++---
 src/sat_visibility.c | 13 ++++++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 8534cc2..e7e906f 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -433,6 +433,8 @@ int main(int argc, char **argv)
 	 len_satname = 0;
   bool in_region = false,  /* used for single satellite request */
 	in_geopos = false,  /* make sure Geo location is passed */
+	tledir_given = false,  /* if a directory for the TLE files was given */
+	date_given = false,  /* if a calendar date was given */
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
 
@@ -535,21 +537,25 @@ int main(int argc, char **argv)
 		p.geoloc_requested = true;
 		break;
           case 'd':
+		date_given = true;
 		snprintf(p.date, sizeof(p.date), "%s", argv[i] + par_pos);
 		if ( date2mjd_nf(argv[i] + par_pos, &p.mjd) || strlen(argv[i] + par_pos) >= sizeof(p.date) )
 		  bad_value(argc, argv, opt, argv[i] + par_pos);
 		break;
  	  case 'D':
 		tle_path = argv[i] + par_pos;
-		p.use_deftledir = false;
+		tledir_given = true;
 		break;
           case 'i':
 		p.intl_desig = argv[i] + par_pos;
 		p.single_sat_i = true;
 		break;
           case 'j':
-		if ( !read_numbers(argv[i] + par_pos, 1, &p.mjd) || mjd2date(p.mjd) == NULL )
+		if ( !read_numbers(argv[i] + par_pos, 1, val) || mjd2date(val[0]) == NULL )
 		  bad_value(argc, argv, opt, argv[i] + par_pos);
+		if ( date_given )
+		  break;
+		p.mjd = val[0];
 		strcpy(p.date, mjd2date(p.mjd));
 		break;
           case 'l':
@@ -629,7 +635,7 @@ int main(int argc, char **argv)
   jd = JD_OFF + p.mjd;  // From MJD to JD
 
 /* Use default TLE repository dir. ? */
-  if ( p.use_deftledir )
+  if ( p.use_deftledir && !tledir_given )
 	tle_path = DEF_TLEDIR;
 
   if ( !in_geopos ) {
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index d39def7..a1b889f 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -617,6 +617,8 @@ int main(int argc, char **argv)
 	 target_ra_rad, target_dec_rad;
   int i, par_pos, par_len, status = 0, n_sats_found = 0;
   bool in_geopos = false,  /* make sure Geo location is passed */
+	tledir_given = false,  /* if a directory for the TLE files was given */
+	date_given = false,  /* if calendar dates were given */
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
 
@@ -691,18 +693,23 @@ int main(int argc, char **argv)
 		     argv[i][par_pos + par_len] != '\0' ||
 		     date2mjd_nf(p.date[0], &p.mjd[0]) || date2mjd_nf(p.date[1], &p.mjd[1]) )
 		  bad_value(argc, argv, opt, argv[i] + par_pos);
+		date_given = true;
 		break;
  	  case 'D':
 		tle_path = argv[i] + par_pos;
-		p.use_deftledir = false;
+		tledir_given = true;
 		break;
           case 'i':
 		p.intl_desig = argv[i] + par_pos;
 		p.single_sat_i = true;
 		break;
           case 'j':
-		if ( !read_numbers(argv[i] + par_pos, 2, p.mjd) || mjd2date(p.mjd[0]) == NULL || mjd2date(p.mjd[1]) == NULL )
+		if ( !read_numbers(argv[i] + par_pos, 2, val) || mjd2date(val[0]) == NULL || mjd2date(val[1]) == NULL )
 		  bad_value(argc, argv, opt, argv[i] + par_pos);
+		if ( date_given )
+		  break;
+		p.mjd[0] = val[0];
+		p.mjd[1] = val[1];
 		strcpy(p.date[0], mjd2date(p.mjd[0]));
 		strcpy(p.date[1], mjd2date(p.mjd[1]));
 		break;
@@ -755,7 +762,7 @@ int main(int argc, char **argv)
   jd[1] = JD_OFF + p.mjd[1];
 
 /* Use default TLE repository dir. ? */
-  if ( p.use_deftledir )
+  if ( p.use_deftledir && !tledir_given )
 	tle_path = DEF_TLEDIR;
 
   if ( !in_geopos ) {
-- 
2.43.0


From 35b28b9a03fe196ccc0fc9527555c2899d1d5fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:18 +0000
Subject: [PATCH 26/60] fix: the separation of antipodal directions could be
 NaN

---
 src/skysep_h.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skysep_h.c b/src/skysep_h.c
index a93a565..d5bf7f4 100644
--- a/src/skysep_h.c
+++ b/src/skysep_h.c
@@ -21,6 +21,6 @@ double skysep_h(const double theta1, const double phi1, const double theta2, con
   sin2a *= sin2a;
   sin2d = sin((phi2-phi1)/2.);
   sin2d *= sin2d;
-  return (2 * asin( sqrt(sin2d + cos(phi1)*cos(phi2)*sin2a) ) * RAD2DEG);
+  return (2 * asin( fmin(1., sqrt(sin2d + cos(phi1)*cos(phi2)*sin2a)) ) * RAD2DEG);
 }
 
-- 
2.43.0


From 5ba6b23b25ca53afc727ee1a7871956c584986b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:19 +0000
Subject: [PATCH 27/60] fix: precession moved declinations beyond the poles

---
 src/observe.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/observe.c b/src/observe.c
index d41d23b..ceac112 100644
--- a/src/observe.c
+++ b/src/observe.c
@@ -119,10 +119,15 @@ void DLL_FUNC epoch_of_date_to_j2000( const double jd, double *ra, double *dec)
   *ra -= t_centuries * ra_rate * 100.;
   *dec -= t_centuries * dec_rate * 100.;
 
+/* Moved across a pole */
+  *dec = remainder(*dec, TWOPI);
+  if ( fabs(*dec) > PI / 2. ) {
+	*dec = (*dec > 0. ? PI : -PI) - *dec;
+	*ra += PI;
+  }
+
 /* LN add: RA in 0 - 2pi range */
-  //*ra = fmod(*ra + PI*10., TWOPI);
+  *ra = fmod(*ra, TWOPI);
   if ( *ra < 0. ) 
 	*ra += TWOPI;
-  else if ( *ra >= TWOPI )
-	*ra -= TWOPI;
 }
-- 
2.43.0


From 8fea38528fa7e7780f5ed230082f32a1fe4125cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:21 +0000
Subject: [PATCH 28/60] fix: Greenwich sidereal time was negative before 2000

---
 src/lmst_hr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lmst_hr.c b/src/lmst_hr.c
index 789b91e..55c7655 100644
--- a/src/lmst_hr.c
+++ b/src/lmst_hr.c
@@ -37,6 +37,8 @@ double lmst_hr(const double jd, double longit, double *gmst)
   sid_g = ( 24110.54841 + t * (8640184.812866 + t * (0.093104 - t * 6.2E-6)) ) / SEC_IN_DAY;
   sid_int = sid_g;
   sid_g = sid_g - (double)sid_int;
+  if (sid_g < 0.)  /* before 2000 */
+	sid_g += 1.;
 //sid_g = sid_g + 1.0027379093 * ut - longit/24.;
   *gmst = sid_g + 1.00273790934 * ut;
   sid_g = *gmst + longit/360.;
-- 
2.43.0


From a0b530a30f3f8f3c75e1006ecdd2f35b6eebe0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:22 +0000
Subject: [PATCH 29/60] fix: altitude, azimuth and parallactic angle were wrong
 on the meridian, at the poles and for dec = latitude

---
 src/dechalat2alt.c | 46 +++++++++++++++-------------------------------
 1 file changed, 15 insertions(+), 31 deletions(-)

diff --git a/src/dechalat2alt.c b/src/dechalat2alt.c
index c2cde5a..eed5d84 100644
--- a/src/dechalat2alt.c
+++ b/src/dechalat2alt.c
@@ -21,45 +21,32 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
 
 
 /* Manage peculiar cases and calculate Azimuth */
-  if ( ha == 0. ) {
-	*az = 0.;
+  if ( ha == 0. ) {  /* due south if it culminates south of the zenith */
+	cosaz = (dec < lat ? -1. : 1.);
+	*az = (dec < lat ? 180. : 0.);
 	cosha = 1.;
-	cosaz = 1.;
 	sinha = 0.;
 	sinaz = 0.;
 	sinp  = 0.;
-	cosp = -1;
+	cosp = -cosaz;
 	sinlat = sin(lat);
   } else {
 	ha = ha * 15 * DEG2RAD;
 	cosha = cos(ha);
 	sinha = sin(ha);
-	if (coslat < 1e-6) {  /* very close to a pole: assume +/- 90 deg */
-	  coslat = 0.;
-	  if (lat < 0.)
-	    sinlat = -1.;
-	  else
-	    sinlat = 1.;
-          *az = ha;
-	  sinaz = sinha;
-	  cosaz = cosha;
-	  sinp  = 0.;
-	  cosp  = -1. * cosha*cosha - sinha*sinha;
-	} else {
-	  sinlat = sin(lat);
+	sinlat = sin(lat);
 
-          *az = atan2(-1. * cosdec*sinha, sindec*coslat - cosdec*cosha*sinlat);  /* due east, due north comp. */
+        *az = atan2(-1. * cosdec*sinha, sindec*coslat - cosdec*cosha*sinlat);  /* due east, due north comp. */
 
-	  sinaz = sin(*az);
-	  cosaz = cos(*az);
+	sinaz = sin(*az);
+	cosaz = cos(*az);
 
-	  *az *= RAD2DEG;  /* done with taking trig functions of it ... */
-          if (*az < 0.) *az += 360.;  /* force 0 -> 360 */
-          if (*az >= 360.) *az -= 360.;
-          if (cosdec != 0.) { /* protect divide by zero ... */
-	    sinp = -1. * sinaz * coslat / cosdec;
-	    cosp = -1. * cosaz * cosha - sinaz * sinha * sinlat;
-	  }
+	*az *= RAD2DEG;  /* done with taking trig functions of it ... */
+        if (*az < 0.) *az += 360.;  /* force 0 -> 360 */
+        if (*az >= 360.) *az -= 360.;
+        if (cosdec != 0.) { /* protect divide by zero ... */
+	  sinp = -1. * sinaz * coslat / cosdec;
+	  cosp = -1. * cosaz * cosha - sinaz * sinha * sinlat;
 	}
   }
 
@@ -74,8 +61,5 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
    }
 
 /* Altitude */
-  if ( fabs(dec - lat) < 1e-6 )
-	*alt = 90.;
-  else
-	*alt = RAD2DEG * asin(cosdec*cosha*coslat + sindec*sinlat);
+  *alt = RAD2DEG * asin(fmax(-1., fmin(1., cosdec*cosha*coslat + sindec*sinlat)));
 }
-- 
2.43.0


From bc22567e968e0f96e39fafea203778e5d72a1d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:52 +0000
Subject: [PATCH 30/60] fix: element angles without a following blank were read
 beyond the line

---
 src/get_el.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/get_el.c b/src/get_el.c
index 7b92ea7..1cd70d4 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -21,16 +21,14 @@ converted to radians,  all in one step.    */
 
 static int get_angle( const char *buff)
 {
-   int rval = 0;
-
-   while( *buff == ' ')
-      buff++;
-   while( *buff != ' ')
-      {
-      if( *buff != '.')
-         rval = rval * 10 + (int)( *buff - '0');
-      buff++;
-      }
+   int rval = 0, i = 0;
+   const int field_len = 8;
+
+   while( i < field_len && buff[i] == ' ')
+      i++;
+   for( ; i < field_len && buff[i] != ' '; i++)
+      if( buff[i] != '.')
+         rval = rval * 10 + (int)( buff[i] - '0');
    return( rval);
 }
 
-- 
2.43.0


From c0cf52c615ae64d613c56b8a6890487a2a17951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 31/60] fix: a non-digit exponent in a drag field looped for
 2^32 steps

---
 src/get_el.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/get_el.c b/src/get_el.c
index 1cd70d4..51e03b9 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -52,7 +52,7 @@ static double sci( const char *string)
       if( ival)
          {
          rval = (double)ival * 1.e-5;
-         if( string[7] != '0')
+         if( string[7] > '0' && string[7] <= '9')
             {
             int exponent = string[7] - '0';
 
-- 
2.43.0


From 9fc80c80fd86b1e46efd6e5cd3d42dedd7ba00a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 32/60] fix: a corrupt state-vector element set aborted the
 program

---
 src/get_el.c | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/get_el.c b/src/get_el.c
index 51e03b9..fe8b554 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -2,7 +2,6 @@
 
 #include <string.h>
 #include <stdint.h>
-#include <assert.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include "norad.h"
@@ -139,25 +138,24 @@ vx, vy, vz are in 10^-4 m/s,  range +/- 94% c.  The state vectors
 are in the geocentric ecliptic plane of date.  See 'sdp4.cpp' for
 a discussion of how they're actually used.  */
 
-static double get_high_value( const char *iptr)
+static int get_high_value( const char *iptr, double *value)
 {
    int64_t rval = 0;
+   int i, digit;
 
-   assert( *iptr == '+' || *iptr == '-');
-   if( *iptr == '+' || *iptr == '-')
+   if( *iptr != '+' && *iptr != '-')
+      return( -1);
+   for( i = 1; i < 9; i++)
       {
-      int i, digit;
-
-      for( i = 1; i < 9; i++)
-         {
-         digit = mutant_dehex( iptr[i]);
-         assert( digit >= 0);
-         rval = rval * (int64_t)36 + (int64_t)digit;
-         }
-      if( *iptr == '-')
-         rval = -rval;
+      digit = mutant_dehex( iptr[i]);
+      if( digit < 0)
+         return( -1);
+      rval = rval * (int64_t)36 + (int64_t)digit;
       }
-   return( (double)rval);
+   if( *iptr == '-')
+      rval = -rval;
+   *value = (double)rval;
+   return( 0);
 }
 
 /* Traditionally,  NORAD numbers were stored as five digits.  In 2020, new
@@ -329,8 +327,10 @@ int DLL_FUNC parse_elements( const char *line1, const char *line2, tle_t *sat)
 
          for( i = 0; i < 3; i++)
             {
-            state_vect[i]     = get_high_value( line1 + 33 + i * 10);
-            state_vect[i + 3] = get_high_value( line2 + 33 + i * 10) * 1e-4;
+            if( get_high_value( line1 + 33 + i * 10, state_vect + i)
+                || get_high_value( line2 + 33 + i * 10, state_vect + i + 3))
+               return( -5);
+            state_vect[i + 3] *= 1e-4;
             }
          return( 0);
          }
-- 
2.43.0


From 577466a44fcc7e0686469fcd764fe675c19d5ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 33/60] fix: select_ephemeris did not recognise the
 state-vector type 'H'

---
 src/basics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basics.c b/src/basics.c
index ebd3b88..319729b 100644
--- a/src/basics.c
+++ b/src/basics.c
@@ -37,7 +37,7 @@ double FMod2p( const double x)
 #define EPHEM_TYPE_SDP4       '3'
 #define EPHEM_TYPE_SGP8       '4'
 #define EPHEM_TYPE_SDP8       '5'
-#define EPHEM_TYPE_HIGH       'h'
+#define EPHEM_TYPE_HIGH       'H'
 
 /*------------------------------------------------------------------*/
 
-- 
2.43.0


From b11f221ae9ca95ba1e1b4abff4bea9d3bc50fd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:59 +0000
Subject: [PATCH 34/60] fix: an empty list file crashed sat_visibility and a
 long one ran out of open files

---
 src/sat_visibility.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index a1b889f..d64ffd6 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -612,7 +612,7 @@ void get_sat_PA_and_speed(double t_since) {
 int main(int argc, char **argv)
 {
   char errmsg[4400] = {""}, *tle_path = ".", line1[100], line2[100],
-	sat_name[25], tle_path_file[4200], opt, *endptr;  /* a path longer than PATH_MAX (4096) cannot be opened */
+	sat_name[25], tle_path_file[4200] = {""}, opt, *endptr;  /* a path longer than PATH_MAX (4096) cannot be opened */
   double val[3], jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad;
   int i, par_pos, par_len, status = 0, n_sats_found = 0;
@@ -776,7 +776,7 @@ int main(int argc, char **argv)
  
   const short fname_len = 4200;
   char row[fname_len], tle_list_file[4200];
-  FILE *lisfile, *ifile = NULL;
+  FILE *lisfile, *ifile;
 
   open_json();
 
@@ -874,13 +874,13 @@ int main(int argc, char **argv)
       }
     }  // end while fgets(line2 ...
 
+    fclose(ifile);
+
     if ( single_sat_found )
 	break;
 
   }  // end while read_tle_list
 
-  fclose(ifile);
-
   if ( !single_sat_found ) {
 	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
-- 
2.43.0


From 3897ac16ef5aea6c24c18e054b3ecfdbccc2886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 35/60] fix: sat_visibility used positions that could not be
 computed and left its output unclosed on late errors

---
 src/sat_visibility.c | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index d64ffd6..7cc8c74 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -430,6 +430,12 @@ void add_sundata_json(char *label) {
     sun.ra, sun.dec, sun.az, sun.alt, sun.lon, sun.parang, sun.ang_sep);
 }
 
+/* Close the satellite object when its visibility end could not be found */
+void close_sat_json(bool sunlit_start_found) {
+  if ( sunlit_start_found )
+	printf("\"sat_end\": null}, ");
+}
+
 void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found) {
   int iarg = 1;
   printf("\"run_command\": \"%s", progname);
@@ -582,6 +588,21 @@ void get_sun_data(double t, double target_ra_rad, double target_dec_rad, bool ge
 }
 
 
+/* Compute the satellite position at a given JD time. Return the SGP4 / SDP4 error code. */
+
+int get_sat_pos(double t, double *pos) {
+  double t_since = (t - tle.epoch) * 1440.;  /* From days to minutes */
+
+  if ( sat.is_deep ) {
+	SDP4_init(sat_params, &tle);
+	return SDP4(t_since, &tle, sat_params, pos, NULL);
+  }
+
+  SGP4_init(sat_params, &tle);
+  return SGP4(t_since, &tle, sat_params, pos, NULL);
+}
+
+
 /* Compute posn_ang_of_motion and speed given initial coords and a time > t_initial */
 
 void get_sat_PA_and_speed(double t_since) {
@@ -888,7 +909,15 @@ int main(int argc, char **argv)
   }
 
 
-   sat.is_deep = select_ephemeris(&tle);
+  int is_deep = select_ephemeris(&tle);
+
+  if ( is_deep < 0 ) {  /* Impossible elements */
+	sprintf(errmsg, "Could not decode TLE data");
+	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+	exit(1);
+  }
+
+  sat.is_deep = is_deep;
 
   double t_since, t_min_ang_dist = 0, min_ang_sep = 181, parang_sat,
 	mjd_sunlit_start = 0, mjd_sunlit_mid = 0, mjd_sunlit_end = 0,
@@ -937,12 +966,11 @@ int main(int argc, char **argv)
 
     t_since = (t - tle.epoch) * 1440.;  /* From days to minutes */
 
-    if ( sat.is_deep ) {
-	SDP4_init(sat_params, &tle);
-	SDP4(t_since, &tle, sat_params, pos, NULL);
-    } else {
-	SGP4_init(sat_params, &tle);
-	SGP4(t_since, &tle, sat_params, pos, NULL);
+    if ( IS_SXPX_ERR(get_sat_pos(t, pos)) || isnan(pos[0]) ) {  /* Decayed */
+	sprintf(errmsg, "Could not compute the satellite position at MJD %.5lf", t - JD_OFF);
+	close_sat_json(sunlit_start_found);
+	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+	exit(1);
     }
 
     if ( p.altrng_requested ) {
@@ -951,6 +979,7 @@ int main(int argc, char **argv)
 /* If altitude filter requested */
 	if ( geo.alt < p.alt_min || geo.alt > p.alt_max ) {
 	  sprintf(errmsg, "Satellite altitude out of requested range");
+	  close_sat_json(sunlit_start_found);
 	  close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 	  exit(1);
 	}
-- 
2.43.0


From bd3d94ef348639c068626df73257cf3b6a74814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:02 +0000
Subject: [PATCH 36/60] fix: visibility records mixed data of different
 instants

---
 src/sat_visibility.c | 84 +++++++++++++++++---------------------------
 1 file changed, 33 insertions(+), 51 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 7cc8c74..2d50ce8 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -603,18 +603,17 @@ int get_sat_pos(double t, double *pos) {
 }
 
 
-/* Compute posn_ang_of_motion and speed given initial coords and a time > t_initial */
-
-void get_sat_PA_and_speed(double t_since) {
-	double pos[3], ra1, dec1, d_ra, d_dec, dist_to_satellite;
-	if ( sat.is_deep ) {
-	  SDP4_init(sat_params, &tle);
-	  SDP4(t_since, &tle, sat_params, pos, NULL);
-	} else {
-	  SGP4_init(sat_params, &tle);
-	  SGP4(t_since, &tle, sat_params, pos, NULL);
-	}
-	get_satellite_ra_dec_delta(geo.observer_loc, pos, &ra1, &dec1, &dist_to_satellite);  /* Returned RA, Dec in radians */
+/* Compute posn_ang_of_motion and speed given the coords at time t (not precessed) and those delta_time later */
+
+void get_sat_PA_and_speed(double t, double rho_cos_phi, double rho_sin_phi) {
+	double pos[3], observer_loc2[3], ra1, dec1, d_ra, d_dec, dist_to_satellite;
+
+	t += p.delta_time / SEC_IN_DAY;
+	sat.parang = sat.speed = 0.;
+	if ( IS_SXPX_ERR(get_sat_pos(t, pos)) )
+	  return;
+	observer_cartesian_coords(t, p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, observer_loc2);
+	get_satellite_ra_dec_delta(observer_loc2, pos, &ra1, &dec1, &dist_to_satellite);  /* Returned RA, Dec in radians */
 	//-- epoch_of_date_to_j2000(t, &ra1, &dec1);  /* Do not apply precession */
 
 	d_ra = remainder(ra1 - sat.ra, TWOPI);  /* in the range -pi, pi */
@@ -919,13 +918,13 @@ int main(int argc, char **argv)
 
   sat.is_deep = is_deep;
 
-  double t_since, t_min_ang_dist = 0, min_ang_sep = 181, parang_sat,
+  double t_min_ang_dist = 0, min_ang_sep = 181, parang_sat,
 	mjd_sunlit_start = 0, mjd_sunlit_mid = 0, mjd_sunlit_end = 0,
 	pos[3],  /* Satellite position vector */
 	t = jd[0],
 	eray[2];  /* Sun-Earth ray intersection radius */
 
-  bool is_t_start = true, sunlit_start_found = false, sunlit_end_found = false;
+  bool sunlit_start_found = false, sunlit_end_found = false;
 
 
   p.de_deg = p.lat;
@@ -964,8 +963,6 @@ int main(int argc, char **argv)
     p.ra_deg = p.lmst * 15.;  
     target_ra_rad = p.lmst / RAD2HRS;
 
-    t_since = (t - tle.epoch) * 1440.;  /* From days to minutes */
-
     if ( IS_SXPX_ERR(get_sat_pos(t, pos)) || isnan(pos[0]) ) {  /* Decayed */
 	sprintf(errmsg, "Could not compute the satellite position at MJD %.5lf", t - JD_OFF);
 	close_sat_json(sunlit_start_found);
@@ -991,12 +988,6 @@ int main(int argc, char **argv)
 
     sat.ang_sep = skysep_h(target_ra_rad, target_dec_rad, sat.ra, sat.dec);
 
-/* Compute initial speed to be used to accelerate visibility search (TODO) */
-    if ( is_t_start ) {
-	is_t_start = false;
-	get_sat_PA_and_speed(t_since);
-    }
-
 /*
 printf("\nMJD, p.lmst, t_since, tle.epoch: %lf, %lf, %lf, %lf\n",t-JD_OFF, p.lmst, t_since, tle.epoch);
 printf("target_ra_rad, target_dec_rad, sat.ra, sat.dec, sat.ang_sep: %lf, %lf, %lf, %lf,  %lf\n", target_ra_rad*RAD2DEG, target_dec_rad*RAD2DEG, sat.ra*RAD2DEG, sat.dec*RAD2DEG, sat.ang_sep);
@@ -1005,6 +996,8 @@ epoch_of_date_to_j2000(t, &ra_tmp, &de_tmp);
 printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 */
 
+    get_sun_data(t, target_ra_rad, target_dec_rad, true);
+
     if ( sat.ang_sep > p.search_radius ) {
 	t += p.delta_time / SEC_IN_DAY;  // add deltaT
 	if ( !sunlit_start_found )
@@ -1012,8 +1005,6 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	break;
     }
 
-    get_sun_data(t, target_ra_rad, target_dec_rad, true);
-
 /* If satellite is sunlit (TODO to account for Sun angular size) */
     sat.is_sunlit = ! intersect_satsun_sphere(pos, sun.d_km, eray);
 //printf("\n%d - %s to Sun ray intersect Earth at %lf  %lf\n", (int)sat.is_sunlit, sat_name, eray[0], eray[1]);
@@ -1032,11 +1023,12 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 /* First time the satellite no longer sunlit */
 	if ( !sunlit_end_found ) {
 	  sunlit_end_found = true;
-	  mjd_sunlit_end = t - JD_OFF;
+	  mjd_sunlit_end = t - JD_OFF - p.delta_time / SEC_IN_DAY;
+	  get_sat_PA_and_speed(mjd_sunlit_end + JD_OFF, rho_cos_phi, rho_sin_phi);
 	  sat_geoLocation(pos);
 	  add_satlatlon_json("geoloc_end");
 	  add_sundata_json("sun_end");
-	  sat.cur_mjd = t - JD_OFF - p.delta_time / SEC_IN_DAY;
+	  sat.cur_mjd = mjd_sunlit_end;
 	  strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
 	  sat.ha = p.lmst - sat.ra * RAD2HRS;
 	  dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
@@ -1049,7 +1041,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 /* First time the satellite is sunlit */
     if ( !sunlit_start_found ) {
 	sunlit_start_found = true;
-	mjd_sunlit_start = t - JD_OFF;
+	mjd_sunlit_start = t - JD_OFF - p.delta_time / SEC_IN_DAY;
 
 	if ( !p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
@@ -1058,9 +1050,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 			tle.intl_desig, trimend(tle.intl_desig + 2));
 	}
 
-	t_since += p.delta_time * 1440. / SEC_IN_DAY;
-
-	get_sat_PA_and_speed(t_since);
+	get_sat_PA_and_speed(mjd_sunlit_start + JD_OFF, rho_cos_phi, rho_sin_phi);
 
 	add_fieldsdesc_json();
 	printf(" \"satellite\": ");
@@ -1073,7 +1063,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	sat_geoLocation(pos);
 	add_satlatlon_json("geoloc_start");
 	add_sundata_json("sun_start");
-	sat.cur_mjd = t - JD_OFF - p.delta_time / SEC_IN_DAY;
+	sat.cur_mjd = mjd_sunlit_start;
 	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
@@ -1091,6 +1081,8 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 /* Still sunlit at the end of the requested time range */
   if ( sunlit_start_found && !sunlit_end_found ) {
 	mjd_sunlit_end = t - JD_OFF;
+	get_satellite_ra_dec_delta(geo.observer_loc, pos, &sat.ra, &sat.dec, &sat.d_km);
+	get_sat_PA_and_speed(t, rho_cos_phi, rho_sin_phi);
 	sat_geoLocation(pos);
 	add_satlatlon_json("geoloc_end");
 	add_sundata_json("sun_end");
@@ -1111,15 +1103,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	p.ra_deg = p.lmst * 15.;
 	target_ra_rad = p.lmst / RAD2HRS;
 
-	t_since = (t - tle.epoch) * 1440.;
-	
-	if ( sat.is_deep ) {
-	  SDP4_init(sat_params, &tle);
-	  SDP4(t_since, &tle, sat_params, pos, NULL);
-	} else {
-	  SGP4_init(sat_params, &tle);
-	  SGP4(t_since, &tle, sat_params, pos, NULL);
-	}
+	get_sat_pos(t, pos);
 
 	sat_geoLocation(pos);
 
@@ -1129,10 +1113,13 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 
 	sat.ang_sep = skysep_h(target_ra_rad, target_dec_rad, sat.ra, sat.dec);
 
+	get_sat_PA_and_speed(t, rho_cos_phi, rho_sin_phi);
+
 	get_sun_data(t, target_ra_rad, target_dec_rad, false);
 	add_satlatlon_json("geoloc_mid");
 	add_sundata_json("sun_mid");
-	strcpy(sat.cur_date, mjd2date(mjd_sunlit_mid));
+	sat.cur_mjd = mjd_sunlit_mid;
+	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
@@ -1147,15 +1134,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	p.ra_deg = p.lmst * 15.;
 	target_ra_rad = p.lmst / RAD2HRS;
 
-	t_since = (t - tle.epoch) * 1440.;
-	
-	if ( sat.is_deep ) {
-	  SDP4_init(sat_params, &tle);
-	  SDP4(t_since, &tle, sat_params, pos, NULL);
-	} else {
-	  SGP4_init(sat_params, &tle);
-	  SGP4(t_since, &tle, sat_params, pos, NULL);
-	}
+	get_sat_pos(t, pos);
 
 	sat_geoLocation(pos);
 
@@ -1165,10 +1144,13 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 
 	sat.ang_sep = skysep_h(target_ra_rad, target_dec_rad, sat.ra, sat.dec);
 
+	get_sat_PA_and_speed(t, rho_cos_phi, rho_sin_phi);
+
 	get_sun_data(t, target_ra_rad, target_dec_rad, false);
 	add_satlatlon_json("geoloc_max");
 	add_sundata_json("sun_max");
-	strcpy(sat.cur_date, mjd2date(t - JD_OFF));
+	sat.cur_mjd = t - JD_OFF;
+	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
-- 
2.43.0


From 5c39932a28fb7e79a4ebc7f2c5aedf272059a65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:37 +0000
Subject: [PATCH 37/60] fix: names starting with a lone 1 or 2 were taken for
 element lines

---
 src/sat_skymap.c     | 2 +-
 src/sat_visibility.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index e7e906f..5005530 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -1034,7 +1034,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
       }  // end TLE found
 
       strcpy(line1, line2);
-      if ( (line2[0] != '1' && line2[0] != '2') || line2[1] != ' ' ) {
+      if ( (line2[0] != '1' && line2[0] != '2') || line2[1] != ' ' || strlen(line2) < 68 ) {  /* not an element line */
 	  copy_name(sat_name, line2);
       }
     }  // end while fgets(line2 ...
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 2d50ce8..dd73354 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -889,7 +889,7 @@ int main(int argc, char **argv)
       }  // end TLE found
 
       strcpy(line1, line2);
-      if ( (line2[0] != '1' && line2[0] != '2') || line2[1] != ' ' ) {
+      if ( (line2[0] != '1' && line2[0] != '2') || line2[1] != ' ' || strlen(line2) < 68 ) {  /* not an element line */
 	copy_name(sat_name, line2);
       }
     }  // end while fgets(line2 ...
-- 
2.43.0


From 775080b068509737e3d3afe41adf1702454aa552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 38/60] fix: the Moon's distance used the Sun's anomaly in a
 term of the Moon's

---
 src/sdp4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdp4.c b/src/sdp4.c
index 505b4bf..b99dd1a 100644
--- a/src/sdp4.c
+++ b/src/sdp4.c
@@ -66,7 +66,7 @@ static void lunar_solar_position( const double jd, double *lunar_xyzr, double *s
                          - 20905355. * cos( m_prime)
                          -  3699111. * cos( term2)
                          -  2955968  * cos( 2. * lunar_mean_elong)
-                         -   569925  * cos( 2. * m_solar);
+                         -   569925  * cos( 2. * m_prime);
    const double solar_ecc = 0.016708634;     /* (25.4) */
    const double solar_lon = l_solar          /* (above (25.5)) */
                         + (1.914602 * pi / 180.) * sin( m_solar);
-- 
2.43.0


From 7aa941a925076c4d9926c2a4873da3cab63c957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:49 +0000
Subject: [PATCH 39/60] fix: the zenith formulas' sidereal time lost a tenth of
 a second to float constants

---
 src/zenith_site_ra.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/zenith_site_ra.c b/src/zenith_site_ra.c
index b95c5c8..5cc4527 100644
--- a/src/zenith_site_ra.c
+++ b/src/zenith_site_ra.c
@@ -34,13 +34,13 @@ void ut2gmst(double ut1, double *gmst)
   T0 = (jd0 - JD2000)/36525.0;
 
 /* Greenwich Mean Sidereal Time at 0h UT of date */
-  *gmst = (((-2.0e-6*T0 - 3.e-7)*T0 + 9.27701e-2)*T0 + 8640184.7942063F)*T0
-          + 24110.54841F;
+  *gmst = (((-2.0e-6*T0 - 3.e-7)*T0 + 9.27701e-2)*T0 + 8640184.7942063)*T0
+          + 24110.54841;
 #ifdef DEBUG
 printf("GMST0: %lf\n", *gmst);
 #endif
   msday = (((-(4. * 2.0e-6)*T0 - (3. * 3.e-7))*T0 + (2. * 9.27701e-2))*T0
-          + 8640184.7942063F)/(SEC_IN_DAY*36525.) + 1.0;
+          + 8640184.7942063)/(SEC_IN_DAY*36525.) + 1.0;
 
 /* GMST at this UT (in hours) */
   *gmst += msday*secs;
-- 
2.43.0


From aefba44ff3c6d01422f724a83a1543d7ae72994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:18 +0000
Subject: [PATCH 40/60] fix: npix2nside64 loses integer precision for large
 pixel counts

---
 HealpixC/chealpix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index d6e89c0..07cd643 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -820,7 +820,7 @@ static void pix2ang_nest_z_phi64 (int64_t nside_, int64_t pix, double *z,
 
 long npix2nside64(int64_t npix)
   {
-  int64_t res = isqrt64(npix/12.);
+  int64_t res = isqrt64(npix/12);
   return (res*res*12==npix) ? (long)res : -1;
   }
 
-- 
2.43.0


From bd029b85621b15081a2ccb2c63dadb4c64449207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:18 +0000
Subject: [PATCH 41/60] fix: read_healpix_map keeps infinite, denormal and
 negative zero pixels

---
 HealpixC/chealpix.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index 07cd643..1490633 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -942,9 +942,9 @@ float *read_healpix_map(const char *infile, long *nside, char *coordsys,
   char *ordering)
   {
   /* Local Declarations */
-  long     naxes, *naxis, npix;
+  long     naxes, *naxis, npix, ipix;
   int      status=0, hdutype, nfound, anynul;
-  float    nulval, *map;
+  float    *map;
   fitsfile *fptr;
 
   fits_open_file(&fptr, infile, READONLY, &status);
@@ -982,9 +982,12 @@ float *read_healpix_map(const char *infile, long *nside, char *coordsys,
 
   /* Read the array */
   map = RALLOC(float,npix);
-  nulval = HEALPIX_NULLVAL;
-  fits_read_col(fptr, TFLOAT, 1, 1, 1, npix, &nulval, map, &anynul, &status);
+  /* No null checking by cfitsio: it would also replace infinite values and
+     flush denormals and negative zeros. Only undefined values (NaN) are null. */
+  fits_read_col(fptr, TFLOAT, 1, 1, 1, npix, NULL, map, &anynul, &status);
   printerror(status);
+  for (ipix=0; ipix<npix; ++ipix)
+    if (isnan(map[ipix])) map[ipix] = HEALPIX_NULLVAL;
 
   DEALLOC(naxis);
 
-- 
2.43.0


From 4624c2fdbfd80212f751e1a84ca6c0bed695ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:46 +0000
Subject: [PATCH 42/60] fix: directions at |z| = 2/3 or just below 2 pi were
 assigned to wrong or non-existing pixels

---
 HealpixC/chealpix.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index 1490633..1b78eb7 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -239,8 +239,12 @@ static int ang2pix_nest_z_phi (long nside_, double z, double phi)
     {
     double temp1 = nside_*(0.5+tt);
     double temp2 = nside_*(z*0.75);
+    if (temp1>=4.5*nside_) temp1 -= 4.*nside_; /* phi rounded up to 2 pi */
     int jp = (int)(temp1-temp2); /* index of  ascending edge line */
     int jm = (int)(temp1+temp2); /* index of descending edge line */
+    /* rounding at |z|=2/3 must not lead past the ends of the edge lines */
+    if (jm-jp>nside_) jm = jp+nside_;
+    if (jp-jm>nside_) jp = jm+nside_;
     int ifp = jp/nside_;  /* in {0,4} */
     int ifm = jm/nside_;
     face_num = (ifp==ifm) ? (ifp|4) : ((ifp<ifm) ? ifp : (ifm+8));
@@ -288,6 +292,9 @@ static int ang2pix_ring_z_phi (long nside_, double z, double phi)
     double temp2 = nside_*z*0.75;
     int jp = (int)(temp1-temp2); /* index of  ascending edge line */
     int jm = (int)(temp1+temp2); /* index of descending edge line */
+    /* rounding at |z|=2/3 must not lead past the ends of the edge lines */
+    if (jm-jp>nside_) jm = jp+nside_;
+    if (jp-jm>nside_) jp = jm+nside_;
 
     /* ring number counted from z=2/3 */
     int ir = nside_ + 1 + jp - jm; /* in {1,2n+1} */
@@ -307,6 +314,7 @@ static int ang2pix_ring_z_phi (long nside_, double z, double phi)
     int jm = (int)((1.0-tp)*tmp); /* decreasing edge line index */
 
     int ir = jp+jm+1; /* ring number counted from the closest pole */
+    if (ir>nside_) ir = nside_; /* for points too close to the boundary */
     int ip = (int)(tt*ir); /* in {0,4*ir-1} */
     ip = imodulo(ip,4*ir);
 
@@ -647,8 +655,12 @@ static int64_t ang2pix_nest_z_phi64 (int64_t nside_, double z, double s,
     {
     double temp1 = nside_*(0.5+tt);
     double temp2 = nside_*(z*0.75);
+    if (temp1>=4.5*nside_) temp1 -= 4.*nside_; /* phi rounded up to 2 pi */
     int64_t jp = (int64_t)(temp1-temp2); /* index of  ascending edge line */
     int64_t jm = (int64_t)(temp1+temp2); /* index of descending edge line */
+    /* rounding at |z|=2/3 must not lead past the ends of the edge lines */
+    if (jm-jp>nside_) jm = jp+nside_;
+    if (jp-jm>nside_) jp = jm+nside_;
     int64_t ifp = jp/nside_;  /* in {0,4} */
     int64_t ifm = jm/nside_;
     face_num = (ifp==ifm) ? (ifp|4) : ((ifp<ifm) ? ifp : (ifm+8));
@@ -700,6 +712,9 @@ static int64_t ang2pix_ring_z_phi64 (int64_t nside_, double z, double s,
     double temp2 = nside_*z*0.75;
     int64_t jp = (int64_t)(temp1-temp2); /* index of  ascending edge line */
     int64_t jm = (int64_t)(temp1+temp2); /* index of descending edge line */
+    /* rounding at |z|=2/3 must not lead past the ends of the edge lines */
+    if (jm-jp>nside_) jm = jp+nside_;
+    if (jp-jm>nside_) jp = jm+nside_;
 
     /* ring number counted from z=2/3 */
     int64_t ir = nside_ + 1 + jp - jm; /* in {1,2n+1} */
@@ -719,6 +734,7 @@ static int64_t ang2pix_ring_z_phi64 (int64_t nside_, double z, double s,
     int64_t jm = (int64_t)((1.0-tp)*tmp); /* decreasing edge line index */
 
     int64_t ir = jp+jm+1; /* ring number counted from the closest pole */
+    if (ir>nside_) ir = nside_; /* for points too close to the boundary */
     int64_t ip = (int64_t)(tt*ir); /* in {0,4*ir-1} */
     ip = imodulo64(ip,4*ir);
 
-- 
2.43.0


From b355e46a08a0916e8cc8a12893fb04d817595832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:07 +0000
Subject: [PATCH 43/60] fix: sat_visibility start and end positions precessed
 from the date of the next sample

---
 src/sat_visibility.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index dd73354..491d8cb 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -1032,7 +1032,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	  strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
 	  sat.ha = p.lmst - sat.ra * RAD2HRS;
 	  dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
-	  epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
+	  epoch_of_date_to_j2000(mjd_sunlit_end + JD_OFF, &sat.ra, &sat.dec);  /* Approx precession */
 	  add_satdata_json("sat_end");
 	  break;
       }
@@ -1067,7 +1067,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
-	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
+	epoch_of_date_to_j2000(mjd_sunlit_start + JD_OFF, &sat.ra, &sat.dec);  /* Approx precession */
 	add_satdata_json("sat_start");
 	  n_sats_found++;
 
-- 
2.43.0


From 4b1d7637beda18536764d3d9b473ee76bdcf3f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:59 +0000
Subject: [PATCH 44/60] fix: date2mjd_nf rounded the fraction of day to single
 precision (up to 3 ms)

---
 src/date2mjd_nf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/date2mjd_nf.c b/src/date2mjd_nf.c
index 3322764..13d56a5 100644
--- a/src/date2mjd_nf.c
+++ b/src/date2mjd_nf.c
@@ -42,7 +42,7 @@ int date2mjd_nf(const char *date, double *mjd) {
     *mjd = b + floor(365.25 * y) + floor(30.6001 * (m + 1)) + d + 1720994.5;
 //printf("mjd 1: %lf\n", *mjd);
 //printf("%f\n", roundf((s + 60 * (mm + 60 * h)) / 86400. * 100000)/100000);
-    *mjd += roundf((s + fs + 60 * (mm + 60 * h)) / 86400. * 100000) / 100000;
+    *mjd += round((s + fs + 60 * (mm + 60 * h)) / 86400. * 100000) / 100000;
 
     *mjd -= JD_OFF;
 
-- 
2.43.0


From 497f84f67636a55b4bbba495b005da5dd82bfba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:35 +0000
Subject: [PATCH 45/60] fix: sat_skymap answered an empty list of TLE files
 with an empty success

---
 src/sat_skymap.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 5005530..1d9c27d 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -426,7 +426,7 @@ void sat_geoLocation(double gmst, double *pos,  Geoloc *geo) {
 int main(int argc, char **argv)
 {
   char errmsg[4400] = {""}, *tle_path = ".", line1[100], line2[100],
-	sat_name[25], tle_path_file[4200], opt, *endptr;  /* a path longer than PATH_MAX (4096) cannot be opened */
+	sat_name[25], tle_path_file[4200] = {""}, opt, *endptr;  /* a path longer than PATH_MAX (4096) cannot be opened */
   double val[3], jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
 	 target_ra, target_dec, target_lon = 0, target_lat = 0;
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
@@ -1042,6 +1042,12 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
     fclose(ifile);
   }  // end while read_tle_list
 
+  if ( tle_path_file[0] == '\0' ) {  /* Empty list (or only comments) */
+	snprintf(errmsg, sizeof(errmsg), "No TLE file given in list %s", tle_list_file);
+  	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+	exit(-2);
+  }
+
 
 end_checking:
   n_sats = n_sats_found;  /* This is TODO using HEALPix IDs */
-- 
2.43.0


From f9e3fc7e80586d98f992d776f49c4760e9e26f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:08 +0000
Subject: [PATCH 46/60] fix: tle_satcount.sh counted a fraction of an entry
 less when the last line has no newline

---
 scripts/tle_satcount.sh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/tle_satcount.sh b/scripts/tle_satcount.sh
index 3ac284c..7650041 100755
--- a/scripts/tle_satcount.sh
+++ b/scripts/tle_satcount.sh
@@ -45,7 +45,7 @@ tlesdeb=( 1982-092 1999-025 iridium-33-debris cosmos-2251-debris )
 for TLE_NAME in "${tlesmain[@]}"
 do
 	TLE=$TLE_NAME".txt"
-	wc -l $TLE | awk '{print substr($2, 0, index($2, ".")-1)" "$1/3}' | tee -a $OUTFILE
+	grep -Hc '' $TLE | tr : ' ' | awk '{print substr($1, 0, index($1, ".")-1)" "$2/3}' | tee -a $OUTFILE
 
 	sed -n 3~3p $TLE | cut -d " " -f 2 >> ${OUTFILE_NORAD}_tmp
 done
@@ -53,7 +53,7 @@ done
 for TLE_NAME in "${tlessupp[@]}"
 do
 	TLE=$TLE_NAME".txt"
-	wc -l $TLE | awk '{print substr($2, 0, index($2, ".")-1)" "$1/3}' | tee -a $OUTFILE
+	grep -Hc '' $TLE | tr : ' ' | awk '{print substr($1, 0, index($1, ".")-1)" "$2/3}' | tee -a $OUTFILE
 
 	sed -n 3~3p $TLE | cut -d " " -f 2 >> ${OUTFILE_NORAD}_tmp
 done
@@ -62,7 +62,7 @@ done
 for TLE_NAME in "${tlesdeb[@]}"
 do
 	TLE=$TLE_NAME".txt"
-	wc -l $TLE | awk '{print substr($2, 0, index($2, ".")-1)" "$1/3}' | tee -a $OUTFILE_DEB
+	grep -Hc '' $TLE | tr : ' ' | awk '{print substr($1, 0, index($1, ".")-1)" "$2/3}' | tee -a $OUTFILE_DEB
 done
 
 # Count "unique" NORAD IDs
-- 
2.43.0


From 118c17f80f6f600fc776ff72c31f2ef3cacef5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:08 +0000
Subject: [PATCH 47/60] fix: tle_satcount.sh worked on the current directory
 when the given one has blanks, and counted leftovers of an interrupted run

---
 scripts/tle_satcount.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/tle_satcount.sh b/scripts/tle_satcount.sh
index 7650041..5a51bd1 100755
--- a/scripts/tle_satcount.sh
+++ b/scripts/tle_satcount.sh
@@ -27,10 +27,10 @@ else
 fi
 
 # Goto TLE dir
-cd $TLEDIR
+cd "$TLEDIR" || exit 1
 
 # Remove old log files (if they exist)
-rm -f $OUTFILE $OUTFILE_DEB $OUTFILE_NORAD
+rm -f $OUTFILE $OUTFILE_DEB $OUTFILE_NORAD ${OUTFILE_NORAD}_tmp
 
 # List of most relevant TLE files, excluding debris
 tlesmain=( last-30-days stations visual active analyst weather noaa goes resource sarsat dmc tdrss argos spire geo iridium iridium-NEXT globalstar swarm amateur x-comm other-comm satnogs gorizont raduga molniya gnss gps-ops glo-ops galileo beidou sbas nnss musson science geodetic engineering education military radar cubesat other gpz gpz-plus )
-- 
2.43.0


From 7faa1bf3cea0badaf77d35d3c6e33596041c3d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:37 +0000
Subject: [PATCH 48/60] fix: SGP8 gave no position for a nearly circular orbit
 with strong drag (0/0)

---
 src/sgp8.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sgp8.c b/src/sgp8.c
index 43c6b01..7b00a29 100644
--- a/src/sgp8.c
+++ b/src/sgp8.c
@@ -186,9 +186,9 @@ void DLL_FUNC SGP8_init( double *params, const tle_t *tle)
       etddt = (eddot+edot*2.*tsdtts)*tsi*s_const+tsddts*eta;
       r1 = tsdtts;
       d18 = tsddts-r1*r1;
-      r1 = psdtps;
+      r1 = etdt*psim2;        /* = -psdtps/eta, also for a circular orbit */
       rr2 = psdtps;
-      d19 = -(r1*r1)/eta2-eta*etddt*psim2-rr2*rr2;
+      d19 = -(r1*r1)-eta*etddt*psim2-rr2*rr2;
       d23 = etdt*etdt;
       d1ddt = d1dt*(d14+d15)+d1*(d18-d19*2.+two_thirds*d17+
          (alpha2*d25/deep_arg.betao2+tle->eo*eddot)*2./deep_arg.betao2);
@@ -213,7 +213,12 @@ void DLL_FUNC SGP8_init( double *params, const tle_t *tle)
       pp = (temp+r1*r1)/temp;
       gamma = -xntrdt/(xnddt*(pp-2.));
       xnd = xndt/(pp*gamma);
-      qq = 1.-eddot/(edot*gamma);
+      /* the power law cannot follow an eccentricity that hardly changes */
+      /* (nearly circular orbits): a linear variation is used instead    */
+      if( fabs( eddot) < 100.*fabs( edot*gamma))
+         qq = 1.-eddot/(edot*gamma);
+      else
+         qq = 1.;
       ed = edot/(qq*gamma);
       ovgpp = 1./(gamma*(pp+1.));
       }
-- 
2.43.0


From deb2dd470b115f2b735e0147b25ff7797f116da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 49/60] fix: report a site height too large for the
 computations

---
 src/sat_skymap.c     | 2 +-
 src/sat_visibility.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 1d9c27d..3c5ab7d 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -563,7 +563,7 @@ int main(int argc, char **argv)
 		  p.ht_in_meters = val[2];
 		else if ( !read_numbers(argv[i] + par_pos, 2, val) )  /* default height */
 		  bad_value(argc, argv, opt, argv[i] + par_pos);
-		if ( fabs(val[1]) > 360. )
+		if ( fabs(val[1]) > 360. || fabs(p.ht_in_meters) > 1e12 )
 		  bad_value(argc, argv, opt, argv[i] + par_pos);
 		p.lat = val[0];
 		p.lon = val[1];
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 491d8cb..2bd5e37 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -738,7 +738,7 @@ int main(int argc, char **argv)
 		  p.ht_in_meters = val[2];
 		else if ( !read_numbers(argv[i] + par_pos, 2, val) )  /* default height */
 		  bad_value(argc, argv, opt, argv[i] + par_pos);
-		if ( fabs(val[1]) > 360. )
+		if ( fabs(val[1]) > 360. || fabs(p.ht_in_meters) > 1e12 )
 		  bad_value(argc, argv, opt, argv[i] + par_pos);
 		p.lat = val[0];
 		p.lon = val[1];
-- 
2.43.0


From 1cd134d6969842a43e89c7e4a50c9bf4247979d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:19 +0000
Subject: [PATCH 50/60] fix: the check sum of a line of 68 characters was read
 beyond its end

---
 src/get_el.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/get_el.c b/src/get_el.c
index fe8b554..662a29b 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -91,8 +91,8 @@ int DLL_FUNC tle_checksum( const char *buff)
          return( -2);
       buff++;
       }
-   rval -= *buff++ - '0';
-   if( *buff > ' ')                 /* line unterminated */
+   rval -= *buff - '0';
+   if( *buff && buff[1] > ' ')      /* line unterminated */
       rval = -3;
    else
       {
-- 
2.43.0


From 8ce80362db3df451d9f2925186efa66a45fe4dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 51/60] fix: undo the clamp in skysep_h, whose argument never
 exceeds one

---
 src/skysep_h.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skysep_h.c b/src/skysep_h.c
index d5bf7f4..a93a565 100644
--- a/src/skysep_h.c
+++ b/src/skysep_h.c
@@ -21,6 +21,6 @@ double skysep_h(const double theta1, const double phi1, const double theta2, con
   sin2a *= sin2a;
   sin2d = sin((phi2-phi1)/2.);
   sin2d *= sin2d;
-  return (2 * asin( fmin(1., sqrt(sin2d + cos(phi1)*cos(phi2)*sin2a)) ) * RAD2DEG);
+  return (2 * asin( sqrt(sin2d + cos(phi1)*cos(phi2)*sin2a) ) * RAD2DEG);
 }
 
-- 
2.43.0


From b3e1ddd5b75847786d16520d1cafdff006543adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 52/60] fix: tle_retrieve.sh replaced a TLE file by the part of
 it received when the transfer broke off

---
 scripts/tle_retrieve.sh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index 6ad85f5..ac0bda8 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -52,7 +52,7 @@ do
 	echo -n "===> $TLE_NAME ..." | tee -a $LOGFILE
 
 	TLE=$TLE_NAME".txt"
-	if [ `curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "$URL$TLE_NAME"` -eq 200 ]; then  # Check for success code
+	if CODE=`curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "$URL$TLE_NAME"` && [ "$CODE" -eq 200 ]; then  # Check for complete transfer and success code
 		mv $TMPFILE $TLE
 		echo retrieved. | tee -a $LOGFILE
 	else
@@ -79,7 +79,7 @@ do
 	echo -n "===> $TLE_NAME ..." | tee -a $LOGFILE
 
 	TLE=$TLE_NAME".txt"
-	if [ `curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME $URLSUPP$TLE_NAME` -eq 200 ]; then
+	if CODE=`curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME $URLSUPP$TLE_NAME` && [ "$CODE" -eq 200 ]; then
 		if [ $TLE_NAME = iridium ]; then
 			mv $TMPFILE iridium-NEXT.txt
 		else
@@ -108,7 +108,7 @@ do
 	echo -n "===> $TLE_NAME ..." | tee -a $LOGFILE
 
 	TLE=$TLE_NAME".txt"
-	if [ `curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "$URL$TLE_NAME"` -eq 200 ]; then
+	if CODE=`curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "$URL$TLE_NAME"` && [ "$CODE" -eq 200 ]; then
 		mv $TMPFILE $TLE
 		echo retrieved. | tee -a $LOGFILE
 	else
@@ -121,7 +121,7 @@ done
 # TLE files with different url/extension name (in Communications Satellites section)
   echo -n "===> SPECIAL gpz ..." | tee -a $LOGFILE
 
-  if [ `curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "${URLS}gpz"` -eq 200 ]; then
+  if CODE=`curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "${URLS}gpz"` && [ "$CODE" -eq 200 ]; then
 	mv $TMPFILE gpz.txt
 	echo retrieved. | tee -a $LOGFILE
   else
@@ -129,7 +129,7 @@ done
   fi
 
   echo -n "===> SPECIAL gpz-plus ..." | tee -a $LOGFILE
-  if [ `curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "${URLS}gpz-plus"` -eq 200 ]; then
+  if CODE=`curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "${URLS}gpz-plus"` && [ "$CODE" -eq 200 ]; then
 	mv $TMPFILE gpz-plus.txt
 	echo retrieved. | tee -a $LOGFILE
   else
-- 
2.43.0


From e941610c14ae5628201781e6178ae2925abc567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 53/60] fix: tle_retrieve.sh worked on the current directory
 when the given one does not exist or has blanks, and missed the daily sets of
 a relative one

---
 scripts/tle_retrieve.sh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index ac0bda8..a5e2b05 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -40,7 +40,7 @@ else
 fi
 
 # Goto destination directory
-cd $OUTDIR
+cd "$OUTDIR" || exit 1
 
 # List of most relevant TLE files
 tlesmain=( last-30-days stations visual active analyst weather noaa goes resource sarsat dmc tdrss argos spire geo iridium iridium-NEXT globalstar swarm amateur x-comm other-comm satnogs gorizont raduga molniya gnss gps-ops glo-ops galileo beidou sbas nnss musson science geodetic engineering education military radar cubesat other )
@@ -146,7 +146,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
 
 
 # Add Gaia TLE from 2025 list (see https://github.com/Bill-Gray/tles/ => 13074a25.tle)
-  if [ ! -f $OUTDIR/gaia_2025.txt ]; then
+  if [ ! -f gaia_2025.txt ]; then
 	echo To have Gaia TLEs move gaia_2025.txt from the scripts to the TLE dir.
   else
 # Use approx int MJD. See also the C code in src directory.
@@ -155,7 +155,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
   fi
 
 # Add James Webb TLE from 2025 list (see https://github.com/Bill-Gray/tles/ => 21130a25.tle)
-  if [ ! -f $OUTDIR/jwt_2025.txt ]; then
+  if [ ! -f jwt_2025.txt ]; then
 	echo To have JWT TLEs move jwt_2025.txt from the scripts to the TLE dir.
   else
 # Use approx int MJD. See also the C code in src directory.
@@ -164,7 +164,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
   fi
 
 # Add EUCLID TLE from 2025 list (see https://github.com/Bill-Gray/tles/ => 23092a25.tle)
-  if [ ! -f $OUTDIR/euclid_2025.txt ]; then
+  if [ ! -f euclid_2025.txt ]; then
 	echo To have JWT TLEs move euclid_2025.txt from the scripts to the TLE dir.
   else
 # Use approx int MJD. See also the C code in src directory.
@@ -173,7 +173,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
   fi
 
 # Add JUICE TLE from 2024 list (see https://github.com/Bill-Gray/tles/ => 23053a.tle - 2025 not present)
-  if [ ! -f $OUTDIR/juice_2024.txt ]; then
+  if [ ! -f juice_2024.txt ]; then
 	echo To have JUICE TLEs move juice_2024.txt from the scripts to the TLE dir.
   else
 # Use approx int MJD. See also the C code in src directory.
-- 
2.43.0


From eec496d1bf230c690ecbb4e05ea0aa4b84418870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 54/60] fix: tle_retrieve.sh replaced gps-ops.txt by an older
 gps.txt left by an interrupted run

---
 scripts/tle_retrieve.sh | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index a5e2b05..551885b 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -82,6 +82,8 @@ do
 	if CODE=`curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME $URLSUPP$TLE_NAME` && [ "$CODE" -eq 200 ]; then
 		if [ $TLE_NAME = iridium ]; then
 			mv $TMPFILE iridium-NEXT.txt
+		elif [ $TLE_NAME = gps ]; then  # Patch for gps file name mismatch
+			mv $TMPFILE gps-ops.txt
 		else
 			mv $TMPFILE $TLE
 		fi
@@ -93,13 +95,6 @@ do
 
 done
 
-# Patch for gps file name mismatch
-if [ -f gps.txt ]; then
-	mv gps.txt gps-ops.txt
-fi
-
-
-
 # List of Debris TLE files
 tlesdeb=( 1982-092 1999-025 iridium-33-debris cosmos-2251-debris )  # 2019-006 replaced with 1982-092
 
-- 
2.43.0


From f2d9035d6ca8182bad813aee61c74b166fa7a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 55/60] fix: tle_retrieve.sh counted the satellites of the
 default directory instead of the given one

---
 scripts/tle_retrieve.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index 551885b..e646b8d 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -180,6 +180,6 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
 #
 # Produce the updated list of number of sats in the TLE file. Comment out if not needed.
 #
-$BINDIR/tle_satcount.sh
+$BINDIR/tle_satcount.sh .
 
 date | tee -a $LOGFILE
-- 
2.43.0


From d92559601b6a090366b5c4efa73727465fd20823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 56/60] fix: the ALL_merged lists named two files that are no
 longer retrieved

---
 ALL_merged.lis       | 4 ++--
 ALL_merged_nodeb.lis | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ALL_merged.lis b/ALL_merged.lis
index be89cde..b513a77 100644
--- a/ALL_merged.lis
+++ b/ALL_merged.lis
@@ -1,7 +1,7 @@
 active.txt
 visual.txt
 stations.txt
-tle-new.txt
+last-30-days.txt
 analyst.txt
 weather.txt
 noaa.txt
@@ -48,7 +48,7 @@ cubesat.txt
 other.txt
 gpz.txt
 gpz-plus.txt
-2019-006.txt
+1982-092.txt
 1999-025.txt
 iridium-33-debris.txt
 cosmos-2251-debris.txt
diff --git a/ALL_merged_nodeb.lis b/ALL_merged_nodeb.lis
index 97a7f8e..3f242b1 100644
--- a/ALL_merged_nodeb.lis
+++ b/ALL_merged_nodeb.lis
@@ -1,7 +1,7 @@
 active.txt
 visual.txt
 stations.txt
-tle-new.txt
+last-30-days.txt
 analyst.txt
 weather.txt
 noaa.txt
-- 
2.43.0


From 30efce241bf794d3ad992b60d21c5fa89b9c582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 57/60] fix: keep the Lyddane node change within half a turn
 however far the node has moved

---
 src/deep.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/deep.c b/src/deep.c
index 4cb41da..9b45588 100644
--- a/src/deep.c
+++ b/src/deep.c
@@ -748,10 +748,8 @@ void Deep_dpper( const tle_t *tle, deep_arg_t *deep_arg)
        /* by Rob Matson, streamlined very slightly by BJG, to */
        /* keep 'delta_xnode' between +/- 180 degrees: */
 
-      if( delta_xnode < - pi)
-         delta_xnode += twopi;
-      else if( delta_xnode > pi)
-         delta_xnode -= twopi;
+      if( fabs( delta_xnode) > pi)
+         delta_xnode -= twopi * floor( delta_xnode / twopi + .5);
 
       dls = -deep_arg->xnode * sinis * deep_arg->pinc;
 #ifdef SPACETRACK_3
-- 
2.43.0


From d6cab6e45c6b7d1d532bb27dff61e46883645c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 58/60] fix: the apparent sidereal time could leave the range
 of 0 to 24 hours

---
 src/zenith_site_ra.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zenith_site_ra.c b/src/zenith_site_ra.c
index 5cc4527..1167870 100644
--- a/src/zenith_site_ra.c
+++ b/src/zenith_site_ra.c
@@ -66,6 +66,10 @@ void ut2gast(double ut1, double *gast)
 
 // GAST at this UT (in hours)
   *gast = gmst + eqeq/3600.;
+  if ( *gast < 0. )
+	*gast += 24.;
+  else if ( *gast >= 24. )
+	*gast -= 24.;
 
 #ifdef DEBUG
 printf("gmst, eqeq, gast: %lf, %lf, %lf\n", gmst, eqeq/3600., *gast);
-- 
2.43.0


From 2825e3ac9db55be3236b4716f3e041a780f6f21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:09 +0000
Subject: [PATCH 59/60] fix: SGP8 with strong drag on a nearly circular orbit
 could give a large eccentricity within minutes of the epoch

---
 src/sgp8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sgp8.c b/src/sgp8.c
index 7b00a29..8b1ee9c 100644
--- a/src/sgp8.c
+++ b/src/sgp8.c
@@ -215,7 +215,7 @@ void DLL_FUNC SGP8_init( double *params, const tle_t *tle)
       xnd = xndt/(pp*gamma);
       /* the power law cannot follow an eccentricity that hardly changes */
       /* (nearly circular orbits): a linear variation is used instead    */
-      if( fabs( eddot) < 100.*fabs( edot*gamma))
+      if( fabs( eddot) < 8.*fabs( edot*gamma))
          qq = 1.-eddot/(edot*gamma);
       else
          qq = 1.;
-- 
2.43.0


From 95817761ffeb5c846e541897ba3abd1206871ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:39 +0000
Subject: [PATCH 60/60] fix: report the designator of a satellite asked for by
 number when a designator is given too

---
 src/sat_skymap.c     | 2 +-
 src/sat_visibility.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 3c5ab7d..2b1ab7c 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -978,7 +978,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  if ( p.sunlit_only && ! is_sunlit )
 		continue;
 
-	  if ( !p.single_sat_i ) {
+	  if ( p.single_sat_n || !p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
 		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 2bd5e37..f708ce7 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -1043,7 +1043,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	sunlit_start_found = true;
 	mjd_sunlit_start = t - JD_OFF - p.delta_time / SEC_IN_DAY;
 
-	if ( !p.single_sat_i ) {
+	if ( p.single_sat_n || !p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
 		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi(tle.intl_desig) > 57000 ? "19" : "20"),
-- 
2.43.0

