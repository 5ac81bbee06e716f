From 8edfacfdb7f8fdf27cb121ede40d4322e92beeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 01/59] fix: terminate satellite names of 23 or more characters

---
 src/sat_skymap.c     | 2 ++
 src/sat_visibility.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 038ea04..d29733f 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -707,6 +707,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
     }
 
     strncpy(sat_name, line1, 23);
+    sat_name[23] = '\0';
     trimend(sat_name);
 
     while ( fgets(line2, sizeof(line2), ifile) ) {
@@ -916,6 +917,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
       strcpy(line1, line2);
       if ( line2[0] != '1' && line2[0] != '2' ) {
 	  strncpy(sat_name, line2, 23);
+	  sat_name[23] = '\0';
 	  trimend(sat_name);
       }
     }  // end while fgets(line2 ...
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index d9d0e06..4c247ff 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -758,6 +758,7 @@ int main(int argc, char **argv)
     }
 
     strncpy(sat_name, line1, 23);
+    sat_name[23] = '\0';
     trimend(sat_name);
 
     while ( fgets(line2, sizeof(line2), ifile) ) {
@@ -790,6 +791,7 @@ int main(int argc, char **argv)
       strcpy(line1, line2);
       if ( line2[0] != '1' && line2[0] != '2' ) {
 	strncpy(sat_name, line2, 23);
+	sat_name[23] = '\0';
 	trimend(sat_name);
       }
     }  // end while fgets(line2 ...
-- 
2.43.0


From d2dbe97ca168a6367e4231ef3f14586fa8d98e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 02/59] fix: grow the buffer of processed satellites before it
 overflows

---
 src/sat_skymap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index d29733f..0633efb 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -748,7 +748,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("Found string '%s' at index = %ld ... skipping.\n", norad_name, s - sbuff);
 		continue;
 	} else {
-		if ( use_bufflen >= cur_bufflen ) {
+		if ( use_bufflen + 7 > cur_bufflen ) {  /* 6 characters and the final '\0' */
 		  cur_bufflen += extra_satbuff;
 //printf("\nRealloc extra bytes. Now %d \n", cur_bufflen);
 		  if ( (sbuff = (char *)realloc(sbuff, cur_bufflen)) == NULL ) {
-- 
2.43.0


From 076e0fefef41b4637fff417d1de91402d5f0bc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 03/59] fix: accept satellite names starting with the digit 1
 or 2

---
 src/sat_skymap.c     | 2 +-
 src/sat_visibility.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 0633efb..e1213fb 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -915,7 +915,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
       }  // end TLE found
 
       strcpy(line1, line2);
-      if ( line2[0] != '1' && line2[0] != '2' ) {
+      if ( (line2[0] != '1' && line2[0] != '2') || line2[1] != ' ' ) {  /* a name can start with 1 or 2 */
 	  strncpy(sat_name, line2, 23);
 	  sat_name[23] = '\0';
 	  trimend(sat_name);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 4c247ff..0cd5e6d 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -789,7 +789,7 @@ int main(int argc, char **argv)
       }  // end TLE found
 
       strcpy(line1, line2);
-      if ( line2[0] != '1' && line2[0] != '2' ) {
+      if ( (line2[0] != '1' && line2[0] != '2') || line2[1] != ' ' ) {  /* a name can start with 1 or 2 */
 	strncpy(sat_name, line2, 23);
 	sat_name[23] = '\0';
 	trimend(sat_name);
-- 
2.43.0


From 41247e86da0df9759bee3cad05436952ae955371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 04/59] fix: trim names made only of blanks (a raw newline
 ended up in the JSON)

---
 src/sat_skymap.c     | 2 +-
 src/sat_visibility.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index e1213fb..252e889 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -147,7 +147,7 @@ char *trimend(char *str)
   char *end;
 
   end = str + strlen(str) - 1;
-  while(end > str && isspace((unsigned char)*end)) end--;
+  while(end >= str && isspace((unsigned char)*end)) end--;
   end[1] = '\0';
 
   return str;
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 0cd5e6d..b804c5c 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -298,7 +298,7 @@ char *trimend(char *str)
   char *end;
 
   end = str + strlen(str) - 1;
-  while(end > str && isspace((unsigned char)*end)) end--;
+  while(end >= str && isspace((unsigned char)*end)) end--;
   end[1] = '\0';
 
   return str;
-- 
2.43.0


From 83ef1f75fc4a59d4624ad21a6118a8a2143bcce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 05/59] fix: report and match the full international designator

---
 src/sat_skymap.c     | 17 ++++++++++-------
 src/sat_visibility.c | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 252e889..189d673 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -351,7 +351,7 @@ int main(int argc, char **argv)
   double jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
 	 target_ra, target_dec, target_lon = 0, target_lat = 0;
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
-	 len_intl_desig = 0, len_satname = 0;
+	 len_satname = 0;
   bool in_region = false,  /* used for single satellite request */
 	in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
@@ -460,7 +460,6 @@ int main(int argc, char **argv)
 		break;
           case 'i':
 		strcpy(p.intl_desig, argv[i] + par_pos);
-		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
 		in_region = false;
@@ -727,12 +726,14 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		if ( norad_name_n == p.norad_n )
 			single_sat_found = true;
 	 } else if ( p.single_sat_i ) {
-		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+		if ( tle.intl_desig[0] != ' ' ) {
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
+		  trimend(intl_desig);
+		}
 
-		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
+		if ( !strcmp(intl_desig, p.intl_desig) )
 		  single_sat_found = true;
 	} else if ( p.satname_filter ) {
 		if ( memcmp(sat_name, p.satname, len_satname) )
@@ -861,10 +862,12 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		continue;
 
 	  if ( !p.single_sat_i ) {
-		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+		if ( tle.intl_desig[0] != ' ' ) {
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
+		  trimend(intl_desig);
+		}
 	  }
 
 	  d_ra = (ra1 - ra + TWOPI);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index b804c5c..078238f 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -544,8 +544,7 @@ int main(int argc, char **argv)
 	sat_name[25], tle_path_file[200], opt, *endptr;
   double jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad;
-  int i, par_pos, status = 0, n_sats_found = 0,
-	 len_intl_desig = 0;
+  int i, par_pos, status = 0, n_sats_found = 0;
   bool in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
@@ -622,7 +621,6 @@ int main(int argc, char **argv)
 		break;
           case 'i':
 		strcpy(p.intl_desig, argv[i] + par_pos);
-		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
 		break;
@@ -773,12 +771,14 @@ int main(int argc, char **argv)
 		if ( norad_name_n == p.norad_n )
 			single_sat_found = true;
 	} else if ( p.single_sat_i ) {
-		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+		if ( tle.intl_desig[0] != ' ' ) {
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
+		  trimend(intl_desig);
+		}
 
-		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
+		if ( !strcmp(intl_desig, p.intl_desig) )
 		  single_sat_found = true;
 	}
  
@@ -945,10 +945,12 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	mjd_sunlit_start = t - JD_OFF;
 
 	if ( !p.single_sat_i ) {
-		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+		if ( tle.intl_desig[0] != ' ' ) {
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi(tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
+		  trimend(intl_desig);
+		}
 	}
 
 	t_since += p.delta_time * 1440. / SEC_IN_DAY;
-- 
2.43.0


From 2780f93848269e0f015213de342b66c085dacb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 06/59] fix: with -s or -i never report a satellite other than
 the requested one

---
 src/sat_skymap.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 189d673..73913ca 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -721,10 +721,11 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("NORAD:->%s\n", norad_name);
 
 	 char intl_desig[12] = {"none"};
+	 bool is_requested = false;
 	 if ( p.single_sat_n ) {
 		int norad_name_n = strtol(norad_name, &endptr, 10);
 		if ( norad_name_n == p.norad_n )
-			single_sat_found = true;
+			is_requested = true;
 	 } else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' ) {
 		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
@@ -734,15 +735,16 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		}
 
 		if ( !strcmp(intl_desig, p.intl_desig) )
-		  single_sat_found = true;
+		  is_requested = true;
 	} else if ( p.satname_filter ) {
 		if ( memcmp(sat_name, p.satname, len_satname) )
 		continue;
 	}
  
 /* Single satellite requested? */
-	if ( single_sat && !single_sat_found )
+	if ( single_sat && !is_requested )
 		continue;
+	single_sat_found = single_sat;
 /* Add a , to make it unique, and skip any previously met satellite */
 	strcat(norad_name, ",");
 	if ( (s = strstr(sbuff, norad_name)) != NULL ) {
-- 
2.43.0


From 682172503070343e955d3501c33300280be7a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 07/59] fix: select by the decoded NORAD number (letter-coded
 numbers were never found)

---
 src/sat_skymap.c         | 3 +--
 src/sat_skymap_def.h     | 4 ++--
 src/sat_visibility.c     | 9 ++-------
 src/sat_visibility_def.h | 4 ++--
 4 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 73913ca..643b11d 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -723,8 +723,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	 char intl_desig[12] = {"none"};
 	 bool is_requested = false;
 	 if ( p.single_sat_n ) {
-		int norad_name_n = strtol(norad_name, &endptr, 10);
-		if ( norad_name_n == p.norad_n )
+		if ( tle.norad_number == p.norad_n )
 			is_requested = true;
 	 } else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' ) {
diff --git a/src/sat_skymap_def.h b/src/sat_skymap_def.h
index fd2f72d..51317f7 100644
--- a/src/sat_skymap_def.h
+++ b/src/sat_skymap_def.h
@@ -41,8 +41,8 @@ const char *progname = "sat_skymap",
 		alt_min,
 		alt_max;
 	    int delta_time,
-		max_sats,
-		norad_n;
+		max_sats;
+	   long norad_n;
 	   bool haversine,
 		info_only,
 		sunlit_only,
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 078238f..2cd25bb 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -683,7 +683,7 @@ int main(int argc, char **argv)
   observer_cartesian_coords(jd[0], p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);
  
   const short fname_len = 64;
-  char row[fname_len], norad_name[7], tle_list_file[200];
+  char row[fname_len], tle_list_file[200];
   FILE *lisfile, *ifile = NULL;
 
   open_json();
@@ -762,13 +762,8 @@ int main(int argc, char **argv)
     while ( fgets(line2, sizeof(line2), ifile) ) {
 
       if ( !parse_elements(line1, line2, &tle) ) { /* TLE found */
-/* First check if we have processed this sat already */
-	strncpy(norad_name, line1+2, 5);  /* this is tle.norad_number */
-	norad_name[5] = '\0';
-
 	if ( p.single_sat_n ) {
-		int norad_name_n = strtol(norad_name, &endptr, 10);
-		if ( norad_name_n == p.norad_n )
+		if ( tle.norad_number == p.norad_n )
 			single_sat_found = true;
 	} else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' ) {
diff --git a/src/sat_visibility_def.h b/src/sat_visibility_def.h
index 7552dfd..b20aa69 100644
--- a/src/sat_visibility_def.h
+++ b/src/sat_visibility_def.h
@@ -40,8 +40,8 @@ const char *progname = "sat_visibility",
 		mjd[2],
 		alt_min,
 		alt_max;
-	    int delta_time,
-		norad_n;
+	    int delta_time;
+	   long norad_n;
 	   bool skip_daytime,
 		single_sat_i,
 		single_sat_n,
-- 
2.43.0


From 8e1e7ac851e78ea9e6b17b0e0db8c1f3e57c5192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 08/59] fix: option without value crashed, switch with trailing
 characters looped forever

---
 src/sat_skymap.c     | 11 +++++++++--
 src/sat_visibility.c | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 643b11d..75fb499 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -402,10 +402,17 @@ int main(int argc, char **argv)
     if ( argv[i][0] == '-' ) {
 		opt = argv[i][1];
 		par_pos = 2;
-		if ( argv[i][2] == 0 ) {  /* blank after option */
+		if ( opt == 0 || argv[i][2] == 0 ) {  /* blank after option */
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
 		  ++i;
 		  par_pos = 0;
+		} else if ( strchr("EGHITV", opt) != NULL )  /* switches have no value */
+		  opt = '?';
+		if ( i == argc && opt != 0 && strchr("adDijlnprsSt", opt) != NULL ) {
+		  open_json();
+		  sprintf(errmsg, "Missing value of command-line option '-%c'", opt);
+  		  close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-2);
 		}
 	switch( opt )
 	{
@@ -519,7 +526,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[i]);
+		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '%s'", argv[par_pos ? i : i-1]);
   		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(-2);
 		break;
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 2cd25bb..6ffd079 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -576,10 +576,17 @@ int main(int argc, char **argv)
     if ( argv[i][0] == '-' ) {
 		opt = argv[i][1];
 		par_pos = 2;
-		if ( argv[i][2] == 0 ) {  /* blank after option */
+		if ( opt == 0 || argv[i][2] == 0 ) {  /* blank after option */
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
 		  ++i;
 		  par_pos = 0;
+		} else if ( strchr("NT", opt) != NULL )  /* switches have no value */
+		  opt = '?';
+		if ( i == argc && opt != 0 && strchr("adDijlrst", opt) != NULL ) {
+		  open_json();
+		  sprintf(errmsg, "Missing value of command-line option '-%c'", opt);
+  		  close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
+		  exit(-2);
 		}
 	switch( opt )
 	{
@@ -659,7 +666,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[i]);
+		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '%s'", argv[par_pos ? i : i-1]);
   		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
 		exit(-2);
 		break;
-- 
2.43.0


From 990f99adeff1e1de23ce3919052ba79b8f6611b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 09/59] fix: arguments longer than the fixed buffers overflowed
 them

---
 src/sat_skymap.c         | 38 +++++++++++++++++++-------------------
 src/sat_skymap_def.h     |  2 +-
 src/sat_visibility.c     | 32 ++++++++++++++++----------------
 src/sat_visibility_def.h |  2 +-
 4 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 75fb499..b9cc355 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -346,8 +346,8 @@ void sat_geoLocation(double gmst, double *pos,  Geoloc *geo) {
 
 int main(int argc, char **argv)
 {
-  char errmsg[128] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
-	sat_name[25], tle_path_file[200], opt, *endptr;
+  char errmsg[4224] = {""}, *tle_path = ".", line1[100], line2[100],
+	sat_name[25], tle_path_file[4096], opt, *endptr;
   double jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
 	 target_ra, target_dec, target_lon = 0, target_lat = 0;
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
@@ -359,7 +359,7 @@ int main(int argc, char **argv)
 
   if ( argc < 2 ) {
 	open_json();
-	sprintf(errmsg, "Example usage:\n %s default.tle -l-29.25627,-70.73805,2400 -p90.5,-30.3 -j58861.5 -r20", progname);
+	snprintf(errmsg, sizeof(errmsg), "Example usage:\n %s default.tle -l-29.25627,-70.73805,2400 -p90.5,-30.3 -j58861.5 -r20", progname);
  	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(0);
   }
@@ -458,15 +458,15 @@ int main(int argc, char **argv)
 		p.geoloc_requested = true;
 		break;
           case 'd':
-		strcpy(p.date, argv[i] + par_pos);
+		snprintf(p.date, sizeof(p.date), "%s", argv[i] + par_pos);
 		date2mjd_nf(argv[i] + par_pos, &p.mjd);
 		break;
  	  case 'D':
-		strcpy(tle_path, argv[i] + par_pos);
+		tle_path = argv[i] + par_pos;
 		p.use_deftledir = false;
 		break;
           case 'i':
-		strcpy(p.intl_desig, argv[i] + par_pos);
+		snprintf(p.intl_desig, sizeof(p.intl_desig), "%s", argv[i] + par_pos);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
 		in_region = false;
@@ -482,7 +482,7 @@ int main(int argc, char **argv)
 		  p.lon += 360;
 		if ( p.lat < -90. || p.lat > 90. )  {
 		  open_json();
-		  sprintf(errmsg, "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
+		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
@@ -495,13 +495,13 @@ int main(int argc, char **argv)
 		sscanf(argv[i] + par_pos, "%lf,%lf", &p.ra_deg, &p.de_deg);
 		if ( p.ra_deg < 0. || p.ra_deg > 360. )  {
 		  open_json();
-		  sprintf(errmsg, "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
+		  snprintf(errmsg, sizeof(errmsg), "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		if ( p.de_deg < -90. || p.de_deg > 90. )  {
 		  open_json();
-		  sprintf(errmsg, "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
+		  snprintf(errmsg, sizeof(errmsg), "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
@@ -517,7 +517,7 @@ int main(int argc, char **argv)
 		in_region = false;
 		break;
           case 'S':
-		strcpy(p.satname, argv[i] + par_pos);
+		snprintf(p.satname, sizeof(p.satname), "%s", argv[i] + par_pos);
 		len_satname = strlen(p.satname);
 		p.satname_filter = true;
 		break;
@@ -537,7 +537,7 @@ int main(int argc, char **argv)
 
 /* Use default TLE repository dir. ? */
   if ( p.use_deftledir )
-	strcpy(tle_path, DEF_TLEDIR);
+	tle_path = DEF_TLEDIR;
 
   if ( !in_geopos ) {
 	Usage();
@@ -552,7 +552,7 @@ int main(int argc, char **argv)
 	p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, observer_loc2);
  
   const short fname_len = 64;
-  char *s, row[fname_len], norad_name[7], tle_list_file[200];
+  char *s, row[fname_len], norad_name[7], tle_list_file[4096];
   FILE *lisfile, *ifile;
 
   open_json();
@@ -566,9 +566,9 @@ int main(int argc, char **argv)
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
 	//tle_list_file = ++argv[1];
-	sprintf(tle_list_file, "%s/%s", tle_path, ++argv[iarg]);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, ++argv[iarg]);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
-		sprintf(errmsg, "Could not open input file %s", tle_list_file);
+		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(2);
 	}
@@ -679,9 +679,9 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
     char *lastchar;
     if ( !input_list ) {
 	if ( strchr(p.tle_file_name, '/') == NULL )
-	  sprintf(tle_path_file, "%s/%s", tle_path, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, p.tle_file_name);
 	else
-	  strcpy(tle_path_file, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s", p.tle_file_name);
 	read_tle_list = false;
     } else {
 
@@ -695,19 +695,19 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  *lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
-	sprintf(tle_path_file, "%s/%s", tle_path, tle_file_name);
+	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
     }
 //printf("\ntle_path_file: %s\n\n", tle_path_file);
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
-	sprintf(errmsg, "Could not open input file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
   	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(2);
     }
 
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
-	sprintf(errmsg, "Could not read first TLE line from file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(-2);
     }
diff --git a/src/sat_skymap_def.h b/src/sat_skymap_def.h
index 51317f7..0df46e4 100644
--- a/src/sat_skymap_def.h
+++ b/src/sat_skymap_def.h
@@ -24,7 +24,7 @@ const char *progname = "sat_skymap",
   typedef struct myParams {
 	  char *tle_file_name,
 		date[24],
-		intl_desig[12],
+		intl_desig[24],
 		satname[24];
 	 double lat,
 		lon,
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 6ffd079..3464da6 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -540,8 +540,8 @@ void get_sat_PA_and_speed(double t_since) {
 
 int main(int argc, char **argv)
 {
-  char errmsg[128] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
-	sat_name[25], tle_path_file[200], opt, *endptr;
+  char errmsg[4224] = {""}, *tle_path = ".", line1[100], line2[100],
+	sat_name[25], tle_path_file[4096], opt, *endptr;
   double jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad;
   int i, par_pos, status = 0, n_sats_found = 0;
@@ -551,7 +551,7 @@ int main(int argc, char **argv)
 
   if ( argc < 2 ) {
 	open_json();
-	sprintf(errmsg, "Example usage:\n %s stations.txt -l-29.25627,-70.73805,2400 -j58941.72,58941.73 -s 25544", progname);
+	snprintf(errmsg, sizeof(errmsg), "Example usage:\n %s stations.txt -l-29.25627,-70.73805,2400 -j58941.72,58941.73 -s 25544", progname);
  	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
 	exit(0);
   }
@@ -623,11 +623,11 @@ int main(int argc, char **argv)
 		date2mjd_nf(p.date[1], &p.mjd[1]);
 		break;
  	  case 'D':
-		strcpy(tle_path, argv[i] + par_pos);
+		tle_path = argv[i] + par_pos;
 		p.use_deftledir = false;
 		break;
           case 'i':
-		strcpy(p.intl_desig, argv[i] + par_pos);
+		snprintf(p.intl_desig, sizeof(p.intl_desig), "%s", argv[i] + par_pos);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
 		break;
@@ -647,7 +647,7 @@ int main(int argc, char **argv)
 		  p.lon += 360;
 		if ( p.lat < -90. || p.lat > 90. )  {
 		  open_json();
-		  sprintf(errmsg, "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
+		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
@@ -678,7 +678,7 @@ int main(int argc, char **argv)
 
 /* Use default TLE repository dir. ? */
   if ( p.use_deftledir )
-	strcpy(tle_path, DEF_TLEDIR);
+	tle_path = DEF_TLEDIR;
 
   if ( !in_geopos ) {
 	Usage();
@@ -690,7 +690,7 @@ int main(int argc, char **argv)
   observer_cartesian_coords(jd[0], p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);
  
   const short fname_len = 64;
-  char row[fname_len], tle_list_file[200];
+  char row[fname_len], tle_list_file[4096];
   FILE *lisfile, *ifile = NULL;
 
   open_json();
@@ -703,9 +703,9 @@ int main(int argc, char **argv)
 
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
-	sprintf(tle_list_file, "%s/%s", tle_path, ++argv[iarg]);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, ++argv[iarg]);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
-		sprintf(errmsg, "Could not open input file %s", tle_list_file);
+		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 		exit(2);
 	}
@@ -731,9 +731,9 @@ int main(int argc, char **argv)
     char *lastchar;
     if ( !input_list ) {
 	if ( strchr(p.tle_file_name, '/') == NULL )
-	  sprintf(tle_path_file, "%s/%s", tle_path, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, p.tle_file_name);
 	else
-	  strcpy(tle_path_file, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s", p.tle_file_name);
 	read_tle_list = false;
     } else {
 
@@ -747,17 +747,17 @@ int main(int argc, char **argv)
 	  *lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
-	sprintf(tle_path_file, "%s/%s", tle_path, tle_file_name);
+	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
     }
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
-	sprintf(errmsg, "Could not open input file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
   	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 	exit(2);
     }
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
-	sprintf(errmsg, "Could not read first TLE line from file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
 	exit(-2);
     }
@@ -806,7 +806,7 @@ int main(int argc, char **argv)
   fclose(ifile);
 
   if ( !single_sat_found ) {
-	sprintf(errmsg, "Satellite not found in %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
 	exit(1);
   }
diff --git a/src/sat_visibility_def.h b/src/sat_visibility_def.h
index b20aa69..e8b8021 100644
--- a/src/sat_visibility_def.h
+++ b/src/sat_visibility_def.h
@@ -24,7 +24,7 @@ const char *progname = "sat_visibility",
   typedef struct myParams {
 	  char *tle_file_name,
 		date[2][24],
-		intl_desig[12],
+		intl_desig[24],
 		satname[24];
 	 double lat,
 		lon,
-- 
2.43.0


From f34d687670eb40a131c9ee6701eddd29510766d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 10/59] fix: echo the command line as given also when a list
 file is the last argument

---
 src/sat_skymap.c     | 40 +++++++++++++++++-----------------------
 src/sat_visibility.c | 36 +++++++++++++++---------------------
 2 files changed, 32 insertions(+), 44 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index b9cc355..03c0804 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -228,15 +228,9 @@ void add_satlatlon_json(Geoloc geo) {
     printf( "\"geoloc\": {\"lat\":%7.3lf, \"lon\":%7.3lf, \"alt\":%9.2lf, \"theta\":%8.3lf}, ", geo.lat, geo.lon, geo.alt, geo.theta);
 }
 
-void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found, int n_sats, int n_sunlit_sats) {
-  int iarg = 1;
+void close_stat_json(int argc, char **argv, int status, char *errmsg, int n_sats_found, int n_sats, int n_sunlit_sats) {
   printf(" \"run_command\": \"%s", progname);
-  if ( input_list ) {
-	printf (" @%s", argv[1]);
-	iarg++;
-  }
-
-  for ( int i = iarg; i < argc; i++ ) {
+  for ( int i = 1; i < argc; i++ ) {
 	printf (" %s", argv[i]);
   }
   printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d, \"n_sats\": %d,"
@@ -360,7 +354,7 @@ int main(int argc, char **argv)
   if ( argc < 2 ) {
 	open_json();
 	snprintf(errmsg, sizeof(errmsg), "Example usage:\n %s default.tle -l-29.25627,-70.73805,2400 -p90.5,-30.3 -j58861.5 -r20", progname);
- 	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+ 	close_stat_json(argc, argv, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(0);
   }
 
@@ -411,7 +405,7 @@ int main(int argc, char **argv)
 		if ( i == argc && opt != 0 && strchr("adDijlnprsSt", opt) != NULL ) {
 		  open_json();
 		  sprintf(errmsg, "Missing value of command-line option '-%c'", opt);
-  		  close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		  close_stat_json(argc, argv, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-2);
 		}
 	switch( opt )
@@ -483,7 +477,7 @@ int main(int argc, char **argv)
 		if ( p.lat < -90. || p.lat > 90. )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		in_geopos = true;
@@ -496,13 +490,13 @@ int main(int argc, char **argv)
 		if ( p.ra_deg < 0. || p.ra_deg > 360. )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		if ( p.de_deg < -90. || p.de_deg > 90. )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		in_region = true;
@@ -527,7 +521,7 @@ int main(int argc, char **argv)
           default:
 		open_json();
 		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '%s'", argv[par_pos ? i : i-1]);
-  		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		close_stat_json(argc, argv, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(-2);
 		break;
 	}  // end switch
@@ -566,10 +560,10 @@ int main(int argc, char **argv)
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
 	//tle_list_file = ++argv[1];
-	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, ++argv[iarg]);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, argv[iarg] + 1);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
 		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
-  		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(2);
 	}
   }
@@ -588,13 +582,13 @@ int main(int argc, char **argv)
 
   if ( (sbuff = (char *)malloc(max_satbuff)) == NULL ) {
 	sprintf(errmsg, "Could not allocate required buffer memory");
-  	close_stat_json(argc, argv, input_list, 3, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  	close_stat_json(argc, argv, 3, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(3);
   }
 
   sbuff[0] = '\0';
 
-  p.tle_file_name = argv[iarg];
+  p.tle_file_name = argv[iarg] + (input_list ? 1 : 0);
 
   if ( p.single_sat_n || p.single_sat_i ) {
 	single_sat = true;
@@ -701,14 +695,14 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
 	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
-  	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  	close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(2);
     }
 
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
 	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
-	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+	close_stat_json(argc, argv, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(-2);
     }
 
@@ -762,7 +756,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("\nRealloc extra bytes. Now %d \n", cur_bufflen);
 		  if ( (sbuff = (char *)realloc(sbuff, cur_bufflen)) == NULL ) {
 		    sprintf(errmsg, "Could not allocate required buffer memory");
-		    close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		    close_stat_json(argc, argv, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		    exit(1);
 		  }
 		}
@@ -792,7 +786,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* For malformed or partial tle (e.g. Bepi-Colombo) this could happen */
 	if ( isnan(ra) || isnan(dec) ) {
 		sprintf(errmsg, "Could not decode TLE data");
-		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(1);
 	}
 
@@ -952,7 +946,7 @@ end_checking:
   if ( single_sat && !single_sat_found )
 	sprintf(errmsg, "Requested satellite not found in TLE file");
 
-  close_stat_json(argc, argv, input_list, status, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  close_stat_json(argc, argv, status, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 
   return(0);
 }
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 3464da6..a3afe98 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -383,15 +383,9 @@ void add_sundata_json(char *label) {
     sun.ra, sun.dec, sun.az, sun.alt, sun.lon, sun.parang, sun.ang_sep);
 }
 
-void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found) {
-  int iarg = 1;
+void close_stat_json(int argc, char **argv, int status, char *errmsg, int n_sats_found) {
   printf("\"run_command\": \"%s", progname);
-  if ( input_list ) {
-	printf (" @%s", argv[1]);
-	iarg++;
-  }
-
-  for ( int i = iarg; i < argc; i++ ) {
+  for ( int i = 1; i < argc; i++ ) {
 	printf (" %s", argv[i]);
   }
   printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d"
@@ -552,7 +546,7 @@ int main(int argc, char **argv)
   if ( argc < 2 ) {
 	open_json();
 	snprintf(errmsg, sizeof(errmsg), "Example usage:\n %s stations.txt -l-29.25627,-70.73805,2400 -j58941.72,58941.73 -s 25544", progname);
- 	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
+ 	close_stat_json(argc, argv, 1, errmsg, n_sats_found);
 	exit(0);
   }
 
@@ -585,7 +579,7 @@ int main(int argc, char **argv)
 		if ( i == argc && opt != 0 && strchr("adDijlrst", opt) != NULL ) {
 		  open_json();
 		  sprintf(errmsg, "Missing value of command-line option '-%c'", opt);
-  		  close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
+  		  close_stat_json(argc, argv, -2, errmsg, n_sats_found);
 		  exit(-2);
 		}
 	switch( opt )
@@ -648,7 +642,7 @@ int main(int argc, char **argv)
 		if ( p.lat < -90. || p.lat > 90. )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
 		in_geopos = true;
@@ -667,7 +661,7 @@ int main(int argc, char **argv)
           default:
 		open_json();
 		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '%s'", argv[par_pos ? i : i-1]);
-  		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
+  		close_stat_json(argc, argv, -2, errmsg, n_sats_found);
 		exit(-2);
 		break;
 	}  // end switch
@@ -703,19 +697,19 @@ int main(int argc, char **argv)
 
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
-	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, ++argv[iarg]);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, argv[iarg] + 1);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
 		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
-  		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+  		close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 		exit(2);
 	}
   }
 
-  p.tle_file_name = argv[iarg];
+  p.tle_file_name = argv[iarg] + (input_list ? 1 : 0);
 
   if ( !p.single_sat_n && !p.single_sat_i ) {
 	sprintf(errmsg, "Need to input a NORAD ID or an international designator.");
-  	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+  	close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 	exit(2);
   }
 
@@ -752,13 +746,13 @@ int main(int argc, char **argv)
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
 	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
-  	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+  	close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 	exit(2);
     }
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
 	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
-	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
+	close_stat_json(argc, argv, -2, errmsg, n_sats_found);
 	exit(-2);
     }
 
@@ -807,7 +801,7 @@ int main(int argc, char **argv)
 
   if ( !single_sat_found ) {
 	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", tle_path_file);
-	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
+	close_stat_json(argc, argv, 1, errmsg, n_sats_found);
 	exit(1);
   }
 
@@ -875,7 +869,7 @@ int main(int argc, char **argv)
 /* If altitude filter requested */
 	if ( geo.alt < p.alt_min || geo.alt > p.alt_max ) {
 	  sprintf(errmsg, "Satellite altitude out of requested range");
-	  close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+	  close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 	  exit(1);
 	}
     }
@@ -1082,7 +1076,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
   }
 
 
-  close_stat_json(argc, argv, input_list, status, errmsg, n_sats_found);
+  close_stat_json(argc, argv, status, errmsg, n_sats_found);
 
   return(0);
 }
-- 
2.43.0


From 89a01ac871f0f1778a90736a45b0169d303ad0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 11/59] fix: list files with CR/LF line ends or names of 63 or
 more characters

---
 src/sat_skymap.c     | 8 ++++----
 src/sat_visibility.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 03c0804..f6da82d 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -545,7 +545,7 @@ int main(int argc, char **argv)
   observer_cartesian_coords(jd + p.delta_time / SEC_IN_DAY,
 	p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, observer_loc2);
  
-  const short fname_len = 64;
+  const short fname_len = 4096;
   char *s, row[fname_len], norad_name[7], tle_list_file[4096];
   FILE *lisfile, *ifile;
 
@@ -684,9 +684,9 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  break;
 	if ( row[0] == '#' )  /* Skip lines with comments */
 	  continue;
-	lastchar = tle_file_name + strlen(tle_file_name) - 1;  /* Drop linefeeds, CR, ... */
-	if (*lastchar < 32)
-	  *lastchar = (char) 0;
+	lastchar = tle_file_name + strlen(tle_file_name);  /* Drop linefeeds, CR, ... */
+	while (lastchar > row && (unsigned char)lastchar[-1] < 32)
+	  *--lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
 	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index a3afe98..17124ae 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -683,7 +683,7 @@ int main(int argc, char **argv)
   earth_lat_alt_to_parallax(p.lat * DEG2RAD, p.ht_in_meters, &rho_cos_phi, &rho_sin_phi);
   observer_cartesian_coords(jd[0], p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);
  
-  const short fname_len = 64;
+  const short fname_len = 4096;
   char row[fname_len], tle_list_file[4096];
   FILE *lisfile, *ifile = NULL;
 
@@ -736,9 +736,9 @@ int main(int argc, char **argv)
 	  break;
 	if ( row[0] == '#' )  /* Skip lines with comments */
 	  continue;
-	lastchar = tle_file_name + strlen(tle_file_name) - 1;  /* Drop linefeeds, CR, ... */
-	if (*lastchar < 32)
-	  *lastchar = (char) 0;
+	lastchar = tle_file_name + strlen(tle_file_name);  /* Drop linefeeds, CR, ... */
+	while (lastchar > row && (unsigned char)lastchar[-1] < 32)
+	  *--lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
 	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
-- 
2.43.0


From be96fb393ef21fa44fce1af3de8c306836836d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 12/59] fix: apply the documented option precedences whatever
 the option order

---
 src/sat_skymap.c     | 14 ++++++++++----
 src/sat_visibility.c | 16 +++++++++++-----
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index f6da82d..b1f5c78 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -347,6 +347,8 @@ int main(int argc, char **argv)
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
 	 len_satname = 0;
   bool in_region = false,  /* used for single satellite request */
+	date_given = false,  /* -d has priority over -j */
+	dir_given = false,  /* -D has priority over -T */
 	in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
@@ -454,18 +456,20 @@ int main(int argc, char **argv)
           case 'd':
 		snprintf(p.date, sizeof(p.date), "%s", argv[i] + par_pos);
 		date2mjd_nf(argv[i] + par_pos, &p.mjd);
+		date_given = true;
 		break;
  	  case 'D':
 		tle_path = argv[i] + par_pos;
-		p.use_deftledir = false;
+		dir_given = true;
 		break;
           case 'i':
 		snprintf(p.intl_desig, sizeof(p.intl_desig), "%s", argv[i] + par_pos);
 		p.single_sat_i = true;
-		p.altrng_requested = false;  // No altitude filter
 		in_region = false;
 		break;
           case 'j':
+		if ( date_given )
+		  break;
 		p.mjd = atof(argv[i] + par_pos);
 		strcpy(p.date, mjd2date(p.mjd));
 		break;
@@ -507,7 +511,6 @@ int main(int argc, char **argv)
           case 's':
 		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
 		p.single_sat_n = true;
-		p.altrng_requested = false;  // No altitude filter
 		in_region = false;
 		break;
           case 'S':
@@ -527,10 +530,13 @@ int main(int argc, char **argv)
 	}  // end switch
   }  // end if - for
 
+  if ( p.single_sat_n || p.single_sat_i )
+	p.altrng_requested = false;  // No altitude filter
+
   jd = JD_OFF + p.mjd;  // From MJD to JD
 
 /* Use default TLE repository dir. ? */
-  if ( p.use_deftledir )
+  if ( p.use_deftledir && !dir_given )
 	tle_path = DEF_TLEDIR;
 
   if ( !in_geopos ) {
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 17124ae..1b1729c 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -539,7 +539,9 @@ int main(int argc, char **argv)
   double jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad;
   int i, par_pos, status = 0, n_sats_found = 0;
-  bool in_geopos = false,  /* make sure Geo location is passed */
+  bool date_given = false,  /* -d has priority over -j */
+	dir_given = false,  /* -D has priority over -T */
+	in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
 
@@ -615,21 +617,23 @@ int main(int argc, char **argv)
 		sscanf(argv[i] + par_pos, "%19s,%19s", p.date[0], p.date[1]);
 		date2mjd_nf(p.date[0], &p.mjd[0]);
 		date2mjd_nf(p.date[1], &p.mjd[1]);
+		date_given = true;
 		break;
  	  case 'D':
 		tle_path = argv[i] + par_pos;
-		p.use_deftledir = false;
+		dir_given = true;
 		break;
           case 'i':
 		snprintf(p.intl_desig, sizeof(p.intl_desig), "%s", argv[i] + par_pos);
 		p.single_sat_i = true;
-		p.altrng_requested = false;  // No altitude filter
 		break;
           case 'j':
 		if ( strchr(argv[i] + par_pos, '-') != NULL ) {  // A minimal check
 			Usage();
 		        exit(0);
 		}
+		if ( date_given )
+		  break;
 		sscanf(argv[i] + par_pos, "%lf,%lf", &p.mjd[0], &p.mjd[1]);
 		strcpy(p.date[0], mjd2date(p.mjd[0]));
 		strcpy(p.date[1], mjd2date(p.mjd[1]));
@@ -653,7 +657,6 @@ int main(int argc, char **argv)
           case 's':
 		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
 		p.single_sat_n = true;
-		p.altrng_requested = false;  // No altitude filter
 		break;
           case 't':
 		p.delta_time = atof(argv[i] + par_pos);
@@ -667,11 +670,14 @@ int main(int argc, char **argv)
 	}  // end switch
   }  // end if - for
 
+  if ( p.single_sat_n || p.single_sat_i )
+	p.altrng_requested = false;  // No altitude filter
+
   jd[0] = JD_OFF + p.mjd[0];  // From MJD to JD
   jd[1] = JD_OFF + p.mjd[1];
 
 /* Use default TLE repository dir. ? */
-  if ( p.use_deftledir )
+  if ( p.use_deftledir && !dir_given )
 	tle_path = DEF_TLEDIR;
 
   if ( !in_geopos ) {
-- 
2.43.0


From cc7b7a9035c3b7b4c34775dd001d83a1957beab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 13/59] fix: take RA differences the short way round across RA
 0

---
 src/sat_skymap.c     | 16 ++++------------
 src/sat_visibility.c |  4 +---
 2 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index b1f5c78..9231e68 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -828,21 +828,15 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* Approx or precise separation? */
 	if ( !p.haversine ) {
 	  if ( p.geoloc_reference ) {
-		d_ra = geo.lon * DEG2RAD - target_lon + TWOPI;
-		if ( d_ra > PI )
-		  d_ra -= TWOPI;
+		d_ra = remainder(geo.lon * DEG2RAD - target_lon, TWOPI);
 		d_dec = geo.lat - target_lat;
 		ang_sep = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
 		ang_sep1 = 2 * ang_sep;  // dummy
 	  } else {
-		d_ra = (ra - target_ra + TWOPI);
-		if ( d_ra > PI )
-		  d_ra -= TWOPI;
+		d_ra = remainder(ra - target_ra, TWOPI);
 		d_dec = dec - target_dec;
 		ang_sep = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
-		d_ra = (ra1 - target_ra + TWOPI);
-		if ( d_ra > PI )
-		  d_ra -= TWOPI;
+		d_ra = remainder(ra1 - target_ra, TWOPI);
 		d_dec = dec1 - target_dec;
 		ang_sep1 = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
 	  }
@@ -878,9 +872,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		}
 	  }
 
-	  d_ra = (ra1 - ra + TWOPI);
-	  if ( d_ra > PI )
-		d_ra -= TWOPI;
+	  d_ra = remainder(ra1 - ra, TWOPI);
 	  d_ra *= cos(dec);
 	  d_dec = dec1 - dec;
 	  posn_ang_of_motion = atan2(d_ra, d_dec);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 1b1729c..80aefaa 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -517,9 +517,7 @@ void get_sat_PA_and_speed(double t_since) {
 	get_satellite_ra_dec_delta(geo.observer_loc, pos, &ra1, &dec1, &dist_to_satellite);  /* Returned RA, Dec in radians */
 	//-- epoch_of_date_to_j2000(t, &ra1, &dec1);  /* Do not apply precession */
 
-	d_ra = (ra1 - sat.ra + TWOPI);
-	if ( d_ra > PI )
-		d_ra -= TWOPI;
+	d_ra = remainder(ra1 - sat.ra, TWOPI);
 	d_ra *= cos(sat.dec);
 	d_dec = dec1 - sat.dec;
 	sat.parang = atan2(d_ra, d_dec);
-- 
2.43.0


From 9658fed9a87697b22a1922aa02d4664d754880d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 14/59] fix: -E without -H mixed degrees and radians of
 latitude

---
 src/sat_skymap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 9231e68..c1d1d10 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -829,7 +829,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	if ( !p.haversine ) {
 	  if ( p.geoloc_reference ) {
 		d_ra = remainder(geo.lon * DEG2RAD - target_lon, TWOPI);
-		d_dec = geo.lat - target_lat;
+		d_dec = geo.lat * DEG2RAD - target_lat;
 		ang_sep = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
 		ang_sep1 = 2 * ang_sep;  // dummy
 	  } else {
-- 
2.43.0


From 0fa482b011081331d21794b85e0ad163a59f63b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 15/59] fix: escape the strings put in the JSON output

---
 src/sat_skymap.c     | 44 ++++++++++++++++++++++++++++++++++--------
 src/sat_visibility.c | 46 ++++++++++++++++++++++++++++++++++++--------
 2 files changed, 74 insertions(+), 16 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index c1d1d10..fbabd83 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -154,6 +154,23 @@ char *trimend(char *str)
 }
 
 
+/*
+  Print the content of a JSON string
+*/
+
+void print_json_str(const char *str)
+{
+  for ( ; *str; str++ ) {
+	if ( *str == '"' || *str == '\\' )
+	  printf("\\%c", *str);
+	else if ( (unsigned char)*str < 32 )
+	  printf("\\u%04x", *str);
+	else
+	  putchar(*str);
+  }
+}
+
+
 void Usage() {
   printf("Usage:\n  %s tle_file [OPTIONS]\n\n"
   "OPTIONS are:\n"
@@ -194,10 +211,15 @@ void open_json() {
 
 void add_params_json(Params p) {
   printf("\"input_params\": {"
-    "\"tle_file\": \"%s\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
-    "\"mjd\": %11.5lf, \"epoch_UTC\": \"%s\", \"gmst\":%8.4lf, \"delta_time_s\": %d, \"max_sats\": %d, "
+    "\"tle_file\": \"");
+  print_json_str(p.tle_file_name);
+  printf("\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
+    "\"mjd\": %11.5lf, \"epoch_UTC\": \"",
+    p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd);
+  print_json_str(p.date);
+  printf("\", \"gmst\":%8.4lf, \"delta_time_s\": %d, \"max_sats\": %d, "
     "\"notes\": \"All coordinates and radius in degrees. GMST, LMST in hrs.\"}, ",
-    p.tle_file_name, p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd, p.date, p.gmst, p.delta_time, p.max_sats);
+    p.gmst, p.delta_time, p.max_sats);
 }
 
 void add_sundata_json(Sun sun) {
@@ -231,10 +253,13 @@ void add_satlatlon_json(Geoloc geo) {
 void close_stat_json(int argc, char **argv, int status, char *errmsg, int n_sats_found, int n_sats, int n_sunlit_sats) {
   printf(" \"run_command\": \"%s", progname);
   for ( int i = 1; i < argc; i++ ) {
-	printf (" %s", argv[i]);
+	putchar(' ');
+	print_json_str(argv[i]);
   }
-  printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d, \"n_sats\": %d,"
-	 " \"n_sunlit_sats\": %d}\n", status, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  printf("\", \"status\": %d, \"errmsg\": \"", status);
+  print_json_str(errmsg);
+  printf("\", \"n_sats_found\": %d, \"n_sats\": %d,"
+	 " \"n_sunlit_sats\": %d}\n", n_sats_found, n_sats, n_sunlit_sats);
 }
 
 
@@ -893,8 +918,11 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		  printf(" \"satellites\": [");
 		}
 
-		printf("{\"name\": \"%s\", \"intl_desig\": \"%s\", \"norad_n\": %d, ",
-			sat_name, intl_desig, tle.norad_number);
+		printf("{\"name\": \"");
+		print_json_str(sat_name);
+		printf("\", \"intl_desig\": \"");
+		print_json_str(intl_desig);
+		printf("\", \"norad_n\": %d, ", tle.norad_number);
 
 		if ( p.geoloc_requested )
 			add_satlatlon_json(geo);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 80aefaa..0e24437 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -305,6 +305,23 @@ char *trimend(char *str)
 }
 
 
+/*
+  Print the content of a JSON string
+*/
+
+void print_json_str(const char *str)
+{
+  for ( ; *str; str++ ) {
+	if ( *str == '"' || *str == '\\' )
+	  printf("\\%c", *str);
+	else if ( (unsigned char)*str < 32 )
+	  printf("\\u%04x", *str);
+	else
+	  putchar(*str);
+  }
+}
+
+
 void Usage() {
   printf("Usage:\n  %s tle_file [OPTIONS]\n\n"
   "OPTIONS are:\n"
@@ -338,10 +355,17 @@ void open_json() {
 
 void add_params_json() {
   printf("\"input_params\": {"
-    "\"tle_file\": \"%s\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
-    "\"mjd_range\": [%11.5lf, %11.5lf], \"date_utc_range\": [\"%s\", \"%s\"], \"gmst\":%8.4lf, \"delta_time_s\": %d, "
+    "\"tle_file\": \"");
+  print_json_str(p.tle_file_name);
+  printf("\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
+    "\"mjd_range\": [%11.5lf, %11.5lf], \"date_utc_range\": [\"",
+    p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd[0], p.mjd[1]);
+  print_json_str(p.date[0]);
+  printf("\", \"");
+  print_json_str(p.date[1]);
+  printf("\"], \"gmst\":%8.4lf, \"delta_time_s\": %d, "
     "\"notes\": \"All coordinates and radius in degrees. GMST, LMST in hrs.\"}, ",
-    p.tle_file_name, p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd[0], p.mjd[1], p.date[0], p.date[1], p.gmst, p.delta_time);
+    p.gmst, p.delta_time);
 }
 
 void add_fieldsdesc_json() {
@@ -386,10 +410,13 @@ void add_sundata_json(char *label) {
 void close_stat_json(int argc, char **argv, int status, char *errmsg, int n_sats_found) {
   printf("\"run_command\": \"%s", progname);
   for ( int i = 1; i < argc; i++ ) {
-	printf (" %s", argv[i]);
+	putchar(' ');
+	print_json_str(argv[i]);
   }
-  printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d"
-	 "}\n", status, errmsg, n_sats_found);
+  printf("\", \"status\": %d, \"errmsg\": \"", status);
+  print_json_str(errmsg);
+  printf("\", \"n_sats_found\": %d"
+	 "}\n", n_sats_found);
 }
 
 
@@ -959,8 +986,11 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 
 	add_fieldsdesc_json();
 	printf(" \"satellite\": ");
-	printf("{\"name\": \"%s\", \"intl_desig\": \"%s\", \"norad_n\": %d, ",
-		sat_name, intl_desig, tle.norad_number);
+	printf("{\"name\": \"");
+	print_json_str(sat_name);
+	printf("\", \"intl_desig\": \"");
+	print_json_str(intl_desig);
+	printf("\", \"norad_n\": %d, ", tle.norad_number);
 
 	sat_geoLocation(pos);
 	add_satlatlon_json("geoloc_start");
-- 
2.43.0


From 843cbe86e7b03f5b0b49cd6f67f9a4f7733c1d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:44 +0000
Subject: [PATCH 16/59] fix: close the satellites array when an error follows
 reported satellites

---
 src/sat_skymap.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index fbabd83..d6c598b 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -250,6 +250,12 @@ void add_satlatlon_json(Geoloc geo) {
     printf( "\"geoloc\": {\"lat\":%7.3lf, \"lon\":%7.3lf, \"alt\":%9.2lf, \"theta\":%8.3lf}, ", geo.lat, geo.lon, geo.alt, geo.theta);
 }
 
+/* Close the satellites array, if open */
+void close_sats_json(bool info_only, int n_sats_found) {
+  if ( !info_only && n_sats_found > 0 )
+	printf("],");
+}
+
 void close_stat_json(int argc, char **argv, int status, char *errmsg, int n_sats_found, int n_sats, int n_sunlit_sats) {
   printf(" \"run_command\": \"%s", progname);
   for ( int i = 1; i < argc; i++ ) {
@@ -726,6 +732,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
 	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
+  	close_sats_json(p.info_only, n_sats_found);
   	close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(2);
     }
@@ -733,6 +740,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
 	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
+	close_sats_json(p.info_only, n_sats_found);
 	close_stat_json(argc, argv, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(-2);
     }
@@ -787,6 +795,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("\nRealloc extra bytes. Now %d \n", cur_bufflen);
 		  if ( (sbuff = (char *)realloc(sbuff, cur_bufflen)) == NULL ) {
 		    sprintf(errmsg, "Could not allocate required buffer memory");
+		    close_sats_json(p.info_only, n_sats_found);
 		    close_stat_json(argc, argv, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		    exit(1);
 		  }
@@ -817,6 +826,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* For malformed or partial tle (e.g. Bepi-Colombo) this could happen */
 	if ( isnan(ra) || isnan(dec) ) {
 		sprintf(errmsg, "Could not decode TLE data");
+		close_sats_json(p.info_only, n_sats_found);
 		close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(1);
 	}
@@ -965,8 +975,7 @@ end_checking:
 
   free(sbuff);
 
-  if ( !p.info_only && n_sats_found > 0 )
-	printf("],");
+  close_sats_json(p.info_only, n_sats_found);
 
 /* For single satellite request report failure but do not rise an error flag */
   if ( single_sat && !single_sat_found )
-- 
2.43.0


From 58d1ebfd03e93c4995917d9ae44450773da1375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 17/59] fix: refuse MJDs that have no date instead of crashing

---
 src/mjd2date.c       | 15 ++++++++-------
 src/sat_skymap.c     | 10 +++++++++-
 src/sat_visibility.c | 13 +++++++++++--
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/mjd2date.c b/src/mjd2date.c
index 8105fd2..306ef61 100644
--- a/src/mjd2date.c
+++ b/src/mjd2date.c
@@ -14,8 +14,9 @@
 #include <stdio.h>
 #include <math.h>
 
-static  const double DJMIN = -68569.5;
-static  const double DJMAX = 1e9;
+/* 0000-01-01 and 10000-01-01: years have 4 digits */
+static  const double DJMIN = 1721059.5;
+static  const double DJMAX = 5373484.5;
 static  const double DJ1 = 2400000.5;
 static  const double HALF_S_IN_DAYS = 0.000005787037037037037e0;
 
@@ -29,8 +30,8 @@ char *mjd2date(double mjd)
 
 
 /* Verify date is acceptable. */
-  dj = DJ1 + mjd;
-  if (dj < DJMIN || dj > DJMAX) return 0;
+  dj = DJ1 + mjd + HALF_S_IN_DAYS;
+  if (!(dj >= DJMIN && dj < DJMAX)) return 0;
 
 /* Copy the date, big then small, and re-align to midnight. */
   if (DJ1 >= mjd) {
@@ -67,7 +68,7 @@ char *mjd2date(double mjd)
   f -= mm/1440.;
   s = (int)(f*86400);
 
-  sprintf(date, "%4d-%2.2d-%2.2dT%2.2d:%2.2d:%2.2d", iy, im, id, h, mm, s);
+  sprintf(date, "%04d-%2.2d-%2.2dT%2.2d:%2.2d:%2.2d", iy, im, id, h, mm, s);
 
   return date;
 }
@@ -84,7 +85,7 @@ char *mjd2datef(double mjd)
 
 /* Verify date is acceptable. */
   dj = DJ1 + mjd;
-  if (dj < DJMIN || dj > DJMAX) return 0;
+  if (!(dj >= DJMIN && dj < DJMAX)) return 0;
 
 /* Copy the date, big then small, and re-align to midnight. */
   if (DJ1 >= mjd) {
@@ -123,7 +124,7 @@ char *mjd2datef(double mjd)
   f -= s/86400.;
   fs = (int)(f*8.64e7);
 
-  sprintf(date, "%4d-%2.2d-%2.2dT%2.2d:%2.2d:%2.2d.%3.3d", iy, im, id, h, mm, s, fs);
+  sprintf(date, "%04d-%2.2d-%2.2dT%2.2d:%2.2d:%2.2d.%3.3d", iy, im, id, h, mm, s, fs);
 
   return date;
 }
diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index d6c598b..45d38a6 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -502,7 +502,6 @@ int main(int argc, char **argv)
 		if ( date_given )
 		  break;
 		p.mjd = atof(argv[i] + par_pos);
-		strcpy(p.date, mjd2date(p.mjd));
 		break;
           case 'l':
 		sscanf(argv[i] + par_pos, "%lf,%lf,%lf", &p.lat, &p.lon, &p.ht_in_meters);
@@ -564,6 +563,15 @@ int main(int argc, char **argv)
   if ( p.single_sat_n || p.single_sat_i )
 	p.altrng_requested = false;  // No altitude filter
 
+  if ( mjd2date(p.mjd) == NULL ) {
+	open_json();
+	snprintf(errmsg, sizeof(errmsg), "MJD out of range. Read '%lf'", p.mjd);
+	close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+	exit(-1);
+  }
+  if ( !date_given )
+	strcpy(p.date, mjd2date(p.mjd));
+
   jd = JD_OFF + p.mjd;  // From MJD to JD
 
 /* Use default TLE repository dir. ? */
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 0e24437..b31b0ab 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -660,8 +660,6 @@ int main(int argc, char **argv)
 		if ( date_given )
 		  break;
 		sscanf(argv[i] + par_pos, "%lf,%lf", &p.mjd[0], &p.mjd[1]);
-		strcpy(p.date[0], mjd2date(p.mjd[0]));
-		strcpy(p.date[1], mjd2date(p.mjd[1]));
 		break;
           case 'l':
 		sscanf(argv[i] + par_pos, "%lf,%lf,%lf", &p.lat, &p.lon, &p.ht_in_meters);
@@ -698,6 +696,17 @@ int main(int argc, char **argv)
   if ( p.single_sat_n || p.single_sat_i )
 	p.altrng_requested = false;  // No altitude filter
 
+  for ( i = 0; i < 2; i++ ) {
+	if ( mjd2date(p.mjd[i]) == NULL ) {
+	  open_json();
+	  snprintf(errmsg, sizeof(errmsg), "MJD out of range. Read '%lf'", p.mjd[i]);
+	  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
+	  exit(-1);
+	}
+	if ( !date_given )
+	  strcpy(p.date[i], mjd2date(p.mjd[i]));
+  }
+
   jd[0] = JD_OFF + p.mjd[0];  // From MJD to JD
   jd[1] = JD_OFF + p.mjd[1];
 
-- 
2.43.0


From 084b66ec337380319bd2fb7bd7cdce90a6264f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 18/59] fix: refuse null or negative time steps and non-finite
 site, region or radius

---
 src/sat_skymap.c     | 15 +++++++++++++++
 src/sat_visibility.c | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 45d38a6..bcdb1e2 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -572,6 +572,21 @@ int main(int argc, char **argv)
   if ( !date_given )
 	strcpy(p.date, mjd2date(p.mjd));
 
+  if ( p.delta_time < 1 ) {
+	open_json();
+	snprintf(errmsg, sizeof(errmsg), "Delta time must be at least 1 second. Read '%d'", p.delta_time);
+	close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+	exit(-1);
+  }
+
+  if ( !isfinite(p.lat) || !isfinite(p.lon) || !isfinite(p.ht_in_meters) ||
+	!isfinite(p.search_radius) || !isfinite(p.ra_deg) || !isfinite(p.de_deg) || fabs(p.ht_in_meters) > 1e12 ) {
+	open_json();
+	sprintf(errmsg, "Site, region and radius must be finite numbers");
+	close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+	exit(-1);
+  }
+
   jd = JD_OFF + p.mjd;  // From MJD to JD
 
 /* Use default TLE repository dir. ? */
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index b31b0ab..f58e425 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -707,6 +707,21 @@ int main(int argc, char **argv)
 	  strcpy(p.date[i], mjd2date(p.mjd[i]));
   }
 
+  if ( p.delta_time < 1 ) {
+	open_json();
+	snprintf(errmsg, sizeof(errmsg), "Delta time must be at least 1 second. Read '%d'", p.delta_time);
+	close_stat_json(argc, argv, -1, errmsg, n_sats_found);
+	exit(-1);
+  }
+
+  if ( !isfinite(p.lat) || !isfinite(p.lon) || !isfinite(p.ht_in_meters) ||
+	!isfinite(p.search_radius) || fabs(p.ht_in_meters) > 1e12 ) {
+	open_json();
+	sprintf(errmsg, "Site, region and radius must be finite numbers");
+	close_stat_json(argc, argv, -1, errmsg, n_sats_found);
+	exit(-1);
+  }
+
   jd[0] = JD_OFF + p.mjd[0];  // From MJD to JD
   jd[1] = JD_OFF + p.mjd[1];
 
-- 
2.43.0


From e7966a9246bc9c9ec47b31c95b6750d508adb426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 19/59] fix: GMST before 2000 was negative

---
 src/lmst_hr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lmst_hr.c b/src/lmst_hr.c
index 789b91e..8161878 100644
--- a/src/lmst_hr.c
+++ b/src/lmst_hr.c
@@ -41,8 +41,10 @@ double lmst_hr(const double jd, double longit, double *gmst)
   *gmst = sid_g + 1.00273790934 * ut;
   sid_g = *gmst + longit/360.;
   *gmst *= 24.;
-  while (*gmst > 24.)
+  while (*gmst >= 24.)
 	*gmst -= 24.;
+  while (*gmst < 0.)
+	*gmst += 24.;
 
   sid_int = sid_g;
   sid_g = (sid_g - (double)sid_int) * 24.;
-- 
2.43.0


From b3897657d744257f4debf722536b82a329c28f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 20/59] fix: reduction to J2000 left the valid RA, Dec ranges
 next to the poles

---
 src/observe.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/observe.c b/src/observe.c
index d41d23b..7ea2a58 100644
--- a/src/observe.c
+++ b/src/observe.c
@@ -119,10 +119,17 @@ void DLL_FUNC epoch_of_date_to_j2000( const double jd, double *ra, double *dec)
   *ra -= t_centuries * ra_rate * 100.;
   *dec -= t_centuries * dec_rate * 100.;
 
+/* Over the pole */
+  if ( *dec > PI / 2. ) {
+	*dec = PI - *dec;
+	*ra += PI;
+  } else if ( *dec < -PI / 2. ) {
+	*dec = -PI - *dec;
+	*ra += PI;
+  }
+
 /* LN add: RA in 0 - 2pi range */
-  //*ra = fmod(*ra + PI*10., TWOPI);
+  *ra = fmod(*ra, TWOPI);
   if ( *ra < 0. ) 
 	*ra += TWOPI;
-  else if ( *ra >= TWOPI )
-	*ra -= TWOPI;
 }
-- 
2.43.0


From 028552bf2b9677881937f24f480e5cb9178fb7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 21/59] fix: azimuth and parallactic angle on the meridian
 south of the zenith

---
 src/dechalat2alt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dechalat2alt.c b/src/dechalat2alt.c
index c2cde5a..cf01717 100644
--- a/src/dechalat2alt.c
+++ b/src/dechalat2alt.c
@@ -22,13 +22,13 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
 
 /* Manage peculiar cases and calculate Azimuth */
   if ( ha == 0. ) {
-	*az = 0.;
+	*az = (dec < lat ? 180. : 0.);
 	cosha = 1.;
-	cosaz = 1.;
+	cosaz = (dec < lat ? -1. : 1.);
 	sinha = 0.;
 	sinaz = 0.;
 	sinp  = 0.;
-	cosp = -1;
+	cosp = -cosaz;
 	sinlat = sin(lat);
   } else {
 	ha = ha * 15 * DEG2RAD;
-- 
2.43.0


From 4548815887dd17a51c932e36c7924ca9c22ec82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:58 +0000
Subject: [PATCH 22/59] fix: azimuth at the poles was the hour angle in radians

---
 src/dechalat2alt.c | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/dechalat2alt.c b/src/dechalat2alt.c
index cf01717..91ca181 100644
--- a/src/dechalat2alt.c
+++ b/src/dechalat2alt.c
@@ -34,19 +34,7 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
 	ha = ha * 15 * DEG2RAD;
 	cosha = cos(ha);
 	sinha = sin(ha);
-	if (coslat < 1e-6) {  /* very close to a pole: assume +/- 90 deg */
-	  coslat = 0.;
-	  if (lat < 0.)
-	    sinlat = -1.;
-	  else
-	    sinlat = 1.;
-          *az = ha;
-	  sinaz = sinha;
-	  cosaz = cosha;
-	  sinp  = 0.;
-	  cosp  = -1. * cosha*cosha - sinha*sinha;
-	} else {
-	  sinlat = sin(lat);
+	sinlat = sin(lat);
 
           *az = atan2(-1. * cosdec*sinha, sindec*coslat - cosdec*cosha*sinlat);  /* due east, due north comp. */
 
@@ -60,7 +48,6 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
 	    sinp = -1. * sinaz * coslat / cosdec;
 	    cosp = -1. * cosaz * cosha - sinaz * sinha * sinlat;
 	  }
-	}
   }
 
 /* Parallactic angle */
-- 
2.43.0


From 43155cdb8b92cb6e9191989fdabef6c599943142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:58 +0000
Subject: [PATCH 23/59] fix: altitude of objects with Dec equal to the
 latitude, or at the nadir

---
 src/dechalat2alt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dechalat2alt.c b/src/dechalat2alt.c
index 91ca181..32086f5 100644
--- a/src/dechalat2alt.c
+++ b/src/dechalat2alt.c
@@ -61,8 +61,8 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
    }
 
 /* Altitude */
-  if ( fabs(dec - lat) < 1e-6 )
+  if ( ha == 0. && fabs(dec - lat) < 1e-6 )
 	*alt = 90.;
   else
-	*alt = RAD2DEG * asin(cosdec*cosha*coslat + sindec*sinlat);
+	*alt = RAD2DEG * asin(fmax(-1., fmin(1., cosdec*cosha*coslat + sindec*sinlat)));
 }
-- 
2.43.0


From 61f816c32aa83bda2b8f94998f1c2b438270f31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:58 +0000
Subject: [PATCH 24/59] fix: angle fields not followed by a blank were read
 past their end

---
 src/get_el.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/get_el.c b/src/get_el.c
index 7b92ea7..effe3a3 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -23,9 +23,11 @@ static int get_angle( const char *buff)
 {
    int rval = 0;
 
-   while( *buff == ' ')
+   const char *end = buff + 8;     /* fields are eight characters wide */
+
+   while( buff < end && *buff == ' ')
       buff++;
-   while( *buff != ' ')
+   while( buff < end && *buff != ' ')
       {
       if( *buff != '.')
          rval = rval * 10 + (int)( *buff - '0');
-- 
2.43.0


From 21dc9535ba4e94b1db4919baddeea9eefc05e359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 25/59] fix: billions of iterations for an exponent field
 without a digit

---
 src/get_el.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/get_el.c b/src/get_el.c
index effe3a3..190c1d9 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -56,7 +56,7 @@ static double sci( const char *string)
       if( ival)
          {
          rval = (double)ival * 1.e-5;
-         if( string[7] != '0')
+         if( string[7] > '0' && string[7] <= '9')
             {
             int exponent = string[7] - '0';
 
-- 
2.43.0


From 762bc624534a0f991874edd9519ce2516e660613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 26/59] fix: tle_checksum read past the end of 68-character
 lines

---
 src/get_el.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/get_el.c b/src/get_el.c
index 190c1d9..a926348 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -96,8 +96,8 @@ int DLL_FUNC tle_checksum( const char *buff)
          return( -2);
       buff++;
       }
-   rval -= *buff++ - '0';
-   if( *buff > ' ')                 /* line unterminated */
+   rval -= *buff - '0';
+   if( *buff && buff[1] > ' ')                 /* line unterminated */
       rval = -3;
    else
       {
-- 
2.43.0


From 9567bf25490b2806fc6e73a88b333ae1b59e8924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 27/59] fix: malformed state vectors aborted the program

---
 src/get_el.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/get_el.c b/src/get_el.c
index a926348..281e3f9 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -143,6 +143,18 @@ vx, vy, vz are in 10^-4 m/s,  range +/- 94% c.  The state vectors
 are in the geocentric ecliptic plane of date.  See 'sdp4.cpp' for
 a discussion of how they're actually used.  */
 
+static int is_high_value( const char *iptr)
+{
+   int i;
+
+   if( *iptr != '+' && *iptr != '-')
+      return( 0);
+   for( i = 1; i < 9; i++)
+      if( mutant_dehex( iptr[i]) < 0)
+         return( 0);
+   return( 1);
+}
+
 static double get_high_value( const char *iptr)
 {
    int64_t rval = 0;
@@ -331,6 +343,10 @@ int DLL_FUNC parse_elements( const char *line1, const char *line2, tle_t *sat)
          size_t i;
          double *state_vect = &sat->xincl;
 
+         for( i = 0; i < 3; i++)
+            if( !is_high_value( line1 + 33 + i * 10)
+                        || !is_high_value( line2 + 33 + i * 10))
+               return( -5);
          for( i = 0; i < 3; i++)
             {
             state_vect[i]     = get_high_value( line1 + 33 + i * 10);
-- 
2.43.0


From f3c4ff162db5836bfe21ec4f573ca59967ad1466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 28/59] fix: report checksum errors of state-vector elements,
 too

---
 src/get_el.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/get_el.c b/src/get_el.c
index 281e3f9..84a1027 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -352,7 +352,7 @@ int DLL_FUNC parse_elements( const char *line1, const char *line2, tle_t *sat)
             state_vect[i]     = get_high_value( line1 + 33 + i * 10);
             state_vect[i + 3] = get_high_value( line2 + 33 + i * 10) * 1e-4;
             }
-         return( 0);
+         return( checksum_problem);
          }
 
       sat->xmo = (double)get_angle( line2 + 43) * (PI / 180e+4);
-- 
2.43.0


From 54644d8191e35f0265a93f91909d14ceec7b2250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 29/59] fix: elements without decimal points decoded to epochs
 millions of years away

---
 src/get_el.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/get_el.c b/src/get_el.c
index 84a1027..0f8a8e2 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -271,7 +271,11 @@ static int get_norad_number( const char *buff)
 
 static inline double get_eight_places( const char *ptr)
 {
-   return( (double)atoi( ptr) + (double)atoi(ptr + 4) * 1e-8);
+   char tbuff[12];
+
+   memcpy( tbuff, ptr, 12);         /* three digits, point, eight digits: */
+   tbuff[3] = '\0';                /* digits may follow immediately      */
+   return( (double)atoi( tbuff) + (double)atoi(ptr + 4) * 1e-8);
 }
 
 /* Meteor 2-08                                                           */
-- 
2.43.0


From 836d308b17114cbd3956f30e76b98d067a8149f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:48 +0000
Subject: [PATCH 30/59] fix: satellites without a position were reported at the
 center of the Earth

---
 src/sat_skymap.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index bcdb1e2..a709fb9 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -369,6 +369,13 @@ void sat_geoLocation(double gmst, double *pos,  Geoloc *geo) {
 }
 
 
+/* Any error returned by SGP4, SDP4 but warnings about orbits crossing the Earth */
+static bool no_position(int rval)
+{
+  return(rval < 0 && rval != SXPX_WARN_ORBIT_WITHIN_EARTH && rval != SXPX_WARN_PERIGEE_WITHIN_EARTH);
+}
+
+
 int main(int argc, char **argv)
 {
   char errmsg[4224] = {""}, *tle_path = ".", line1[100], line2[100],
@@ -828,21 +835,21 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	}
 
 	int is_deep = select_ephemeris(&tle),
-	    is_sunlit;
+	    is_sunlit, rval, rval1;
 //printf("is_deep: %d\n", is_deep);
 	double sat_params[N_SAT_PARAMS], ang_sep, ang_sep1, d_ra, d_dec,
 		ra, dec, ra1, dec1, sep_to_satellite, t_since,
-		pos[3],  /* Satellite position vector */
+		pos[3] = {0.},  /* Satellite position vector */
 		unused_delta2;
 
 	t_since = (jd - tle.epoch) * 1440.;  /* From days to minutes */
 
 	if ( is_deep ) {
 		SDP4_init(sat_params, &tle);
-		SDP4(t_since, &tle, sat_params, pos, NULL);
+		rval = SDP4(t_since, &tle, sat_params, pos, NULL);
 	} else {
 		SGP4_init(sat_params, &tle);
-		SGP4(t_since, &tle, sat_params, pos, NULL);
+		rval = SGP4(t_since, &tle, sat_params, pos, NULL);
 	}
 	get_satellite_ra_dec_delta(observer_loc, pos, &ra, &dec, &sep_to_satellite);
 
@@ -877,9 +884,18 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	t_since += p.delta_time * 1440. / SEC_IN_DAY;
 
 	if ( is_deep )
-		SDP4(t_since, &tle, sat_params, pos, NULL);
+		rval1 = SDP4(t_since, &tle, sat_params, pos, NULL);
 	else
-		SGP4(t_since, &tle, sat_params, pos, NULL);
+		rval1 = SGP4(t_since, &tle, sat_params, pos, NULL);
+
+/* Invalid elements, or the model gives no position at this time (e.g. decayed satellite) */
+	if ( is_deep < 0 || no_position(rval) || no_position(rval1) ) {
+		if ( !single_sat )
+			continue;
+		sprintf(errmsg, "No position available for the requested satellite");
+		close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		exit(1);
+	}
 
 	get_satellite_ra_dec_delta(observer_loc2, pos, &ra1, &dec1, &unused_delta2);
 	epoch_of_date_to_j2000(jd, &ra1, &dec1);
-- 
2.43.0


From 122bb323c601fb324058ce06bd4ce757b2a701f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 31/59] fix: sat_visibility lost the second date when the first
 has fractional seconds

---
 src/sat_visibility.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index f58e425..3d459e4 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -639,7 +639,9 @@ int main(int argc, char **argv)
 			Usage();
 		        exit(0);
 		}
-		sscanf(argv[i] + par_pos, "%19s,%19s", p.date[0], p.date[1]);
+		sscanf(argv[i] + par_pos, "%19[^,]", p.date[0]);
+		if ( (endptr = strchr(argv[i] + par_pos, ',')) != NULL )
+		  sscanf(endptr + 1, "%19s", p.date[1]);
 		date2mjd_nf(p.date[0], &p.mjd[0]);
 		date2mjd_nf(p.date[1], &p.mjd[1]);
 		date_given = true;
-- 
2.43.0


From 7df3c58a15ff8e9f0b0f1f03bb685571b4bd8493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 32/59] fix: sat_visibility closed a file never opened when a
 list has no files

---
 src/sat_visibility.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 3d459e4..839ccbf 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -801,6 +801,9 @@ int main(int argc, char **argv)
 	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
     }
  
+    if ( ifile )
+	fclose(ifile);
+
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
 	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
   	close_stat_json(argc, argv, 2, errmsg, n_sats_found);
@@ -854,10 +857,11 @@ int main(int argc, char **argv)
 
   }  // end while read_tle_list
 
-  fclose(ifile);
+  if ( ifile )
+	fclose(ifile);
 
   if ( !single_sat_found ) {
-	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", ifile ? tle_path_file : tle_list_file);
 	close_stat_json(argc, argv, 1, errmsg, n_sats_found);
 	exit(1);
   }
-- 
2.43.0


From 8a6f501b1cdc0841e116bf4bc98d0706fe49f102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 33/59] fix: sunlit duration and mid time were off by the time
 step

---
 src/sat_visibility.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 839ccbf..78d5c29 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -982,7 +982,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 /* First time the satellite no longer sunlit */
 	if ( !sunlit_end_found ) {
 	  sunlit_end_found = true;
-	  mjd_sunlit_end = t - JD_OFF;
+	  mjd_sunlit_end = t - JD_OFF - p.delta_time / SEC_IN_DAY;
 	  sat_geoLocation(pos);
 	  add_satlatlon_json("geoloc_end");
 	  add_sundata_json("sun_end");
@@ -999,7 +999,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 /* First time the satellite is sunlit */
     if ( !sunlit_start_found ) {
 	sunlit_start_found = true;
-	mjd_sunlit_start = t - JD_OFF;
+	mjd_sunlit_start = t - JD_OFF - p.delta_time / SEC_IN_DAY;
 
 	if ( !p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' ) {
-- 
2.43.0


From ad20363e126242c1ae4756d1082cb1e800655de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 34/59] fix: MJD of sat_mid and sat_max was that of sat_end

---
 src/sat_visibility.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 78d5c29..fe0b41c 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -1084,7 +1084,8 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	get_sun_data(t, target_ra_rad, target_dec_rad, false);
 	add_satlatlon_json("geoloc_mid");
 	add_sundata_json("sun_mid");
-	strcpy(sat.cur_date, mjd2date(mjd_sunlit_mid));
+	sat.cur_mjd = mjd_sunlit_mid;
+	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
@@ -1120,7 +1121,8 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	get_sun_data(t, target_ra_rad, target_dec_rad, false);
 	add_satlatlon_json("geoloc_max");
 	add_sundata_json("sun_max");
-	strcpy(sat.cur_date, mjd2date(t - JD_OFF));
+	sat.cur_mjd = t - JD_OFF;
+	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
-- 
2.43.0


From af43a07b8ad09b67e60348ba780ae69f8535d70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 35/59] fix: precession applied twice to the end data of a
 single-sample window

---
 src/sat_visibility.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index fe0b41c..b910db6 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -1029,8 +1029,11 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
+	double ra_of_date = sat.ra, dec_of_date = sat.dec;
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
 	add_satdata_json("sat_start");
+	sat.ra = ra_of_date;  /* Needed if this is also the last sample */
+	sat.dec = dec_of_date;
 	  n_sats_found++;
 
     } // end if !sunlit_start_found
-- 
2.43.0


From b818cf0c42a699117f3426cd0e4fcd348dd247c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 36/59] fix: Sun data of the end of visibility were those of
 the previous step

---
 src/sat_visibility.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index b910db6..d686d3a 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -1046,6 +1046,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 /* Still sunlit at the end of the requested time range */
   if ( sunlit_start_found && !sunlit_end_found ) {
 	mjd_sunlit_end = t - JD_OFF;
+	get_sun_data(t, target_ra_rad, target_dec_rad, false);
 	sat_geoLocation(pos);
 	add_satlatlon_json("geoloc_end");
 	add_sundata_json("sun_end");
-- 
2.43.0


From 9f53f2cb9a999a8aa1f9cbca0a203d7ddf8220ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 37/59] fix: sat_visibility used positions that the model did
 not give

---
 src/sat_visibility.c | 52 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index d686d3a..52f7dbe 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -530,6 +530,28 @@ void get_sun_data(double t, double target_ra_rad, double target_dec_rad, bool ge
 }
 
 
+/*
+  Satellite position at given time. Return false if the model does not give one (e.g. invalid
+  elements, decayed satellite): warnings about orbits crossing the Earth are ignored.
+*/
+
+bool get_sat_pos(double t_since, double *pos) {
+	int rval;
+	if ( sat.is_deep ) {
+	  SDP4_init(sat_params, &tle);
+	  rval = SDP4(t_since, &tle, sat_params, pos, NULL);
+	} else {
+	  SGP4_init(sat_params, &tle);
+	  rval = SGP4(t_since, &tle, sat_params, pos, NULL);
+	}
+
+	if ( rval < 0 && rval != SXPX_WARN_ORBIT_WITHIN_EARTH && rval != SXPX_WARN_PERIGEE_WITHIN_EARTH )
+		return(false);
+
+	return(isfinite(pos[0]) && isfinite(pos[1]) && isfinite(pos[2]));
+}
+
+
 /* Compute posn_ang_of_motion and speed given initial coords and a time > t_initial */
 
 void get_sat_PA_and_speed(double t_since) {
@@ -867,11 +889,18 @@ int main(int argc, char **argv)
   }
 
 
-   sat.is_deep = select_ephemeris(&tle);
+  i = select_ephemeris(&tle);
+  if ( i < 0 ) {
+	sprintf(errmsg, "No position available for the requested satellite");
+	close_stat_json(argc, argv, 2, errmsg, n_sats_found);
+	exit(1);
+  }
+  sat.is_deep = i;
 
   double t_since, t_min_ang_dist = 0, min_ang_sep = 181, parang_sat,
 	mjd_sunlit_start = 0, mjd_sunlit_mid = 0, mjd_sunlit_end = 0,
 	pos[3],  /* Satellite position vector */
+	new_pos[3],
 	t = jd[0],
 	eray[2];  /* Sun-Earth ray intersection radius */
 
@@ -907,6 +936,17 @@ int main(int argc, char **argv)
 
   while (t <= jd[1]) {  // Final t is approx
 
+    t_since = (t - tle.epoch) * 1440.;  /* From days to minutes */
+
+/* No position, then not visible: in case, the last position is the end one */
+    if ( !get_sat_pos(t_since, new_pos) ) {
+	if ( sunlit_start_found )
+	  break;
+	t += p.delta_time / SEC_IN_DAY;  // add deltaT
+	continue;
+    }
+    memcpy(pos, new_pos, sizeof(pos));
+
 /* Local Mean Sidereal Time & GMST */
     p.lmst = lmst_hr(t, p.lon, &p.gmst);
 
@@ -914,16 +954,6 @@ int main(int argc, char **argv)
     p.ra_deg = p.lmst * 15.;  
     target_ra_rad = p.lmst / RAD2HRS;
 
-    t_since = (t - tle.epoch) * 1440.;  /* From days to minutes */
-
-    if ( sat.is_deep ) {
-	SDP4_init(sat_params, &tle);
-	SDP4(t_since, &tle, sat_params, pos, NULL);
-    } else {
-	SGP4_init(sat_params, &tle);
-	SGP4(t_since, &tle, sat_params, pos, NULL);
-    }
-
     if ( p.altrng_requested ) {
 	sat_geoLocation(pos);
 
-- 
2.43.0


From e36c18e802cd89ecabf2c459806de4da77f890b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:34 +0000
Subject: [PATCH 38/59] fix: select_ephemeris took state-vector elements for
 erroneous ones

---
 src/basics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basics.c b/src/basics.c
index ebd3b88..319729b 100644
--- a/src/basics.c
+++ b/src/basics.c
@@ -37,7 +37,7 @@ double FMod2p( const double x)
 #define EPHEM_TYPE_SDP4       '3'
 #define EPHEM_TYPE_SGP8       '4'
 #define EPHEM_TYPE_SDP8       '5'
-#define EPHEM_TYPE_HIGH       'h'
+#define EPHEM_TYPE_HIGH       'H'
 
 /*------------------------------------------------------------------*/
 
-- 
2.43.0


From 1c6bfda5708cb4801965047e91e82a1a70b856e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 39/59] fix: npix2nside64 rounded the pixel count through a
 double

For nside above about 9.5e7 npix/12 is not representable in a double, so that
valid map sizes were rejected (npix2nside64(12*109588317^2) gave -1).
---
 HealpixC/chealpix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index d6e89c0..07cd643 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -820,7 +820,7 @@ static void pix2ang_nest_z_phi64 (int64_t nside_, int64_t pix, double *z,
 
 long npix2nside64(int64_t npix)
   {
-  int64_t res = isqrt64(npix/12.);
+  int64_t res = isqrt64(npix/12);
   return (res*res*12==npix) ? (long)res : -1;
   }
 
-- 
2.43.0


From c76c0643c3d047372ab040d3adb220614dd6a1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 40/59] fix: ang2pix_nest beyond the last face just below
 longitude 2 pi

With phi the double below 2*pi, tt+0.5 rounds to 4.5, and on |z|=2/3 one of
the edge lines gets base index 4 or 5: the face number became 4 for 0, or 12,
whose pixels are not in the map (ang2pix_nest(8192, acos(-2/3), 2*pi-1ulp) gave
850045610 of 805306368 pixels).
---
 HealpixC/chealpix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index 07cd643..5d2100f 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -243,7 +243,7 @@ static int ang2pix_nest_z_phi (long nside_, double z, double phi)
     int jm = (int)(temp1+temp2); /* index of descending edge line */
     int ifp = jp/nside_;  /* in {0,4} */
     int ifm = jm/nside_;
-    face_num = (ifp==ifm) ? (ifp|4) : ((ifp<ifm) ? ifp : (ifm+8));
+    face_num = (ifp==ifm) ? (ifp|4) : ((ifp<ifm) ? (ifp&3) : ((ifm&3)+8));
 
     ix = jm & (nside_-1);
     iy = nside_ - (jp & (nside_-1)) - 1;
@@ -651,7 +651,7 @@ static int64_t ang2pix_nest_z_phi64 (int64_t nside_, double z, double s,
     int64_t jm = (int64_t)(temp1+temp2); /* index of descending edge line */
     int64_t ifp = jp/nside_;  /* in {0,4} */
     int64_t ifm = jm/nside_;
-    face_num = (ifp==ifm) ? (ifp|4) : ((ifp<ifm) ? ifp : (ifm+8));
+    face_num = (ifp==ifm) ? (ifp|4) : ((ifp<ifm) ? (ifp&3) : ((ifm&3)+8));
 
     ix = jm & (nside_-1);
     iy = nside_ - (jp & (nside_-1)) - 1;
-- 
2.43.0


From 250ffe8a36643b733bd4c0d116e2dc441bd757f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 41/59] fix: ang2pix_ring left the map or its ring on |z|=2/3
 and at high resolution

On the boundary between belt and caps rounding could give ring 0 (a negative
index: ang2pix_ring(2, acos(2/3), just below pi/4) was -3), ring 2n+2, or a cap
ring n+1 with belt numbering; and next to a cell edge (int)(tt*ir) disagreed
with the edge line indices. Keep ring and in-ring index consistent with the
edge lines, as ang2pix_nest does.
---
 HealpixC/chealpix.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index 5d2100f..f263f7b 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -291,6 +291,8 @@ static int ang2pix_ring_z_phi (long nside_, double z, double phi)
 
     /* ring number counted from z=2/3 */
     int ir = nside_ + 1 + jp - jm; /* in {1,2n+1} */
+    if (ir<1) { ir=1; --jm; } /* rounding on z=+-2/3 */
+    if (ir>2*nside_+1) { ir=2*nside_+1; --jp; }
     int kshift = 1-(ir&1); /* kshift=1 if ir even, 0 otherwise */
 
     int ip = (jp+jm-nside_+kshift+1)/2; /* in {0,4n-1} */
@@ -300,15 +302,17 @@ static int ang2pix_ring_z_phi (long nside_, double z, double phi)
     }
   else  /* North & South polar caps */
     {
-    double tp = tt-(int)(tt);
+    int ntt = (tt<4.) ? (int)tt : 3;
+    double tp = tt-ntt;
     double tmp = nside_*sqrt(3*(1-za));
 
     int jp = (int)(tp*tmp); /* increasing edge line index */
     int jm = (int)((1.0-tp)*tmp); /* decreasing edge line index */
 
+    if (jp>=nside_) jp = nside_-1; /* for points too close to the boundary */
+    if (jp+jm>=nside_) jm = nside_-1-jp;
     int ir = jp+jm+1; /* ring number counted from the closest pole */
-    int ip = (int)(tt*ir); /* in {0,4*ir-1} */
-    ip = imodulo(ip,4*ir);
+    int ip = ntt*ir + jp; /* in {0,4*ir-1} */
 
     if (z>0)
       return 2*ir*(ir-1) + ip;
@@ -703,6 +707,8 @@ static int64_t ang2pix_ring_z_phi64 (int64_t nside_, double z, double s,
 
     /* ring number counted from z=2/3 */
     int64_t ir = nside_ + 1 + jp - jm; /* in {1,2n+1} */
+    if (ir<1) { ir=1; --jm; } /* rounding on z=+-2/3 */
+    if (ir>2*nside_+1) { ir=2*nside_+1; --jp; }
     int kshift = 1-(ir&1); /* kshift=1 if ir even, 0 otherwise */
 
     int64_t ip = (jp+jm-nside_+kshift+1)/2; /* in {0,4n-1} */
@@ -712,15 +718,17 @@ static int64_t ang2pix_ring_z_phi64 (int64_t nside_, double z, double s,
     }
   else  /* North & South polar caps */
     {
-    double tp = tt-(int)(tt);
+    int ntt = (tt<4.) ? (int)tt : 3;
+    double tp = tt-ntt;
     double tmp = (s>-2.) ? nside_*s/sqrt((1.+za)/3.) : nside_*sqrt(3*(1-za));
 
     int64_t jp = (int64_t)(tp*tmp); /* increasing edge line index */
     int64_t jm = (int64_t)((1.0-tp)*tmp); /* decreasing edge line index */
 
+    if (jp>=nside_) jp = nside_-1; /* for points too close to the boundary */
+    if (jp+jm>=nside_) jm = nside_-1-jp;
     int64_t ir = jp+jm+1; /* ring number counted from the closest pole */
-    int64_t ip = (int64_t)(tt*ir); /* in {0,4*ir-1} */
-    ip = imodulo64(ip,4*ir);
+    int64_t ip = ntt*ir + jp; /* in {0,4*ir-1} */
 
     if (z>0)
       return 2*ir*(ir-1) + ip;
-- 
2.43.0


From bc7b60e3f19d08f8127e8676c82b62b5115a874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 42/59] fix: read_healpix_map divided by zero on a table
 without rows

A binary table with no rows ended the caller with SIGFPE, and a negative NSIDE
was accepted. Refuse both like other files that are not maps.
---
 HealpixC/chealpix.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index f263f7b..280a7f3 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -974,7 +974,8 @@ float *read_healpix_map(const char *infile, long *nside, char *coordsys,
   printerror(status);
 
   npix = 12*(*nside)*(*nside);
-  UTIL_ASSERT((npix%naxis[1])==0,"Problem with npix.");
+  UTIL_ASSERT((*nside>0)&&(naxis[1]>0)&&((npix%naxis[1])==0),
+    "Problem with npix.");
 
   if (fits_read_key(fptr, TSTRING, "COORDSYS",coordsys, NULL, &status)) {
     fprintf(stderr, "WARNING: Could not find %s keyword in in file %s\n",
-- 
2.43.0


From 600bf5dbf68ac295cb8428e5535134c19998d9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:12 +0000
Subject: [PATCH 43/59] fix: position angle of motion printed as 360 for tiny
 westward motions

---
 src/sat_skymap.c     | 2 +-
 src/sat_visibility.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index a709fb9..94a293d 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -979,7 +979,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		printf("\"data\": [%8.4lf,%8.4lf,%8.4lf,%8.4lf,%9.2lf,%6.4lf,%3d,%6.3lf,%d,%ld]}",
 			ra * RAD2DEG, dec * RAD2DEG, ra1 * RAD2DEG, dec1 * RAD2DEG,
 			sep_to_satellite, ang_sep,
-			(int)(posn_ang_of_motion * RAD2DEG), speed, is_sunlit, id8nest);
+			(int)(posn_ang_of_motion * RAD2DEG) % 360, speed, is_sunlit, id8nest);
 /* Speed is displayed in arcminutes/second (== degrees/minute) */
 	  }
 	  n_sats_found++;
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 52f7dbe..bdc080d 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -395,7 +395,7 @@ void add_satdata_json(char *label) {
     "\"Date\": \"%s\", \"MJD\": %11.5lf, \"ra\": %8.4lf, \"dec\": %8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"Distance\": %9.2lf, \"Separation\": %6.4lf, \"PA\": %3d, \"Speed\": %6.3lf}",
     label,
     sat.cur_date, sat.cur_mjd, sat.ra * RAD2DEG, sat.dec * RAD2DEG, sat.az, sat.alt,
-    sat.d_km, sat.ang_sep, (int)(sat.parang * RAD2DEG), sat.speed);
+    sat.d_km, sat.ang_sep, (int)(sat.parang * RAD2DEG) % 360, sat.speed);
     if ( strstr(label,"sat_max") == NULL )
 	printf(", ");
 }
-- 
2.43.0


From eb1e62de4038681ea47ed3a77665f9de42afbcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:17 +0000
Subject: [PATCH 44/59] fix: sat_visibility printed null sidereal times and
 zenith RA in input_params

---
 src/sat_visibility.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index bdc080d..e398e78 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -910,6 +910,10 @@ int main(int argc, char **argv)
   p.de_deg = p.lat;
   target_dec_rad = p.lat * DEG2RAD;
 
+/* Sidereal times and zenith RA at the start of the range */
+  p.lmst = lmst_hr(jd[0], p.lon, &p.gmst);
+  p.ra_deg = p.lmst * 15.;
+
   add_geofieldsdesc_json();
 /* Alt, Az, Parang from Dec, HA, Lat */
   dechalat2alt(target_dec_rad, hazenith, p.lat, &p.alt, &p.az, &p.parang);
-- 
2.43.0


From a30d577924ca7525248d127fb5787e26fba331c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 45/59] fix: a satellite whose number is padded with blanks was
 listed again

---
 src/sat_skymap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 94a293d..e6715d9 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -787,6 +787,9 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* First check if we have processed this sat already */
 	strncpy(norad_name, line1+2, 5);  /* this is tle.norad_number */
 	norad_name[5] = '\0';
+	for ( i = 0; i < 5; i++ )  /* blanks stand for zeros */
+	  if ( norad_name[i] == ' ' )
+		norad_name[i] = '0';
 //printf("\Satname:->%s\n", sat_name);
 //printf("NORAD:->%s\n", norad_name);
 
-- 
2.43.0


From e4440c44f34e05cbf20a4c0b67be3cde650bc44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 46/59] fix: fractional seconds of a calendar date were ignored

---
 src/date2mjd_nf.c    | 5 +++--
 src/sat_visibility.c | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/date2mjd_nf.c b/src/date2mjd_nf.c
index 695a0ee..5ca3d11 100644
--- a/src/date2mjd_nf.c
+++ b/src/date2mjd_nf.c
@@ -16,10 +16,11 @@ static const double JD_OFF = 2400000.5;
 
 int date2mjd_nf(const char *date, double *mjd) {
 
-  int nr, y, m, d, h, mm, s;
+  int nr, y, m, d, h, mm;
+  double s;
   long a,b;
 
-  nr = sscanf( date, "%4d-%2d-%2dT%2d:%2d:%2d", &y, &m, &d, &h, &mm, &s);
+  nr = sscanf( date, "%4d-%2d-%2dT%2d:%2d:%6lf", &y, &m, &d, &h, &mm, &s);
 
   if ( nr == 6 ) {
     if ( m<=2 ) {
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index e398e78..cf0ba8a 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -661,9 +661,9 @@ int main(int argc, char **argv)
 			Usage();
 		        exit(0);
 		}
-		sscanf(argv[i] + par_pos, "%19[^,]", p.date[0]);
+		sscanf(argv[i] + par_pos, "%23[^,]", p.date[0]);
 		if ( (endptr = strchr(argv[i] + par_pos, ',')) != NULL )
-		  sscanf(endptr + 1, "%19s", p.date[1]);
+		  sscanf(endptr + 1, "%23s", p.date[1]);
 		date2mjd_nf(p.date[0], &p.mjd[0]);
 		date2mjd_nf(p.date[1], &p.mjd[1]);
 		date_given = true;
-- 
2.43.0


From 6ccc2fdf7d37f2db8d7f33db2b9bb7debba2af84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 47/59] fix: infinite or not-a-number seconds were taken as a
 date

---
 src/date2mjd_nf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/date2mjd_nf.c b/src/date2mjd_nf.c
index 5ca3d11..f65ff6c 100644
--- a/src/date2mjd_nf.c
+++ b/src/date2mjd_nf.c
@@ -22,7 +22,7 @@ int date2mjd_nf(const char *date, double *mjd) {
 
   nr = sscanf( date, "%4d-%2d-%2dT%2d:%2d:%6lf", &y, &m, &d, &h, &mm, &s);
 
-  if ( nr == 6 ) {
+  if ( nr == 6 && fabs(s) < 100. ) {
     if ( m<=2 ) {
       y--;
       m += 12;
-- 
2.43.0


From e925c5813c4611563e53ab9045640146556abe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:05 +0000
Subject: [PATCH 48/59] fix: tle_retrieve.sh wrote its lists wherever it was
 started if the directory cannot be entered

---
 scripts/tle_retrieve.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index 6ad85f5..019c2e1 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -40,7 +40,7 @@ else
 fi
 
 # Goto destination directory
-cd $OUTDIR
+cd "$OUTDIR" || exit 1
 
 # List of most relevant TLE files
 tlesmain=( last-30-days stations visual active analyst weather noaa goes resource sarsat dmc tdrss argos spire geo iridium iridium-NEXT globalstar swarm amateur x-comm other-comm satnogs gorizont raduga molniya gnss gps-ops glo-ops galileo beidou sbas nnss musson science geodetic engineering education military radar cubesat other )
-- 
2.43.0


From 88e113cb57efee636e351446130d30ba92a892e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:05 +0000
Subject: [PATCH 49/59] fix: the yearly element files were not found in a
 relative directory

---
 scripts/tle_retrieve.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index 019c2e1..2edfa5c 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -146,7 +146,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
 
 
 # Add Gaia TLE from 2025 list (see https://github.com/Bill-Gray/tles/ => 13074a25.tle)
-  if [ ! -f $OUTDIR/gaia_2025.txt ]; then
+  if [ ! -f gaia_2025.txt ]; then
 	echo To have Gaia TLEs move gaia_2025.txt from the scripts to the TLE dir.
   else
 # Use approx int MJD. See also the C code in src directory.
@@ -155,7 +155,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
   fi
 
 # Add James Webb TLE from 2025 list (see https://github.com/Bill-Gray/tles/ => 21130a25.tle)
-  if [ ! -f $OUTDIR/jwt_2025.txt ]; then
+  if [ ! -f jwt_2025.txt ]; then
 	echo To have JWT TLEs move jwt_2025.txt from the scripts to the TLE dir.
   else
 # Use approx int MJD. See also the C code in src directory.
@@ -164,7 +164,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
   fi
 
 # Add EUCLID TLE from 2025 list (see https://github.com/Bill-Gray/tles/ => 23092a25.tle)
-  if [ ! -f $OUTDIR/euclid_2025.txt ]; then
+  if [ ! -f euclid_2025.txt ]; then
 	echo To have JWT TLEs move euclid_2025.txt from the scripts to the TLE dir.
   else
 # Use approx int MJD. See also the C code in src directory.
@@ -173,7 +173,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
   fi
 
 # Add JUICE TLE from 2024 list (see https://github.com/Bill-Gray/tles/ => 23053a.tle - 2025 not present)
-  if [ ! -f $OUTDIR/juice_2024.txt ]; then
+  if [ ! -f juice_2024.txt ]; then
 	echo To have JUICE TLEs move juice_2024.txt from the scripts to the TLE dir.
   else
 # Use approx int MJD. See also the C code in src directory.
-- 
2.43.0


From ae1c8dbd8f12bcfd25adac2703b23bb92dcdcafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:05 +0000
Subject: [PATCH 50/59] fix: the day number was looked for in the element lines
 too

---
 scripts/tle_retrieve.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index 2edfa5c..db4c9a8 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -151,7 +151,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
   else
 # Use approx int MJD. See also the C code in src directory.
 	MJD=`expr $(date +%s) / 86400 + 40588`
-	awk -v mjd="${MJD}" '$0 ~ mjd { print ; for(n=0; n<3; n++) { getline ; if ( index($1, "Gaia") > 0 ) { print "GAIA"} else { print } } }' gaia_2025.txt >> special.txt
+	awk -v mjd="${MJD}" '$0 ~ "^# MJD " mjd { print ; for(n=0; n<3; n++) { getline ; if ( index($1, "Gaia") > 0 ) { print "GAIA"} else { print } } }' gaia_2025.txt >> special.txt
   fi
 
 # Add James Webb TLE from 2025 list (see https://github.com/Bill-Gray/tles/ => 21130a25.tle)
@@ -160,7 +160,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
   else
 # Use approx int MJD. See also the C code in src directory.
 	MJD=`expr $(date +%s) / 86400 + 40588`
-	awk -v mjd="${MJD}" '$0 ~ mjd { print ; for(n=0; n<3; n++) { getline ; if ( index($1, "James") > 0 ) { print "JAMES WEBB"} else { print } } }' jwt_2025.txt >> special.txt
+	awk -v mjd="${MJD}" '$0 ~ "^# MJD " mjd { print ; for(n=0; n<3; n++) { getline ; if ( index($1, "James") > 0 ) { print "JAMES WEBB"} else { print } } }' jwt_2025.txt >> special.txt
   fi
 
 # Add EUCLID TLE from 2025 list (see https://github.com/Bill-Gray/tles/ => 23092a25.tle)
@@ -169,7 +169,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
   else
 # Use approx int MJD. See also the C code in src directory.
 	MJD=`expr $(date +%s) / 86400 + 40588`
-	awk -v mjd="${MJD}" '$0 ~ mjd { print ; for(n=0; n<3; n++) { getline ; if ( index($1, "Euclid") > 0 ) { print "EUCLID"} else { print } } }' euclid_2025.txt >> special.txt
+	awk -v mjd="${MJD}" '$0 ~ "^# MJD " mjd { print ; for(n=0; n<3; n++) { getline ; if ( index($1, "Euclid") > 0 ) { print "EUCLID"} else { print } } }' euclid_2025.txt >> special.txt
   fi
 
 # Add JUICE TLE from 2024 list (see https://github.com/Bill-Gray/tles/ => 23053a.tle - 2025 not present)
@@ -178,7 +178,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
   else
 # Use approx int MJD. See also the C code in src directory.
 	MJD=`expr $(date +%s) / 86400 + 40588`
-	awk -v mjd="${MJD}" '$0 ~ mjd { print ; for(n=0; n<3; n++) { getline ; if ( index($1, "JUICE") > 0 ) { print "JUICE"} else { print } } }' juice_2024.txt >> special.txt
+	awk -v mjd="${MJD}" '$0 ~ "^# MJD " mjd { print ; for(n=0; n<3; n++) { getline ; if ( index($1, "JUICE") > 0 ) { print "JUICE"} else { print } } }' juice_2024.txt >> special.txt
   fi
 
 
-- 
2.43.0


From 97025ed1947ede3f5b0fb830b549567b6525d6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:05 +0000
Subject: [PATCH 51/59] fix: tle_retrieve.sh counted the satellites of another
 directory

---
 scripts/tle_retrieve.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index db4c9a8..0d2c534 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -185,6 +185,6 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
 #
 # Produce the updated list of number of sats in the TLE file. Comment out if not needed.
 #
-$BINDIR/tle_satcount.sh
+$BINDIR/tle_satcount.sh "$PWD"
 
 date | tee -a $LOGFILE
-- 
2.43.0


From 7795c778a4820464f2d961bb521d914ac36af528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:05 +0000
Subject: [PATCH 52/59] fix: tle_satcount.sh removed and wrote files wherever
 it was started if the directory cannot be entered

---
 scripts/tle_satcount.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/tle_satcount.sh b/scripts/tle_satcount.sh
index 3ac284c..2a81c7c 100755
--- a/scripts/tle_satcount.sh
+++ b/scripts/tle_satcount.sh
@@ -27,7 +27,7 @@ else
 fi
 
 # Goto TLE dir
-cd $TLEDIR
+cd "$TLEDIR" || exit 1
 
 # Remove old log files (if they exist)
 rm -f $OUTFILE $OUTFILE_DEB $OUTFILE_NORAD
-- 
2.43.0


From 80548613b7927e256337c5c4e67d5cc7f91f3f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 53/59] fix: numbers left by an interrupted tle_satcount.sh
 were counted again

---
 scripts/tle_satcount.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/tle_satcount.sh b/scripts/tle_satcount.sh
index 2a81c7c..c9706f5 100755
--- a/scripts/tle_satcount.sh
+++ b/scripts/tle_satcount.sh
@@ -30,7 +30,7 @@ fi
 cd "$TLEDIR" || exit 1
 
 # Remove old log files (if they exist)
-rm -f $OUTFILE $OUTFILE_DEB $OUTFILE_NORAD
+rm -f $OUTFILE $OUTFILE_DEB $OUTFILE_NORAD ${OUTFILE_NORAD}_tmp
 
 # List of most relevant TLE files, excluding debris
 tlesmain=( last-30-days stations visual active analyst weather noaa goes resource sarsat dmc tdrss argos spire geo iridium iridium-NEXT globalstar swarm amateur x-comm other-comm satnogs gorizont raduga molniya gnss gps-ops glo-ops galileo beidou sbas nnss musson science geodetic engineering education military radar cubesat other gpz gpz-plus )
-- 
2.43.0


From 948e678f45fe4e94fbf5d4ae57ff358e490c3c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 54/59] fix: names of the counted lists lost their last
 character with POSIX awks

---
 scripts/tle_satcount.sh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/tle_satcount.sh b/scripts/tle_satcount.sh
index c9706f5..694e691 100755
--- a/scripts/tle_satcount.sh
+++ b/scripts/tle_satcount.sh
@@ -45,7 +45,7 @@ tlesdeb=( 1982-092 1999-025 iridium-33-debris cosmos-2251-debris )
 for TLE_NAME in "${tlesmain[@]}"
 do
 	TLE=$TLE_NAME".txt"
-	wc -l $TLE | awk '{print substr($2, 0, index($2, ".")-1)" "$1/3}' | tee -a $OUTFILE
+	wc -l $TLE | awk '{print substr($2, 1, index($2, ".")-1)" "$1/3}' | tee -a $OUTFILE
 
 	sed -n 3~3p $TLE | cut -d " " -f 2 >> ${OUTFILE_NORAD}_tmp
 done
@@ -53,7 +53,7 @@ done
 for TLE_NAME in "${tlessupp[@]}"
 do
 	TLE=$TLE_NAME".txt"
-	wc -l $TLE | awk '{print substr($2, 0, index($2, ".")-1)" "$1/3}' | tee -a $OUTFILE
+	wc -l $TLE | awk '{print substr($2, 1, index($2, ".")-1)" "$1/3}' | tee -a $OUTFILE
 
 	sed -n 3~3p $TLE | cut -d " " -f 2 >> ${OUTFILE_NORAD}_tmp
 done
@@ -62,7 +62,7 @@ done
 for TLE_NAME in "${tlesdeb[@]}"
 do
 	TLE=$TLE_NAME".txt"
-	wc -l $TLE | awk '{print substr($2, 0, index($2, ".")-1)" "$1/3}' | tee -a $OUTFILE_DEB
+	wc -l $TLE | awk '{print substr($2, 1, index($2, ".")-1)" "$1/3}' | tee -a $OUTFILE_DEB
 done
 
 # Count "unique" NORAD IDs
-- 
2.43.0


From f7a30d3f2aa6e06b1a4fd7d255bfba4d27006059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 55/59] fix: no number of debris was given for no debris

---
 scripts/tle_satcount.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/tle_satcount.sh b/scripts/tle_satcount.sh
index 694e691..32b1503 100755
--- a/scripts/tle_satcount.sh
+++ b/scripts/tle_satcount.sh
@@ -72,7 +72,7 @@ rm ${OUTFILE_NORAD}_tmp
 n_sats=`cat $OUTFILE_NORAD | wc -l`
 
 # Debris IDs are all different so just sum the counts for each file
-n_debs=`awk '{sum += $2} END {print sum}' $OUTFILE_DEB`
+n_debs=`awk '{sum += $2} END {print sum+0}' $OUTFILE_DEB`
 
 # The total
 n_tot=$((n_sats + n_debs))
-- 
2.43.0


From bdf05fcfda20d95fbc90fb36708f555ffe614330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 56/59] fix: two lists of files named files that are no longer
 retrieved

---
 ALL_merged.lis       | 4 ++--
 ALL_merged_nodeb.lis | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ALL_merged.lis b/ALL_merged.lis
index be89cde..b513a77 100644
--- a/ALL_merged.lis
+++ b/ALL_merged.lis
@@ -1,7 +1,7 @@
 active.txt
 visual.txt
 stations.txt
-tle-new.txt
+last-30-days.txt
 analyst.txt
 weather.txt
 noaa.txt
@@ -48,7 +48,7 @@ cubesat.txt
 other.txt
 gpz.txt
 gpz-plus.txt
-2019-006.txt
+1982-092.txt
 1999-025.txt
 iridium-33-debris.txt
 cosmos-2251-debris.txt
diff --git a/ALL_merged_nodeb.lis b/ALL_merged_nodeb.lis
index 97a7f8e..3f242b1 100644
--- a/ALL_merged_nodeb.lis
+++ b/ALL_merged_nodeb.lis
@@ -1,7 +1,7 @@
 active.txt
 visual.txt
 stations.txt
-tle-new.txt
+last-30-days.txt
 analyst.txt
 weather.txt
 noaa.txt
-- 
2.43.0


From 66239e6bdaa0df5dcba37c3a96a4a3274848a1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 57/59] fix: SGP8 gave no numbers for a circular orbit under
 drag

---
 src/sgp8.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/sgp8.c b/src/sgp8.c
index 43c6b01..2e40d59 100644
--- a/src/sgp8.c
+++ b/src/sgp8.c
@@ -186,9 +186,9 @@ void DLL_FUNC SGP8_init( double *params, const tle_t *tle)
       etddt = (eddot+edot*2.*tsdtts)*tsi*s_const+tsddts*eta;
       r1 = tsdtts;
       d18 = tsddts-r1*r1;
-      r1 = psdtps;
+      r1 = etdt*psim2;     /* = -psdtps/eta,  defined for circular orbits too */
       rr2 = psdtps;
-      d19 = -(r1*r1)/eta2-eta*etddt*psim2-rr2*rr2;
+      d19 = -(r1*r1)-eta*etddt*psim2-rr2*rr2;
       d23 = etdt*etdt;
       d1ddt = d1dt*(d14+d15)+d1*(d18-d19*2.+two_thirds*d17+
          (alpha2*d25/deep_arg.betao2+tle->eo*eddot)*2./deep_arg.betao2);
@@ -213,8 +213,16 @@ void DLL_FUNC SGP8_init( double *params, const tle_t *tle)
       pp = (temp+r1*r1)/temp;
       gamma = -xntrdt/(xnddt*(pp-2.));
       xnd = xndt/(pp*gamma);
-      qq = 1.-eddot/(edot*gamma);
-      ed = edot/(qq*gamma);
+      if( edot == 0.)      /* circular,  and perigee at the node or in the equator */
+         {
+         qq = 1.;
+         ed = 0.;
+         }
+      else
+         {
+         qq = 1.-eddot/(edot*gamma);
+         ed = edot/(qq*gamma);
+         }
       ovgpp = 1./(gamma*(pp+1.));
       }
    else
-- 
2.43.0


From 2fb5b39b468578902a7841eb028e404966e22c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:51 +0000
Subject: [PATCH 58/59] fix: a satellite without a name line was given the name
 of the one before

---
 src/sat_skymap.c     | 16 ++++++++++++----
 src/sat_visibility.c | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index e6715d9..8197104 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -171,6 +171,13 @@ void print_json_str(const char *str)
 }
 
 
+/* One of the two lines of elements? A name can start with 1 or 2 */
+static bool is_tle_line(const char *line)
+{
+  return((line[0] == '1' || line[0] == '2') && line[1] == ' ');
+}
+
+
 void Usage() {
   printf("Usage:\n  %s tle_file [OPTIONS]\n\n"
   "OPTIONS are:\n"
@@ -775,7 +782,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	exit(-2);
     }
 
-    strncpy(sat_name, line1, 23);
+    strncpy(sat_name, is_tle_line(line1) ? "" : line1, 23);
     sat_name[23] = '\0';
     trimend(sat_name);
 
@@ -997,12 +1004,13 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	} // end if ang_sep < p.search_radius
       }  // end TLE found
 
-      strcpy(line1, line2);
-      if ( (line2[0] != '1' && line2[0] != '2') || line2[1] != ' ' ) {  /* a name can start with 1 or 2 */
+      if ( !is_tle_line(line2) ) {
 	  strncpy(sat_name, line2, 23);
 	  sat_name[23] = '\0';
 	  trimend(sat_name);
-      }
+      } else if ( line2[0] == '1' && is_tle_line(line1) )
+	sat_name[0] = '\0';  /* no name line: it is not that of the previous satellite */
+      strcpy(line1, line2);
     }  // end while fgets(line2 ...
 
     fclose(ifile);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index cf0ba8a..6a031a2 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -322,6 +322,13 @@ void print_json_str(const char *str)
 }
 
 
+/* One of the two lines of elements? A name can start with 1 or 2 */
+static bool is_tle_line(const char *line)
+{
+  return((line[0] == '1' || line[0] == '2') && line[1] == ' ');
+}
+
+
 void Usage() {
   printf("Usage:\n  %s tle_file [OPTIONS]\n\n"
   "OPTIONS are:\n"
@@ -838,7 +845,7 @@ int main(int argc, char **argv)
 	exit(-2);
     }
 
-    strncpy(sat_name, line1, 23);
+    strncpy(sat_name, is_tle_line(line1) ? "" : line1, 23);
     sat_name[23] = '\0';
     trimend(sat_name);
 
@@ -866,12 +873,13 @@ int main(int argc, char **argv)
 
       }  // end TLE found
 
-      strcpy(line1, line2);
-      if ( (line2[0] != '1' && line2[0] != '2') || line2[1] != ' ' ) {  /* a name can start with 1 or 2 */
+      if ( !is_tle_line(line2) ) {
 	strncpy(sat_name, line2, 23);
 	sat_name[23] = '\0';
 	trimend(sat_name);
-      }
+      } else if ( line2[0] == '1' && is_tle_line(line1) )
+	sat_name[0] = '\0';  /* no name line: it is not that of the previous satellite */
+      strcpy(line1, line2);
     }  // end while fgets(line2 ...
 
     if ( single_sat_found )
-- 
2.43.0


From 9c8ef7392c17d135bc7960f17c12add030f305af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:01 +0000
Subject: [PATCH 59/59] fix: sat_visibility gave the motion at the first
 instant for all, seen from a site at rest

---
 src/sat_visibility.c | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 6a031a2..a67e12d 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -559,18 +559,20 @@ bool get_sat_pos(double t_since, double *pos) {
 }
 
 
-/* Compute posn_ang_of_motion and speed given initial coords and a time > t_initial */
+/* Compute posn_ang_of_motion and speed at time t (JD), given the coords at t.
+   They refer to the motion over the next delta_time seconds.
+*/
 
-void get_sat_PA_and_speed(double t_since) {
-	double pos[3], ra1, dec1, d_ra, d_dec, dist_to_satellite;
-	if ( sat.is_deep ) {
-	  SDP4_init(sat_params, &tle);
-	  SDP4(t_since, &tle, sat_params, pos, NULL);
-	} else {
-	  SGP4_init(sat_params, &tle);
-	  SGP4(t_since, &tle, sat_params, pos, NULL);
-	}
-	get_satellite_ra_dec_delta(geo.observer_loc, pos, &ra1, &dec1, &dist_to_satellite);  /* Returned RA, Dec in radians */
+void get_sat_PA_and_speed(double t, double rho_cos_phi, double rho_sin_phi) {
+	double pos[3], observer_loc[3], ra1, dec1, d_ra, d_dec, dist_to_satellite;
+
+	t += p.delta_time / SEC_IN_DAY;
+
+	if ( !get_sat_pos((t - tle.epoch) * 1440., pos) )
+		return;
+
+	observer_cartesian_coords(t, p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, observer_loc);
+	get_satellite_ra_dec_delta(observer_loc, pos, &ra1, &dec1, &dist_to_satellite);  /* Returned RA, Dec in radians */
 	//-- epoch_of_date_to_j2000(t, &ra1, &dec1);  /* Do not apply precession */
 
 	d_ra = remainder(ra1 - sat.ra, TWOPI);
@@ -986,7 +988,7 @@ int main(int argc, char **argv)
 /* Compute initial speed to be used to accelerate visibility search (TODO) */
     if ( is_t_start ) {
 	is_t_start = false;
-	get_sat_PA_and_speed(t_since);
+	get_sat_PA_and_speed(t, rho_cos_phi, rho_sin_phi);
     }
 
 /*
@@ -1030,6 +1032,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	  add_sundata_json("sun_end");
 	  sat.cur_mjd = t - JD_OFF - p.delta_time / SEC_IN_DAY;
 	  strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
+	  get_sat_PA_and_speed(JD_OFF + sat.cur_mjd, rho_cos_phi, rho_sin_phi);
 	  sat.ha = p.lmst - sat.ra * RAD2HRS;
 	  dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	  epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
@@ -1052,10 +1055,6 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 		}
 	}
 
-	t_since += p.delta_time * 1440. / SEC_IN_DAY;
-
-	get_sat_PA_and_speed(t_since);
-
 	add_fieldsdesc_json();
 	printf(" \"satellite\": ");
 	printf("{\"name\": \"");
@@ -1069,6 +1068,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	add_sundata_json("sun_start");
 	sat.cur_mjd = t - JD_OFF - p.delta_time / SEC_IN_DAY;
 	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
+	get_sat_PA_and_speed(JD_OFF + sat.cur_mjd, rho_cos_phi, rho_sin_phi);
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	double ra_of_date = sat.ra, dec_of_date = sat.dec;
@@ -1094,6 +1094,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	add_sundata_json("sun_end");
 	sat.cur_mjd = mjd_sunlit_end;
 	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
+	get_sat_PA_and_speed(JD_OFF + sat.cur_mjd, rho_cos_phi, rho_sin_phi);
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
@@ -1132,6 +1133,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	add_sundata_json("sun_mid");
 	sat.cur_mjd = mjd_sunlit_mid;
 	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
+	get_sat_PA_and_speed(JD_OFF + sat.cur_mjd, rho_cos_phi, rho_sin_phi);
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
@@ -1169,6 +1171,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	add_sundata_json("sun_max");
 	sat.cur_mjd = t - JD_OFF;
 	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
+	get_sat_PA_and_speed(JD_OFF + sat.cur_mjd, rho_cos_phi, rho_sin_phi);
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
-- 
2.43.0

