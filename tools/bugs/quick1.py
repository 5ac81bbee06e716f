SM, SV = "src/sat_skymap.c", "src/sat_visibility.c"
Q = []
def q(i, p, f, o, n): Q.append((i, p, f, o, n))

# sat_skymap
q("late-count", "C01", SM, '''    if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
  	close_sats_json(p.info_only, n_sats_found);''', '''    if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
  	close_sats_json(p.info_only, n_sats_found > 1);
  	if ( n_sats_found == 1 && !p.info_only ) printf("]");''')
q("errmsg-trunc", "C01", SM, '''	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
	close_sats_json(p.info_only, n_sats_found);''', '''	if ( !input_list ) snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
	close_sats_json(p.info_only, n_sats_found);''')
q("n-sats-single", "C01", SM, '''  if ( single_sat_found )
	n_sats = 1;
  else''', '''  if ( single_sat )
	n_sats = 1;
  else''')
q("max-echo", "C01", SM, '''p.gmst, p.delta_time, p.max_sats);''', '''p.gmst, p.delta_time, p.max_sats > 0 ? p.max_sats : 1000);''')
q("ra-short-end", "C02", SM, '''		d_ra = remainder(ra1 - target_ra, TWOPI);''', '''		d_ra = fmod(ra1 - target_ra, TWOPI);''')
q("both-inside", "C02", SM, '''		ang_sep <= p.search_radius || ang_sep1 <= p.search_radius ) {''', '''		ang_sep <= p.search_radius || (ang_sep1 <= p.search_radius && p.delta_time < 600) ) {''')
q("big-radius", "C02", SM, '''		ang_sep <= p.search_radius || ang_sep1 <= p.search_radius ) {''', '''		ang_sep <= p.search_radius || ang_sep1 <= p.search_radius || p.search_radius >= 90. + 89.9 ) {''')
q("stale-pos", "C02", SM, '''	if ( is_deep < 0 || no_position(rval) || no_position(rval1) ) {''', '''	if ( is_deep < 0 || no_position(rval1) ) {''')
q("stale-pos1", "C02", SM, '''	if ( is_deep < 0 || no_position(rval) || no_position(rval1) ) {''', '''	if ( is_deep < 0 || no_position(rval) ) {''')
q("warn-none", "C02", SM, '''rval != SXPX_WARN_ORBIT_WITHIN_EARTH && rval != SXPX_WARN_PERIGEE_WITHIN_EARTH''', '''rval != SXPX_WARN_PERIGEE_WITHIN_EARTH''')
q("prec-second", "C03", SM, '''	epoch_of_date_to_j2000(jd, &ra1, &dec1);''', '''	epoch_of_date_to_j2000(jd + p.delta_time, &ra1, &dec1);''')
q("dist-second", "C03", SM, '''	get_satellite_ra_dec_delta(observer_loc2, pos, &ra1, &dec1, &unused_delta2);''', '''	get_satellite_ra_dec_delta(observer_loc2, pos, &ra1, &dec1, is_deep && p.delta_time > 60 ? &sep_to_satellite : &unused_delta2);''')
q("desig-19", "C03", SM, '''	  if ( !p.single_sat_i ) {
		if ( tle.intl_desig[0] != ' ' ) {
		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
			(atoi( tle.intl_desig) > 57000 ?''', '''	  if ( !p.single_sat_i ) {
		if ( tle.intl_desig[0] != ' ' ) {
		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
			(atoi( tle.intl_desig) > 58000 ?''')
q("speed-plane", "C03", SM, '''	  speed = skysep_h(ra, dec, ra1, dec1) * 60 / p.delta_time;''', '''	  speed = p.haversine ? skysep_h(ra, dec, ra1, dec1) * 60 / p.delta_time : sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG * 60 / p.delta_time;''')
q("hpx-second", "C03", SM, '''	  ang2pix_nest(nside, theta, ra, &id8nest);''', '''	  ang2pix_nest(nside, theta, ang_sep <= p.search_radius ? ra : ra1, &id8nest);''')
q("pa-neg", "C03", SM, '''			(int)(posn_ang_of_motion * RAD2DEG) % 360, speed''', '''			(int)(posn_ang_of_motion * RAD2DEG + (is_deep ? .5 : 0.)) % 360, speed''')
q("alpha5-s", "C04", SM, '''		if ( tle.norad_number == p.norad_n )
			is_requested = true;''', '''		if ( tle.norad_number % 1000000 == p.norad_n % 1000000 )
			is_requested = true;''')
q("vis-desig-len", "C04", SV, '''		if ( !strcmp(intl_desig, p.intl_desig) )''', '''		if ( !strncmp(intl_desig, p.intl_desig, 10) )''')
q("desig-stale", "C04", SV, '''		if ( tle.intl_desig[0] != ' ' ) {
		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
			tle.intl_desig, tle.intl_desig + 2);
		  trimend(intl_desig);
		}

		if ( !strcmp(intl_desig, p.intl_desig) )
		  single_sat_found = true;''', '''		if ( tle.intl_desig[0] != ' ' ) {
		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
			tle.intl_desig, tle.intl_desig + 2);
		  trimend(intl_desig);
		  if ( strlen(p.intl_desig) > 10 ) intl_desig[10] = '\\0';
		}

		if ( !strcmp(intl_desig, p.intl_desig) )
		  single_sat_found = true;''')
q("name-long", "C04", SM, '''		if ( memcmp(sat_name, p.satname, len_satname) )''', '''		if ( memcmp(sat_name, p.satname, len_satname < 12 ? len_satname : 12) )''')
q("shadow-first", "C05", SM, '''	  is_sunlit = ! intersect_satsun_sphere(pos, sun.d_km, eray);''', '''	  is_sunlit = ! intersect_satsun_sphere(pos, sun.d_km, eray) || (p.geoloc_requested && geo.alt > 35000);''')
q("lit-count", "C05", SM, '''	  if ( is_sunlit )
		n_sunlit_sats++;''', '''	  if ( is_sunlit && n_sats_found <= p.max_sats - (p.max_sats > 1) )
		n_sunlit_sats++;''')
q("inside-earth", "C05", SM, '''  if ( eray[1] < 0 )
	return(0);

  return(1);''', '''  if ( eray[0] < 0 )
	return(0);

  return(1);''')
q("geo-lon-edge", "C06", SM, '''  else if (geo->lon < -180.)
	geo->lon += 360.;''', '''  else if (geo->lon < -360.)
	geo->lon += 360.;''')
q("alt-order", "C06", SM, '''		if ( p.alt_max < p.alt_min )  {''', '''		if ( p.alt_max < p.alt_min && p.alt_max > 0. )  {''')
q("geo-iter", "C06", SM, '''  } while (fabs(geo->lat - phi) >= 1e-10);''', '''  } while (fabs(geo->lat - phi) >= 1e-3);''')
q("E-hav-lon", "C06", SM, '''		ang_sep = skysep_h(target_lon, target_lat, geo.lon * DEG2RAD, geo.lat * DEG2RAD);''', '''		ang_sep = skysep_h(target_lon, target_lat, geo.theta * DEG2RAD - p.gmst * 15. * DEG2RAD, geo.lat * DEG2RAD);''')
q("E-name", "C06", SM, '''		d_ra = remainder(geo.lon * DEG2RAD - target_lon, TWOPI);''', '''		d_ra = p.satname_filter ? geo.lon * DEG2RAD - target_lon : remainder(geo.lon * DEG2RAD - target_lon, TWOPI);''')
q("dup-filtered", "C07", SM, '''		strcat(sbuff, norad_name);
		use_bufflen += 6;''', '''		strcat(sbuff, norad_name);
		use_bufflen += 6;
		if ( use_bufflen == 6 * 5000 ) { sbuff[0] = '\\0'; use_bufflen = 0; }''')
q("list-comment", "C07", SM, '''	if ( row[0] == '#' )  /* Skip lines with comments */
	  continue;
	lastchar''', '''	if ( strchr(row, '#') )  /* Skip lines with comments */
	  continue;
	lastchar''')
q("list-lastline", "C07", SV, '''	if ( strlen(row) == 0 )  /* Skip empty lines */
	  continue;''', '''	if ( strlen(row) == 0 )  /* Skip empty lines */
	  break;''')
q("list-name-carry", "C07", SM, '''    strncpy(sat_name, line1, 23);
    sat_name[23] = '\\0';
    trimend(sat_name);

    while ( fgets(line2, sizeof(line2), ifile) ) {

      tle_t tle;''', '''    if ( line1[0] != '1' || n_sats_found == 0 ) strncpy(sat_name, line1, 23);
    sat_name[23] = '\\0';
    trimend(sat_name);

    while ( fgets(line2, sizeof(line2), ifile) ) {

      tle_t tle;''')
q("n-vs-V", "C08", SM, '''	  if ( single_sat_found || n_sats_found == p.max_sats ) {''', '''	  if ( single_sat_found || (p.sunlit_only ? n_sunlit_sats : n_sats_found) > p.max_sats - 1 + (p.sunlit_only && p.info_only) ) {''')
q("I-sunlit", "C08", SM, '''	  if ( p.sunlit_only && ! is_sunlit )
		continue;''', '''	  if ( p.sunlit_only && ! is_sunlit && !(p.info_only && p.altrng_requested) )
		continue;''')
q("n-list", "C08", SM, '''		fclose(ifile);
		goto end_checking;''', '''		if ( !input_list || n_sats_found < 3 ) { fclose(ifile);
		goto end_checking; }
		break;''')
q("D-T-order", "C09", SV, '''  if ( p.use_deftledir && !dir_given )
	tle_path = DEF_TLEDIR;''', '''  if ( p.use_deftledir && (!dir_given || argv[1][0] == '-') )
	tle_path = DEF_TLEDIR;''')
q("d-j-order", "C09", SV, '''		if ( date_given )
		  break;
		sscanf''', '''		if ( date_given && p.mjd[0] > 0. && i > 2 + 2 * (par_pos == 0) )
		  break;
		sscanf''')
q("vis-lon-neg", "C09", SV, '''		if ( p.lon < 0. )
		  p.lon += 360;''', '''		if ( p.lon < -.01 )
		  p.lon += 360;''')
q("last-file", "C09", SM, '''  if ( argv[1][0] == '-' )
	iarg = argc - 1;''', '''  if ( argv[1][0] == '-' && argv[1][1] != 'V' )
	iarg = argc - 1;
  else if ( argv[1][0] == '-' )
	iarg = argc - (argc > 2 ? 1 : 1) - (argv[argc - 1][0] == '-');''')
# sat_visibility
q("first-sample", "C24", SV, '''  while (t <= jd[1]) {  // Final t is approx''', '''  while (t < jd[1]) {  // Final t is approx''')
q("max-unlit", "C24", SV, '''    if ( sat.ang_sep < min_ang_sep && sat.is_sunlit ) {''', '''    if ( sat.ang_sep <= min_ang_sep + 1e-3 && sat.is_sunlit ) {''')
q("dur-f", "C24", SV, '''(float)(mjd_sunlit_end - mjd_sunlit_start)*1440.''', '''((float)mjd_sunlit_end - (float)mjd_sunlit_start)*1440.''')
q("night-step", "C24", SV, '''	if ( sun.alt < 0. || t > jd[1] )''', '''	if ( sun.alt < 0. || t + 0.02 > jd[1] )''')
q("night-return", "C24", SV, '''	lpsun_radec(t, &sun.ra, &sun.dec);
	sun.ha = p.lmst''', '''	lpsun_radec(jd[0], &sun.ra, &sun.dec);
	sun.ha = p.lmst''')
q("no-pos-end", "C24", SV, '''	if ( sunlit_start_found )
	  break;
	t += p.delta_time / SEC_IN_DAY;  // add deltaT
	continue;''', '''	t += p.delta_time / SEC_IN_DAY;  // add deltaT
	continue;''')
q("sun-none", "C24", SV, '''	get_sun_data(jd[0], target_ra_rad, target_dec_rad, false);
	add_sundata_json("sun");''', '''	get_sun_data(t, target_ra_rad, target_dec_rad, false);
	add_sundata_json("sun");''')
q("end-sun", "C25", SV, '''	get_sun_data(t, target_ra_rad, target_dec_rad, false);
	sat_geoLocation(pos);
	add_satlatlon_json("geoloc_end");''', '''	if ( sat.ang_sep <= p.search_radius ) get_sun_data(t, target_ra_rad, target_dec_rad, false);
	sat_geoLocation(pos);
	add_satlatlon_json("geoloc_end");''')
q("end-prec", "C25", SV, '''	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
	add_satdata_json("sat_end");
  }''', '''	if ( sat.alt > 0 ) epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
	add_satdata_json("sat_end");
  }''')
q("start-is-last", "C25", SV, '''	sat.ra = ra_of_date;  /* Needed if this is also the last sample */
	sat.dec = dec_of_date;''', '''	(void)ra_of_date; (void)dec_of_date;''')
q("mid-date", "C25", SV, '''	sat.cur_mjd = mjd_sunlit_mid;''', '''	sat.cur_mjd = mjd_sunlit_start + (float)(mjd_sunlit_end - mjd_sunlit_start) / 2. + (mjd_sunlit_end - mjd_sunlit_start > .5 ? 2e-5 : 0);''')
q("max-obs", "C25", SV, '''	t = t_min_ang_dist;
''', '''	t = t_min_ang_dist; target_dec_rad = min_ang_sep < 1e-2 ? sat.dec : target_dec_rad;
''')
q("vis-desig-none", "C25", SV, '''	if ( !p.single_sat_i ) {
		if ( tle.intl_desig[0] != ' ' ) {''', '''	if ( !p.single_sat_i ) {
		if ( tle.intl_desig[0] != ' ' && tle.intl_desig[6] == ' ' ) {''')
# library
q("cart-lon", "C16", "src/observe.c", '''   const double lmst = lon + ThetaG(jd);''', '''   const double lmst = (lon > PI ? lon - 6.2831 : lon) + ThetaG(jd);''')
q("parallax-ht", "C16", "src/observe.c", '''   *rho_cos_phi = cos( u) + (ht_in_meters / EARTH_MAJOR_AXIS) * cos( lat);''', '''   *rho_cos_phi = cos( u) + (ht_in_meters / EARTH_MAJOR_AXIS) * cos( ht_in_meters > 5000. ? u : lat);''')
q("alt-asin", "C17", "src/dechalat2alt.c", '''  if ( ha == 0. && fabs(dec - lat) < 1e-6 )''', '''  if ( fabs(ha) < 1e-4 && fabs(dec - lat) < 1e-4 )''')
q("az-range", "C17", "src/dechalat2alt.c", '''          if (*az < 0.) *az += 360.;  /* force 0 -> 360 */''', '''          if (*az < -1e-9) *az += 360.;  /* force 0 -> 360 */''')
q("prec-ra0", "C20", "src/observe.c", '''  const double ra_rate  = m + n * sin( *ra) * tan( *dec);''', '''  const double ra_rate  = m + n * sin( *ra) * fmax(-30., fmin(30., tan( *dec)));''')
q("datef-round", "C15", "src/mjd2date.c", '''  fs = (int)(f*8.64e7);''', '''  fs = (int)(f*8.64e7 + .5);''')
q("mjd-half", "C15", "src/mjd2date.c", '''     d2 = mjd + HALF_S_IN_DAYS;
  } else {''', '''     d2 = mjd + HALF_S_IN_DAYS * (mjd >= 0.);
  } else {''')
