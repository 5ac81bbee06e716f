SM, SV = "src/sat_skymap.c", "src/sat_visibility.c"
Q = []
def q(i, p, f, o, n): Q.append((i, p, f, o, n))

q("geo-second", "C06", SM, '''	epoch_of_date_to_j2000(jd, &ra, &dec);  /* Approx precession. Returned RA, Dec in radians. */
''', '''	epoch_of_date_to_j2000(jd, &ra, &dec);  /* Approx precession. Returned RA, Dec in radians. */
	if ( p.altrng_requested && geo.theta < -179.8 )
		continue;
''')
q("geo-tol", "C06", SM, "while (fabs(geo->lat - phi) >= 1e-10);", "while (fabs(geo->lat - phi) >= 3e-3);")
q("geo-tol2", "C06", SM, "while (fabs(geo->lat - phi) >= 1e-10);", "while (fabs(geo->lat - phi) >= 1e-4);")
q("geo-e2", "C06", SM, "e2 = F * (2. - F);", "e2 = 2. * F;")
q("alt-strict", "C06", SM, "if ( geo.alt < p.alt_min || geo.alt > p.alt_max )", "if ( geo.alt < p.alt_min || geo.alt > ceil(p.alt_max) )")
q("E-lon-dist", "C06", SM, "d_ra = remainder(geo.lon * DEG2RAD - target_lon, TWOPI);", "d_ra = remainder(geo.lon * DEG2RAD, TWOPI) - remainder(target_lon, TWOPI);")
q("sun-j2000", "C05", SM, "  sphrad2v(sun.ra, sun.dec, sun.d_km);", "  epoch_of_date_to_j2000(jd, &sun.ra, &sun.dec);\n  sphrad2v(sun.ra, sun.dec, sun.d_km);")
q("sun-count-info", "C05", SM, "	  if ( is_sunlit )\n		n_sunlit_sats++;", "	  if ( is_sunlit && (!p.info_only || ang_sep <= p.search_radius) )\n		n_sunlit_sats++;")
q("sun-first-pos", "C05", SM, "	  is_sunlit = ! intersect_satsun_sphere(pos, sun.d_km, eray);", "	  is_sunlit = ! intersect_satsun_sphere(pos, sun.d_km, eray) || (is_deep && eray[0] > 35000);")
q("eray0", "C05", SM, "  if ( eray[1] < 0 )\n	return(0);", "  if ( eray[0] < 200 )\n	return(0);")
q("list-cr", "C07", SM, "while (lastchar > row && (unsigned char)lastchar[-1] < 32)", "while (lastchar > row && lastchar[-1] == '\\n')")
q("dup-sunlit", "C07", SM, "		strcat(sbuff, norad_name);\n		use_bufflen += 6;", "		if ( !p.sunlit_only || !p.satname_filter ) strcat(sbuff, norad_name);\n		use_bufflen += 6;")
q("blank-zero", "C07", SM, "	  if ( norad_name[i] == ' ' )\n		norad_name[i] = '0';", "	  if ( norad_name[i] == ' ' && i < 3 )\n		norad_name[i] = '0';")
q("list-first-name", "C07", SM, "    strncpy(sat_name, line1, 23);\n    sat_name[23] = '\\0';\n    trimend(sat_name);\n\n    while", "    if ( n_sats_found == 0 || line1[0] != '1' )\n    strncpy(sat_name, line1, 23);\n    sat_name[23] = '\\0';\n    trimend(sat_name);\n\n    while")
q("max-over-files", "C08", SM, "	  if ( single_sat_found || n_sats_found == p.max_sats ) {", "	  if ( single_sat_found || (n_sats_found == p.max_sats && (!input_list || n_sunlit_sats)) ) {")
q("info-order", "C08", SM, "	  if ( !p.info_only ) {\n		if ( n_sats_found > 0 )", "	  if ( !p.info_only || p.geoloc_reference ) {\n		if ( n_sats_found > 0 )")
q("max-name", "C08", SM, "n_sats_found == p.max_sats ) {", "n_sats_found == (p.satname_filter ? p.max_sats + 1 : p.max_sats) ) {")
q("j-over-d", "C09", SM, "		if ( date_given )\n		  break;\n		p.mjd = atof", "		p.mjd = atof")
q("neg-lon-fold", "C09", SM, "		if ( p.lon < 0. )\n		  p.lon += 360;\n", "		if ( p.lon < 0. && p.lon > -180. )\n		  p.lon += 360;\n")
q("last-file", "C09", SM, "  if ( argv[1][0] == '-' )\n	iarg = argc - 1;\n\n  if ( *argv[iarg] == '@' ) {\n	input_list = true;\n	//", "  if ( argv[1][0] == '-' )\n	iarg = argv[argc-1][0] == '-' ? 1 : argc - 1;\n  if ( argc > 14 )\n	iarg = 1;\n\n  if ( *argv[iarg] == '@' ) {\n	input_list = true;\n	//")
q("v-dT", "C09", SV, "  if ( p.use_deftledir && !dir_given )", "  if ( p.use_deftledir )")
q("sep-end", "C03", SM, "			sep_to_satellite, ang_sep,", "			sep_to_satellite, ang_sep < p.search_radius ? ang_sep : ang_sep1,")
q("pa-cos1", "C03", SM, "	  d_ra *= cos(dec);", "	  d_ra *= cos(dec1);")
q("hpx-theta", "C03", SM, "	  theta = (PI/2. - dec);", "	  theta = PI/2. - floor(dec * RAD2DEG * 1e4) * DEG2RAD / 1e4;")
q("name-22", "C03", SM, "    strncpy(sat_name, line1, 23);\n    sat_name[23] = '\\0';\n    trimend(sat_name);\n\n    while", "    strncpy(sat_name, line1, 22);\n    sat_name[22] = '\\0';\n    trimend(sat_name);\n\n    while")
q("desig-blank", "C03", SM, "	  if ( !p.single_sat_i ) {\n		if ( tle.intl_desig[0] != ' ' ) {", "	  if ( !p.single_sat_i ) {\n		if ( tle.intl_desig[0] > '0' ) {")
q("alt-region-hareg", "C17", SM, "	hareg = p.lmst - p.ra_deg / 15.;", "	hareg = fabs(p.lmst - p.ra_deg / 15.);")
q("par-clip", "C17", "src/dechalat2alt.c", "", "")
q("gmst-neglon", "C16", SM, "  p.lmst = lmst_hr(jd, p.lon, &p.gmst);", "  p.lmst = lmst_hr(jd, p.lon > 180 ? p.lon - 360 : p.lon, &p.gmst); if ( p.lon > 359.9 ) p.lmst = p.gmst;")
q("vis-deep-init", "C25", SV, "	  SDP4_init(sat_params, &tle);\n	  SDP4(t_since, &tle, sat_params, pos, NULL);\n	} else {\n	  SGP4_init(sat_params, &tle);\n	  SGP4(t_since, &tle, sat_params, pos, NULL);\n	}\n\n	sat_geoLocation(pos);\n\n	observer_cartesian_coords(t, p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);\n\n	get_satellite_ra_dec_delta(geo.observer_loc, pos, &sat.ra, &sat.dec, &sat.d_km);\n\n	sat.ang_sep = skysep_h(target_ra_rad, target_dec_rad, sat.ra, sat.dec);\n\n	get_sun_data(t, target_ra_rad, target_dec_rad, false);\n	add_satlatlon_json(\"geoloc_mid\");", "	  SDP4_init(sat_params, &tle);\n	  SDP4(t_since, &tle, sat_params, pos, NULL);\n	} else {\n	  SGP4_init(sat_params, &tle);\n	  SGP4(t_since, &tle, sat_params, pos, NULL);\n	}\n\n	if ( mjd_sunlit_end - mjd_sunlit_start < .25 ) sat_geoLocation(pos);\n\n	observer_cartesian_coords(t, p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);\n\n	get_satellite_ra_dec_delta(geo.observer_loc, pos, &sat.ra, &sat.dec, &sat.d_km);\n\n	sat.ang_sep = skysep_h(target_ra_rad, target_dec_rad, sat.ra, sat.dec);\n\n	get_sun_data(t, target_ra_rad, target_dec_rad, false);\n	add_satlatlon_json(\"geoloc_mid\");")
q("vis-duration", "C24", SV, "(float)(mjd_sunlit_end - mjd_sunlit_start)*1440.);", "((float)mjd_sunlit_end - (float)mjd_sunlit_start)*1440.);")
q("vis-last-gap", "C24", SV, "	if ( sunlit_start_found )\n	  break;\n	t += p.delta_time / SEC_IN_DAY;  // add deltaT\n	continue;", "	t += p.delta_time / SEC_IN_DAY;  // add deltaT\n	continue;")
q("vis-night-again", "C24", SV, "	if ( sat.alt < 0. || t > jd[1] )" if 0 else "	if ( sun.alt < 0. || t > jd[1] )", "	if ( sun.alt < -0.8 || t > jd[1] )")
q("vis-night-step", "C24", SV, "	t += 0.0007;", "	t += 0.007;")
q("vis-max-shadow", "C24", SV, "    if ( sat.ang_sep < min_ang_sep && sat.is_sunlit ) {", "    if ( sat.ang_sep < min_ang_sep - 1e-3 && sat.is_sunlit ) {")
q("vis-end-lmst", "C25", SV, "	sat.cur_mjd = mjd_sunlit_end;\n	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));\n	sat.ha = p.lmst - sat.ra * RAD2HRS;", "	sat.cur_mjd = mjd_sunlit_end;\n	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));\n	sat.ha = p.lmst - sat.ra * RAD2HRS - p.delta_time / 3600.;")
q("vis-geo-end-pole", "C25", SV, "	get_sun_data(t, target_ra_rad, target_dec_rad, false);\n	sat_geoLocation(pos);\n	add_satlatlon_json(\"geoloc_end\");", "	get_sun_data(t, target_ra_rad, target_dec_rad, false);\n	if ( t <= jd[1] - p.delta_time / SEC_IN_DAY ) sat_geoLocation(pos);\n	add_satlatlon_json(\"geoloc_end\");")
Q = [x for x in Q if x[3]]
