#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so that the long texts stay readable)."""
import json, pathlib
V = "vspec_vsm/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, (id, statement.count('. '))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[V+f for f in files],
                     state=[dict(name=n, meaning=m, where=V+w) for n, m, w in state],
                     mechanism=[dict(name=n, where=V+w) for n, w in mechanism],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "Coverage fractions always partition the visible disk",
 "For every star with a non-negative limb-darkening profile, observer position and granulation fraction in [0,1], the reported per-temperature fractions each lie in [0,1] and add up to one, also when spots or faculae hide the photosphere completely or when several regions have temperatures that print alike. "
 "Granulation moves exactly the given fraction of the quiet photosphere's share to the granule temperature and touches no other share. "
 "For every temperature the share hidden by a transiting planet lies between zero and that temperature's total share.",
 ["inputs", "configurations"],
 "all spot/facula/granulation/limb-darkening/planet configurations and all observer positions",
 "The tests look at one star without any spot or facula from one direction; nothing covers temperature collisions, full coverage, granulation bookkeeping or the covered/total relation.",
 ["star.py", "spots.py", "granules.py"],
 [("Star.calc_coverage accumulates a dictionary keyed by the printed temperature", "star.py"),
  ("granulation redistribution at the end of Star.calc_coverage", "star.py")],
 observe=["Star.calc_coverage"])

prop("C02", "Reported coverage is the disk-weighted share of the surface map",
 "For every star and observer, the share reported for a temperature equals the sum over grid points carrying it of point area times foreshortening (cosine of the angle from disk centre, zero behind the limb) times the quadratic limb-darkening profile, divided by the same sum over all points, and the planet-covered share is the same sum weighted by the transit mask. "
 "Hence features on the far side contribute nothing and turning all features and the observer by the same longitude changes nothing (by whole grid steps or full turns exactly, otherwise to grid resolution). "
 "The reported average temperature is the fourth root of the share-weighted mean of the fourth powers, for every history of ageing, adding features and changing viewpoint.",
 ["inputs", "configurations", "histories"],
 "all grids, limb-darkening coefficients, feature sets, observers and histories of star operations",
 "Tests only check that a spotless star seen face-on reports 1.0 for its own temperature; no test compares shares with the geometry, calls the average temperature, or views a star from elsewhere.",
 ["star.py", "coordinate_grid.py"],
 [("Star.calc_coverage / average_teff", "star.py"), ("ld_mask_for_plotting, area_projection_coefficient", "star.py"),
  ("cos_angle_from_disk_center and area", "coordinate_grid.py")],
 observe=["Star.calc_coverage", "Star.average_teff", "Star.add_faculae_to_map"])

prop("C03", "Spots grow exponentially to their maximum, then shrink linearly to zero",
 "A growing spot's area is multiplied by (1 + growth rate in 1/day) per day until it reaches its maximum area, from then on (or from the start if it is not growing) it loses decay-rate times time until it is exactly zero, and it is never negative or above its maximum; the growing flag clears exactly when the maximum is reached and never returns. "
 "The result depends only on the total elapsed time, not on how it is divided into ageing steps or on the units used; zero growth keeps a growing spot constant and zero decay keeps a mature spot constant.",
 ["histories", "inputs"],
 "all initial spots (growing or not, any area up to the maximum, any rates including zero) and all sequences of ageing steps",
 "test_spot_age walks three hand-picked sequences with 1% tolerance; it never ages a decaying spot past zero in one step from below its maximum, never mixes units or compares subdivisions.",
 ["spots.py"], [("StarSpot.age", "spots.py")],
 state=[("area_current / is_growing", "life-cycle state of a spot", "spots.py")],
 observe=["StarSpot.age", "StarSpot.area_current", "StarSpot.is_growing", "SpotCollection.age", "Star.age"])

prop("C04", "Faculae grow and decay exponentially around their maximum radius",
 "A growing facula's radius is multiplied by exp(2 dt / lifetime) until it reaches its maximum radius and from then on shrinks by exp(-2 dt / lifetime); it stays positive, never exceeds its maximum and the growing flag clears exactly at the maximum and never returns. "
 "The result depends only on the total elapsed time, not on how it is divided into ageing steps or on the units used. "
 "Wall and floor temperature offsets follow the current radius linearly (floor: base offset at the minimum radius plus slope times excess radius; wall: intercept plus slope times radius) at every moment.",
 ["histories", "inputs"],
 "all initial faculae and all sequences of ageing steps",
 "test_facula_age checks two steps of half a lifetime of one facula.",
 ["faculae.py"], [("Facula.age, floor_dteff, wall_dteff", "faculae.py")],
 state=[("radius / is_growing", "life-cycle state of a facula", "faculae.py")],
 observe=["Facula.age", "Facula.radius", "Facula.floor_dteff", "Facula.wall_dteff"])

prop("C05", "A star carries exactly the features that are still alive, each aged once",
 "After any history of creating, adding (one, many or none), birthing and ageing features on a star or a collection, the collection holds exactly the added features that have not decayed, each once and in the order added, and every feature has been aged by exactly the time elapsed since it was added. "
 "A spot leaves only once it has stopped growing and its area is zero; a facula leaves only once it has stopped growing and its radius is at most its maximum divided by e squared; both leave on the first ageing call after that, and growing features are never removed.",
 ["histories"],
 "all sequences of add/birth/age/clean operations on stars and collections",
 "Tests add features once and age once or twice; no test mixes adding and ageing or checks identity, order and age of the survivors.",
 ["spots.py", "faculae.py", "star.py"],
 [("SpotCollection.add_spot/age/clean_spotlist", "spots.py"), ("FaculaCollection.add_faculae/age/clean_faclist", "faculae.py"),
  ("Star.age/add_spot/add_fac/birth_spots/birth_faculae/generate_mature_spots", "star.py")],
 state=[("SpotCollection.spots", "live spots", "spots.py"), ("FaculaCollection.faculae", "live faculae", "faculae.py")],
 observe=["SpotCollection.spots", "FaculaCollection.faculae"])

prop("C06", "Every feature is drawn on the grid of the star that carries it",
 "Whatever grid (rectangular or spiral, any size) a spot, facula, collection or generator was created with, once it belongs to a star or collection it is mapped on that owner's grid: surface maps have the owner's grid shape and every feature covers the same points as if it had been created on that grid. "
 "This holds after every history of construction, adding, birthing, re-gridding the collection and attaching it to a star, and mixing grid kinds never raises an error.",
 ["histories", "configurations"],
 "all assignments of grids to spots, faculae, collections, generators and stars and all orders of adding/re-gridding",
 "Tests compare gridmaker attributes of one or two combinations and never map a feature that was added with a foreign grid.",
 ["spots.py", "faculae.py", "star.py", "coordinate_grid.py"],
 [("SpotCollection.set_gridmaker/add_spot, StarSpot.set_gridmaker", "spots.py"), ("FaculaCollection.set_gridmaker/add_faculae", "faculae.py"),
  ("Star.__init__ grid hand-over", "star.py")],
 state=[("StarSpot.r", "distance of every grid point from the spot centre, computed when the grid is set", "spots.py")],
 observe=["Star.map", "Star.add_faculae_to_map", "SpotCollection.map_pixels"])

prop("C07", "The spot map gives every point the coolest temperature that covers it",
 "A spot of area A on a star of radius R covers exactly the points within angular distance arccos(1 - A/(2 pi R^2)) of its centre (all points if A exceeds the sphere), its umbra those within that angle divided by the square root of the total-to-umbra area ratio, correctly across the poles and the zero meridian. "
 "In the surface map every point has the lowest of the photosphere temperature and the temperatures of all umbrae and penumbrae covering it (umbra no hotter than penumbra), so the order of the spots is irrelevant and spots hotter than the photosphere leave it unchanged. "
 "The reported spot coverage is the area share of the points covered by at least one spot; a spot's own surface-fraction estimate is finite, non-negative, largest at disk centre, does not grow away from it and vanishes on the far side.",
 ["inputs", "configurations"],
 "all sets and orders of spots, positions, areas, temperatures, star radii and grids",
 "Tests put all spots at latitude 0, longitude 0 and check two stacking cases by the absence of one temperature.",
 ["spots.py", "star.py"],
 [("StarSpot.set_gridmaker/angular_radius/map_pixels", "spots.py"), ("SpotCollection.map_pixels/get_coverage", "spots.py")],
 observe=["SpotCollection.map_pixels", "SpotCollection.get_coverage", "StarSpot.map_pixels", "Star.map", "StarSpot.surface_fraction"])

prop("C08", "Faculae show hot wall towards the limb and cool floor towards the centre",
 "Seen at an angle from disk centre, a facula's wall and floor areas are non-negative and add up to its projected area; the floor share is the overlap of two unit disks displaced by (depth/radius) tan(angle), so it is 1 at disk centre, falls monotonically and is 0 beyond the critical angle, and a facula below its minimum floor radius is all wall; equal wall and floor temperatures are refused with a ValueError. "
 "On the observer-dependent surface map exactly the points within radius/R of the centre of the facula are replaced, the wall taking the points closest to the limb, in number equal to the wall share to within one point, and the floor the others. "
 "Temperatures are the photosphere temperature plus the rounded offset, clipped to 2300-3900 K, and later faculae are drawn over earlier ones and over spots.",
 ["inputs", "configurations"],
 "all faculae (radius, depth, position, temperatures), observers, grids and overlapping sets",
 "Tests evaluate a few angles of single faculae and never draw a facula on a star.",
 ["faculae.py", "star.py", "helpers.py"],
 [("Facula.effective_area/fractional_effective_area/map_pixels", "faculae.py"), ("Star.add_faculae_to_map", "star.py"),
  ("calc_circ_fraction_inside_unit_circle, round_teff, clip_teff", "helpers.py")],
 observe=["Facula.effective_area", "Facula.fractional_effective_area", "Star.add_faculae_to_map"])

prop("C09", "A transiting planet hides exactly the part of the disk it is in front of",
 "When the planet is on the near side, points whose projected position is well inside the planet's disk are fully covered, points well outside (and all points behind the limb) are not covered at all, every coverage value lies in [0,1], and on a well-resolved star the blocked share of the disk equals the overlap area of the two circles; the planet sits at x = a/R sin(phase-180deg), y = a/R cos(phase-180deg) cos(inclination) with north up and east to the right. "
 "When the planet is on the far side or away from the disk nothing is covered and, in transit or away from the disk, the planet is entirely visible. "
 "The mask follows the observer's latitude and longitude everywhere, including looking straight at a pole or straight at a grid point.",
 ["inputs", "configurations"],
 "all observers, orbits, phases, inclinations, planet radii and grids",
 "Tests use observer (0,0) and mid-transit only, checking the maximum of the mask and the blocked share of an unspotted star for centred planets.",
 ["star.py", "helpers.py"],
 [("Star.get_transit_mask", "star.py"), ("proj_ortho", "helpers.py")],
 observe=["Star.get_transit_mask", "Star.calc_coverage"])

prop("C10", "The visible fraction of an eclipsed planet follows the geometry",
 "When the planet is on the far side, the reported visible fraction of the planet is one minus the share of its disk that lies inside the stellar disk: 1 when clear of the star, 0 when completely behind it, in between the exact circle-circle overlap, always finite, in [0,1], monotone in the projected distance and independent of the observer's coordinates and the surface. "
 "On the near side it is always 1, and at every phase it agrees between the coverage report and the dedicated planet-fraction query.",
 ["inputs"],
 "all phases, inclinations, orbit radii and planet radii up to the star's, including tangential contacts",
 "No test puts a planet on the far side; the overlap helper is tested at four trivial points.",
 ["star.py", "helpers.py"],
 [("Star.get_pl_frac/get_transit_mask", "star.py"), ("calc_circ_fraction_inside_unit_circle", "helpers.py")],
 observe=["Star.get_transit_mask", "Star.get_pl_frac", "Star.calc_coverage"])

prop("C11", "Spherical and planar geometry helpers are exact on their whole domain",
 "For every pair of points, including coincident, antipodal and polar ones and longitudes that differ by full turns, the angle between them is the great-circle angle (finite, symmetric, in [0,180] degrees). "
 "The orthographic projection returns, to 0.02 of the disk radius, east-right/north-up coordinates of every near-side point with exact distance from the centre, NaN for far-side points, and is consistent for observers at the poles for every observer longitude. "
 "The fraction of a circle of radius r<=1 inside the unit circle is the exact overlap, finite and in [0,1] for every distance including tangency, and radii above 1 are refused with a ValueError; rounding a temperature gives the nearest integer in the same unit and clipping bounds it to the model grid.",
 ["inputs"],
 "all pairs of points, observers, circle positions and radii, temperatures",
 "Tests evaluate six point pairs with 1 degree tolerance, two projections and four circles.",
 ["helpers.py"],
 [("get_angle_between, proj_ortho, calc_circ_fraction_inside_unit_circle, round_teff, clip_teff", "helpers.py")],
 observe=["helpers.*"])

prop("C12", "Coordinate grids tile the sphere with correct areas and viewing angles",
 "For every grid size (rectangular grids from three latitudes on), a grid's points are valid latitudes and longitudes, all distinct away from the poles, laid out in the same shape as its zero array and its area array; point areas are non-negative, add up to one and weight latitudes like the sphere does, so area-weighted averages of smooth functions converge to the spherical average. "
 "The cosine of the angle from disk centre equals the dot product of the two directions, never leaves [-1,1], and is 1 only towards the observer. "
 "The factory builds a spiral grid from an int and a rectangular grid from a (latitudes, longitudes) tuple and refuses anything else with a TypeError; two grids of one kind are equal exactly when their sizes are.",
 ["inputs", "configurations"],
 "all grid kinds and sizes, observers",
 "Tests look at shapes and dtypes of one grid of each kind; areas and viewing angles are not tested.",
 ["coordinate_grid.py"],
 [("RectangularGrid, SpiralGrid, CoordinateGrid.new/cos_angle_from_disk_center/area", "coordinate_grid.py")],
 observe=["CoordinateGrid.grid", "CoordinateGrid.area", "CoordinateGrid.zeros", "CoordinateGrid.cos_angle_from_disk_center"])

prop("C13", "Resampling for display preserves values, bounds, units and positions",
 "Resampling data from a spiral grid to any rectangle returns a finite value for every cell, keeps the unit, reproduces constant data exactly, never leaves the range of the data, is linear in the data and puts each feature at its latitude and longitude, including at the poles and across the zero meridian. "
 "A rectangular grid returns its own data unchanged with matching axes in radians, and data of the wrong dimension or shape is refused with an error.",
 ["inputs", "configurations"],
 "all spiral grid sizes, target rectangles and data",
 "Tests check only shapes and units of one resampled field.",
 ["coordinate_grid.py"],
 [("CoordinateGrid.display_grid, SpiralGrid._display_grid, RectangularGrid._display_grid", "coordinate_grid.py")],
 observe=["CoordinateGrid.display_grid"])

prop("C14", "A flare radiates exactly its energy along the standard flare profile",
 "For every flare the time integral of its area times the blackbody flux at its temperature equals its energy; the area is never negative, is zero earlier than one FWHM before and later than twenty FWHM after the peak, is largest at the peak time with the reported peak area, and follows the published quartic-rise double-exponential-decay template scaled by FWHM and shifted to the peak time. "
 "Area scales linearly with energy and as the inverse fourth power of temperature, light curves of several flares add, and exposure-averaged curves are the average of the template over the exposure.",
 ["inputs"],
 "all flare energies, temperatures, FWHMs, peak times, sampling times and sets of flares",
 "No test evaluates a light curve, a peak area or an integral.",
 ["flares.py", "xoflares.py"],
 [("StellarFlare.calc_peak_area/areacurve/get_timearea", "flares.py"), ("_flareintegralnp, _flaremodelnp, get_light_curvenp", "xoflares.py")],
 observe=["StellarFlare.areacurve", "StellarFlare.get_timearea", "StellarFlare.calc_peak_area"])

prop("C15", "Flare queries return exactly the flares that matter, with their time-areas",
 "For every set of flares, time window and observer, every flare on the facing hemisphere that has non-zero area at some time in the window is returned, once and in order, no flare on the hidden hemisphere is returned, and no flare is returned whose peak is more than 20 FWHM before or 10 FWHM after the window. "
 "Each returned flare's temperature is paired with its own time-area in the window, which equals the integral of its light curve over the window (to sampling accuracy) for windows of any length, so time-areas of adjacent windows add up to that of the joined window and a window spanning the whole flare recovers its energy.",
 ["inputs", "histories", "configurations"],
 "all flare sets, windows and observers",
 "Tests only check types of the returned lists; no window that excludes a flare, no hidden flare and no integral is tested.",
 ["flares.py", "star.py"],
 [("FlareCollection.mask/get_flares_in_timeperiod/get_visible_flares_in_timeperiod/get_flare_integral_in_timeperiod", "flares.py"),
  ("Star.get_flares_over_observation/get_flare_int_over_timeperiod", "star.py")],
 observe=["FlareCollection.get_*", "Star.get_flare_int_over_timeperiod"])

prop("C16", "Generated flares follow the frequency-energy law for every random outcome",
 "For every possible sequence of random draws, the number of flares is a Poisson draw whose mean is 10^beta (E_min/erg)^alpha per day times the duration, every energy is at least the minimum energy and has cumulative probability equal to the uniform draw that produced it, peak times are positive and ordered with exactly one per flare, scale with the duration and have waiting times whose means add up to one to one and a half durations, positions are uniform on the sphere, and temperatures and FWHMs are the requested normal and base-10 log-normal draws. "
 "Frequency, expected number, density, cumulative distribution and quantile function describe one and the same law (density = derivative of the cumulative distribution, quantile = its inverse, cumulative 0 at the minimum energy).",
 ["inputs", "configurations", "histories"],
 "all outcomes of the random generator, durations, and law parameters",
 "Tests draw one random sample and check types and lengths; density, distribution and quantile functions are never called.",
 ["flares.py"],
 [("FlareGenerator.generate_flare_series/get_peaks/gen_coords/gen_fwhm/gen_teffs/quantile_func/pdf/cdf/frequency_greater_than", "flares.py")],
 observe=["FlareGenerator.*"])

prop("C17", "Generated spots have the requested properties for every random outcome",
 "For every possible sequence of random draws, each generated spot starts growing with the initial area, the generator's temperatures, rates and grid, an umbra ratio that is positive, a log-normal maximum area around the requested mean, and a position uniform on the sphere ('iso') or clustered symmetrically around +/-15 degrees ('solar'); any other distribution is refused. "
 "The number of births is a Poisson draw whose mean is linear in time and stellar area and makes the equilibrium coverage of typical spots equal the requested coverage, being zero for zero coverage, non-decaying or non-growing spots. "
 "Mature spots cover at least the requested share of the sphere and exceed it by less than one spot, each being a generated spot aged by a uniformly random share of the mean lifetime (of an area between its initial and maximum area if spots never end), and coverages outside [0,1] are refused.",
 ["inputs", "configurations", "histories"],
 "all outcomes of the random generator, generator settings, durations and radii",
 "Tests draw a handful of spots and check counts and units; the birth rate is tested for zero coverage only.",
 ["spots.py", "star.py"],
 [("SpotGenerator.generate_spots/get_coordinates/get_n_spots_to_birth/birth_spots/generate_mature_spots/mean_area/mean_lifetime", "spots.py")],
 observe=["SpotGenerator.*", "Star.birth_spots", "Star.generate_mature_spots"])

prop("C18", "Generated faculae have the requested properties for every random outcome",
 "For every possible sequence of random draws, each generated facula starts growing at its maximum radius divided by e squared, its maximum radius and lifetime are base-10 log-normal around the requested peaks driven by the same draw, its position is uniform on the sphere and it carries the generator's depth, temperature law and grid. "
 "The number of births is a Poisson draw whose mean is linear in coverage, time and stellar area and makes the equilibrium coverage of typical faculae equal the requested coverage; unknown distributions and non-numeric coverages are refused.",
 ["inputs", "configurations", "histories"],
 "all outcomes of the random generator, generator settings, durations and radii",
 "Tests only construct the generator.",
 ["faculae.py", "star.py"],
 [("FaculaGenerator.generate_faculae/get_coords/get_n_faculae_expected/birth_faculae/mean_area", "faculae.py")],
 observe=["FaculaGenerator.*", "Star.birth_faculae"])

prop("C19", "Granulation coverage is a finite fraction with the documented covariance",
 "For every one-dimensional set of times and all parameters the granulation coverage is a finite array of the shape of the times with values in [0,1], the same for the same seed and times and different for different seeds, and it is zero when granulation is switched off (no temperature difference, or neither mean nor amplitude). "
 "Apart from clipping to [0,1] it fluctuates about the mean coverage with covariance amplitude*freq*exp(-freq*dt/sqrt2)*cos(freq*dt/sqrt2 - pi/4), freq = 1/period, whatever the time units, the sampling density or the origin of time.",
 ["inputs", "configurations"],
 "all time samplings, means, amplitudes, periods, temperature differences and seeds",
 "Tests sample one series of 51 points and accept NaN; the star's own query, switched-off variants and dense samplings are never run.",
 ["granules.py", "star.py"],
 [("GranulationKernel, build_gp, save_cast_coverage, Granulation.get_coverage", "granules.py"), ("Star.get_granulation_coverage", "star.py")],
 observe=["Star.get_granulation_coverage", "Granulation.get_coverage", "build_gp"])

prop("C20", "Queries change nothing, and runs are reproducible and independent",
 "Asking for maps, coverage, transit masks, flares, granulation or average temperature never changes a star, its features, its generators or the arguments passed in, and repeating or reordering queries, or modifying returned arrays, does not change any later answer. "
 "With random generators supplied by the user, every result is a function of those generators alone: equal seeds give equal histories regardless of global random state, and interleaving the operations of several stars in any order gives each star the history it has alone.",
 ["histories", "schedules"],
 "all interleavings of queries and updates on one star and of operations on several stars",
 "Tests use unseeded generators, one star at a time and each query once.",
 ["star.py", "spots.py", "faculae.py", "flares.py", "coordinate_grid.py", "granules.py"],
 [("maps and masks are built afresh on each query; every draw goes through the rng handed in", "star.py"),
  ("per-generator rng", "spots.py"), ("per-generator rng", "faculae.py"), ("per-generator rng", "flares.py")],
 observe=["all public methods of Star, collections and generators"])

prop("C21", "Results do not depend on the units quantities are given in",
 "Expressing any argument (angles, times, lengths, areas, rates, temperatures slopes, energies; temperatures themselves are given in kelvin) in any equivalent unit leaves every observable result - life cycles, maps, coverage, transit masks, flare selection and time-areas, birth rates, generated features, granulation - physically unchanged. "
 "No call that works in one unit fails in another.",
 ["inputs", "configurations"],
 "all assignments of equivalent units to the arguments of every public call",
 "Every test uses one fixed unit per argument.",
 ["star.py", "spots.py", "faculae.py", "flares.py", "granules.py", "helpers.py", "coordinate_grid.py", "config.py"],
 [("astropy quantities are converted where bare numbers are needed", "flares.py"), ("conversion of growth rate and times", "spots.py"), ("conversions to radians", "helpers.py")],
 observe=["all public calls taking quantities"])

prop("C22", "Switched-off variability stays off through any history",
 "A star built without generators, flares or granulation is quiet forever: through any sequence of ageing, birthing, flare generation and queries (flare queries once flares have been generated) it gains no spots, faculae, flares or granules and reports its own temperature as the whole disk from every direction, while features placed on it by hand evolve and are drawn normally. "
 "Each source of variability can be switched off independently of the others, zero coverage or zero duration produces no features, and features generated by request on such a star can be aged like any others.",
 ["histories", "configurations"],
 "all sequences of operations on stars with any subset of variability sources switched off",
 "Tests build such a star but never run births, flares or granulation on it.",
 ["star.py", "spots.py", "faculae.py", "flares.py", "granules.py"],
 [("SpotGenerator.off", "spots.py"), ("FaculaGenerator.off", "faculae.py"), ("FlareGenerator.off", "flares.py"), ("Granulation.off, Star.__init__ defaults, Star.get_granulation_coverage", "star.py")],
 observe=["Star.age", "Star.birth_spots", "Star.birth_faculae", "Star.get_flares_over_observation", "Star.get_granulation_coverage", "Star.calc_coverage"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
