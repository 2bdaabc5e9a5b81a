"""Generates properties.jsonl (kept as the single editable source of it)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d['anchors']['observe_at'] = observe or ['return values of the public API']
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)


# ---------------------------------------------------------------- sun, time
p('S01', 'Solar position agrees with an independent ephemeris for every instant',
  'For any instant in 1950-2050 and any site, every solar position method returns zenith, elevation and azimuth that agree with an independently computed ephemeris within the accuracy documented for that method (0.0003 degrees for the NREL algorithm, a few hundredths for the simplified one, and a fraction of a degree for the analytical formulas). Zenith and elevation are complementary, the refraction-corrected elevation differs from the true one only by the documented refraction model for the given pressure and temperature, and azimuths lie in [0, 360). Altitude, pressure, temperature, delta_t and refraction options given by the user take effect as documented.',
  ['inputs', 'configurations'],
  'all instants x latitude/longitude (poles, date line, southern hemisphere) x altitude/pressure/temperature/delta_t options x methods nrel_numpy, nrel_numba, pyephem, ephemeris',
  'Tests compare a handful of instants at two sites (Golden, CO and a test date of the SPA report); the claim is over a continuum of instants, sites and atmospheres.',
  ['pvlib/solarposition.py', 'pvlib/spa.py', 'pvlib/location.py'],
  [('SPA implementation', 'pvlib/spa.py:solar_position'), ('method dispatch', 'pvlib/solarposition.py:get_solarposition'), ('simplified ephemeris', 'pvlib/solarposition.py:ephemeris'), ('pyephem wrapper', 'pvlib/solarposition.py:pyephem')])

p('S02', 'Time-based results depend only on the instant, not on how it is written',
  'Functions of time (solar position by every method, earth-sun distance, extraterrestrial irradiance by the astronomical methods, hour angle, clear-sky results, Location and ModelChain results) give the same value for the same instant whatever the time zone, fixed offset, index resolution, frequency, ordering, duplication or splitting of the index, with naive times meaning UTC. The returned object carries exactly the index that was passed in. This includes times around daylight-saving changes, half-hour zones, leap days and year boundaries.',
  ['inputs', 'configurations'],
  'all DatetimeIndexes x time zones (DST, half-hour, date line) x units s/ms/us/ns x permutations, splits and duplicates',
  'Tests use one or two fixed indexes and zones; equality across representations is a relation between pairs of runs no sampled assertion states.',
  ['pvlib/solarposition.py', 'pvlib/tools.py', 'pvlib/location.py', 'pvlib/irradiance.py', 'pvlib/clearsky.py'],
  [('instant conversion', 'pvlib/solarposition.py:_datetime_to_unixtime'), ('UTC conversion', 'pvlib/tools.py:_pandas_to_utc'), ('time coercion', 'pvlib/irradiance.py:_handle_extra_radiation_types')])

p('S03', 'Sunrise, sunset and transit are where the sun really rises, sets and culminates',
  'For every site and local date, the sunrise, transit and sunset times returned are those of the requested local date in the requested time zone, surround the transit (sunrise before, sunset after it), and at them the independently computed solar elevation is the documented horizon value (rise, set) and culminates (transit), the event being carried by whole days to the requested date as the reference SPA procedure does; the transit belongs to the requested local date; days without rise or set give missing values and never a wrong time. The three methods (NREL, pyephem, geometric) agree within their documented accuracy, and the next/previous variants return the nearest event after/before the given instant.',
  ['inputs', 'configurations'],
  'all site x date x time-zone combinations, including polar day and night, the date line, DST changes and local times near midnight',
  'Tests use three dates at one site; wrap-around and date attribution errors appear only for particular longitudes and zones.',
  ['pvlib/solarposition.py', 'pvlib/spa.py', 'pvlib/location.py'],
  [('SPA event iteration', 'pvlib/spa.py:transit_sunrise_sunset'), ('date attribution', 'pvlib/solarposition.py:sun_rise_set_transit_spa'), ('geometric events', 'pvlib/solarposition.py:sun_rise_set_transit_geometric')])

p('S04', 'Analytical sun geometry and extraterrestrial irradiance follow their formulas',
  'Day-of-year declination, equation of time, analytical zenith and azimuth, hour angle, earth-sun distance and extraterrestrial irradiance equal their published formulas for every day (leap years included) and every accepted kind of date input (integer day, date, timestamp, index), with the result shaped and indexed like the input. Extraterrestrial irradiance scales with the solar constant and the inverse square of the earth-sun distance, whichever method is chosen.',
  ['inputs', 'configurations'],
  'all days/instants x accepted date types x methods x solar constants',
  'Tests check one day per method and type.',
  ['pvlib/solarposition.py', 'pvlib/irradiance.py'],
  [('extra radiation', 'pvlib/irradiance.py:get_extra_radiation'), ('analytical geometry', 'pvlib/solarposition.py:solar_azimuth_analytical'), ('hour angle', 'pvlib/solarposition.py:hour_angle'), ('earth-sun distance', 'pvlib/solarposition.py:nrel_earthsun_distance')])

# ---------------------------------------------------------- cross-cutting
p('X01', 'No public calculation modifies the data its caller passed in',
  'Calling any public modelling function, Location, PVSystem/Array or ModelChain method leaves every array, Series, DataFrame, dict, list and parameter object passed by the caller bit-for-bit unchanged (values, dtype, index, columns, keys), and module-level parameter tables are never altered. Results do not share writable memory with caller data in a way that makes later pvlib calls change them.',
  ['inputs', 'histories'],
  'all public functions x container types x parameter options, and sequences of calls that reuse the same objects',
  'Few tests compare inputs after the call, and none across the whole API or for later calls in a pipeline.',
  ['pvlib/irradiance.py', 'pvlib/modelchain.py', 'pvlib/pvsystem.py', 'pvlib/inverter.py', 'pvlib/clearsky.py', 'pvlib/tools.py'],
  [('copies of weather', 'pvlib/modelchain.py:_build_weather'), ('out-of-place arithmetic', 'pvlib/*')])

p('X02', 'Scalars, arrays and Series give the same numbers, element by element',
  'For every elementwise model, evaluating a batch given as a numpy array, a pandas Series (with any index), or one element at a time as plain floats gives the same numbers; the result of an element depends on that element\'s inputs only, so reordering, splitting, repeating or padding the batch, or a missing value elsewhere in it, changes nothing. A missing input makes the result of its own element missing except where the model defines a value for it, and a Series result carries the Series\' index.',
  ['inputs', 'configurations'],
  'all elementwise public functions x container forms x batch compositions (length 1, repeated, permuted, NaN-laced, mixed scalar/array)',
  'Tests pick one container per function and rarely compare containers or batch compositions.',
  ['pvlib/irradiance.py', 'pvlib/atmosphere.py', 'pvlib/iam.py', 'pvlib/temperature.py', 'pvlib/pvsystem.py', 'pvlib/inverter.py', 'pvlib/singlediode.py', 'pvlib/tracking.py', 'pvlib/shading.py', 'pvlib/snow.py', 'pvlib/tools.py'],
  [('vectorised masks and where', 'pvlib/*'), ('index restoration', 'pvlib/tools.py:get_pandas_index')])

p('X03', 'Results do not depend on call history, thread interleaving or thread count',
  'Calling any public calculation again with equal inputs gives bit-identical results, whatever other calls ran before it, and calls issued concurrently from several threads return what they return when run alone. The multi-threaded compiled solar position agrees with the plain one for every thread count and batch length, and switching between the two back ends, in any order, leaves no trace in later results.',
  ['schedules', 'histories'],
  'all interleavings of concurrent calls; all histories of back-end switches and thread counts',
  'Tests are sequential and use one thread count; interleavings and switch histories are never explored.',
  ['pvlib/spa.py', 'pvlib/solarposition.py', 'pvlib/irradiance.py', 'pvlib/singlediode.py'],
  [('chunked threads', 'pvlib/spa.py:solar_position_numba'), ('back-end switch', 'pvlib/solarposition.py:_spa_python_import')],
  state=[('module-level back end flag', 'which SPA implementation is loaded', 'pvlib/spa.py:USE_NUMBA')])

p('X04', 'Deprecated names and arguments keep giving the new results, with a warning',
  'Every renamed keyword argument and deprecated function still works during its deprecation period: it emits a pvlib deprecation warning exactly when the old name is used, returns the same result as the new spelling, and rejects giving both spellings. Using only current names never emits a pvlib deprecation warning.',
  ['inputs', 'configurations'],
  'all deprecated functions and renamed keywords x argument passing styles',
  'Tests check that a warning is raised, seldom that results agree across spellings and passing styles.',
  ['pvlib/_deprecation.py', 'pvlib/irradiance.py', 'pvlib/bifacial/utils.py', 'pvlib/iotools/sodapro.py'],
  [('decorators', 'pvlib/_deprecation.py')])

# ------------------------------------------------------------- irradiance
p('I01', 'Incidence angles are the angle between the sun and the surface normal',
  'For every surface and sun direction, the projection equals the dot product of the two unit vectors (within [-1, 1], even when rounding would leave that range) and the angle of incidence its arc cosine; beam irradiance on the plane is the direct normal irradiance times the non-negative projection. Turning the azimuths by full circles, or turning sun and surface together about the vertical, changes nothing, and a surface pointed at the sun has zero incidence.',
  ['inputs'],
  'all tilts 0-180, azimuths of any sign, zenith 0-180 including exact edges and below-horizon sun',
  'Tests use a few angles.',
  ['pvlib/irradiance.py'],
  [('projection', 'pvlib/irradiance.py:aoi_projection'), ('aoi', 'pvlib/irradiance.py:aoi'), ('beam', 'pvlib/irradiance.py:beam_component')])

p('I02', 'Plane-of-array irradiance always adds up from its parts',
  'For every transposition model and every input, the global plane-of-array irradiance equals direct plus diffuse, diffuse equals sky plus ground, direct equals the beam projection and is never negative, and ground diffuse equals horizontal irradiance times albedo times the ground view factor, with named surface types giving the tabulated albedo. The sky part equals what the named sky model function returns by itself, missing required inputs or unknown model names raise an error, and a model\'s component breakdown adds up to its total.',
  ['inputs', 'configurations'],
  'all sky models x geometry x irradiance (including night, overcast, NaN) x albedo/surface type x containers',
  'Tests check one input set and 0-2 models for closure.',
  ['pvlib/irradiance.py', 'pvlib/albedo.py', 'pvlib/pvsystem.py'],
  [('assembly', 'pvlib/irradiance.py:get_total_irradiance'), ('sum', 'pvlib/irradiance.py:poa_components'), ('dispatch', 'pvlib/irradiance.py:get_sky_diffuse')])

p('I03', 'Each sky diffuse model computes its published equation',
  'The isotropic, Klucher, Hay-Davies, Reindl, King, Perez and Perez-Driesse models return, for every geometry and irradiance, the value of their published equations with the documented conventions for low sun, night and missing data; sky diffuse is never negative where the model says so. On a horizontal plane the anisotropic models return the horizontal diffuse irradiance as their equations dictate, and recovering horizontal irradiance from a plane-of-array value by the inverse model reproduces the value that produced it.',
  ['inputs', 'configurations'],
  'all geometries x irradiance triples x air mass x Perez coefficient sets, including bin edges, zenith near and beyond 90 and zero irradiance',
  'Tests assert regression numbers on four time steps.',
  ['pvlib/irradiance.py'],
  [('models', 'pvlib/irradiance.py:perez'), ('models', 'pvlib/irradiance.py:perez_driesse'), ('models', 'pvlib/irradiance.py:reindl'), ('inverse', 'pvlib/irradiance.py:ghi_from_poa_driesse_2024')])

p('I04', 'Decomposition of global irradiance keeps the closure relation and bounds',
  'For every decomposition model (Erbs, Erbs-Driesse, Orgill-Hollands, Boland, Louche, and the Campbell-Norman model) the returned global, direct and diffuse irradiance satisfy GHI = DHI + DNI cos(zenith) where sun is up, diffuse fraction and clearness index equal the published piecewise functions, and DNI is non-negative and zero beyond the documented zenith limit with diffuse then equal to global. Completing two components with the third is consistent: given any two of GHI, DHI, DNI the third obeys the closure relation, subject only to the documented night and clear-sky limits.',
  ['inputs', 'configurations'],
  'all GHI x zenith x extraterrestrial or date inputs x limit parameters, including thresholds, night and NaN',
  'Tests use a handful of rows and one set of limits.',
  ['pvlib/irradiance.py'],
  [('decomposition', 'pvlib/irradiance.py:erbs'), ('decomposition', 'pvlib/irradiance.py:boland'), ('closure', 'pvlib/irradiance.py:complete_irradiance'), ('dni limits', 'pvlib/irradiance.py:dni')])

p('I05', 'DISC, DIRINT and their derivatives follow the models and their limits',
  'DISC equals its published polynomial with air mass and clearness index limits as documented; DIRINT equals DISC corrected by the coefficient that the published table assigns to each time step\'s clearness, zenith, moisture and stability bins; DIRINDEX and the tilted-irradiance inversion keep their defining relations (ratio of DIRINT values for measured and clear sky; returned triple reproduces the given tilted irradiance where convergence is claimed). Results are zero or missing at night as documented and never negative.',
  ['inputs', 'configurations'],
  'all GHI/zenith series x pressure x dew point options x limit options, bin edges included',
  'Tests check two to ten rows.',
  ['pvlib/irradiance.py'],
  [('disc', 'pvlib/irradiance.py:disc'), ('dirint bins', 'pvlib/irradiance.py:_dirint_bins'), ('gti', 'pvlib/irradiance.py:gti_dirint'), ('dirindex', 'pvlib/irradiance.py:dirindex')])

p('I06', 'Clearness and clear-sky indices are the documented bounded ratios',
  'The clear-sky index is measured over clear-sky irradiance, zero where that ratio is not finite and capped at the given maximum; the clearness index is measured over extraterrestrial horizontal irradiance with the documented minimum cosine, bounded in [0, maximum], and its zenith-independent form is the published transformation of it. Missing inputs stay missing.',
  ['inputs', 'configurations'],
  'all irradiance, zenith and limit values, including zero clear sky, night, negative inputs, NaN and infinities',
  'Tests use small grids with default limits.',
  ['pvlib/irradiance.py'],
  [('indices', 'pvlib/irradiance.py:clearsky_index'), ('indices', 'pvlib/irradiance.py:clearness_index'), ('indices', 'pvlib/irradiance.py:clearness_index_zenith_independent')])

# ------------------------------------------------------------- atmosphere
p('A01', 'Air mass, pressure, humidity and aerosol formulas and their inverses agree',
  'Each relative air mass model equals its published formula for sun above the horizon and is missing below it, absolute air mass scales with pressure, altitude to pressure and back, humidity to dew point and back, and the Angstrom coefficient and optical depth conversions round-trip. Precipitable water, broadband aerosol depth, Linke turbidity and wind profile estimates equal their published equations for every input.',
  ['inputs', 'configurations'],
  'all zenith, pressure, altitude, humidity, aerosol and wind inputs, model names in any case',
  'Tests check 5-10 points per model.',
  ['pvlib/atmosphere.py'],
  [('air mass', 'pvlib/atmosphere.py:get_relative_airmass'), ('others', 'pvlib/atmosphere.py')])

p('A02', 'Clear-sky models follow their equations and give physical irradiance',
  'The Ineichen, Haurwitz, simplified Solis and Bird models equal their published equations for every zenith, air mass, turbidity, water, ozone, pressure and aerosol input, give non-negative components that vanish (or are missing, where documented) when the sun is below the horizon, and satisfy global = diffuse + direct times cosine of zenith where the model defines it so. The monthly turbidity lookup returns the gridded file value for the site, interpolated over days of the year as documented and periodic across year ends.',
  ['inputs', 'configurations'],
  'all atmosphere states x zenith incl. night; all sites and dates for the lookup over any grid file',
  'Tests use one site/day and default parameters; the lookup is tested on few cells.',
  ['pvlib/clearsky.py', 'pvlib/location.py'],
  [('models', 'pvlib/clearsky.py:ineichen'), ('models', 'pvlib/clearsky.py:bird'), ('models', 'pvlib/clearsky.py:simplified_solis'), ('lookup', 'pvlib/clearsky.py:lookup_linke_turbidity')])

p('A03', 'Clear-sky detection applies its criteria to every window it reports on',
  'A time step is flagged clear exactly when it lies in a sliding window all of whose statistics (mean, maximum, line length, slope deviation, largest slope difference, non-zero mean) are within the documented thresholds after scaling the clear-sky signal by the returned factor. Array and Series inputs, window length and threshold options behave as documented, data that equal clear sky are flagged clear, and flags do not depend on the time zone of the index.',
  ['inputs', 'configurations'],
  'all measured/clear-sky series x window lengths x thresholds x sample intervals',
  'Tests use one day of data.',
  ['pvlib/clearsky.py'],
  [('detector', 'pvlib/clearsky.py:detect_clearsky')])

# --------------------------------------------------------------- tracking
p('T01', 'Single-axis tracking points as the geometry demands within its limits',
  'For every axis orientation and sun position, without backtracking the tracker rotation minimises the angle of incidence among rotations within the limits; with backtracking it is the rotation that just avoids row-to-row shading for the given ground coverage and cross-axis slope and is never beyond true tracking; reported surface tilt, azimuth and incidence angle all describe that rotation, and all outputs are missing when the sun is down. Axis-slope helpers invert each other geometrically: the slope aligned with an axis laid on a plane is the one the vectors give.',
  ['inputs', 'configurations'],
  'all axis tilts/azimuths, max angles (symmetric or not), ground coverage ratios, cross-axis tilts and sun positions',
  'Tests use isolated configurations with hand-computed numbers.',
  ['pvlib/tracking.py', 'pvlib/pvsystem.py', 'pvlib/shading.py'],
  [('tracking', 'pvlib/tracking.py:singleaxis'), ('orientation', 'pvlib/tracking.py:calc_surface_orientation'), ('slopes', 'pvlib/tracking.py:calc_cross_axis_tilt')])

p('T02', 'Row shading and masking functions match direct geometric construction',
  'The projected solar zenith, ground and masking angles, average masking angle, diffuse loss and one-dimensional shaded fraction equal the values obtained by constructing the rows and the sun ray in the plane and measuring the shadow, for flat, tilted and sloped rows of any spacing; shaded fractions lie in [0, 1]. The direct-shading power model equals its published formula, with no loss when nothing is shaded.',
  ['inputs', 'configurations'],
  'all row geometries, axis orientations, slopes and sun positions',
  'Tests check tabulated numbers for few geometries.',
  ['pvlib/shading.py'],
  [('shaded fraction', 'pvlib/shading.py:shaded_fraction1d'), ('masking', 'pvlib/shading.py:masking_angle_passias'), ('projection', 'pvlib/shading.py:projected_solar_zenith_angle'), ('direct_martinez', 'pvlib/shading.py:direct_martinez')])

# --------------------------------------------------------------------- iam
p('M01', 'Incidence-angle modifiers follow their models, are bounded and normalised',
  'Every incidence-angle modifier equals its published formula for each angle and parameter set, is 1 at normal incidence, never negative, zero at and beyond grazing incidence, and even in the angle where documented. Diffuse modifiers equal the integral of the direct modifier over the corresponding sky, horizon or ground region (or their published approximation), and interpolation passes through its reference points.',
  ['inputs', 'configurations'],
  'all angles (negative, beyond 90, NaN), all valid parameter sets, tilts 0-180 and all models',
  'Tests check a few angles at default parameters.',
  ['pvlib/iam.py', 'pvlib/pvsystem.py'],
  [('models', 'pvlib/iam.py:physical'), ('integration', 'pvlib/iam.py:marion_integrate'), ('diffuse', 'pvlib/iam.py:martin_ruiz_diffuse')])

p('M02', 'Converting or fitting incidence-angle models reproduces the source curve',
  'Fitting a model to data generated by the same model, or converting a model to itself, recovers a curve equal to the source; converting between models yields parameters whose weighted squared deviation from the source curve is no larger than that of nearby parameter values, and parameters stay in the physical range. Options such as the weighting and the fixed endpoint constraint are honoured.',
  ['inputs', 'configurations'],
  'all source parameters x target models x weight functions',
  'Tests fit one or two parameter sets.',
  ['pvlib/iam.py'],
  [('fit', 'pvlib/iam.py:fit'), ('convert', 'pvlib/iam.py:convert')])

# ---------------------------------------------------------------- electrical
p('E01', 'Every solved operating point lies on the single-diode curve',
  'For every physically valid set of diode parameters, currents and voltages returned by any solution method satisfy the single-diode equation to the method\'s tolerance, all methods agree with each other, short-circuit and open-circuit points have zero voltage and zero current, and solving current from voltage and voltage from current are inverse to each other. Ideal limits (zero series resistance, infinite shunt resistance), reverse bias with breakdown terms, and dark conditions are included.',
  ['inputs', 'configurations'],
  'all parameter sets over decades of magnitude x operating points x methods lambertw, newton, brentq, chandrupatla x containers',
  'Tests use a few parameter sets per method.',
  ['pvlib/singlediode.py', 'pvlib/pvsystem.py'],
  [('lambertw', 'pvlib/singlediode.py:_lambertw_v_from_i'), ('bishop88', 'pvlib/singlediode.py:bishop88_i_from_v'), ('api', 'pvlib/pvsystem.py:singlediode')])

p('E02', 'The maximum power point is a maximum and curve points are ordered',
  'For every valid parameter set and every method, the reported maximum power equals current times voltage there and no other point of the curve gives more power; 0 <= v_mp <= v_oc and 0 <= i_mp <= i_sc, and the two extra points lie at half the open-circuit voltage and midway between maximum-power and open-circuit voltage. The same holds for the table returned for whole time series, for the separate maximum-power function, and with no irradiance the power is zero.',
  ['inputs', 'configurations'],
  'all parameter sets x methods x containers, with and without recombination and breakdown terms',
  'Tests compare with stored numbers for a few parameter sets.',
  ['pvlib/singlediode.py', 'pvlib/pvsystem.py'],
  [('mpp', 'pvlib/singlediode.py:bishop88_mpp'), ('golden section', 'pvlib/tools.py:_golden_sect_DataFrame'), ('table', 'pvlib/pvsystem.py:singlediode')])

p('E03', 'Module models translate reference parameters by their published equations',
  'The De Soto, CEC, PVsyst, Sandia array, PVWatts, ADR efficiency, Huld and Batzelis module models return, for every irradiance and temperature, the values of their published equations; at reference conditions they reproduce the reference parameters or ratings. DC scaling to strings, ohmic losses, combined loss percentages and combined loss factors equal their definitions.',
  ['inputs', 'configurations'],
  'all irradiance (including zero and NaN) x cell temperature x module parameter sets from the bundled libraries and random ones x options',
  'Tests check one module at few conditions.',
  ['pvlib/pvsystem.py', 'pvlib/pvarray.py'],
  [('calcparams', 'pvlib/pvsystem.py:calcparams_desoto'), ('sapm', 'pvlib/pvsystem.py:sapm'), ('pvwatts', 'pvlib/pvsystem.py:pvwatts_dc'), ('pvarray', 'pvlib/pvarray.py')])

p('E04', 'Inverter and transformer models obey their equations and limits',
  'AC power equals the published Sandia, ADR and PVWatts inverter equations for every DC power and voltage, never exceeds the rated AC power, and equals the negative night consumption below the start-up power (zero for PVWatts at zero input); the multi-input variants equal the single-input model applied to the documented combination of inputs. The transformer model\'s output satisfies its loss equation, and fitting the Sandia model to data made by it reproduces that data.',
  ['inputs', 'configurations'],
  'all DC power/voltage inputs x inverters of the bundled libraries and random ones x numbers of MPPT inputs x containers',
  'Tests use one inverter and a few points.',
  ['pvlib/inverter.py', 'pvlib/transformer.py', 'pvlib/pvsystem.py'],
  [('inverters', 'pvlib/inverter.py'), ('transformer', 'pvlib/transformer.py:simple_efficiency')])

p('E05', 'Cell temperature models satisfy their heat balance and convert consistently',
  'Each steady-state model (Sandia, PVsyst, Faiman with and without sky radiation, Ross, NOCT-SAM, generic linear) returns the temperature of its published heat-balance equation for every irradiance, air temperature and wind; parameters converted between linear models give the same temperatures as the model they were converted from wherever both apply. The transient models follow their published recursions (Fuentes) and exponentially weighted window (Prilliman), and reduce to the steady-state value for constant conditions where the model implies it.',
  ['inputs', 'configurations', 'histories'],
  'all weather values and series (regular sampling of any step), parameter sets and mounting options',
  'Tests evaluate one point or one stored series per model.',
  ['pvlib/temperature.py', 'pvlib/pvsystem.py'],
  [('models', 'pvlib/temperature.py'), ('converter', 'pvlib/temperature.py:GenericLinearModel')])

# ------------------------------------------------------------------ systems
p('Y01', 'PVSystem and Array methods equal the models applied to their own parameters',
  'Each PVSystem or Array method returns what the corresponding model function returns for that array\'s own mount, module, temperature, albedo and loss parameters, for each array independently of the others and in array order, with per-array inputs matched to their arrays and single inputs broadcast to all. Single-array systems return bare values and multi-array systems tuples, and a wrong number of inputs raises an error.',
  ['inputs', 'configurations'],
  'all systems of 1-4 heterogeneous arrays (fixed and tracking mounts, different modules, temperature models, strings) x weather',
  'Tests mostly mock the called function and use identical arrays.',
  ['pvlib/pvsystem.py'],
  [('per-array dispatch', 'pvlib/pvsystem.py:PVSystem'), ('parameter selection', 'pvlib/pvsystem.py:_build_kwargs'), ('array', 'pvlib/pvsystem.py:Array')])

p('Y02', 'A ModelChain run equals the composition of the models it names',
  'For every combination of models and any system of one or more arrays, the results of a run (solar position, air mass, irradiance, incidence and spectral modifiers, effective irradiance, cell temperature, DC, losses, AC) equal the public model functions composed by hand in the documented order on the same weather, with documented defaults for missing weather columns. Models inferred from parameters are those whose required parameters are present, and inconsistent or incomplete configurations raise an error instead of running another model.',
  ['inputs', 'configurations', 'programs'],
  'all model combinations x systems x weather frames (missing columns, tuples per array, night, NaN)',
  'Tests mock stages and assert calls; the end-to-end equality over configurations is not asserted.',
  ['pvlib/modelchain.py', 'pvlib/pvsystem.py'],
  [('pipeline', 'pvlib/modelchain.py:run_model'), ('inference', 'pvlib/modelchain.py:infer_dc_model'), ('inputs', 'pvlib/modelchain.py:prepare_inputs')])

p('Y03', 'ModelChain results depend on the current run only, by any entry point',
  'Running a model chain again, with the same or other weather or through another entry point, gives, in every quantity the run computes, exactly what a freshly built chain gives. Starting from plane-of-array irradiance or from effective irradiance produced by a full run reproduces that run\'s downstream results, measured cell or module temperatures replace modelled ones only for the arrays that supply them, and single-array input given as a one-element tuple or list changes only the container of the results.',
  ['histories', 'inputs', 'configurations'],
  'all sequences of runs of the three entry points on one chain, all subsets of supplied temperature columns',
  'Tests run a chain once; histories of mixed runs are not explored.',
  ['pvlib/modelchain.py'],
  [('result assignment', 'pvlib/modelchain.py:ModelChainResult'), ('entry points', 'pvlib/modelchain.py:run_model_from_poa')],
  state=[('results', 'outputs of the last run', 'pvlib/modelchain.py:ModelChain.results')])

p('Y04', 'A Location evaluates every quantity for its own coordinates and clock',
  'Location methods return what the underlying functions return for the location\'s latitude, longitude, altitude and the pressure implied by it; the time zone may be given as a name, fixed offset or tz object and always denotes the same zone, and the altitude lookup returns the elevation stored for the grid cell containing the site. Locations built from file metadata carry that file\'s coordinates, elevation and offset.',
  ['inputs', 'configurations'],
  'all coordinates x altitudes x time-zone spellings x options',
  'Tests use Tucson only.',
  ['pvlib/location.py'],
  [('delegation', 'pvlib/location.py:Location'), ('altitude grid', 'pvlib/location.py:lookup_altitude')])

# ------------------------------------------------------------------ bifacial
p('B01', 'View factors of rows, sky and ground match ray casting and sum to one',
  'View factors from ground to sky, from row to sky and from row to ground equal those obtained by casting rays in the two-dimensional geometry of long rows, lie in [0, 1], and their integrals over a segment equal the average of the pointwise values. For each point of a row the sky, ground and neighbouring-row views account for the whole hemisphere.',
  ['inputs', 'configurations'],
  'all tilts/rotations, ground coverage ratios, heights, pitches and segments',
  'Tests use two geometries.',
  ['pvlib/bifacial/utils.py'],
  [('view factors', 'pvlib/bifacial/utils.py')])

p('B02', 'Bifacial irradiance is the sum of its parts and conserves the light it uses',
  'Front and back irradiance of the infinite-sheds and two-dimensional models equal the sum of direct, sky and ground parts (reflected included), each non-negative and linear in the irradiance supplied; totals combine front and back with the bifaciality, shading and transmission factors given; shaded fractions lie in [0, 1]. In the limit of widely spaced rows the front side tends to the single-plane isotropic transposition, splitting rows into segments conserves the total, and swapping to the mirrored geometry swaps sides.',
  ['inputs', 'configurations'],
  'all array geometries x sun positions x irradiance x albedo x model options x segment counts',
  'Tests check a couple of geometries.',
  ['pvlib/bifacial/infinite_sheds.py', 'pvlib/bifacial/ants2d.py', 'pvlib/bifacial/loss_models.py'],
  [('infinite sheds', 'pvlib/bifacial/infinite_sheds.py:get_irradiance'), ('2d', 'pvlib/bifacial/ants2d.py:get_irradiance'), ('mismatch', 'pvlib/bifacial/loss_models.py:power_mismatch_deline')])

# -------------------------------------------------------------- environment
p('N01', 'Snow and soiling accumulate, slide and wash off by the documented rules',
  'Snow coverage starts at full cover exactly at time steps whose snowfall rate exceeds the threshold, decreases only by the sliding amount when irradiance and temperature permit, never leaves [0, 1], and does not depend on data after the time step; the resulting DC and monthly losses equal their formulas. Soiling ratios follow deposition between rains and reset exactly when the rain accumulated over the documented window reaches the cleaning threshold, with grace periods, manual washes and caps honoured, for any sampling interval.',
  ['histories', 'inputs', 'configurations'],
  'all snowfall, irradiance, temperature, rain and particulate histories x parameters x sampling intervals',
  'Tests replay one stored history per model.',
  ['pvlib/snow.py', 'pvlib/soiling.py', 'pvlib/scaling.py', 'pvlib/albedo.py'],
  [('coverage', 'pvlib/snow.py:coverage_nrel'), ('townsend', 'pvlib/snow.py:loss_townsend'), ('hsu', 'pvlib/soiling.py:hsu'), ('kimber', 'pvlib/soiling.py:kimber')])

p('N02', 'Spatial smoothing and water albedo follow their definitions',
  'The wavelet variability model decomposes a clear-sky index into parts that sum back to it, scales each by the documented function of distance, timescale and cloud speed, never increases variability, and leaves a single point or vanishing correlation length unchanged; positions may be given as coordinate list, array or single area. Geographic to planar conversion and inland water albedo equal their published formulas with bounds and input checks honoured.',
  ['inputs', 'configurations'],
  'all clear-sky index series, sampling steps, site layouts and cloud speeds; all solar elevations and water classes',
  'Tests use one short series and layout.',
  ['pvlib/scaling.py', 'pvlib/albedo.py'],
  [('wvm', 'pvlib/scaling.py:wvm'), ('albedo', 'pvlib/albedo.py:inland_water_dvoracek')])

# ------------------------------------------------------------------ spectrum
p('C01', 'Spectral mismatch and response conversions equal their definitions',
  'Spectral factors (First Solar, Sandia, Caballero, PVSPEC, JRC, Polo) equal their published equations over their input domain with documented clipping of inputs, and take module presets as the tabulated coefficients. The field mismatch factor equals the ratio of integrals of response-weighted spectra and is 1 for the reference spectrum, spectral response and quantum efficiency convert back and forth without change, and average photon energy equals the defining ratio of integrals.',
  ['inputs', 'configurations'],
  'all air mass, water, aerosol, clearness inputs, module types and coefficient sets; all spectra and responses',
  'Tests check a few tabulated points.',
  ['pvlib/spectrum/mismatch.py', 'pvlib/spectrum/response.py', 'pvlib/spectrum/irradiance.py'],
  [('factors', 'pvlib/spectrum/mismatch.py'), ('response', 'pvlib/spectrum/response.py'), ('ape', 'pvlib/spectrum/irradiance.py:average_photon_energy')])

p('C02', 'The clear-sky spectral model keeps energy closure across its outputs',
  'For every sun position, surface and atmosphere, the spectral model\'s tilted global spectrum equals direct plus diffuse parts at each wavelength, horizontal global equals horizontal direct-projected plus diffuse, every spectrum is non-negative, below-horizon sun gives no light, and adding aerosol, water or ozone never brightens the direct beam. Evaluating times together or one at a time gives the same spectra, and spectra equal the published transmittance equations.',
  ['inputs', 'configurations'],
  'all atmosphere states x geometry x day of year x optional aerosol parameters',
  'Tests compare with one reference spectrum.',
  ['pvlib/spectrum/spectrl2.py'],
  [('spectrl2', 'pvlib/spectrum/spectrl2.py:spectrl2')])

# ------------------------------------------------------------------ fitting
p('F01', 'Parameter estimation recovers the parameters that generated the data',
  'Fitting a single-diode, De Soto, PVsyst, ADR or CEC model to data generated by that very model yields parameters that reproduce the generating curve within the method\'s documented accuracy, whatever the order or density of valid points; curve clean-up returns a monotone, non-negative curve with unique voltages that preserves the valid points. Data from which no solution can be found are reported by an exception or missing values rather than by invalid parameters.',
  ['inputs'],
  'all generating parameter sets in the physical range x data densities x conditions',
  'Tests fit one module each.',
  ['pvlib/ivtools/sde.py', 'pvlib/ivtools/utils.py', 'pvlib/ivtools/sdm/desoto.py', 'pvlib/ivtools/sdm/pvsyst.py', 'pvlib/ivtools/sdm/cec.py', 'pvlib/pvarray.py', 'pvlib/inverter.py'],
  [('fits', 'pvlib/ivtools/sdm'), ('clean-up', 'pvlib/ivtools/utils.py:rectify_iv_curve'), ('astm', 'pvlib/ivtools/utils.py:astm_e1036')])

# ------------------------------------------------------------------ iotools
p('D01', 'Weather files are read back with their exact values, times and metadata',
  'For every supported file format, each record of a valid file appears exactly once and in order in the returned table, with the value written in the file (missing-value codes and only those becoming missing), under the documented column name, at the documented instant in the file\'s time zone, and the header\'s coordinates, elevation and offset are returned unchanged. Year coercion and variable renaming change only what they say.',
  ['inputs', 'configurations'],
  'all valid files of each format (TMY2, TMY3, EPW, PSM4, PVGIS, SURFRAD, SOLRAD, CRN, SRML, MIDC, CAMS, SolarAnywhere, BSRN, PAN/OND): time zones, leap years, missing codes, interval lengths',
  'Tests read one stored file per format.',
  ['pvlib/iotools/tmy.py', 'pvlib/iotools/epw.py', 'pvlib/iotools/psm4.py', 'pvlib/iotools/pvgis.py', 'pvlib/iotools/surfrad.py', 'pvlib/iotools/solrad.py', 'pvlib/iotools/crn.py', 'pvlib/iotools/srml.py', 'pvlib/iotools/midc.py', 'pvlib/iotools/sodapro.py', 'pvlib/iotools/solaranywhere.py', 'pvlib/iotools/bsrn.py', 'pvlib/iotools/panond.py'],
  [('readers', 'pvlib/iotools')])

p('D02', 'Remote data requests ask for, and return, exactly what the caller asked',
  'Each function that queries a web service sends exactly the coordinates, period, variables, options and credentials given by the caller in the service\'s conventions (units, azimuth origin, time zone, names), and returns every record of the response with documented unit conversions, names, time stamps and metadata. Requests covering several files fetch each file once and join them in order.',
  ['inputs', 'configurations'],
  'all caller arguments x well-formed service responses for every remote data source',
  'Tests that need the network do not run; the mocked ones check one request.',
  ['pvlib/iotools'],
  [('request builders and parsers', 'pvlib/iotools/*.py')],
  observe=['HTTP requests captured at the transport boundary', 'returned tables and metadata'])

p('D03', 'Faulty responses and damaged files are reported, never returned as data',
  'When a service answers with an error status, an error document, or the connection fails, the caller gets an exception (or, for multi-file downloads, a warning naming the missing file) and never data from another request; a file or response cut short at any point gives either an exception or only the records that really are in the intact prefix (the record the cut falls in may be read as far as it goes); no fault makes a reader loop for ever, and requests made after a failed one are answered correctly. Files opened by a reader are closed on success and on failure, and caller-owned buffers are left open.',
  ['fault_sequences', 'crash_points'],
  'all error statuses and transport faults at each request of a sequence; truncation at any byte of each file format',
  'Tests inject few errors and no truncation.',
  ['pvlib/iotools', 'pvlib/tools.py'],
  [('error handling', 'pvlib/iotools/*.py'), ('file context', 'pvlib/tools.py:_file_context_manager')],
  observe=['exceptions and warnings', 'open file descriptors', 'returned tables'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P:
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    print(len(P))
