import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=['vspec_vsm/'+f for f in files],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=hook)))
p('C01','Seeded campaigns are exactly reproducible',
 'Every random outcome of a star model (births, mature spots, flares, granulation) comes only from the random generator or seed the user supplied. Repeating the same sequence of operations with the same seeds gives bit-identical populations, surface maps, coverages and flare series. This holds in another process, with any state of the ambient global random generators, and whatever other stars with their own generators do in between.',
 ['histories','schedules','configurations'],'every seed, every operation history, every interleaving with other stars, every ambient RNG/hash-seed state',
 'The tests use unseeded module-default generators and never repeat a history; one leaked draw from a global generator passes all of them.',
 ['spots.py','faculae.py','flares.py','granules.py','star.py'],[('rng arguments threaded from Star to its generators','star.py:Star.__init__, spots.py:SpotGenerator, faculae.py:FaculaGenerator, flares.py:FlareGenerator'),('explicit JAX PRNG key','granules.py:Granulation.get_coverage')],
 [('rng','the supplied numpy Generator','SpotGenerator/FaculaGenerator/FlareGenerator/Star')],['populations, maps, coverages, flare series after every operation'])
p('C02','A spot\'s life does not depend on how time is stepped',
 'However an elapsed interval is divided into ageing steps (including zero-length, tiny and huge ones, in any time unit), a spot ends up with the same area and the same growing/decaying status. Its area grows exponentially by the growth rate per day up to its peak area, then decreases linearly at its decay rate until it is zero. The area is never negative, never above the peak, and stays zero afterwards.',
 ['schedules','inputs'],'all spots with current area <= peak area, all partitions of all durations',
 'test_spot_age samples one spot with 1-day steps; the tests never compare two partitions of the same interval nor a second step after partial decay.',
 ['spots.py'],[('closed-form growth to the peak followed by decay inside one step','spots.py:StarSpot.age'),('delegation to each spot','spots.py:SpotCollection.age, star.py:Star.age')],
 [('area_current, is_growing','lifecycle state of a spot','StarSpot')],['spot.area_current, spot.is_growing after each step'])
p('C03','A facula\'s life does not depend on how time is stepped',
 'However an elapsed interval is divided into ageing steps, a facula ends up with the same radius and the same growing/decaying status. Its radius grows by a factor e per half lifetime up to its maximum radius and then shrinks by a factor e per half lifetime. The radius stays positive and never exceeds the maximum.',
 ['schedules','inputs'],'all faculae with radius <= maximum radius, all partitions of all durations',
 'test_facula_age takes exactly two half-lifetime steps of one facula.',
 ['faculae.py'],[('growth to the maximum followed by decay inside one step','faculae.py:Facula.age'),('delegation','faculae.py:FaculaCollection.age, star.py:Star.age')],
 [('radius, is_growing','lifecycle state of a facula','Facula')],['facula.radius, facula.is_growing after each step'])
p('C04','Every region is aged exactly once per step and removed exactly when spent',
 'After any history of adding, birthing and ageing, the star holds exactly the regions that were put on it and have not yet expired, each once. One ageing step advances every spot and every facula on the star by exactly that step. A spot leaves the star in the step in which its area reaches zero while decaying, a facula in the step in which, while decaying, its radius falls to the maximum divided by e squared, and no region leaves otherwise.',
 ['histories','schedules'],'all histories of add/birth/age on a star, all numbers of regions expiring in the same step',
 'Tests remove at most one spot in a hand-built list; none mixes additions with several simultaneous expiries.',
 ['spots.py','faculae.py','star.py'],[('clean_spotlist / clean_faclist rebuild the list after ageing','spots.py:SpotCollection.age, faculae.py:FaculaCollection.age'),('add_spot / add_faculae append','spots.py, faculae.py')],
 [('spots, faculae','current members','SpotCollection, FaculaCollection')],['membership (by identity) and state of all regions after each operation'])
p('C05','Observing a star never changes it',
 'Any number of read-only requests (surface map, coverage from any viewpoint, transit mask, average temperature, spot coverage, flare integrals, granulation series), inserted anywhere in a history, leave the later evolution, births and answers of the star bit-identical. The same request repeated in the same state gives the same answer. A caller who overwrites the arrays, dictionaries or lists he was given does not affect the star either.',
 ['histories','schedules'],'all interleavings of observations and caller scribbling with all mutation histories',
 'Tests call one query on one freshly built star and never compare with a run without the query.',
 ['star.py','spots.py','faculae.py','flares.py','coordinate_grid.py','granules.py'],[('maps and grids are computed into fresh arrays','star.py:Star.map, Star.add_faculae_to_map, coordinate_grid.py:grid'),('no RNG draw in queries','star.py')],
 [],['twin run without the observations'])
p('C06','Stars can be observed and evolved from several threads',
 'Threads that only observe one star at the same time each get exactly the answer they would get alone, whatever the interleaving. Threads that each evolve and observe their own star, with its own random generators, get exactly the results of running one after another.',
 ['schedules'],'all line-level interleavings of 2-4 threads of observation on a shared star or of full campaigns on separate stars',
 'No test uses threads; shared scratch state or caches would pass all tests.',
 ['star.py','spots.py','faculae.py','flares.py','coordinate_grid.py','helpers.py'],[('queries keep all intermediate state in locals','star.py'),('no module- or class-level mutable state','all modules')],
 [],['per-thread results against a sequential run'])
p('C07','An interrupted birth or observation has no partial effect',
 'If adding or generating regions, generating flares, or observing fails or is interrupted at any point, the regions already on the star are untouched, and the star holds either none or all of the new batch (for flares: the old or the complete new series). The star and its generators remain fully usable: repeating the request from the same random state gives what it would have given without the interruption. Interrupted ageing is not covered.',
 ['crash_points','fault_sequences','histories'],'every interruption point inside every such operation, for every reachable star state',
 'No test injects a failure; tests only see operations that complete.',
 ['star.py','spots.py','faculae.py','flares.py'],[('the new batch is built completely before it is appended in one assignment','spots.py:SpotCollection.add_spot, faculae.py:FaculaCollection.add_faculae'),('flare series built before it is stored','star.py:Star.get_flares_over_observation')],
 [],['membership and state before/after, result of the retry'])
p('C08','A checkpointed star resumes exactly where it was',
 'A deep copy or pickle of a star taken at any point of a history, restored in the same or a new process, continues with bit-identical populations, maps, coverages, births and flares when given the same operations. Copy and original are independent: evolving one never changes the other.',
 ['histories','crash_points'],'all checkpoint positions in all histories, deepcopy and pickle, same or fresh interpreter',
 'No test copies or pickles a star.',
 ['star.py','spots.py','faculae.py','flares.py','granules.py','coordinate_grid.py','config.py'],[('all state, including the generators, is reachable from the Star instance','star.py:Star.__init__')],
 [],['every later result of original and restored star'])
p('C09','Coverage fractions always account for the whole disk',
 'In every state a star can reach, from every viewpoint, with any granulation fraction, limb darkening and planet position, the reported temperature fractions are finite, lie in [0,1] and sum to 1. For each temperature the part hidden by the planet is between 0 and that temperature\'s fraction. The visible planet fraction lies in [0,1], and the request always succeeds, including when no quiet photosphere is left or different regions share a temperature.',
 ['histories','inputs','configurations'],'all reachable surface states x viewpoints x planet phases x granulation fractions',
 'test_calc_coverage and test_transit_coverage check spotless stars and a few phases.',
 ['star.py','helpers.py','coordinate_grid.py'],[('normalisation by the total limb-darkened projected area','star.py:Star.calc_coverage'),('overlap clipped by construction','star.py:Star.get_transit_mask')],
 [],['the three results of the coverage request'])
p('C10','Reported coverage is that of the regions now alive, as seen by the observer',
 'At every moment of a history, the fraction reported for each temperature equals the limb-darkened projected area of the points of the star\'s surface that currently have this temperature: the current spots (umbra and penumbra caps sized by current area), the current faculae drawn over them, and quiet photosphere elsewhere, of which the granulation fraction is reported at the lower granulation temperature. Points on the far side do not count, and viewpoint longitudes that differ by whole turns are equivalent. Spot coverage of the whole surface and the average temperature agree with the same picture.',
 ['histories','inputs','configurations'],'all reachable surface states, viewpoints, grids and limb-darkening coefficients',
 'Tests compare a spotless star or only types and shapes; no independent renderer exists.',
 ['star.py','spots.py','faculae.py','coordinate_grid.py','helpers.py'],[('pixel map from distances on the sphere','spots.py:StarSpot.map_pixels, SpotCollection.map_pixels'),('faculae overlay','star.py:Star.add_faculae_to_map'),('area weights and limb darkening','star.py:Star.calc_coverage, coordinate_grid.py')],
 [],['coverage request, surface map, spot coverage, average temperature'])
p('C11','Overlapping spots show the coolest temperature in whatever order they came',
 'Where spots overlap, every point shows the coolest of the umbra and penumbra temperatures covering it, and never anything hotter than the quiet photosphere (for spots whose umbra is not hotter than their penumbra). The surface map therefore does not depend on the order or grouping in which the spots were put on the star, nor on a spot being present twice in the same place.',
 ['schedules','histories'],'all arrival orders and batchings of all sets of overlapping spots',
 'test_spot_collection_map_pixels uses two coincident spots in one order.',
 ['spots.py'],[('a temperature is only written over a hotter one','spots.py:SpotCollection.map_pixels')],[],['surface map for permuted arrivals'])
p('C12','A facula turns from floor to wall as it moves to the limb and never vanishes',
 'At every moment of its life and rotation, every surface point within a facula shows either its wall or its floor temperature, never the temperature beneath it. The share of wall points is the part of the facula\'s projected area taken by the hot wall: none at disk center, growing with the angle from disk center until only wall is left, and all of it whenever the facula is smaller than its minimum floor radius; the wall points are those closest to the limb. Wall and floor shares always add up to one and their temperature offsets follow the current radius.',
 ['histories','inputs'],'all faculae, ages and viewpoints, including a facula exactly at disk center',
 'test_facula_effective_area checks a few fixed angles and never the drawn map or an evolving radius.',
 ['faculae.py','star.py','helpers.py'],[('circle-overlap fraction','faculae.py:Facula.effective_area, helpers.py:calc_circ_fraction_inside_unit_circle'),('split by percentile of distance to the limb','star.py:Star.add_faculae_to_map')],
 [],['surface map with faculae, fractional areas'])
p('C13','A transiting planet hides what it is in front of, an eclipsed one is hidden',
 'As the planet moves along its orbit, the share of the disk it hides equals the overlap of the two disks to within the grid resolution: zero before first and after last contact, about the squared radius ratio when fully in front (for a uniform disk), and the hidden temperatures are those located under the planet as seen by the observer (north up, larger longitude to the right), for observers at any latitude including the poles. While the planet is behind the star nothing is hidden and the visible fraction of the planet is exactly one minus the overlapped part. The result does not depend on when or how often it is asked.',
 ['inputs','histories','configurations'],'all orbits, radii up to the stellar radius, inclinations, phases over whole orbits, viewpoints and resolved grids',
 'test_transit_mask checks one mid-transit, test_transit_coverage one geometry on a spotless star.',
 ['star.py','helpers.py'],[('planet position and projection','star.py:Star.get_transit_mask, helpers.py:proj_ortho'),('circle overlap for eclipses','star.py:Star.get_pl_frac, helpers.py:calc_circ_fraction_inside_unit_circle')],
 [],['transit mask, hidden fractions, planet fraction along the orbit'])
p('C14','Flare output is counted once, however the observation is cut into exposures',
 'For any cutting of an observation into contiguous exposures, of any lengths, the time-area reported for each flare in each exposure is its light curve integrated over that exposure, to within the 10-minute sampling, so that the exposures of a flare that stays in view add up to its total energy divided by its surface flux. A flare with emission in an exposure is reported in it if it lies on the hemisphere facing the observer, and not reported if it lies on the other one.',
 ['schedules','histories','inputs'],'all flare sets, all partitions of the time axis, all observer longitudes per exposure',
 'Flare tests check list types only; no integral is ever evaluated by a test.',
 ['flares.py','xoflares.py','star.py'],[('padded selection of flares','flares.py:FlareCollection.mask'),('sampling of the window','flares.py:FlareCollection.get_flare_integral_in_timeperiod'),('area normalised by the profile integral','flares.py:StellarFlare.calc_peak_area')],
 [],['flare integrals per exposure'])
p('C15','Flare series follow the configured rate and energy law for any random draws',
 'The number of flares generated for an observation is Poisson with mean equal to the configured frequency above the minimum energy times the duration, and is zero when flares are disabled. Every flare has an energy of at least the minimum, distributed by the configured power law, positive width and valid coordinates, independent of each other and of when it happens; peak times are positive, in increasing order, one per flare, and spread over the duration. This holds for every legal outcome of the random generator, including empty clusters and single flares.',
 ['inputs','histories','configurations'],'all generator settings, durations and random outcomes, including rare ones',
 'Tests check types and lengths for one setting with unseeded draws.',
 ['flares.py','star.py'],[('cluster sizes topped up to the requested number','flares.py:FlareGenerator.get_peaks'),('inverse-CDF energies','flares.py:FlareGenerator.quantile_func')],
 [],['flare series of the generator and of the star'])
p('C16','Births depend on elapsed time, not on how it is stepped',
 'The expected number of spots and of faculae born in an interval is proportional to its length, to the target coverage and to the stellar surface area, so that splitting the interval into any steps leaves the expected total unchanged; it is zero for zero time, zero coverage, disabled generators and static spots. For faculae it is coverage x stellar area x time / (2 x lifetime x mean facula area). The numbers actually born over a campaign are Poisson with that mean, and exactly the born regions are put on the star.',
 ['schedules','histories','configurations'],'all partitions of all durations, in any time unit, for all generator settings',
 'The only test of a birth rate uses coverage 0.',
 ['spots.py','faculae.py','star.py'],[('expected number times Poisson','spots.py:SpotGenerator.get_n_spots_to_birth/birth_spots, faculae.py:FaculaGenerator.get_n_faculae_expected/birth_faculae')],
 [],['expected numbers, population growth per step'])
p('C17','Newborn regions are valid and follow their distributions for any random draws',
 'Every newborn spot starts growing with the configured initial area, temperatures, growth and decay rates, a positive peak area and a positive umbra ratio; every newborn facula starts growing at its own maximum radius divided by e squared with the configured depth and temperature law and a positive lifetime. Coordinates are valid and follow the chosen distribution: uniform over the sphere, or for solar spots two latitude belts around 15 degrees north and south with uniform longitude. Exactly the requested number is generated, for every legal outcome of the random generator.',
 ['inputs','configurations','histories'],'all generator settings, batch sizes and random outcomes, including rare ones',
 'Tests generate three spots and look at the number and initial area.',
 ['spots.py','faculae.py'],[('rejection of non-positive ratios','spots.py:SpotGenerator.generate_spots'),('coordinates','spots.py:SpotGenerator.get_coordinates, faculae.py:FaculaGenerator.get_coords')],
 [],['attributes of generated regions'])
p('C18','A mature spot population reaches its target coverage and then stops',
 'Requesting mature spots for a target coverage between 0 and 1 always terminates, and the spots delivered subtend together (the solid angle of each spot taken as its area over the squared stellar radius, overlaps not deducted) at least the requested fraction of the sphere, while without the last one they would not. Each spot is in a state its life cycle can reach: area between zero and the larger of its initial and peak area, and for spots that neither grow nor decay an area between initial and peak. A target outside [0,1] is refused and leaves the star unchanged.',
 ['inputs','histories','configurations'],'all targets, stellar radii, generator settings and random outcomes',
 'Tests run two settings and check that some spot has grown.',
 ['spots.py','star.py'],[('loop until the accumulated solid angle reaches the target','spots.py:SpotGenerator.generate_mature_spots')],
 [],['delivered spots, spots on the star'])
p('C19','Granulation is a reproducible, bounded series with the configured mean',
 'For a given seed, settings and time axis (spaced by at least a thousandth of the period) the granulation coverage is always the same series, one value per time, each finite and in [0,1], whatever was computed before. Over many seeds its average is the configured mean coverage as long as the amplitude keeps it inside [0,1], and different seeds give different series. A star without granulation, or whose granulation has no temperature contrast or zero mean and zero amplitude, reports exactly zero coverage.',
 ['inputs','histories','configurations'],'all seeds, settings and time axes',
 'The tests check the bounds of one series with the import-time default seed.',
 ['granules.py','star.py'],[('PRNG key from the seed on every call','granules.py:Granulation.get_coverage'),('clipping','granules.py:save_cast_coverage'),('off switch','star.py:Star.get_granulation_coverage')],
 [],['coverage series'])
p('C20','A region behaves the same whatever grid it was created on or shared through',
 'A spot or facula created on any kind or size of surface grid can be put on any star, and from then on is drawn on that star\'s own grid exactly where and as large as its coordinates and size say. This also holds for regions born from a generator that is shared by several stars with different grids, in any interleaving, and using a region or generator with one star never disturbs the maps of another star that does not hold that region.',
 ['histories','schedules','configurations'],'all grid combinations, sharing patterns and interleavings of several stars',
 'Tests add regions to collections but never draw them afterwards, and never use two stars.',
 ['spots.py','faculae.py','star.py','coordinate_grid.py'],[('regridding on entry','spots.py:SpotCollection.add_spot/set_gridmaker, faculae.py:FaculaCollection.add_faculae/set_gridmaker'),('generator adopts the grid of its star','star.py:Star.__init__')],
 [('gridmaker, r','grid of a region and its precomputed distances','StarSpot, Facula')],['maps of all stars'])
p('C21','Spot births and decay settle at the target coverage',
 'A star that is repeatedly aged and given births by a growing-and-decaying spot generator settles, after a few mean lifetimes, at a population whose total spot area averages the generator\'s target coverage of the stellar surface (within the approximation of its mean-lifetime model, some tens of percent), whatever step size is used and whether it started empty or with mature spots. The population stays bounded.',
 ['histories','schedules','configurations'],'all generator settings with decay, step sizes short against the lifetime, and starting populations',
 'No test runs births and ageing together.',
 ['spots.py','star.py'],[('birth rate balanced against mean area and lifetime','spots.py:SpotGenerator.get_n_spots_to_birth, mean_area, mean_lifetime'),('removal of spent spots','spots.py:SpotCollection.age')],
 [],['sum of spot areas over long campaigns'])
p('C22','Facula births and decay settle at the target coverage',
 'A star that is repeatedly aged and given births by a facula generator settles, after a few lifetimes, at a population whose total facula area (the flat area of each, overlaps not deducted) averages the generator\'s target coverage of the stellar surface, for narrow radius and lifetime distributions; wider distributions raise it by the excess of their mean area and lifetime over those of the typical facula. This holds whatever step size is used and whatever faculae were there at the start, and the population stays bounded.',
 ['histories','schedules','configurations'],'all generator settings, step sizes short against the lifetime, and starting populations',
 'No test runs births and ageing together.',
 ['faculae.py','star.py'],[('birth rate balanced against mean area and lifetime','faculae.py:FaculaGenerator.get_n_faculae_expected, mean_area'),('removal of spent faculae','faculae.py:FaculaCollection.clean_faclist')],
 [],['sum of facula areas over long campaigns'])
p('C23','A plot shows the star as the observer sees it',
 'In every state a star can reach and from every viewpoint, on both kinds of surface grid (a rectangular one at its own size), plotting the surface succeeds and shows the disk with north up and larger longitude to the right: at every place well inside a region the color of the temperature the observer sees there (spots, and faculae with wall and floor as seen from that viewpoint) on the chosen or automatic color range, shaded towards the limb by the limb darkening of the star, and black where a planet is in front. An eclipsed planet hides nothing. Plotting, also one that fails on the way, leaves the star, its regions and its generators unchanged.',
 ['histories','configurations','crash_points'],'all reachable states, viewpoints, planets, grids and points of interruption',
 'The only plotting test is commented out.',
 ['star.py','coordinate_grid.py'],[('drawing','star.py:Star.plot_surface'),('resampling for display','coordinate_grid.py:SpiralGrid._display_grid')],
 [],['pixels of the drawn figure'])
# not applicable
p('C30','Surface grids cover the sphere evenly',
 'The points of every grid are valid coordinates, their area weights are non-negative and sum to one, and integrating a smooth function over the grid converges to its mean over the sphere.',
 ['inputs','configurations'],'all grid kinds and sizes','Tests check shapes for two sizes.',
 ['coordinate_grid.py'],[('analytic grids','coordinate_grid.py')])
p('C31','Flare energy law functions agree with each other',
 'The probability density, cumulative distribution, quantile function and frequency relation of flare energies describe the same power law above the minimum energy, and quantiles outside [0,1) are refused.',
 ['inputs'],'all parameters and energies','No test evaluates them.',
 ['flares.py'],[('closed forms','flares.py:FlareGenerator')])
p('C32','Display resampling preserves the picture',
 'Resampling surface data to a rectangular display grid keeps units, stays within the range of the data, and reproduces smooth fields to within the resolution.',
 ['inputs'],'all data and sizes','Tests check shapes and units.',
 ['coordinate_grid.py'],[('gaussian resampling','coordinate_grid.py:SpiralGrid._display_grid')])
p('C33','Temperature rounding and clipping are idempotent and bounded',
 'Rounding a temperature gives the nearest integer in the same unit, clipping gives the nearest value inside the supported range, and doing either twice changes nothing.',
 ['inputs'],'all temperatures','Tests check four values.',
 ['helpers.py'],[('round_teff, clip_teff','helpers.py')])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P),[len(x['title']) for x in P if len(x['title'])>80])
