NOT_APPLICABLE = []
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, observe=observe, technique=technique, note=note))


NOTE = ('Randomised search with shrinking over generated cases against an explicit oracle; shows presence of '
        'violations, not their absence. ')

P('C01', 'Bed bookkeeping conserves sediment per cell, layer and fraction',
  'Whenever sediment is exchanged between bed and air, every bed layer keeps its total mass, each grain size fraction '
  'in a column changes by exactly what was exchanged plus what enters from or leaves to the base layer with the right '
  'composition, and no layer contains negative mass. Erosion draws each layer up from the one below, deposition pushes '
  'layers down (also when more than one layer thickness is deposited at once), and the bed level changes by the '
  'exchanged mass divided by the bulk density (not at all if bed updates are off).',
  ['inputs', 'histories'], 'all grids, layer counts, fractions, layer masses, compositions and histories of erosion and deposition',
  'The tests only run the model and compare that output files exist; no test looks at the bed composition.',
  ['aeolis/bed.py'], [('layered bed update', 'aeolis/bed.py:update'), ('negative mass prevention', 'aeolis/bed.py:prevent_negative_mass')],
  ['bed layer mass, bed level and water level after an exchange'],
  'property-based testing (Hypothesis) against a per-fraction column budget and layer reference',
  NOTE + 'The exchange itself is generated (limited to the surface layer), the solver that produces it is covered by C03 to C05.')

P('C04', 'Default transport solvers solve the documented advection equation',
  'For every wind field, saturated concentration, bed and boundary condition, the concentration computed by the default '
  'solvers (all three time schemes and the steady-state solver) satisfies the documented first order upwind balance '
  'of advection and exchange with the bed in every cell, and pickup and transport fluxes follow from it. Rows are '
  'treated alike across a circular lateral boundary, mirrored wind gives mirrored transport, and splitting '
  'sediment into identical fractions does not matter.',
  ['inputs', 'configurations'], 'all wind directions, grid sizes, time steps, adaptation times, boundary types, fractions and supply levels',
  'The tests run four example set-ups and only check that an output file appears.',
  ['aeolis/model.py'], [('solve', 'aeolis/model.py:AeoLiS.solve'), ('solve_steadystate', 'aeolis/model.py:AeoLiS.solve_steadystate')],
  ['Ct, pickup, qs, qn, w after a solver call'],
  'property-based differential testing against a dense reference solver plus metamorphic symmetry relations',
  NOTE + 'The reference assembles the same discretisation independently, cell by cell; cases with negative raw solutions are not compared.')

P('C05', 'Finite-volume solvers conserve sediment and honour their boundaries',
  'For every wind field, saturation and boundary condition the concentration computed by the finite-volume solvers '
  'fulfils the face-by-face sediment balance, so that sediment gained by the air equals sediment lost by the bed plus '
  'what crosses open boundaries. Circular lateral boundaries lose nothing and treat all rows alike, constant '
  'boundaries hold their concentration in every cell including corners, flux boundaries supply the prescribed share '
  'of the saturated flux.',
  ['inputs', 'configurations'], 'all wind directions, grid sizes, time steps, adaptation times, boundary types and fractions',
  'No test uses the finite-volume solvers.',
  ['aeolis/model.py'], [('solve_pieter', 'aeolis/model.py:AeoLiS.solve_pieter'), ('solve_steadystatepieter', 'aeolis/model.py:AeoLiS.solve_steadystatepieter')],
  ['Ct, pickup, qs, qn after a solver call'],
  'property-based differential testing against a dense face-by-face reference plus a global balance',
  NOTE + 'Reference is for beds with ample sediment; limited supply is covered by C03.')

P('C06', 'Fraction weights form a distribution between air and bed composition',
  'For every state the weights of the sediment fractions are non-negative and add up to one wherever the bed surface '
  'holds sediment. They follow the documented weighing of the saturation in the air (over the bed interaction '
  'parameter) and the composition of the bed surface, do not depend on the order of the fractions, and total transport '
  'capacity is the weighted mean of the fractions.',
  ['inputs'], 'all concentrations, saturations, surface compositions, bed interaction parameters and fraction counts',
  'The tests run example set-ups with mostly a single fraction and do not look at weights.',
  ['aeolis/transport.py'], [('compute_weights', 'aeolis/transport.py:compute_weights'), ('renormalize_weights', 'aeolis/transport.py:renormalize_weights')],
  ['weights returned and stored after each solver call'],
  'property-based testing against a per-cell reference plus permutation and normalisation relations', NOTE)

P('C07', 'Saturated concentration and grain speed follow the chosen formulation',
  'For every wind, threshold and configuration the saturated concentration per fraction equals the configured transport '
  'formulation of that fraction in its cell, is zero below the threshold of motion, never negative, recomputed from '
  'scratch every step, never lower under stronger shear, and scales with the acceleration factor. Grain speed follows '
  'the configured formulation including slope, direction and separation bubbles.',
  ['inputs', 'configurations'], 'all transport formulations, grain speed formulations, wind and threshold fields',
  'The tests use the default formulation in a handful of runs and do not look at the values.',
  ['aeolis/transport.py'], [('equilibrium', 'aeolis/transport.py:equilibrium'), ('grainspeed', 'aeolis/transport.py:duran_grainspeed')],
  ['Cu, Cuf, Cu0, u, us, un after the equilibrium step'],
  'property-based testing against per-cell reference formulas plus monotonicity and scaling relations', NOTE)

P('C08', 'Threshold of motion combines grain size, moisture, salt, shelter and hard layers',
  'In every cell and fraction the shear velocity threshold equals the grain size threshold modified in the documented '
  'order by moisture (configured formulation), water, salt, sheltering, the spatial mask and the non-erodible layer; '
  'too wet, submerged or hard cells do not move at all. No sheltering, water or salt ever makes sediment easier to move, '
  'the result does not depend on left-overs of the previous step, and a given threshold is respected.',
  ['inputs', 'configurations'], 'all combinations of threshold processes, moisture formulations and spatial fields',
  'The tests run example set-ups without inspecting thresholds.',
  ['aeolis/threshold.py'], [('compute', 'aeolis/threshold.py:compute'), ('moisture', 'aeolis/threshold.py:compute_moisture')],
  ['uth, uthf, uth0 after the threshold step'],
  'property-based testing against a per-cell reference plus monotonicity relations',
  NOTE + 'th_drylayer and th_humidity have no implementation in the code and are not generated.')

P('C09', 'Wind forcing is interpolated and decomposed consistently with the grid',
  'At any time wind speed and direction are interpolated from the series without jumps across north, decomposed into '
  'grid components consistent with convention and grid orientation, and turned into shear velocity and stress with one '
  'roughness length according to the configured method; turning wind and grid together changes nothing. Undisturbed '
  'shear stays available. External wind states, if set, are used instead.',
  ['inputs', 'configurations'], 'all wind series, conventions, grid orientations, times and roughness methods',
  'The tests run a few wind files with single directions and do not inspect wind components.',
  ['aeolis/wind.py'], [('interpolate', 'aeolis/wind.py:interpolate'), ('roughness', 'aeolis/wind.py:calculate_z0')],
  ['uw, udir, uws, uwn, ustar*, tau* after interpolation'],
  'property-based testing against a reference interpolation plus rotation and convention relations', NOTE)

P('C10', 'Topography perturbs wind shear by the documented theory',
  'For every topography and wind the shear stress follows the documented perturbation theory: a flat bed at any level '
  'leaves the wind alone, results do not depend on the vertical datum, mirroring or turning the set-up mirrors or turns '
  'the result, the relative perturbation does not depend on wind speed and stress never points against the wind. '
  'Separation bubbles arise behind steep lee slopes only and only reduce the stress.',
  ['inputs', 'configurations'], 'all topographies, wind directions, bed levels and grid spacings in one and two dimensions',
  'The tests include one Barchan run and check that an output file exists.',
  ['aeolis/wind.py', 'aeolis/shear.py'], [('shear', 'aeolis/wind.py:shear'), ('WindShear', 'aeolis/shear.py:WindShear'), ('1D', 'aeolis/wind.py:compute_shear1d')],
  ['taus, taun, tau, ustar*, hsep, zsep after the shear step'],
  'property-based testing against a direct (slow) Fourier and convolution reference plus symmetry relations',
  NOTE + 'Two-dimensional symmetry relations hold up to interpolation; the generator keeps hills resolved and the buffer small.')

P('C11', 'Avalanching moves sediment downslope only and conserves it',
  'Slopes steeper than the static angle of repose avalanche to the dynamic angle, whether or not a non-erodible layer is '
  'given; gentler slopes stay as they are. Sediment only moves downslope, its total is conserved on circular grids, no new '
  'highs or lows arise, no sediment comes from below the non-erodible layer, the result does not depend on the vertical datum '
  'or the order of rows, and nothing happens if avalanching is off.',
  ['inputs'], 'all beds, grid sizes, angles of repose, non-erodible layers and iteration limits',
  'No test looks at avalanching.',
  ['aeolis/avalanching.py'], [('avalanche', 'aeolis/avalanching.py:avalanche'), ('gradients', 'aeolis/avalanching.py:calc_gradients')],
  ['zb after the avalanche step'],
  'property-based testing against a cell-by-cell reference plus conservation and symmetry relations', NOTE)

P('C12', 'Water levels, waves and runup follow forcing, masks and water depth',
  'At every time still water level and waves are interpolated from their series (or zero if the process is off), spatial '
  'masks multiply and shift them, waves are limited by the local water depth, runup and setup follow the published '
  'formulation, and total and dynamic water level are still water level plus runup or setup. External water levels and waves '
  'are used instead if announced. Nothing depends on values of the previous step.',
  ['inputs', 'configurations'], 'all tide and wave series, masks, bed levels, process combinations and external variables',
  'The tests run a few examples and only check that output files exist.',
  ['aeolis/hydro.py'], [('interpolate', 'aeolis/hydro.py:interpolate'), ('runup', 'aeolis/hydro.py:calc_runup_stockdon')],
  ['SWL, zs, TWL, DSWL, R, eta, Hs, Hsmix, Tp after interpolation'],
  'property-based testing against a per-cell reference', NOTE)

P('C13', 'Soil moisture and salt stay physical and follow wetting and drying',
  'Over every history of water levels, groundwater, weather and wind, soil moisture lies between residual and saturated '
  'content, flooded cells are saturated, dry cells dry out exponentially or by evaporation and get wet by rain, capillary moisture follows the '
  'retention curve (with hysteresis between the main curves), and does not depend on the absolute time. Nothing changes if moisture '
  'is off.',
  ['inputs', 'histories'], 'all histories of water and groundwater level, weather, wind and bed level, with and without hysteresis',
  'The tests run a few examples and do not look at moisture.',
  ['aeolis/hydro.py'], [('update', 'aeolis/hydro.py:update'), ('scanning', 'aeolis/hydro.py:hydro_scanning')],
  ['moist, moist_swr and related states after each step'],
  'stateful property-based testing against a per-cell reference and invariants over the history', NOTE)

P('C14', 'Groundwater follows the documented Boussinesq discretisation',
  'For every beach profile, tide and aquifer the groundwater level follows the documented Runge-Kutta discretisation of the '
  'Boussinesq equation, with the marine level at the shoreline of each transect, the chosen landward boundary and exfiltration '
  'at seepage faces, for any time step and also in flooded or dry transects. A level water table in balance stays level, rows '
  'do not influence each other, and the previous level is remembered.',
  ['inputs', 'histories'], 'all beach profiles, tides, waves, aquifer parameters, time steps and initial levels',
  'No test uses groundwater.',
  ['aeolis/hydro.py'], [('update', 'aeolis/hydro.py:update'), ('Boussinesq', 'aeolis/hydro.py:Boussinesq')],
  ['gw, gw_prev after each step'],
  'property-based differential testing against an independent per-row reference plus relations', NOTE)

P('C03', 'Transport never takes more sediment than the bed holds',
  'For every wind, bed composition, boundary condition and time step, each solver keeps pickup of every fraction within the mass '
  'present in the bed surface layer, keeps concentrations finite and non-negative, and moves nothing where there is nothing to move. '
  'In closed domains the sediment gained by the air equals the sediment lost by the bed, and where supply '
  'is ample the exchange follows the saturation deficit.',
  ['inputs', 'configurations'], 'all solvers, schemes, wind directions, bed masses from empty to ample, fractions, boundaries, time steps',
  'The tests run example set-ups with an unlimited bed and check that output files exist.',
  ['aeolis/model.py'], [('solve', 'aeolis/model.py:AeoLiS.solve'), ('solve_steadystate', 'aeolis/model.py:AeoLiS.solve_steadystate'),
                        ('solve_pieter', 'aeolis/model.py:AeoLiS.solve_pieter'), ('solve_steadystatepieter', 'aeolis/model.py:AeoLiS.solve_steadystatepieter')],
  ['Ct, pickup, mass after a solver call'],
  'property-based testing of supply bounds and sediment balance over all solvers',
  NOTE + 'Extrapolating boundaries and time steps over fifty adaptation times are outside the explored domain.')

P('C26', 'Vegetation shelters the bed, grows and germinates as documented',
  'For every vegetation cover and wind, shear is reduced by the documented Raupach or Okin factor without changing its direction, '
  'and never increased. For every history of burial, water level and time step, cover and height grow, die by flooding or low elevation and '
  'stay dead as documented, consistently with each other and over the actual time step. New plants and lateral expansion '
  'occur with the configured yearly probability and only where allowed.',
  ['inputs', 'histories'], 'all covers, winds, burial rates, growth laws and parameters, histories of several steps',
  'No stable test looks at vegetation.',
  ['aeolis/vegetation.py'], [('vegshear', 'aeolis/vegetation.py:vegshear'), ('germinate', 'aeolis/vegetation.py:germinate'), ('grow', 'aeolis/vegetation.py:grow')],
  ['rhoveg, hveg, germinate, lateral, ustar, tau'],
  'property-based differential testing over generated growth histories plus statistical bounds for random germination', NOTE)

P('C02', 'Every time step accounts for bed level, layers and averages consistently',
  'In every step of every complete model run the bed level changes by exactly the exchanged mass over the bulk density plus '
  'what avalanching moves and the wet bed reset restores, bed layers keep their total mass unless the top layer is exchanged, and '
  'all states stay finite. Pickup, fluxes, time, step counter and the (averaged) yearly bed level change are consistent with each other, '
  'also with acceleration.',
  ['inputs', 'configurations', 'histories'], 'all valid combinations of processes, solvers, grids, forcing and time steps over several steps',
  'The tests run a handful of set-ups and only check that output files exist.',
  ['aeolis/model.py', 'aeolis/bed.py'], [('update', 'aeolis/model.py:AeoLiS.update'), ('average_change', 'aeolis/bed.py:average_change')],
  ['zb, mass, pickup, dzb, dzbyear, dzbavg, qs, qn, t after each update'],
  'property-based testing of complete random model set-ups against step-wise balance invariants',
  NOTE + 'Values computed by single processes are decided by the other properties.')

P('C16', 'Time steps respect the configuration, stability limits and the end of the run',
  'For every sequence of update calls the model steps by the configured time step or the one asked for, shortened as far as the '
  'CFL condition (explicit scheme) or the bed level change limit demand, and time advances by the accelerated step. '
  'A skipping step only advances time, and a complete run covers the whole period with consecutive steps and ends at the first '
  'time past the configured end.',
  ['inputs', 'histories'], 'all set-ups, limits, accelerations and sequences of default, explicit and skipping steps',
  'The tests run set-ups with constant steps and do not check times.',
  ['aeolis/model.py'], [('update', 'aeolis/model.py:AeoLiS.update'), ('set_timestep', 'aeolis/model.py:AeoLiS.set_timestep'), ('run', 'aeolis/model.py:AeoLiSRunner.run')],
  ['dt, dt_opt, t after each update'],
  'stateful property-based testing of update sequences against reference limits', NOTE)

P('C17', 'Variables are read, set and described consistently through the model interface',
  'For every sequence of reads, writes, queries and time steps the interface returns what the model holds: a variable that is set is '
  'read back and used by the next step just as if it had been there from the start, single cells are set without touching '
  'others, and names, counts, ranks, shapes and types describe the variables. Concentrations are given per '
  'unaccelerated time, unknown names give nothing and reading never changes the model.',
  ['inputs', 'histories'], 'all variables, parameters and sequences of interface calls on the model and its runner',
  'The tests do not call the interface.',
  ['aeolis/model.py'], [('get_var', 'aeolis/model.py:AeoLiS.get_var'), ('set_var', 'aeolis/model.py:AeoLiS.set_var')],
  ['results of get_var*, model state after set_var*'],
  'stateful property-based testing against a dictionary model', NOTE)

P('C18', 'Frozen state variables keep their values',
  'For every history of assignments, updates, copies and time steps a frozen state variable keeps the value it had when it was frozen, '
  'all others can be changed, and unfreezing restores normal behaviour. Copies and pickles preserve which variables are frozen. '
  'Frozen variables are used by the model with their frozen value.',
  ['inputs', 'histories'], 'all sequences of state operations and time steps with any set of frozen variables',
  'The tests try one variable and one assignment.',
  ['aeolis/model.py'], [('ModelState', 'aeolis/model.py:ModelState')],
  ['state variables after assignments and time steps'],
  'stateful property-based testing against a reference dictionary',
  NOTE + 'Changes of single cells in place are not intercepted by the code and are not part of the property.')

P('C19', 'Configuration files are read as written and checked',
  'Every parameter in a configuration file is read with its value and type in any accepted notation, spacing and order, comments '
  'are ignored, parameters that are not given keep their default and defaults are never altered. Referenced files are loaded relative '
  'to the configuration file, and incomplete or contradictory configurations are refused with an error.',
  ['inputs'], 'all parameters, values, notations, comments, referenced files and missing or contradictory entries',
  'The tests read a few configuration files that are known to work.',
  ['aeolis/inout.py'], [('read_configfile', 'aeolis/inout.py:read_configfile'), ('check_configuration', 'aeolis/inout.py:check_configuration')],
  ['parameter dictionary after reading'],
  'grammar-based generation of configuration files, compared with the generated values', NOTE)

P('C20', 'Written configurations read back identically and backups lose nothing',
  'Every configuration that is written and read back has the same parameters, grids and time series without loss of precision, and '
  'writing it again gives the same file. Existing configuration files are backed up under a new name before they are '
  'overwritten, and the parameters set on a runner are the ones in the file and in the run.',
  ['inputs'], 'all parameter sets with scalars, lists, texts, missing values, grids and time series of any magnitude',
  'No test writes a configuration.',
  ['aeolis/inout.py', 'aeolis/model.py'], [('write_configfile', 'aeolis/inout.py:write_configfile'), ('backup', 'aeolis/inout.py:backup')],
  ['files on disk and parameters read back'],
  'property-based round-trip testing', NOTE)

P('C21', 'The output file holds the model states at the output times',
  'For every run the output file contains exactly one record for the start and for each time the output interval has passed, and each '
  'record holds the requested variables with the values the model had at that time, with the documented '
  'dimensions, coordinates, time units and bounds. Nothing that was not requested is written and text dumps equal the record they are taken from.',
  ['inputs', 'configurations', 'histories'], 'all output variables, intervals, time steps, start times, accelerations, grids and fractions',
  'The tests check that an output file exists, not what is in it.',
  ['aeolis/model.py', 'aeolis/netcdf.py'], [('output_write', 'aeolis/model.py:AeoLiSRunner.output_write'), ('append', 'aeolis/netcdf.py:append'), ('initialize', 'aeolis/netcdf.py:initialize')],
  ['variables, dimensions and attributes in the netCDF file'],
  'property-based comparison of the file with the recorded history of states',
  NOTE + 'A start time above zero but before the first output interval may skip the initial record, as the code counts intervals from zero.')

P('C22', 'Output statistics cover exactly the steps since the previous output',
  'For every run and variable the average, sum, minimum, maximum and variance in the output file and from the interface are those of the '
  'values at the end of each time step since the previous output (or since they were cleared on request). Statistics of one '
  'variable do not influence others, and reading without clearing changes nothing.',
  ['inputs', 'histories'], 'all variables, combinations of statistics, output intervals and sequences of steps and requests',
  'No test looks at statistics.',
  ['aeolis/model.py'], [('output_update', 'aeolis/model.py:AeoLiSRunner.output_update'), ('get_statistic', 'aeolis/model.py:AeoLiSRunner.get_statistic')],
  ['statistics in the netCDF file and from get_var'],
  'property-based comparison with statistics of the recorded history', NOTE)

P('C23', 'A run restarted from a restart file continues exactly like the original',
  'For every run that writes restart files, each file holds the time, parameters, state, and solver fields of the model at that time, and a run '
  'restarted from it goes through exactly the same times and states as the run that was not interrupted. Restart files are written '
  'each time the restart interval has passed and at no other time. A restart file that does not exist is an error.',
  ['inputs', 'crash_points', 'histories'], 'all set-ups, restart intervals, points of interruption, time step limits, solvers and grids',
  'No test restarts a run.',
  ['aeolis/model.py'], [('dump_restartfile', 'aeolis/model.py:AeoLiSRunner.dump_restartfile'), ('load_restartfile', 'aeolis/model.py:AeoLiSRunner.load_restartfile')],
  ['times and states of the original and the restarted run'],
  'property-based differential testing of interrupted against uninterrupted runs', NOTE)

P('C24', 'Hotstart files set and freeze the state and dumps restore a record',
  'For every state variable and grid a hotstart file in the working directory sets that variable at the start of the run, '
  'in any layout with the right number of values, and freezes it. A text dump of an output record used as '
  'hotstart file brings back the state of that record, other files in the directory change nothing.',
  ['inputs'], 'all state variables, values, file layouts, grids and records',
  'No test uses hotstart files or dumps.',
  ['aeolis/model.py', 'aeolis/netcdf.py'], [('load_hotstartfiles', 'aeolis/model.py:AeoLiSRunner.load_hotstartfiles'), ('dump', 'aeolis/netcdf.py:dump')],
  ['state variables after start and during the run'],
  'property-based round-trip testing and comparison of states with file contents',
  NOTE + 'Variables that the code changes in place are set but do not stay frozen during the run, which is not part of the property.')

P('C25', 'Model instances do not influence each other and runs are reproducible',
  'For every two models stepped in any interleaving in one process, each gives exactly the results that it gives when it runs alone, and '
  'repeating a run in the same or another process position gives exactly the same results. Models with random processes are reproducible '
  'from the seed of the random numbers.',
  ['inputs', 'schedules'], 'all pairs of set-ups and interleavings of their steps',
  'The tests run one model at a time and do not compare results.',
  ['aeolis/model.py', 'aeolis/constants.py'], [('AeoLiS', 'aeolis/model.py:AeoLiS'), ('DEFAULT_CONFIG', 'aeolis/constants.py:DEFAULT_CONFIG')],
  ['states of both models after every step'],
  'property-based differential testing over generated interleavings', NOTE)

P('C32', 'Generated wind time series follow the requested distribution and range',
  'For every mean, maximum, bin count and distribution the transition matrix of the wind generator has rows that are distributions and the '
  'requested Weibull distribution as equilibrium. Each generated series covers the requested duration with the requested time step, stays within bounds, is '
  'reproducible from the random seed, does not depend on earlier generations, and visits wind speeds as often as the distribution demands. '
  'The written file and the command line tool give this series.',
  ['inputs'], 'all distribution parameters, numbers of bins, durations, time steps and seeds',
  'No test uses the wind generator.',
  ['aeolis/model.py', 'aeolis/console.py'], [('WindGenerator', 'aeolis/model.py:WindGenerator'), ('wind', 'aeolis/console.py:wind')],
  ['transition matrix, series and files'],
  'property-based testing of invariants and distribution of the generated series', NOTE)

P('C34', 'Callbacks run once before every step and their changes take effect',
  'For every run a callback function is called exactly once before each time step with the model in the state of that time, and '
  'what it changes through the model interface is used exactly as if the run had been stepped by hand with these changes. Callbacks given as function, '
  'as text or in the configuration file are equivalent, and a text that names no function is refused.',
  ['inputs', 'histories'], 'all callbacks, ways to give them, changed variables and parameters and times of the change',
  'The tests only parse two callback texts.',
  ['aeolis/model.py'], [('set_callback', 'aeolis/model.py:AeoLiSRunner.set_callback'), ('parse_callback', 'aeolis/model.py:AeoLiSRunner.parse_callback')],
  ['times of calls and states of the run'],
  'property-based differential testing against runs stepped by hand', NOTE)

P('C39', 'The command line tool gives the results of the model runner',
  'For every set-up, run directory and combination of options a run from the command line writes the same output as the model runner, with '
  'callback and restart options taking effect. Examples are copied completely and unchanged, and invalid calls fail with an error without '
  'touching files.',
  ['inputs'], 'all set-ups, working directories, options and their order, examples and invalid calls',
  'The tests only call the help and the examples command.',
  ['aeolis/console.py'], [('run', 'aeolis/console.py:run'), ('examples', 'aeolis/console.py:examples')],
  ['output files, exit codes and copied files'],
  'property-based differential testing of the command line tool against the model runner', NOTE)

P('C40', 'Unknown settings are refused',
  'A run in which a formulation, solver, scheme, boundary condition or wind convention is unknown or misspelled never completes: it stops with an '
  'error, and where the code names the setting, with a ValueError that quotes the unknown value (NotImplementedError for cross-shore circular '
  'boundaries). Names of solvers and formulations are recognised in any capitals with identical results.',
  ['inputs'], 'all settings that select a formulation, in set-ups with any combination of processes',
  'The tests only run set-ups with valid settings.',
  ['aeolis/model.py', 'aeolis/transport.py', 'aeolis/threshold.py', 'aeolis/hydro.py', 'aeolis/wind.py'],
  [('update', 'aeolis/model.py:AeoLiS.update'), ('equilibrium', 'aeolis/transport.py:equilibrium'), ('compute_moisture', 'aeolis/threshold.py:compute_moisture'),
   ('hydro', 'aeolis/hydro.py:update')],
  ['errors raised by the first steps, model variables'],
  'property-based testing with injected invalid settings and metamorphic spelling of valid ones', NOTE)
P('C15', 'Waves mix whole surface layers and conserve sediment',
  'For every bed and wave field the layers within the depth of disturbance (a fraction of the local, depth limited wave height) take their '
  'common mean composition, deeper layers and cells without waves stay as they are, and each column keeps the mass of each fraction and its '
  'bed level. Nothing mixes when mixing is off, and layers stay mixed in complete runs.',
  ['inputs'], 'all layer counts, compositions, wave heights, factors and water levels',
  'The tests do not look at the bed composition.',
  ['aeolis/bed.py'], [('mixtoplayer', 'aeolis/bed.py:mixtoplayer')], ['mass per layer and fraction after a step'],
  'property-based testing (Hypothesis) against an independent mixing model and conservation', NOTE)

P('C27', 'Sand fences shelter the bed downwind as documented',
  'For every fence and wind the shear stress downwind of a fence is reduced by the documented recovery with distance in fence heights, never '
  'upwind of it or beyond its reach, never increased or reversed, and reductions of several fences add up to at most full shelter. The height of a fence '
  'decreases as its foot is buried; a fence without height and no fence are the same.',
  ['inputs', 'configurations'], 'all fences, wind directions, shelter parameters and bed level changes on transects and grids',
  'No test uses fences.',
  ['aeolis/fences.py'], [('update_fences', 'aeolis/fences.py:update_fences'), ('fences', 'aeolis/fences.py:fences'), ('fence_shear2d', 'aeolis/fences.py:fence_shear2d')],
  ['taus, taun, tau, ustar*, fence_height'],
  'property-based differential testing against an independent shelter model, metamorphic relations on grids', NOTE)

P('C28', 'The model starts from the bed, layers and composition as configured',
  'For every way to describe the bed (one distribution, one per layer, a mass per cell and layer, not necessarily normalized) the initial layers have '
  'the mass of their thickness and the given composition, and levels, non-erodible levels, masks, thresholds and vegetation are those of the files. '
  'Equivalent descriptions of a bed give the same run, and a run does not alter what it was given.',
  ['inputs', 'configurations'], 'all grids, layer counts, fractions, distributions, masks and file contents',
  'The tests run a few examples and do not look at the initial state.',
  ['aeolis/bed.py', 'aeolis/model.py'], [('bed.initialize', 'aeolis/bed.py:initialize'), ('initialize', 'aeolis/model.py:AeoLiS.initialize')],
  ['state after initialization and after steps'],
  'property-based testing against the configuration, differential testing of equivalent descriptions', NOTE)

P('C31', 'Results do not depend on origin of time, datum or numbering of rows',
  'For every complete set-up, shifting all series and start and end by the same time, or all levels by the same height, gives the same run shifted. With '
  'circular lateral boundaries results do not depend on which row comes first, and a grid that is uniform across gives in every row the results of a '
  'transect.',
  ['configurations', 'histories'], 'all set-ups with their processes and all shifts of time, datum and rows',
  'The tests compare no two runs.',
  ['aeolis/model.py', 'aeolis/wind.py', 'aeolis/hydro.py'], [('update', 'aeolis/model.py:AeoLiS.update'), ('interpolate', 'aeolis/hydro.py:interpolate')],
  ['all states after every step of both runs'],
  'property-based metamorphic testing of complete runs', NOTE)

P('C33', 'Grid sizes and orientation follow the coordinates of the grid',
  'For every grid of any orientation, origin and spacing the cell sizes, areas and orientation are those of its coordinates, and a step leaves coordinates '
  'unchanged. Turning and moving grid and wind directions together gives the same run, with vectors in the turned frame.',
  ['inputs', 'configurations'], 'all grids, orientations and origins, and complete set-ups on them',
  'The tests use example grids and no rotated ones.',
  ['aeolis/gridparams.py', 'aeolis/model.py'], [('gridparams', 'aeolis/gridparams.py:initialize'), ('grid_rotate', 'aeolis/model.py:AeoLiS.grid_rotate')],
  ['x, y, ds, dn, dsdn, alpha and all states of both runs'],
  'property-based testing of geometry and metamorphic testing of turned set-ups', NOTE)

P('C36', 'High water erodes dunes by the documented volume and nothing else',
  'For every dune, water level and wave condition the volume eroded per row is the documented function of the exceedance of the dune toe, '
  'taken from the dune front, at most what is there. Nothing happens while the water stays below the toe, without waves or with the process off; rows do not '
  'influence each other.',
  ['inputs', 'configurations'], 'all profiles, toe levels, slopes, coefficients, tide and wave series',
  'No test uses dune erosion.',
  ['aeolis/erosion.py'], [('run_ph12', 'aeolis/erosion.py:run_ph12')], ['bed level before and after the step'],
  'property-based differential testing against an independent implementation of the published model', NOTE)

P('C38', 'Every step of a complete run uses its own conditions and stays physical',
  'For every combination of processes each step uses wind, water level, waves and weather of the time at its start (interpolated, repeating after the end of '
  'the series, masked and depth limited), and water levels combine consistently. After every step all states are defined and finite, masses, heights, covers, '
  'moisture and thresholds stay within their physical bounds, and states of processes that are off stay as they were.',
  ['configurations', 'histories'], 'all combinations of processes and histories of forcing',
  'The tests run four examples and look at no state.',
  ['aeolis/model.py', 'aeolis/hydro.py', 'aeolis/wind.py'], [('update', 'aeolis/model.py:AeoLiS.update'), ('interp_circular', 'aeolis/utils.py:interp_circular')],
  ['all states after every step'],
  'property-based testing of complete runs against the forcing series and physical invariants', NOTE)
