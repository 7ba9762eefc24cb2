import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
AG='src/pyg2p/main/manipulation/aggregator.py'
p('C01','Accumulation: each window is the difference of its two end fields',
 'For cumulated fields F(t) known at some steps, accumulation with step s over tstart..tend yields exactly one map per window (t-s, t], t running from tstart (from s when tstart is 0) to tend in steps of s, keyed by that window, and every cell of it equals (F(t)-F(t-s))*unitTime/s. Where F(t) or F(t-s) is not among the messages it is the linear interpolation in time of the nearest messages before and after it; F(0) is the zero field when no message for step 0 exists or when forceZeroArray is set. The values in the input messages are not modified.',
 ['inputs','configurations'],'all sets of message steps and values that bracket the requested windows, all tstart, tend, step and unitTime, and all grid cells',
 'Tests sample one regular step sequence; irregular sequences, interpolated ends, absent step 0 and other step sizes are not reached.',
 [AG],[('Aggregator._accumulation',AG),('Aggregator.do_manipulation',AG)],observe=['Aggregator.do_manipulation(values)'])
p('C02','Average: each window is the weighted mean of the messages it covers',
 'Averaging over windows of s hours yields exactly one map per window (t, t+s] that ends within tend - t from tstart-s, or from tstart when it is 0 - keyed by the window; its cells are the mean over the s hourly steps of the value of the first message at or after each hour. With halfweights it is instead the mean of the messages present at t..t+s, those falling exactly on the two ends counted with half the weight of the others. Averaging cumulated messages is refused, and the input messages are not modified.',
 ['inputs','configurations'],'all message steps and values, window sizes, ranges, both weighting modes, all cells',
 'Tests use one data set with one step and compare pre-computed maps.',
 [AG],[('Aggregator._average',AG)],observe=['Aggregator.do_manipulation(values)'])
p('C03','Instantaneous: each requested step is the message at or after it',
 'Instantaneous extraction yields exactly one map per requested step - every s hours from the first requested step to tend - whose cells equal the message for that step if there is one, otherwise the first message after it; a step 0 without message is the zero field. Extracting instantaneous values of cumulated messages is refused, and the input messages are not modified.',
 ['inputs','configurations'],'all message steps and values, requested ranges and steps',
 'Tests use one regular series where every requested step exists.',
 [AG],[('Aggregator._instantaneous',AG),('Aggregator._find_start',AG)],observe=['Aggregator.do_manipulation(values)'])
p('C04','Missing input values stay missing through aggregation',
 'A cell of an aggregated map is missing exactly when it is missing in at least one of the messages that map was computed from (for accumulation both ends and the messages they were interpolated from; for averages the messages with non-zero weight; for instantaneous the message used): no missing value is ever turned into a number and no valid cell is lost. The missing cells of the input messages are not modified.',
 ['inputs','configurations'],'all patterns of missing cells in all messages, all three aggregation types and their options',
 'Test data have no bitmap; masks never reach the aggregation code in the tests.',
 [AG,'src/pyg2p/util/numeric.py'],[('Aggregator',AG),('get_masks','src/pyg2p/util/numeric.py')],observe=['Aggregator.do_manipulation(values)'])
CV='src/pyg2p/main/manipulation/conversion.py'
p('C05','Unit conversion maps every valid value and leaves missing ones alone',
 'Converting a field with the configured function f replaces each value x by f(x), keeps a value equal to the missing value as it is and keeps masked cells masked; the identity function returns the field unchanged. All messages of both resolutions are converted, with the missing value of the messages. Cutting off negatives replaces exactly the values below zero by zero and preserves everything else, missing cells included.',
 ['inputs','configurations'],'all conversion functions configured, all values, all mask patterns',
 'One function and unmasked data are sampled by the tests.',
 [CV,'src/pyg2p/__init__.py','src/pyg2p/main/controller.py'],[('Converter.convert',CV),('Converter.cut_off_negative',CV),('Messages.apply_conversion','src/pyg2p/__init__.py')])
CO='src/pyg2p/main/manipulation/correction.py'
p('C06','Elevation correction applies the formula where all inputs are valid',
 'Correction replaces each interpolated value p by the configured formula of p, the local DEM height and the local geopotential-derived height gem, where p, dem and gem are all valid (not masked, not NaN and not the missing value); elsewhere the result is the missing value of the output type, NaN or masked, and a masked p stays masked. gem is the gem formula applied to every valid geopotential value, resampled with the same interpolation; a corrector is reused within a process only for the same grid, geopotential file, DEM, formulas, interpolation mode and target maps.',
 ['inputs','configurations'],'all formulas, values, DEM and geopotential fields, missing patterns, sequences of grids and DEM maps',
 'The single test samples one formula on one field.',
 [CO],[('Corrector.correct',CO),('Corrector._read_geo',CO),('Corrector.get_instance',CO)])
IN='src/pyg2p/main/interpolation/__init__.py'
SC='src/pyg2p/main/interpolation/scipy_interpolation_lib.py'
GL='src/pyg2p/main/interpolation/grib_interpolation_lib.py'
p('C07','Interpolated value = table-weighted sum of its source points',
 'Applying an interpolation table gives, for every target cell, the sum of weight times source value over the source points the table names for it (just the named value with a single neighbour). A cell whose table entry points outside the source field, or any of whose named source values is missing, is missing (masked, NaN or equal to the missing value of the target maps) in the result; every other cell is valid. For GRIB-API tables, target cells absent from the table are missing, and each remaining cell gets the value computed from its own entry.',
 ['inputs'],'all tables, source fields, missing patterns, both table kinds',
 'Tests compare final maps with unmasked sources for a few grids.',
 [IN],[('Interpolator._interpolate_scipy_append_mv',IN),('Interpolator.interpolate_grib / grib_nearest / grib_inverse_distance',IN)])
p('C08','Nearest and inverse-distance tables use the right neighbours and weights',
 'Nearest-neighbour tables point each target cell at the closest source point by straight distance between the positions on the sphere; inverse-distance tables name its k nearest points, weighted by the inverse of their squared distance, normalised so that weights are non-negative and sum to one, and a target lying on a source point takes that point alone. Target cells out of range of the source grid (their closest source point farther away than the source spacing, the largest distance of a source point from its closest neighbour, enlarged by a factor 1 + 4/Nj) get the out-of-range marker and no weight. Coordinates of a rotated target are first taken back to the regular system. In every scipy mode the builder gets the source coordinates, values and options of the run and the target coordinates, target cells without coordinates (latitude or longitude equal to the missing value of the target maps) get the marker and are missing, all others keep the entries of the builder. Source coordinates and values of different number are refused.',
 ['inputs'],'all source and target grids, all k, target points coinciding with source points or out of range',
 'Tests compare a handful of grids to reference maps with tolerance.',
 [SC,IN],[('ScipyInterpolation.__init__ / to_3d / interpolate_split / _build_nn / _build_weights_invdist',SC),('Interpolator.interpolate_scipy',IN)])
p('C09','ADW and CDD weights are convex and follow the documented scheme',
 'For the angular-distance (adw) and correlation-distance-decay (cdd) modes each target cell is a convex combination of its nearest neighbours, named in order of their distance: the weights are numbers, not negative, and sum to one. The weight of a neighbour is proportional to its distance weight times one plus its angular term. Distance weights are those documented in the code: Shepard (adw; squared) with 1/d up to a third of the radius and 27/4r (d/r-1)^2 up to the radius, the radius being the fifth distance when the fourth neighbour lies beyond the reference radius (mean distance of the seventh neighbours of all target cells), the reference radius when the tenth does, and the eleventh distance otherwise; Hofstra, Hofstra-Shepard and New et al. for cdd with the CDD map in km at the cell (New et al.: at the neighbour) and the custom options by their names (OnlyTOP10: the ten largest). The angular term of a neighbour is the mean of 1 - cos of the angle to every other neighbour (latitude-longitude plane) weighted by their distance weights, 1 where that is undefined; for cdd it is divided by its sum over the neighbours. A target cell without any distance weight is missing; for adw a target on a source point takes that point alone. The result does not depend on whether broadcasting is used nor on the number of splits.',
 ['inputs','configurations'],'all neighbour geometries, distances, and option combinations',
 'Tests compare one or two random samples with reference values.',
 [SC],[('adw_compute_weights_from_cutoff_distances, cdd_*_compute_weights_from_cutoff_distances, adw_and_cdd_compute_weights_directional_in_broadcasting',SC),('ScipyInterpolation._build_weights_invdist / interpolate with adw/cdd',SC)])
p('C10','Bilinear and triangulation modes: exact geometry, weights that reproduce the cell',
 'Geometry used by the bilinear and triangulation modes is exact: the point-in-triangle test accepts exactly the points of the closed triangle (either sense of its vertices), the point-in-quadrilateral test exactly those of the closed convex quadrilateral; two segments have a crossing exactly when they cross at an inner point of both, and it lies on both; a quadrilateral is called convex exactly when it is; ordering four corners permutes them (each keeps position, value and index) so that those of a grid cell go round it; corners are put at the same place of the globe at most 90 degrees of longitude from the cell. So for a target cell inside the source grid the tables of these modes name source points of the grid with weights that are non-negative, sum to one and reproduce the position of the cell, whatever the shape of the target map.',
 ['inputs'],'all non-degenerate triangles, quadrilaterals and segments and all points; tables for regular source grids anywhere on the globe (bounded)',
 'Tests only compare interpolated maps on regular grids.',
 [SC],[('sign, isPointInTriangle, isPointInQuadrilateral, intersection, isConvexQuadrilateral, get_clockwise_points, get_correct_lats_lons',SC),('_build_weights_bilinear, _build_weights_triangulation',SC)])
p('C11','GRIB-API tables: entries aligned, weights normalised, parallel = serial',
 'Building a table with GRIB-API neighbours gives, for each target cell with valid coordinates (latitude and longitude numbers above -1e10 and different from the missing value) inside the source grid and for no other cell, one entry holding that cell\'s row and column, the indexes of its neighbours and (for inverse distance) weights that are non-negative and sum to one, proportional to the inverse distances, a zero-distance neighbour taking all the weight. The parallel construction returns the same table as the serial one.',
 ['inputs','configurations','schedules'],'all target maps (any shape, with invalid cells), all neighbour answers including out-of-grid errors, serial and parallel',
 'Tests skip GRIB-API interpolation or compare one map.',
 [GL],[('grib_nearest, grib_invdist and their parallel versions',GL),('_compute_coeffs_and_idxs',GL)])
p('C12','Interpolation tables: found first in the user folder, created only on request',
 'A table registered in the configuration is looked up in the user folder first and then in the global one, as plain or gzip-compressed file, and is then used as it is. A table is created only when creation was requested (otherwise the run stops with the "not created" error) and only if the user folder is writable; a newly registered table never takes the name of an existing file, and no existing file is overwritten.',
 ['configurations','histories'],'all combinations of registered/unregistered id, files present in either folder, creation flag, folder permissions',
 'Tests always create tables in a fresh folder.',
 [IN,'src/pyg2p/main/config.py'],[('Interpolator._intertable_filename',IN),('IntertablesConfiguration.check_write','src/pyg2p/main/config.py')])
p('C13','A stored interpolation table gives the same result as a fresh one',
 'The table written when a table is created and read back later has the same indexes and weights in the same order for every interpolation mode, so that interpolating any field with the stored table yields what interpolating it with the freshly built table yields (equal up to the order of summation); the table is registered under the identifier built from the source grid, target grid and mode, with its file name.',
 ['inputs','histories'],'all tables, all modes, compressed or not',
 'Tests run each mode once from creation.',
 [IN],[('Interpolator._read_intertable, interpolate_scipy, grib_nearest, grib_inverse_distance',IN)])
GR='src/pyg2p/main/readers/grib.py'
p('C14','Exactly the GRIB messages matching the selection are processed',
 'A GRIB message is selected exactly when it defines every requested key and its value equals the requested one, is among the requested ones or satisfies the requested condition. Each selected message (they are distinct in start step, end step, size along the meridian and level, and of at most two grids) appears once in the result, in the map of its grid, under its own start step, end step, size and level, with its values, masked exactly at the cells its bitmap marks missing. The step conditions of a run cover exactly the requested range (0 included); when no message starts late enough, those from step 0 are taken, and when nothing matches the run ends with the "no messages" error. The same holds for files that cannot be indexed and for every further selection with the same reader.',
 ['inputs','configurations','histories'],'all message sets and selection criteria, indexed or not, any number of selections',
 'Tests select from two small files with one or two criteria.',
 [GR,'src/pyg2p/main/context.py'],[('GRIBReader._find / scan_grib / _get_gids / select_messages',GR),('create_select_cmd_for_reader','src/pyg2p/main/context.py')])
p('C15','Time structure derived from the messages is right',
 'From any set of selected messages the derived first step is the smallest start step, the last step the largest end step, the input step the distance of the two first end steps (or the length of the single message), and a change of time resolution is reported exactly when a later distance between consecutive end steps differs, with its first new distance and position.',
 ['inputs'],'all multisets of start/end steps in any order',
 'Tests know two files with a constant step.',
 [GR],[('GRIBReader._find_start_end_steps, get_grib_info',GR)])
W='src/pyg2p/main/writers/__init__.py'
p('C16','Each output time step gets its own PCRaster file, 8.3 conform',
 'PCRaster maps are named prefix + zero-padded map number in 8.3 form (eleven characters and a dot after the eighth) in the output folder, numbered from fmap upwards in order of the steps, by ext for every further map; distinct steps get distinct files whenever prefix and number (integers, fmap and ext not negative, ext at least 1) fit into eleven characters, and the number can be read back from the name.',
 ['inputs','configurations'],'all prefixes, first map numbers, increments and numbers of steps that fit',
 'Only one prefix and number is exercised.',
 [W],[('OutputWriter._name_pcr_map and map numbering',W)])
p('C17','PCRaster output carries the values and is missing outside the clone',
 'A written PCRaster map has the rows, columns and georeference of the clone map; each cell that is valid in the clone and in the field (neither masked nor NaN nor, in the result of an interpolation, equal to the missing value of the target maps) holds the field value (single precision) and every other cell holds the missing value, which is also the map\'s declared missing value.',
 ['inputs'],'all fields, masks and clones',
 'The writer test is disabled.',
 ['src/pyg2p/main/writers/pcr.py',W],[('PCRasterWriter','src/pyg2p/main/writers/pcr.py'),('OutputWriter.write_maps',W)])
p('C18','NetCDF output: values, missing cells and time axis are right',
 'The NetCDF file has one time layer per output step, in step order, whose time coordinate in the announced units since the data date equals the step\'s end; each cell valid in the clone and in the field whose value is representable in the value format decodes (scale factor and offset applied) to the field value within packing resolution, and every other cell reads back as missing. Configured valid range, value format (signed integer or float) and units are stored as given, and latitudes and longitudes are those of the target maps.',
 ['inputs','configurations'],'all fields, masks, steps, formats, scale factors, offsets and time units',
 'There is no test that writes NetCDF with missing values, packing or other time units.',
 ['src/pyg2p/main/writers/netcdf.py',W],[('NetCDFWriter','src/pyg2p/main/writers/netcdf.py'),('OutputWriter._write_maps_netcdf',W)])
CX='src/pyg2p/main/context.py'
p('C19','Command line overrides JSON, JSON overrides defaults',
 'For every option of a run, the effective execution parameter is the command-line value if it was given, otherwise the value in the JSON command file, otherwise the documented default; options that can only be given one way take the value given there or their default; aggregation, half weights and the forced zero array are on exactly when configured. A value counts as given also when it is 0 or equal to the default.',
 ['configurations'],'all combinations of presence and values of the options on the command line and in JSON',
 'Tests run a few fixed command lines.',
 [CX],[('Context / ExecutionContext._define_exec_params',CX)])
p('C20','Invalid configurations are refused with their error, valid ones never',
 'A run is refused with the error of what is wrong whenever no input file is given, the command file, the input file, a second input file, the latitude, longitude, clone or (with correction) DEM map does not exist, level, unitTime or a numeric selector of the command line is not a number, a choice of the command line, the short name, the conversion or the interpolation mode is unknown, tstart is after tend, or only some of the three attributes of a correction are given; nothing but the output folder has been written then. A valid configuration is never refused, and configuration commands need no input file.',
 ['configurations'],'all combinations of valid and invalid settings',
 'Tests only use valid configurations.',
 [CX,'src/pyg2p/main/config.py'],[('Context._check_exec_params, ExecutionContext',CX),('ParametersConfiguration.get/get_conversion','src/pyg2p/main/config.py')])
p('C21','Exit codes tell failure from success',
 'The program returns 0 when the run (or the configuration command) completes or when no message matches the selection of the run, and non-zero for every other application error at any stage (reading the configuration, running a configuration command or executing); files, messages and indexes opened by a run are closed in every case, and a configuration command does exactly one action asked for (-g, -W or -K) and executes nothing.',
 ['configurations','fault_sequences'],'every stage failing with any application error, every command kind',
 'Tests never fail a run.',
 ['src/pyg2p/main/__init__.py','src/pyg2p/main/controller.py'],[('pyg2p_exe, execute, config_command','src/pyg2p/main/__init__.py'),('Controller.execute/close','src/pyg2p/main/controller.py')])
p('C22','User variables in paths are replaced by their configured values',
 'In the path options of the JSON command file (clone, latitude, longitude, DEM and CDD maps, table and geopotential folders) every {VAR} is replaced by the value VAR has in the user\'s .conf files (NAME=value lines, blanks and double quotes around the value ignored; later lines win, then later files in name order), for all variables and all occurrences; a VAR that no file defines ends the run with its error; any other text, other braces included, and the formulas are left as they are.',
 ['configurations'],'all variable sets and option strings',
 'Tests define fixed variables.',
 ['src/pyg2p/main/config.py'],[('UserConfiguration','src/pyg2p/main/config.py')])
p('C23','Geopotential files: registered once, found in order',
 'Adding a geopotential file copies it into the user folder (unless it is there) and registers its name under its grid id, in memory and in the user\'s registry file; a file without a geopotential, an id or a file name already registered, and a missing or unwritable user folder are refused with their errors without changing anything; removing a file name drops its entry of the user\'s registry only; no operation alters another entry; looking up a grid id returns the registered file from the folder given on the command line, else the user folder, else the global folder, and fails with its error when the id or the file is unknown.',
 ['configurations','histories'],'all registries, folder contents and sequences of add, remove and lookup',
 'No test adds or looks up geopotentials with competing folders.',
 ['src/pyg2p/main/config.py'],[('GeopotentialsConfiguration','src/pyg2p/main/config.py')])
p('C24','API commands carry exactly the options set',
 'A command built with the API hands to the program each option given in its initial string (values with blanks or quotes quoted, {name} parts replaced by the named arguments) or set by a with_* call exactly once, with its latest value unchanged, whatever blanks, quotes or = it contains, and options that take no value as bare flags, and nothing else but the marker of the API and the default log level; the exit code is handed back.',
 ['inputs','histories'],'all initial strings and sequences of with_* calls',
 'Tests build a few commands.',
 ['src/pyg2p/main/api.py','src/pyg2p/util/strings.py'],[('Command','src/pyg2p/main/api.py'),('to_argdict, to_argv','src/pyg2p/util/strings.py')])
p('C25','A run processes the selected messages in the configured order',
 'A run reads from the input file (and the second file, if one is given) the messages of the configured parameter, level, date, time and member whose steps lie in the configured range (default: from 0 to the last step of the file), extended at its start as the aggregation needs; converts their units exactly when configured and before anything is computed; aggregates each resolution with the configured settings, the first up to the change of resolution and the second after it, or keeps all steps of both when no aggregation is configured; cuts negative values last, exactly when the conversion asks for it; and hands each resulting step once to the writer, in order of its end, with the first step of the second resolution marked. The geopotential of the input file is used exactly when a correction is configured and the file has one.',
 ['inputs','configurations'],'all ranges, criteria, steps and combinations of conversion, aggregation, correction and second resolution',
 'Tests run two or three fixed configurations and look at single values.',
 ['src/pyg2p/main/controller.py',CX],[('Controller.init_execution/execute/second_res_manipulation','src/pyg2p/main/controller.py'),('Context.create_select_cmd_for_reader',CX)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
