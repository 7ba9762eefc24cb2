BASE = ('Every obligation generated from the current source is discharged for all inputs under the stated preconditions; assumed: contracts of numpy/numexpr/standard library '
        '(pyvc/models), mathematical reals for floats, pyvc itself. The same contracts are evaluated at run time on the real code (bounded, seeded) to cross-check and to replay. ')
CLAIMS = {
    'C01': dict(note=BASE + 'Aggregator._accumulation and do_manipulation: all message sets (any number of messages at any steps), all windows, all cells.'),
    'C02': dict(note=BASE + 'Aggregator._average: both weighting modes, any number of windows, hours and messages.'),
    'C03': dict(note=BASE + 'Aggregator._instantaneous/_find_start: any number of messages and requested steps.'),
    'C04': dict(note=BASE + 'Mask part of the three aggregations and numeric.get_masks for any number of arguments.'),
    'C05': dict(note=BASE + 'Converter and Messages.apply_conversion for an arbitrary formula (opaque function) on fields of any size.'),
    'C06': dict(note=BASE + 'Corrector construction, geopotential reading and resampling, correct and get_instance for arbitrary formulas (opaque functions) and fields of any size; GRIB reader and interpolator by contract.'),
    'C07': dict(note=BASE + 'Interpolator construction, table lookup, reading and applying for all 9 modes: any field, target and table size; plain and compressed tables, first and repeated use.'),
    'C08': dict(note=BASE + 'ScipyInterpolation construction, to_3d, interpolate_split, _build_nn and _build_weights_invdist without angular term for source and target grids of any size (plain and masked values, regular and rotated targets, float32/64 coordinates); Interpolator.interpolate_scipy for the 7 scipy modes; KDTree.query by contract; splits only in the run-time contract (bounded).'),
    'C09': dict(note=BASE + 'Distance weights of Shepard (reference radius given or of the target), Hofstra and the Hofstra-Shepard mix (standard and custom options) and the angular term of all pairs; ScipyInterpolation.interpolate, interpolate_split and _build_weights_invdist for adw and cdd (Hofstra, Hofstra-Shepard, custom options, OnlyTOP10), with and without broadcasting, any number of cells, when none, one (the first) or several neighbours have a distance weight; convexity by lemmas. NewEtAl and splits only in the run-time contract: bounded.'),
    'C10': dict(note=BASE + 'Geometry helpers (orientation, triangle, quadrilateral, crossing, convexity, order of corners, corner positions, bilinear equations) for all real coordinates; the tables of the bilinear, triangulation and bilinear_delaunay modes (fsolve, Delaunay) only in the run-time contract: bounded.'),
    'C11': dict(note=BASE + 'grib_nearest, grib_invdist, their parallel versions, init_parallel and _compute_coeffs_and_idxs for targets of any size, any missing value, NaN coordinates and any answers of codes_grib_find_nearest; dask bag by contract (order kept, workers are forks), cross-checked with real workers at run time.'),
    'C12': dict(note=BASE + 'Interpolator._intertable_filename, interpolate_scipy, grib_nearest/grib_inverse_distance, update_intertable_conf, IntertablesConfiguration: any registry, any set of existing files, any permissions; files with a doubled .gz.gz extension assumed absent.'),
    'C13': dict(note=BASE + 'Table creation, storing and reading for all 9 modes: any table a builder returns, any field; numpy save/load assumed to round-trip.'),
    'C14': dict(note=BASE + 'GRIBReader._find for the criteria of a run and all kinds of criteria on up to three keys; scan_grib over files with any number of messages (1-3 short names, index with and without members, plain file, repeated scans); _get_gids; select_messages for any number of messages, sizes and bitmaps; Context.create_select_cmd_for_reader. eccodes, GribGridDetails and Messages by contract.'),
    'C15': dict(note=BASE + 'GRIBReader.get_grib_info and _find_start_end_steps for any number of messages in any order; eccodes by contract.'),
    'C16': dict(note=BASE + 'OutputWriter._name_pcr_map for every prefix length and number of digits that fit; map numbering and order for any number of steps and a change of resolution at any step.'),
    'C17': dict(note=BASE + 'PCRasterWriter for any clone, field and mask (gdal by contract); what OutputWriter hands to it for any number of steps, with and without correction.'),
    'C18': dict(note=BASE + 'OutputWriter._write_maps_netcdf for any number of steps; NetCDFWriter for any clone, field, mask, scale factor, offset, every signed/float format and every pair of time units (netCDF4 by contract).'),
    'C19': dict(note=BASE + 'ExecutionContext._define_input_args/_define_exec_params/_check_exec_params: every option against every other in all four ways of giving them, any values; all long spellings; argparse and ujson by contract.'),
    'C20': dict(note=BASE + 'ExecutionContext with any combination of faults inside a group (files, numbers and steps, mode, correction, short name and conversion, command line), ParametersConfiguration.get and get_conversion; refused exactly when one of the faults is there, with its error.'),
    'C21': dict(note=BASE + 'pyg2p_exe, execute and config_command with every stage completing, raising an application error of any code or another exception; Controller.close after a failure at each of 16 stages; OutputWriter, NetCDFWriter, PCRasterWriter and GRIBReader.close (up to four selected messages).'),
    'C22': dict(note=BASE + 'UserConfiguration construction, load_properties, interpolate, interpolate_strings and ExecutionContext for arbitrary names, values and texts; texts of up to three parts, up to two lines in all (bounded only in these numbers).'),
    'C23': dict(note=BASE + 'GeopotentialsConfiguration construction, add, remove, get_filepath, check_write and dump on arbitrary registries of up to two entries together and any files and permissions; histories by induction over the operations; GRIBReader.get_id.'),
    'C24': dict(note=BASE + 'Command, run_command, to_argdict, to_argv, quote, is_option for arbitrary values; up to two options in the initial string followed by up to one call, or two builder calls (bounded only in these numbers); csv, re by contract.'),
    'C25': dict(note=BASE + 'Controller.init_execution, execute, read_2nd_res_messages, second_res_manipulation and Context.create_select_cmd_*: any range, criteria and settings; up to three steps of the first and two of the second resolution (bounded in the number of steps only); the stages by contract.'),
}
NA = {}
