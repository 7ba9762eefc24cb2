"""the documented options of a run: (effective parameter, command line flags, JSON section, JSON attribute, kind, default)"""
BOTH = [
    ('parameter.tstart', ('-s', '--start'), 'Parameter', '@tstart', 'int', None),
    ('parameter.tend', ('-e', '--end'), 'Parameter', '@tend', 'int', None),
    ('parameter.perturbationNumber', ('-m', '--perturbationNumber'), 'Parameter', '@perturbationNumber', 'int', None),
    ('parameter.dataTime', ('-T', '--dataTime'), 'Parameter', '@dataTime', 'time', None),
    ('parameter.dataDate', ('-D', '--dataDate'), 'Parameter', '@dataDate', 'int', None),
    ('outMaps.fmap', ('-f', '--fmap'), 'OutMaps', '@fmap', 'int', 1),
    ('outMaps.ext', ('-x', '--ext'), 'OutMaps', '@ext', 'posint', 1),
    ('outMaps.format', ('-F', '--format'), 'OutMaps', '@format', 'format', 'pcraster'),
    ('outMaps.namePrefix', ('-n', '--namePrefix'), 'OutMaps', '@namePrefix', 'str', 'shortName'),
    ('outMaps.scaleFactor', ('-S', '--scaleFactor'), 'OutMaps', '@scaleFactor', 'posnum', 1),
    ('outMaps.offset', ('-O', '--offset'), 'OutMaps', '@offset', 'num', 0),
    ('outMaps.validMin', ('-vm', '--validMin'), 'OutMaps', '@validMin', 'num', None),
    ('outMaps.validMax', ('-vM', '--validMax'), 'OutMaps', '@validMax', 'num', None),
    ('outMaps.valueFormat', ('-vf', '--valueFormat'), 'OutMaps', '@valueFormat', 'str', None),
    ('outMaps.outputStepUnits', ('-U', '--outputStepUnits'), 'OutMaps', '@outputStepUnits', 'str', None),
    ('interpolation.dirs', ('-N', '--intertableDir'), 'Execution|Interpolation', '@intertableDir', 'dir', '/conf/intertables'),
    ('geopotential.dirs', ('-G', '--geopotentialDir'), 'Execution|Interpolation', '@geopotentialDir', 'dir', '/conf/geopotentials'),
]
# options of the JSON command file only
JSON = [
    ('parameter.level', 'Parameter', '@level', 'int', None),
    ('outMaps.unitTime', 'OutMaps', '@unitTime', 'posint', 24),
    ('interpolation.mode', 'Interpolation', '@mode', 'mode', 'grib_nearest'),
    ('interpolation.cdd_map', 'Interpolation', '@cdd_map', 'str', ''),
    ('interpolation.cdd_mode', 'Interpolation', '@cdd_mode', 'str', ''),
    ('interpolation.use_broadcasting', 'Interpolation', '@use_broadcasting', 'bool', False),
    ('interpolation.num_of_splits', 'Interpolation', '@num_of_splits', 'posint', None),
    ('interpolation.rotated_target', 'Interpolation', '@rotated_target', 'bool', False),
]
# options of the command line only
CLI = [
    ('input.file2', ('-I', '--inputFile2'), 'str', None),
    ('interpolation.create', ('-B', '--createIntertable'), 'flag', False),
    ('interpolation.parallel', ('-X', '--interpolationParallel'), 'flag', False),
    ('logger.level', ('-l', '--loggerLevel'), 'level', 'INFO'),
]
MODES = ('grib_nearest', 'grib_invdist', 'nearest', 'invdist', 'adw', 'cdd', 'bilinear', 'triangulation', 'bilinear_delaunay')
FALSE = ('false', 'False', 'FALSE', 'no', 'NO', 'No', '0')
