"""The property table: python3 tools/meta.py rewrites properties.jsonl and MANIFEST.json."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PC = 'resippy/image_objects/earth_overhead/earth_overhead_point_calculators/'
EO = 'resippy/image_objects/earth_overhead/'

# id -> (title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)])
P = {}


def prop(pid, title, statement, text, why, files, mech, over=('inputs',)):
    assert len(title) <= 80, title
    P[pid] = dict(id=pid, title=title, statement=statement, quantifier={'over': list(over), 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]})


NOTEST = 'No existing test calls this code at all. '

prop('P01', 'World-to-pixel calls: projection, altitude defaults, shapes and band forwarding',
     'Every sensor\'s lon/lat/alt-to-pixel call first transforms coordinates from the caller\'s projection to the sensor\'s native one (and does nothing when they agree), '
     'treats a missing altitude as zero and a scalar altitude as applying to every point, forwards the requested band, and gives grids, vectors and single points the same answer point by point in row-major order. '
     'The pixel/alt-to-lon/lat call uses the closed form when the sensor has one, otherwise the iterative solver with the caller\'s thresholds, and returns coordinates in the requested projection.',
     'all sensors, all coordinate arrays of rank 0, 1 and 2, all projections, bands and altitudes',
     'The tests call it for one image with native coordinates and one altitude form.',
     [PC + 'abstract_earth_overhead_point_calc.py'], [('lon_lat_alt_to_pixel_x_y / pixel_x_y_alt_to_lon_lat wrappers', PC + 'abstract_earth_overhead_point_calc.py')])
prop('P02', 'RPC sensor model is the 20-term RPC00B rational cubic, keys mapped one to one',
     'For every coefficient set, the RPC model\'s pixel is the ratio of the two 20-term cubics in normalised latitude, longitude and height, scaled and offset, with the half-pixel shift the library uses. '
     'Coefficients read from an image\'s metadata each come from their own key, and the approximate centre is the longitude and latitude offset.',
     'all coefficient vectors, scales, offsets and ground points', 'One sample image exercises one coefficient vector; a permuted term or swapped scale can hide in its small coefficients.',
     [PC + 'rpc_point_calc.py'], [('compute_p / compute_u', PC + 'rpc_point_calc.py')])
prop('P03', 'Pinhole camera obeys the collinearity equations with unit conversion',
     'For every camera position, orientation, focal length and principal point, an image coordinate is the perspective projection of the ground point through the camera centre, and the inverse at a given altitude is its exact algebraic inverse. '
     'Positions, angles and focal length are honoured in the units the caller states.',
     'all exterior and interior orientation parameters, all ground points', NOTEST,
     [PC + 'pinhole_camera.py', 'resippy/utils/photogrammetry_utils.py'], [('world_to_image_plane / image_to_world_plane', PC + 'pinhole_camera.py')])
prop('P04', 'Rotation matrices are the product of the elementary rotations in the given order',
     'The orientation matrix built from omega, phi and kappa equals the product of the three elementary rotations in the requested order, for every angle and each of the six orders. '
     'An angle order that is not one of the six is rejected rather than answered.',
     'all angles and all orders', 'Tests use one order with a few angles.',
     ['resippy/utils/photogrammetry_utils.py'], [('create_M_matrix', 'resippy/utils/photogrammetry_utils.py')])
prop('P05', 'Angle recovery inverts rotation matrix construction',
     'Recovering omega, phi and kappa from an orientation matrix applies the closed-form inverse of the matrix construction, entry by entry, so that building a matrix from the recovered angles gives the matrix back (up to the documented sign ambiguity).',
     'all orientation matrices', NOTEST, ['resippy/utils/photogrammetry_utils.py'], [('solve_for_omega_phi_kappa', 'resippy/utils/photogrammetry_utils.py')])
prop('P06', 'Fixture, boresight and lever arm compose into the camera pose',
     'A camera\'s absolute orientation is its boresight rotation times the fixture\'s, and its absolute position is the fixture position plus the lever arm rotated by the fixture orientation. '
     'All angles, distances and rotation orders given by the caller are honoured, in their stated units.',
     'all fixture poses, boresight angles, lever arms, units and the six orders', NOTEST, [PC + 'fixtured_camera.py'],
     [('FixturedCamera.get_camera_absolute_xyz / get_camera_absolute_M_matrix', PC + 'fixtured_camera.py')])
prop('P07', 'Ideal frame camera maps focal-plane millimetres to pixels by pitch and centre',
     'The ideal pinhole frame camera maps image-plane coordinates to pixels by dividing by the pixel pitch and shifting to the array centre, with the image y axis pointing down, and its inverse undoes exactly that. '
     'Its native projection is the local UTM zone of the given location.',
     'all pitches, array sizes, poses, ground points, units', NOTEST,
     [PC + 'ideal_pinhole_fpa_local_utm_point_calc.py', 'resippy/utils/proj_utils.py'], [('IdealPinholeFpaLocalUtmPointCalc', PC + 'ideal_pinhole_fpa_local_utm_point_calc.py')])
prop('P08', 'OpenCV frame camera applies the Brown radial and tangential distortion model',
     'Pixels computed by the OpenCV frame camera equal the pinhole projection passed through the documented Brown model with each coefficient in its own term, then the camera matrix.',
     'all coefficients and ground points', NOTEST, [PC + 'opencv_point_calc.py'], [('OpenCVFramePointCalc._lon_lat_alt_to_pixel_x_y_native', PC + 'opencv_point_calc.py')])
prop('P09', 'Pix4D frame camera maps ground points with the Pix4D camera model',
     'For each band, pixels equal Pix4D\'s perspective and fisheye camera equations using that image\'s own position and orientation and that band\'s own camera parameters, in the projection and offset of the Pix4D project. An unknown distortion kind is rejected.',
     'all parameter sets, bands and ground points', 'The tests need sample data that fixes one parameter set.',
     [PC + 'pix4d_point_calc.py', 'resippy/utils/pix4d_utils.py'], [('Pix4DFramePointCalc', PC + 'pix4d_point_calc.py')])
prop('P10', 'GeoTIFF geolocation is the affine geotransform, its inverse, and its extent',
     'A GeoTIFF\'s pixel-to-ground map is its six-coefficient affine transform, ground-to-pixel is the inverse of the same transform, and its world extent is the footprint of its outer pixel corners. '
     'Geotransform, size and projection are the file\'s own.',
     'all geotransforms, including rotated ones, and all points', 'The sample file is north-up; rotation terms are never exercised.',
     [PC + 'geotiff_point_calc.py'], [('GeotiffPointCalc', PC + 'geotiff_point_calc.py')])
prop('P11', 'IGM geolocation returns the grid\'s own coordinates and nearest pixel',
     'A sensor geolocated by an input geometry map returns the map\'s longitude and latitude at a pixel, and for a ground point the pixel whose map coordinates are nearest, in the map\'s projection.',
     'all maps and points', NOTEST, [PC + 'igm_point_calc.py'], [('IGMPointCalc', PC + 'igm_point_calc.py')])
prop('P12', 'Iterative pixel-to-ground solver takes Newton steps within the given bounds',
     'The iterative pixel-to-lon/lat solver linearises the forward model by finite differences at the current guess with the given altitude, band and steps, applies the Newton correction, and stops when the pixel error is below the caller\'s threshold or the caller\'s iteration limit is reached.',
     'all forward models, pixels, altitudes, thresholds and iteration bounds', 'Tests check convergence for a single affine image.',
     [PC + 'abstract_earth_overhead_point_calc.py'], [('_pixel_x_y_alt_to_lon_lat_native_solver', PC + 'abstract_earth_overhead_point_calc.py')])
prop('P13', 'Ray caster returns the first crossing of the line of sight with the terrain',
     'For every pixel, casting to a terrain model samples the line of sight between the terrain\'s highest and lowest altitude, takes the first crossing from above, and interpolates the crossing linearly. '
     'Flat terrain gives the constant-altitude answer, grids keep their shape, and results are in the requested projection.',
     'all sensors, terrain models, pixels, bands and projections', NOTEST, [PC + 'abstract_earth_overhead_point_calc.py'], [('pixel_x_y_to_lon_lat_alt', PC + 'abstract_earth_overhead_point_calc.py')])
prop('P14', 'Orthorectified outputs are georeferenced, sampled and masked as requested',
     'An orthorectified product covers exactly the requested extent with the requested number of pixels and projection, every output pixel takes the source pixel its ground position maps to under that band\'s own sensor model, bands keep their order, and positions outside the source image or hidden by terrain hold the nodata value. '
     'Defaults for extent, projection, resolution, bands and nodata come from the source image.',
     'all images, sensors, bands, extents, projections, terrain models', 'Tests run two images and check only that a file is produced.',
     ['resippy/photogrammetry/ortho_tools.py'], [('create_full_ortho_gtiff_image', 'resippy/photogrammetry/ortho_tools.py')])
prop('P15', 'Terrain elevations come from the right cell, nodata masked, indices clamped',
     'Elevation queries convert the caller\'s projection to the terrain\'s, take the nearest sample or the bilinear mean of the four surrounding samples with nearer samples weighing more, and clamp to the raster. '
     'Nodata samples become NaN and never enter altitude statistics; unsupported interpolation methods are rejected; flat terrain returns its constant.',
     'all rasters, nodata values, projections and query points', 'Tests query nearest samples of one file.',
     ['resippy/photogrammetry/dem/geotiff_dem.py', 'resippy/photogrammetry/dem/dem_factory.py', 'resippy/photogrammetry/dem/constant_elevation_dem.py'],
     [('GeotiffDem.get_elevations', 'resippy/photogrammetry/dem/geotiff_dem.py')])
prop('P16', 'GeoTIFF images carry pixels, georeferencing and nodata to and from disk intact',
     'Writing a GeoTIFF stores every band in order with the image\'s data type, size, geotransform, projection and nodata value, and reading one returns them; images made from arrays report the array\'s own shape and type. '
     'Conversion helpers pass exactly the options the caller asked for and a default in-memory destination is unique.',
     'all images, data types, band counts and option combinations', 'Tests write one image of one type.',
     [EO + 'geotiff/geotiff_image.py', EO + 'geotiff/geotiff_image_factory.py', EO + 'geotiff/geotiff_metadata.py', 'resippy/image_objects/abstract_image.py'], [('GeotiffImage.write_to_disk', EO + 'geotiff/geotiff_image.py')])
prop('P17', 'ENVI headers and cubes survive a write/read round trip',
     'Headers written for an ENVI image parse back to the same values, the data-type code and interleave describe the bytes actually written, and a cube written in any supported interleave reads back element for element. Unsupported data types and interleaves are rejected.',
     'all headers, data types, interleaves, header offsets and byte orders', 'Tests read one or two sample files.',
     ['resippy/utils/envi_utils.py', 'resippy/image_objects/envi/envi_image.py', 'resippy/image_objects/envi/envi_metadata.py'], [('read_envi_header / write_envi_header / read_envi_image', 'resippy/utils/envi_utils.py')])
prop('P18', 'ACE, RX and SAM scores are the textbook statistics',
     'The adaptive coherence, Reed-Xiaoli and spectral-angle detectors compute the textbook formulas on every pixel from the given mean and inverse covariance, or from the ones estimated over the unmasked pixels when they are not given.',
     'all images, signatures, means and covariances', 'Tests compare a few values on one image.',
     ['resippy/spectral/spectral_image_processing_1d.py'], [('ace, rx_anomaly_detector, sam', 'resippy/spectral/spectral_image_processing_1d.py')])
prop('P19', '2-D image wrappers equal the per-pixel routine applied to the flattened image',
     'Every spectral routine that accepts an image cube gives, at each pixel, what its list-of-spectra form gives for that pixel, in row-major order with the image\'s shape restored, masks flattened likewise.',
     'all cubes, masks and signatures', NOTEST, ['resippy/spectral/spectral_image_processing_2d.py', 'resippy/utils/image_utils/image_utils.py'], [('flatten_image_band / unflatten_image_band', 'resippy/utils/image_utils/image_utils.py')])
prop('P20', 'Covariance equalization and masked statistics follow their definitions',
     'Covariance equalization maps scene one\'s statistics onto scene two\'s with the whitening and colouring transform of its definition, and masked statistics use exactly the unmasked pixels.',
     'all scenes and masks', NOTEST, ['resippy/spectral/spectral_image_processing_1d.py', 'resippy/spectral/spectral_image_processing_2d.py'], [('covariance_equalization_mean_centered', 'resippy/spectral/spectral_image_processing_1d.py')])
prop('P21', 'Analysis routines never modify the caller\'s arrays',
     'No analysis, resampling, statistics, chipping, projection or geolocation routine writes into an array, list or dictionary that its caller passed in.',
     'all inputs of the listed public routines', 'A test that does not compare its inputs afterwards cannot see it, and none does.',
     ['resippy'], [('copies before in-place operations', 'resippy/utils')])
prop('P22', 'Image chips are exact windows in order, and mosaics put them back',
     'A chip is exactly the requested window of the image; chip grids enumerate every window in row-major order with the requested size and overlap; reported offsets name the chip they belong to.',
     'all image shapes, chip sizes, offsets', 'Tests take a couple of windows of one image.',
     ['resippy/utils/image_utils/image_chipper.py'], [('chip_entire_image_to_memory', 'resippy/utils/image_utils/image_chipper.py')])
prop('P23', 'Navigation records interpolate each channel at the requested GPS time',
     'Every navigation query returns its own channel, linearly interpolated in time at the requested times, in the documented units; records are read from files by their documented layout, byte for byte.',
     'all navigation histories and query times', NOTEST, ['resippy/photogrammetry/nav'], [('AbstractNav and the Applanix readers', 'resippy/photogrammetry/nav')])
prop('P24', 'GPS and UTC time conversions use the leap-second table and invert each other',
     'Converting UTC to GPS adds exactly the leap seconds in force, conversion back subtracts exactly those, and week/second-of-week forms split the same instant.',
     'all instants after the GPS epoch', 'Tests sample a handful of dates away from leap boundaries.', ['resippy/utils/time_utils.py'], [('leap-second table', 'resippy/utils/time_utils.py')])
prop('P25', 'Quantities with units are converted exactly at unit-aware entry points',
     'Wherever a routine takes a value together with its units, the value is converted exactly from the given units to the ones the routine documents or returns, never silently reinterpreted; the library\'s own derived units have their documented definitions.',
     'all values and units', NOTEST, ['resippy/utils/units', 'resippy/spectral/spectrum.py', PC + 'pinhole_camera.py'], [('ureg conversions', 'resippy/utils/units/__init__.py')])
prop('P26', 'Spectra keep wavelengths, values and units together through resampling',
     'A spectrum returns the wavelengths, values, widths and units it was given; nodata samples read as NaN without altering the stored data; resampling evaluates the piecewise-linear spectrum at the requested wavelengths in the requested units, and direct resampling by band response functions gives each band its response-weighted mean.',
     'all spectra and wavelengths', NOTEST, ['resippy/spectral/spectrum.py', 'resippy/utils/spectral_utils.py'], [('Spectrum', 'resippy/spectral/spectrum.py')])
prop('P27', 'Spectral-library readers return each spectrum\'s own values and metadata',
     'Reading a spectral library returns each spectrum with its own name, wavelengths, values and units, for every supported file layout.',
     'all library files', NOTEST, ['resippy/spectral/spectrum_factories'], [('factories', 'resippy/spectral/spectrum_factories')])
prop('P28', 'Pix4D parameter files are parsed field by field for every image',
     'Reading Pix4D result files yields for each image its own position, rotation and camera parameters, and every image and parameter of the file.',
     'all Pix4D projects', 'Sample data covers a single project.', ['resippy/utils/pix4d_utils.py'], [('readers', 'resippy/utils/pix4d_utils.py')])
prop('P29', 'Every name, attribute and argument used by the library exists',
     'No library function fails on any path because it refers to a name, attribute, method, module member or parameter that does not exist in the library itself or in the supported versions of its dependencies.',
     'all execution paths of all modules', 'Existing tests execute a minority of the functions.', ['resippy'], [('definitions and imports', 'resippy')], over=('inputs', 'configurations'))
prop('P30', 'Unsupported option values are rejected, never silently answered',
     'Where a routine dispatches on an option (interpolation method, data type, interleave, rotation order, distortion model, band), each supported value selects its own documented behaviour and a value outside the supported set raises an error rather than returning an unrelated or empty result.',
     'all option values', 'Tests pass only supported values.', ['resippy'], [('dispatch chains', 'resippy')])
prop('P31', 'MicaSense captures: five ordered bands, each with its own camera metadata',
     'A MicaSense capture holds its five bands in order, each geolocated with its own camera parameters, and the capture time and position are decoded from the image metadata to the documented values.',
     'all EXIF values', NOTEST, [EO + 'micasense/micasense_image_factory.py', EO + 'micasense/micasense_image.py'], [('MicasenseImageFactory', EO + 'micasense/micasense_image_factory.py')])
prop('P32', 'Objects are usable in every state the public API can construct',
     'Every attribute a public method reads has been initialised by construction, for every way the library offers to construct the object.',
     'all classes and factory paths', 'Tests construct few of the classes.', ['resippy'], [('constructors', 'resippy')], over=('inputs', 'histories'))
prop('P33', 'Files are opened for the right purpose, closed, and inputs never overwritten',
     'Readers never open their input for writing or remove it, writers write only to the destination they were given, and file handles are released on every path.',
     'all paths', NOTEST, ['resippy'], [('file access', 'resippy')], over=('inputs', 'fault_sequences'))
prop('P34', 'Image utilities: scaling, colour maps and gridding follow their definitions',
     'Normalisation, colour-mapping, resizing, blending and gridding utilities compute their documented per-pixel formula with shapes preserved.',
     'all images', NOTEST, ['resippy/utils/image_utils/image_utils.py', 'resippy/utils/image_utils/image_mask_utils.py'], [('image utilities', 'resippy/utils/image_utils/image_utils.py')])
prop('P35', 'Text and file utilities return exactly the requested parts',
     'String, path and delimited-text helpers return exactly the documented parts of their input, in order, with headers handled as requested.',
     'all strings and files', NOTEST, ['resippy/utils/string_utils.py', 'resippy/utils/file_utils.py', 'resippy/utils/csv_utils.py'], [('helpers', 'resippy/utils/string_utils.py')])
prop('P36', 'Camera simulator renders each scene point through the simulated sensor model',
     'The camera simulator builds the sensor from the requested pose and units and samples the scene at the ground position of every simulated pixel.',
     'all poses, sensors and scenes', NOTEST, ['resippy/utils/physical_camera_simulator.py'], [('PhysicalCameraSimulator', 'resippy/utils/physical_camera_simulator.py')])
prop('P37', 'Multi-band sensor models route each band to its own geometry',
     'A sensor model made of one point calculator per band answers every query for a band with that band\'s own calculator; a band it does not have is an error. '
     'Projection and distortion model set on the model are set on every band, and adding or replacing a band leaves the others, and other models, alone.',
     'all band counts, calculators and query points', NOTEST, [PC + 'earth_overhead_sensor_model.py'], [('EarthOverheadSensorModel', PC + 'earth_overhead_sensor_model.py')], over=('inputs', 'histories'))
prop('P38', 'Neural-net scoring scores every chip in order with the trained preprocessing',
     'Image scoring cuts the image into overlapping chips, drops an alpha channel, resizes and normalises each chip as requested and returns the model\'s scores in chip order with the chip locations, or the column of the label asked for. '
     'Training writes the class labels in class order and uses the given head, weights, generators, epochs and optimizer.',
     'all images, models, chip sizes, overlaps and labels', NOTEST + 'Keras is not installed in the test environment. ',
     ['resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py', 'resippy/image_recognition/neural_net_model_training/keras_model_training.py'],
     [('chip_and_score_image', 'resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py'), ('train_model', 'resippy/image_recognition/neural_net_model_training/keras_model_training.py')])
prop('P39', 'Image objects return the planes, metadata and geometry they were given',
     'An image object of any format returns, for each band asked for, exactly that plane of the file or of the array it was given, with the file\'s own sizes, no-data value and metadata, and locates its pixels with the point calculator that belongs to it. '
     'Metadata set on an image is what is read back, and one image\'s metadata never changes another\'s.',
     'all files, arrays, band orders and factories', NOTEST, ['resippy/image_objects'], [('image factories', 'resippy/image_objects/image_factory.py'), ('AbstractImage', 'resippy/image_objects/abstract_image.py')], over=('inputs', 'histories'))
prop('P40', 'Map projections and terrain height references are converted as requested',
     'Converting a terrain model between geoid and ellipsoid heights warps it with the geoid grid given and in its own projection and then uses the result; projection helpers give the UTM zone and hemisphere of the location and the reference system of the well-known text asked for; '
     'shifting points moves them by the requested number of meters, a geometry is reprojected vertex by vertex from its own projection to the one asked for, and an extent holds as many pixels as fit in it.',
     'all locations, zones, projections and grids', NOTEST, ['resippy/photogrammetry/dem/geotiff_dem.py', 'resippy/utils/proj_utils.py', 'resippy/utils/photogrammetry_utils.py'],
     [('convert_to_ellipsoid_heights', 'resippy/photogrammetry/dem/geotiff_dem.py'), ('proj_utils', 'resippy/utils/proj_utils.py')])
prop('P41', 'Answers depend only on the arguments and the present state: no stale values',
     'Every query gives the answer for its own arguments and the object\'s present state: a value kept from an earlier call is used only for arguments and state that determine it, it is dropped or recomputed when what it was computed from changes, '
     'and nothing is shared between objects, between the entries of one answer, or kept for the life of the program that depends on one object or on a file\'s former contents.',
     'all sequences of calls on all objects', 'A test that asks once, or asks about one object, cannot see a value left over from an earlier call.',
     ['resippy'], [('IGMPointCalc search tree', PC + 'igm_point_calc.py'), ('every class that keeps derived attributes', 'resippy')], over=('histories', 'inputs'))
prop('P42', 'Integer pixels give the same answers as floating-point ones',
     'An analysis or utility routine given pixel data of any numeric type (uint8, int16, uint16, float32, ...) returns what it returns for the same values held in floating point: '
     'sums, products, squares and differences of pixels never wrap around in the pixel type, fractions are not lost by storing a real-valued result in an array of the pixels\' type, '
     'and missing values (NaN) can be stored where the routine stores them. Converting the result at the end to the type the caller asked for is allowed.',
     'all pixel types and values', 'The tests use one or two pixel types with small values, where nothing wraps around and no fraction is stored.',
     ['resippy/spectral', 'resippy/utils', 'resippy/image_objects'],
     [('spectral_image_processing_1d', 'resippy/spectral/spectral_image_processing_1d.py'), ('image_utils', 'resippy/utils/image_utils.py')])

NA = {}


def na(pid, title, statement, text, why, files, mech, reason):
    prop(pid, title, statement, text, why, files, mech)
    NA[pid] = reason


LEVEL_NOTE = ('Static decision over the current source of resippy: the public entry points are abstractly interpreted (helpers inlined, loops summarised, branches joined) to normal-form value graphs '
              'and compared with the reference formula for all inputs at once. Library functions (numpy, gdal, pyproj, scipy) are modelled algebraically or left uninterpreted; arithmetic is exact real arithmetic, '
              'so rounding is not covered. An obligation whose graphs cannot be decided is reported as undecided in the evidence, not as a violation.')


def main():
    have = set()
    for f in glob.glob(os.path.join(HERE, 'specs', 'P*.py')):
        have.add(re.match(r'(P\d+)', os.path.basename(f)).group(1))
    src = open(os.path.join(HERE, 'sa', 'lints.py')).read()
    lint = set(re.findall(r"@rule\('(P\d+)'", src))
    pure = {'P21'}
    claimed = [p for p in sorted(P) if (p in have or p in pure or p in lint) and p not in NA]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as h:
        for p in sorted(P):
            if p in claimed or p in NA:
                h.write(json.dumps(P[p]) + '\n')
    checks = []
    for p in claimed:
        t = []
        if p == 'P41':
            t.append('abstract interpretation of call histories (set, ask, change, ask again) on symbolic objects, compared with the answer of a fresh object')
        elif p in have:
            t.append('abstract interpretation to normal-form value graphs, compared with a reference formula')
        if p in pure:
            t.append('abstract interpretation of every analysed entry point: value of each mutable argument after the call equals its value before')
        if p in lint:
            t.append({'P41': 'dependence analysis of values kept between calls (backward closure over assignments, key and invalidation coverage)',
                      'P42': 'abstract interpretation of number kinds (pixel type, floating, known integer), interprocedural'}.get(p, 'resolved-syntax-tree lint rules'))
        if p in have:
            t.append('dependence analysis of values kept between calls, aliasing of objects collected by loops, and number-kind analysis of pixel arithmetic in the functions reached')
        checks.append({'property': p, 'quick_cmd': 'python3 -m sa.check ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 -m sa.check ' + p,
                       'technique': 'static analysis: ' + ' + '.join(t), 'level': 'other', 'level_note': LEVEL_NOTE})
    m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa specs', 'checks': checks,
         'not_applicable': [{'property': p, 'reason': NA[p]} for p in sorted(NA)]}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as h:
        json.dump(m, h, indent=1)
        h.write('\n')
    print(len(claimed), 'claimed', len(NA), 'n/a')


if __name__ == '__main__':
    main()
