#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/gen.py)."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "src/aws/osml/photogrammetry/"
G = "src/aws/osml/gdal/"
I = "src/aws/osml/image_processing/"
F = "src/aws/osml/features/"

PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note, observe=()):
    assert len(title) <= 80, (pid, len(title))
    PROPS.append(
        dict(
            id=pid,
            title=title,
            statement=statement,
            quantifier={"over": over, "text": text},
            why=why,
            files=files,
            mechanism=mechanism,
            technique=technique,
            note=note,
            observe=list(observe),
        )
    )


prop(
    "C01",
    "Geodetic and geocentric coordinates convert exactly both ways",
    "Converting a WGS 84 longitude, latitude and ellipsoid height to Earth-centred Earth-fixed coordinates gives the position defined by the ellipsoid equations, converting an Earth-fixed position gives the longitude, latitude and height of that position, and each conversion undoes the other. Coordinate objects report longitude, latitude and elevation (or x, y, z) in that order and keep them when rebuilt from their own array.",
    ["inputs"],
    "every longitude, every latitude including the poles and equator, heights from the sea floor to orbit, positions in every octant",
    "Unit tests convert a handful of points; sign, quadrant, pole and height errors show only at particular positions.",
    [P + "coordinates.py"],
    [("conversion through PROJ pipelines between EPSG:4326+height and EPSG:4978", P + "coordinates.py")],
    "property-based testing (Hypothesis): closed-form ellipsoid reference and round trip",
    "Randomised search over the whole globe against an independent closed-form reference; tolerance 10 micrometres on terrain heights.",
)
prop(
    "C02",
    "Formatted coordinates are well formed and name the location they came from",
    "A world coordinate formatted as degrees-minutes-seconds, as decimal degrees, or with any combination of the documented format directives gives text whose fields are in range, padded as documented, and parse back to the original longitude, latitude and elevation within the precision of the format. Text outside directives is copied unchanged.",
    ["inputs"],
    "every coordinate, including values that round up to the next second, minute or degree, both hemispheres, and any sequence of format directives and literal text",
    "Tests format a few coordinates; carries such as 59.9999 seconds, southern or western values just below a degree and unusual directive combinations are not sampled.",
    [P + "coordinates.py"],
    [("__format__, to_dms_string", P + "coordinates.py")],
    "property-based testing (Hypothesis): parse-back round trip",
    "Generated coordinates near field carries; every directive parsed back by an independent parser.",
)
prop(
    "C03",
    "Tie point and chip models reproduce their correspondences and invert",
    "A model fitted to image/world tie points that follow a plane perspective reproduces every tie point in both directions and its two directions undo each other, at every point of the image; the longitude, latitude order and the image x, y order are never exchanged. A model of a chip answers exactly what the full-image model answers at the corresponding full-image position, in both directions, passing on the elevation model and options given.",
    ["inputs", "configurations"],
    "every non-degenerate set of four or more tie points, every chip corner correspondence (offset, scale, rotation, flip) and every image or ground point",
    "Tests fit one set of corners; mirrored, rotated or scaled correspondences and interior points are not explored.",
    [P + "projective_sensor_model.py", P + "chipped_image_sensor_model.py"],
    [("projective transform estimated by least squares", P + "projective_sensor_model.py"), ("affine chip transform around a full-image model", P + "chipped_image_sensor_model.py")],
    "property-based testing (Hypothesis): known homography / affine as reference, round trip",
    "Correspondences generated from known transforms; the models are compared with the transform itself.",
)
prop(
    "C04",
    "Geotransform models follow the geotransform and CRS exactly and invert",
    "A model built from a six-element geotransform and an optional coordinate system places each image position where the geotransform and that coordinate system put it, in longitude and latitude, and its two directions undo each other; a pixel position is the same convention in both directions. The elevation is the one of the elevation model at that location when one is given.",
    ["inputs", "configurations"],
    "every invertible geotransform (rotation, shear, north-up or south-up), geographic and projected systems (UTM zones, web mercator, polar, local), every image position",
    "Tests use one north-up transform; rotated transforms and axis orders of other coordinate systems are not sampled.",
    [P + "gdal_sensor_model.py", G + "gdal_sensor_model_builder.py"],
    [("affine transform and PROJ transformer with fixed axis order", P + "gdal_sensor_model.py")],
    "property-based testing (Hypothesis): OSR differential reference and round trip",
    "Differential against OSR coordinate operations called by the harness; trusts PROJ. One known finding: datums with several operations to WGS84 (see DESIGN.md).",
)
prop(
    "C05",
    "RPC models evaluate RPC00B exactly and invert onto the elevation surface",
    "The image position of a ground point is the value of the RPC00B rational cubic polynomials for its normalised longitude, latitude and height; the ground position of an image point lies on the elevation surface in force (the elevation model given, otherwise the height offset of the model) and projects back to that image point.",
    ["inputs", "configurations"],
    "every well-posed set of coefficients, offsets and scales, scenes across the antimeridian included; every point of the image; flat, sloped and rough elevation surfaces or none",
    "Tests use one sensor's coefficients; a wrong term order or index is invisible unless that coefficient is nonzero and dominant.",
    [P + "rpc_sensor_model.py"],
    [("RPCPolynomial term vector and normalisation", P + "rpc_sensor_model.py"), ("iterative inverse on the elevation surface", P + "rpc_sensor_model.py")],
    "property-based testing (Hypothesis): independent RPC00B evaluator, forward projection of inverse results",
    "All 20 terms of each polynomial carry generated weight; inverse judged by forward projection and by the surface.",
)
prop(
    "C06",
    "RSM models evaluate the RSM equations exactly and invert onto the surface",
    "The image position of a ground point is the value of the RSM rational polynomials of the image section that contains it, in the model's ground coordinate domain (geodetic or rectangular); the ground position of an image point lies on the elevation surface in force and projects back to that image point, across all sections. A sectioned model uses, for every point, the section that contains it and clamps points outside to the nearest section.",
    ["inputs", "configurations"],
    "every polynomial power combination, normalisation, geodetic and rectangular ground domains, grids of sections, every image point, elevation surfaces or none",
    "Tests use one sample TRE set; power orderings, rectangular domains, multiple sections and domain bounds are barely sampled.",
    [P + "replacement_sensor_model.py", G + "rsm_sensor_model_builder.py"],
    [("RSMPolynomial, RSMGroundDomain, RSMSectionedPolynomialSensorModel", P + "replacement_sensor_model.py")],
    "property-based testing (Hypothesis): independent RSM evaluator, forward projection of inverse results",
    "Coefficients, powers, domains and sections generated; inverse judged by forward projection and by the surface.",
)
prop(
    "C07",
    "SAR ground points meet the range, range-rate, side and surface constraints",
    "The ground position computed for a SAR image point has exactly the range and range rate to the aperture reference point that the imaging metadata prescribe for that pixel (any image formation and grid type supported, with or without adjustable parameters), lies on the side of the track the metadata name, and lies on the surface in force: the image's plane, a constant height, or the elevation model, falling back to the default surface where the elevation model has no data.",
    ["inputs", "configurations"],
    "every collection geometry (left / right looking, squinted, ascending or descending orbits, anywhere on the globe), every image formation projection and every pixel",
    "Tests check a few pixels of sample products; a sign that cancels for one look side or one algorithm is not exposed.",
    [P + "sicd_sensor_model.py", G + "sicd_sensor_model_builder.py"],
    [("COA projection sets", P + "sicd_sensor_model.py"), ("R/Rdot to plane, HAE and DEM surface projections", P + "sicd_sensor_model.py")],
    "property-based testing (Hypothesis): R/Rdot equations of SICD Volume 3 recomputed from generated metadata",
    "Synthetic collection geometries; the R/Rdot contour of every projection set type recomputed by the harness.",
)
prop(
    "C08",
    "SAR world_to_image inverts image_to_world, for full images and chips",
    "For every SAR image, projecting an image position to the ground and the resulting location back gives the original image position, whatever part of a larger collection the image is and whatever its side of track; image coordinates are relative to the first pixel of the image in the file. The steps of the projection (pixels to image plane coordinates and back, for any plane axes) undo each other.",
    ["inputs", "configurations"],
    "every collection geometry, grid, chip offset and image position; ground points near the image's ground plane",
    "Tests round trip a few points in a few files; offsets of chips and asymmetric spacing are not varied.",
    [P + "sicd_sensor_model.py", G + "sicd_sensor_model_builder.py"],
    [("iterative scene-to-image projection, image-plane coordinate converter", P + "sicd_sensor_model.py")],
    "property-based testing (Hypothesis): round trip and independent projection geometry",
    "One known finding: points far off the output plane (see DESIGN.md).",
)
prop(
    "C09",
    "Composite models answer with the precise model, refined from the approximate one",
    "A model composed of a precise and an approximate model answers every question with the precise model's answer: world to image is exactly the precise answer, image to world is the precise ground point on the surface in force even when the approximate model is in error; the caller's elevation model is honoured and the caller's options are passed on.",
    ["inputs", "configurations"],
    "every pair of models with a bounded disagreement, every image or ground point, elevation model or none, any options",
    "Tests use mocks or one pair of models.",
    [P + "composite_sensor_model.py"],
    [("initial guess and search distance derived from the approximate model", P + "composite_sensor_model.py")],
    "property-based testing (Hypothesis): differential against the precise model",
    "Approximate model perturbed by up to 0.003 degrees.",
)
prop(
    "C10",
    "DEM elevations are the bilinear surface of the right tile, for any query history",
    "The elevation reported for a location is the bilinear interpolation of the posts of the tile that covers it, at the position where that tile's own georeferencing puts the location, and no elevation is set where no tile covers it or a post around it has no data; the answer for a location and the elevation summary of a region never depend on what was asked before or on the size of the cache; consecutive questions about one tile read that tile once.",
    ["inputs", "histories", "configurations"],
    "every sequence of queries over tiles present, missing or unreadable, cache sizes from one up, any tile size and post spacing",
    "Tests ask one or two locations of one tile; cache eviction, missing tiles and mixed histories are not explored.",
    [P + "digital_elevation_model.py", P + "elevation_model.py"],
    [("bounded cache of tile interpolators", P + "digital_elevation_model.py")],
    "stateful property-based testing (Hypothesis): query histories against a cache-free bilinear model",
    "Histories of queries over generated tile sets, compared with a model without a cache.",
)
prop(
    "C11",
    "DEM tile sets name exactly the one-degree cell that contains a location",
    "For every location, the tile identifier built by a DEM tile set names the cell of one degree whose south-west corner is the integer degree at or below the location, with the hemisphere letters, padding, prefix, version and extension documented; a generic tile set applies its format specification to that location, and a tile set names no tile for a location outside the area it covers.",
    ["inputs", "configurations"],
    "every location including negative fractions of a degree, integers, the poles and the antimeridian; every prefix, suffix, version and format specification",
    "Tests check one location per hemisphere at best.",
    [P + "srtm_dem_tile_set.py", P + "generic_dem_tile_set.py"],
    [("floor of the location, formatted", P + "srtm_dem_tile_set.py")],
    "property-based testing (Hypothesis): parse-back of the generated name",
    "Names parsed back and compared with integer floor arithmetic.",
)
prop(
    "C12",
    "DEM tiles read through GDAL keep every post, its location, and an exact summary",
    "An elevation tile loaded from a directory has every post value of the file, a model whose image coordinates are the grid indexes of the posts and which places each post where the file's georeferencing puts it (at the center of its pixel), and a summary with the true minimum, maximum, no-data value and post spacing; a tile that is missing or has no usable georeferencing yields nothing rather than an error. This is so for what the directory holds when the tile is asked for, whatever was asked before.",
    ["inputs", "configurations", "fault_sequences"],
    "every tile size, post type, value range, no-data value, geotransform and file format; missing, truncated and unreferenced files; every history of tiles added, replaced and removed between requests",
    "Tests load one sample tile.",
    [G + "gdal_dem_tile_factory.py"],
    [("tile factory reading GDAL datasets", G + "gdal_dem_tile_factory.py")],
    "property-based testing (Hypothesis): generated GDAL rasters against their own arrays",
    "Tiles written by the harness with GDAL and read back by the library.",
)
prop(
    "C13",
    "Map tiles partition the web mercator world; a location's tile contains it",
    "At every zoom level the tiles of a well-known map tile set cover the world without gaps or overlap, neighbouring tiles share their edges exactly, each tile is split into four at the next level, and the tile found for a location (within the mercator limit of latitude) contains that location; tile identifiers round-trip and the matrix limits of a region are exactly the tiles that touch it.",
    ["inputs"],
    "every zoom level, tile row and column, every location including the antimeridian, the equator, tile borders and the mercator limits",
    "Tests check a few tiles at a few zoom levels.",
    [I + "map_tileset.py", I + "map_tileset_wmq.py", I + "map_tileset_factory.py"],
    [("web mercator tile arithmetic", I + "map_tileset_wmq.py")],
    "property-based testing (Hypothesis): closed-form web mercator reference and partition relations",
    "Reference formula of the OGC WebMercatorQuad set evaluated independently.",
)
prop(
    "C14",
    "Encoded tiles contain exactly the pixels of the requested window",
    "A tile encoded from a window of an image decodes to exactly the pixels of that window (all bands, the same pixel type, for lossless encodings; close for lossy ones), in the requested format, compression and output size, with the geotransform or ground control points of the window; requests never change the source image or later tiles.",
    ["inputs", "configurations", "histories"],
    "every window (edges included), band count, pixel type, value range, format, compression and output size, and every sequence of requests",
    "Tests encode one or two tiles of one image and mostly check that the result is not empty.",
    [I + "gdal_tile_factory.py", G + "gdal_utils.py"],
    [("GDAL translate with window, type conversion and creation options", I + "gdal_tile_factory.py")],
    "property-based testing (Hypothesis): decode and compare with the source array",
    "Tiles decoded by GDAL and compared with the array the harness wrote.",
)
prop(
    "C15",
    "NITF tiles carry the ground locations of their own four corners",
    "A NITF tile cut from an image with a sensor model has corner coordinates equal, within a second of arc, to the ground locations the model gives the four corners of that tile's window in the order upper-left, upper-right, lower-right, lower-left; without a model none are invented.",
    ["inputs", "configurations"],
    "every window, model orientation, hemisphere and output size",
    "Tests check one tile at best; hemisphere letters, corner order and carries need particular positions.",
    [I + "gdal_tile_factory.py"],
    [("corner projection and IGEOLO formatting", I + "gdal_tile_factory.py")],
    "property-based testing (Hypothesis): parse-back of corner coordinates against the model",
    "Corner text parsed back and compared with the generated model.",
)
prop(
    "C16",
    "Chips of SAR images carry metadata that keeps every pixel in place",
    "A chip cut from a SICD or SIDD image carries metadata from which a sensor model can be built, the model puts every chip pixel at the same ground location as the source image's model puts the corresponding source pixel, the image size is the chip's size, and this holds for chips of chips, for several chips cut one after another from the same source, and for resampled SIDD chips; a NITF tile of a SICD image declares its I and Q bands; a request to resample a SICD image is refused.",
    ["inputs", "histories", "configurations"],
    "every chip window, output size, nesting depth and order of requests over generated SAR products",
    "Tests cut one chip from one product and check a few header fields.",
    [I + "sicd_updater.py", I + "sidd_updater.py", I + "gdal_tile_factory.py"],
    [("updaters rewriting image size, first row / column and chip geometry", I + "sicd_updater.py")],
    "property-based testing (Hypothesis): metamorphic ground location of chip versus source pixels over chip histories",
    "The model built from chip metadata is compared with the source model at the shifted position.",
)
prop(
    "C17",
    "Orthophoto tiles show at each map location the image pixel the model puts there",
    "Each pixel of a map-projected tile shows the value of the image pixel that the sensor model assigns to that pixel's geographic location (at the default elevation at the centre of the image), at every zoom level and from any overview, for images of any number of bands, and the overview used is not coarser than the tile's own pixels; locations outside the image are transparent and locations inside it are opaque; the tile has the requested width and height, keeps the band order, uses the same brightness mapping in every tile of an image, and boxes that do not touch the image give no tile.",
    ["inputs", "configurations"],
    "every geographic box, tile size, sensor model orientation and height parallax, band count, pixel type, overview count and range adjustment",
    "Tests make one tile of one image and check that it is not empty.",
    [I + "gdal_tile_factory.py"],
    [("remapping through a grid of model evaluations, overview selection, alpha mask", I + "gdal_tile_factory.py")],
    "property-based testing (Hypothesis): analytic image and model as reference",
    "Images are analytic functions of position, so a displaced pixel shows as a wrong grey value.",
)
prop(
    "C18",
    "Range adjustment picks the documented range and maps it linearly to the output",
    "Dynamic range adjustment selects limits from the pixel histogram by the documented low and high fractions and margins, never outside the occupied range; adjusted tiles map the selected limits (or the minimum and maximum) linearly to the output range, clamp outside it, and use the statistics of the whole image for each band.",
    ["inputs", "configurations"],
    "every histogram, bucket range, fraction parameters, pixel type and band count",
    "Tests use one or two histograms.",
    [G + "dynamic_range_adjustment.py", I + "gdal_tile_factory.py", G + "gdal_utils.py"],
    [("DRAParameters.from_counts, band scale computation", G + "dynamic_range_adjustment.py")],
    "property-based testing (Hypothesis): reference quantile computation",
    "Limits recomputed from the histogram by the harness, within a bucket.",
)
prop(
    "C19",
    "SAR pixels become complex, power and display values by the published equations",
    "SAR pixels of each supported pixel type become the complex, power, decibel and display values defined by the SICD pixel definitions and the linear, quarter-power and histogram-stretch equations documented, for arrays of any shape and numeric type, without overflow, without changing the input and with results clamped to the output range.",
    ["inputs"],
    "every array shape, numeric type, value range, pixel type, amplitude table and remap parameter",
    "Tests use small hand-made arrays of one numeric type.",
    [I + "sar_complex_imageop.py"],
    [("vectorised pixel operations", I + "sar_complex_imageop.py")],
    "property-based testing (Hypothesis): high-precision scalar reference",
    "Each operation recomputed element by element in float64.",
)
prop(
    "C20",
    "Image geometry properties are read by priority and updated everywhere they exist",
    "The image geometry of a feature is read from its documented properties in priority order, written so that reading it back gives the same shape, and updated in every representation that the feature already has, keeping all other properties unchanged; a feature without any of them yields nothing.",
    ["inputs", "histories"],
    "every geometry type, combination of present properties, malformed values, and sequence of reads, sets and updates",
    "Tests check one property and geometry at a time.",
    [F + "imaged_feature_property_accessor.py"],
    [("property accessor with type-specific conversion", F + "imaged_feature_property_accessor.py")],
    "stateful property-based testing (Hypothesis): model of the property dictionary",
    "Histories of accessor calls compared with a dictionary model.",
)
prop(
    "C21",
    "Geolocated features keep their structure and lie where the model puts them",
    "Geolocating a feature gives it a geographic geometry of the kind and structure of its image shape whose every vertex is where the sensor model puts the corresponding image vertex (within the interpolation error of the grid used), a bounding box of those vertices, and leaves all other properties unchanged; bounding-box-only features get their box, and features without an image shape (none, or an empty geometry) are left alone without affecting others.",
    ["inputs", "configurations"],
    "every geometry type, nesting and number of vertices, feature collections of any mix, sensor model curvature, elevation model or none, hemispheres and the antimeridian",
    "Tests geolocate a few points and polygons with one model.",
    [F + "geolocation.py"],
    [("interpolation grid over the features' extent", F + "geolocation.py")],
    "property-based testing (Hypothesis): direct model evaluation as reference",
    "Each vertex compared with the model, bounded by the bilinear interpolation error of the grid.",
)
prop(
    "C22",
    "Spatial queries return exactly what a scan of all feature geometries finds",
    "A spatial index over features returns, for any box, geometry or distance query, exactly the features that a brute-force scan of their image (or geographic) geometries finds, each once, however many features and whatever their shapes; features without a geometry are never returned and do not displace others. A nearest query is limited to the distance given (a distance of zero may be refused).",
    ["inputs"],
    "every collection of features (including empty ones and ones without geometry), geometry type and query",
    "Tests index a handful of features.",
    [F + "feature_index.py"],
    [("STR tree with index to feature mapping", F + "feature_index.py")],
    "property-based testing (Hypothesis): brute-force differential",
    "Shapely predicates over every feature as reference.",
)
prop(
    "C23",
    "NITF data extension segments are found by name and survive a rewrite unchanged",
    "Data extension segments are found by their name in the metadata of a NITF file, their fields and user-defined subheader are reported as stored, their XML is returned byte for byte, and the header re-encoded for a copied segment has every field with its value in its fixed position and width; a missing or malformed segment yields nothing.",
    ["inputs", "configurations"],
    "every number and order of segments, field values at every permitted width, user-defined subheader lengths, old and new GDAL layouts",
    "Tests parse one sample file's metadata.",
    [G + "nitf_des_accessor.py"],
    [("XML metadata domain parsing, fixed width encoding", G + "nitf_des_accessor.py")],
    "property-based testing (Hypothesis): generated segments, real NITF files written and reread",
    "Generated metadata documents plus NITF files written through GDAL.",
)
prop(
    "C24",
    "Scoped GDAL configuration applies inside its scope and is undone after it",
    "Options set for a scope are in force inside that scope and every option has its earlier value (or absence) again after it, whether the scope ends normally or by an exception, is nested, repeated, extended or interleaved with direct changes; credentials and defaults follow the documented names.",
    ["histories", "fault_sequences", "configurations"],
    "every program of nested scopes, option changes and exceptions",
    "Tests enter and leave one scope.",
    [G + "gdal_config.py"],
    [("context manager remembering previous values", G + "gdal_config.py")],
    "stateful property-based testing (Hypothesis): stack model of scopes",
    "Random programs of nested scopes with exceptions compared with a stack model.",
)
prop(
    "C25",
    "Models built from NITF metadata evaluate the camera the metadata describes",
    "A sensor model built from NITF RPC00B, RSM or corner coordinate extensions, with or without chip information, evaluates exactly the camera those fields describe: every coefficient, offset, scale, power, section boundary and corner is read from its own field with its own unit and sign, and chip image coordinates are mapped through the chip's corner correspondence.",
    ["inputs", "configurations"],
    "every value of every field, section grids, chip geometries, extensions as reported by GDAL and as stored in real files",
    "Tests parse sample extensions in which many fields are zero or equal.",
    [G + "rpc_sensor_model_builder.py", G + "rsm_sensor_model_builder.py", G + "projective_sensor_model_builder.py", G + "xmltre_utils.py", G + "sensor_model_factory.py"],
    [("builders reading TRE XML", G + "rsm_sensor_model_builder.py")],
    "property-based testing (Hypothesis): differential against a camera computed from generated fields",
    "Distinct generated values in every field, so that reading the wrong field changes the answer.",
)
prop(
    "C26",
    "The best usable sensor model is chosen; unusable metadata is as if absent",
    "The model created for an image is the most precise one its metadata and the caller's selection allow (SAR, then RSM, then RPC, combined with corner coordinates, control points or geotransform as the approximate model), a chip extension applies to it, and metadata that is missing, incomplete or malformed is treated as absent: never an error and never a model that ignores part of the description. The kind of a metadata document does not depend on the words in its text, and building models from the same or other metadata before makes no difference.",
    ["inputs", "configurations", "fault_sequences"],
    "every combination of metadata present, selected types and damage to each piece of metadata",
    "Tests build models from intact sample metadata, one kind at a time.",
    [G + "sensor_model_factory.py", G + "sensor_model_builder.py", G + "projective_sensor_model_builder.py", G + "sicd_sensor_model_builder.py", G + "sidd_sensor_model_builder.py", G + "gdal_utils.py"],
    [("factory choosing among builders", G + "sensor_model_factory.py")],
    "property-based testing / fault injection (Hypothesis): reference selection table over damaged metadata",
    "Every subset of metadata with generated damage, compared with a selection table.",
)
prop(
    "C27",
    "SIDD products project to and from the ground consistently, including chips",
    "A model built from SIDD plane-projection metadata puts each pixel at the plane position given by the product's reference point, reference pixel, sample spacing and axes (and on the surface requested), recovers the pixel from that ground location, and for products with geometric chip information refers chip pixels to the original image by the chip's corner correspondence.",
    ["inputs", "configurations"],
    "every plane orientation, spacing, reference pixel, collection geometry, chip correspondence and pixel",
    "Tests build a model from one sample product.",
    [G + "sidd_sensor_model_builder.py", P + "sicd_sensor_model.py"],
    [("SIDD builder and XRGYCR coordinate converter", G + "sidd_sensor_model_builder.py")],
    "property-based testing (Hypothesis): analytic plane reference and round trip",
    "Synthetic SIDD products with analytic ground positions.",
)
prop(
    "C28",
    "Rewriting SAR metadata for a chip preserves everything else in the document",
    "The metadata rewritten for a chip is a document of the same standard and version in which every element and value of the original is kept, in its order, except those that describe the chip's size and position; reading and rewriting without a chip changes nothing. The metadata of a chip does not depend on the chips cut before it.",
    ["inputs", "histories"],
    "every document of the supported versions: any optional parts present or absent, any values and namespaces, any chip",
    "Tests compare a few fields after one rewrite.",
    [I + "sicd_updater.py", I + "sidd_updater.py", "src/aws/osml/formats/"],
    [("xsdata parse and serialise with namespace maps", I + "sicd_updater.py")],
    "property-based testing (Hypothesis): tree comparison of original and rewritten documents",
    "Documents mutated from repository examples and synthetic ones, compared element by element.",
)
prop(
    "C29",
    "The reported format of an image is the format of the file, whatever its name",
    "The image extension reported for a file is one of the extensions of the format the file really has, in its normal spelling (NITF, TIFF, JPEG or the upper-case extension): of a format with several extensions the one the file name carries, in any letter case, otherwise the first one of the format; extensions of other formats in the name or the folders of the file have no influence. A format without known extensions is reported as UNKNOWN, and the extensions known for a format are those GDAL declares.",
    ["inputs"],
    "every format this GDAL build can write, any file and folder name including names that carry another format's extension, any letter case, any list of extensions",
    "Tests ask for the extension of a few well-named files; misnamed files and names that mention other formats are not sampled.",
    [G + "gdal_utils.py"],
    [("select_extension, normalize_extension over the extensions of the GDAL driver", G + "gdal_utils.py")],
    "property-based testing (Hypothesis): files of a known format under generated names",
    "Randomised file names and formats; formats limited to those this GDAL build writes.",
)
prop(
    "C30",
    "A tile read back places its pixels where the source image places them",
    "When an encoded tile is opened on its own, the sensor model built from it agrees with the sensor model of the image it was cut from: pixel (u, v) of the tile of the window (x, y, w, h) resized to (W, H) is at the location of pixel (x + u w / W, y + v h / H) of the image. NITF tiles of images with RPC00B agree exactly when not resized and up to the whole pixels the record can express when resized; GeoTIFF tiles of images with a geotransform or ground control points agree exactly; NITF tiles of images with a geotransform agree up to the seconds of arc of IGEOLO and a pixel at the edges.",
    ["inputs"],
    "every camera, geotransform or set of control points, every window and output size",
    "Tests decode a tile and look at its pixels and its IGEOLO or SICD metadata; no test builds the model of a tile and compares it with the image's.",
    ["src/aws/osml/image_processing/gdal_tile_factory.py", G + "gdal_utils.py"],
    [("GDALTileFactory.create_encoded_tile", "src/aws/osml/image_processing/gdal_tile_factory.py"), ("load_gdal_dataset", G + "gdal_utils.py")],
    "property-based testing (Hypothesis): differential between the model of a tile read back and the model of its source image",
    "Randomised cameras, windows and sizes; tolerance as stated; images which are chips themselves are a known finding.",
)
prop(
    "C31",
    "Independent work in several threads gives the results it gives one at a time",
    "When several threads of one process each work on objects of their own (coordinates and their formatting, sensor models built from metadata, image tiles and orthophoto tiles of their own datasets, SAR metadata updates, elevation models, geolocated features, spatial indexes, map tile sets), every thread gets the results it gets alone, whichever way the steps of the threads interleave. The same holds when threads only query one sensor model, spatial index or map tile set: a query of one thread does not affect one of another. Process wide GDAL options (GDALConfigEnv) are outside this property.",
    ["schedules", "inputs"],
    "every interleaving of the library's steps in two or three threads, for any work",
    "All tests are single threaded; a shared scratch object, a class attribute or a fixed temporary file name goes unnoticed in them.",
    ["src/aws/osml/image_processing/gdal_tile_factory.py", P + "rpc_sensor_model.py", P + "sicd_sensor_model.py", P + "coordinates.py"],
    [("GDALTileFactory.create_encoded_tile", "src/aws/osml/image_processing/gdal_tile_factory.py"), ("RPCSensorModel.world_to_image", P + "rpc_sensor_model.py"), ("COAProjectionSet.precise_rrdot_computation", P + "sicd_sensor_model.py")],
    "property-based testing (Hypothesis) over generated work and generated schedules: a deterministic scheduler interleaves real threads line by line; differential against the sequential run",
    "Randomised schedules at the granularity of the library's Python lines; not within GDAL, PROJ, numpy or xsdata calls.",
)



def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(
                json.dumps(
                    {
                        "id": p["id"],
                        "title": p["title"],
                        "statement": p["statement"],
                        "quantifier": p["quantifier"],
                        "why_tests_cant": p["why"],
                        "anchors": {
                            "files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            **({"observe_at": p["observe"]} if p["observe"] else {}),
                            "hook_needed": None,
                        },
                    }
                )
                + "\n"
            )
    manifest = {
        "version": 1,
        "setup_cmd": "true",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"python3 run.py {p['id']} --tier quick",
                "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"],
                "level": "exploration",
                "level_note": p["note"],
            }
            for p in PROPS
        ],
        "not_applicable": [],
        "notes": "Checks import the code directly from /repo/src (pure Python, nothing to build) and need no hooks. See DESIGN.md.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
