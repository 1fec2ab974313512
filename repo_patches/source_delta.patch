From 682969290b4dfd78c6b15a40db237c7f8496c418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:10 +0000
Subject: [PATCH 01/45] fix: derive the SIDD side of track from the imaging
 geometry

SIDD metadata carries no side of track and the builder always used the default (left). Projecting a pixel of a right
looking SIDD image onto an elevation model then searched the wrong half of the R/Rdot contour and failed with an
IndexError.
---
 src/aws/osml/gdal/sidd_sensor_model_builder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aws/osml/gdal/sidd_sensor_model_builder.py b/src/aws/osml/gdal/sidd_sensor_model_builder.py
index ce1b25f..2f2de02 100644
--- a/src/aws/osml/gdal/sidd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sidd_sensor_model_builder.py
@@ -3,6 +3,7 @@
 import logging
 from typing import Optional, Union
 
+import numpy as np
 from xsdata.formats.dataclass.parsers import XmlParser
 
 import aws.osml.formats.sidd.models.sidd_v1_0_0 as sidd100
@@ -99,10 +100,16 @@ class SIDDSensorModelBuilder(SensorModelBuilder):
 
         u_gpn = SICDSensorModel.compute_u_gpn(scp_ecf=scp_ecf, u_row=u_row, u_col=u_col)
 
+        # SIDD metadata does not include the side of track, so it is derived from the imaging geometry. This is the sign
+        # of the LOOK parameter used in the R/Rdot projections to the surface; +1 for left and -1 for right.
+        coa_time = time_coa_poly(0.0, 0.0)
+        look = np.dot(np.cross(arp_poly(coa_time) - scp_ecf.coordinate, arp_poly.deriv()(coa_time)), u_gpn)
+
         sidd_sensor_model = SICDSensorModel(
             coord_converter=coord_converter,
             coa_projection_set=projection_set,
             u_spn=u_gpn,
+            side_of_track="R" if look < 0 else "L",
             u_gpn=u_gpn,
         )
 
-- 
2.43.0


From 7715daa1324fedbe1000c32702a4744586160f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:57 +0000
Subject: [PATCH 02/45] fix: keep minutes and seconds below 60 in formatted
 coordinates

Formatting rounded minutes and seconds independently, so 29.9999999 degrees was
written as 29 degrees 60 minutes and some whole degrees (e.g. 15, 30, 60) lost a
degree when converted from radians, producing the wrong DEM tile ids.
---
 src/aws/osml/photogrammetry/coordinates.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/aws/osml/photogrammetry/coordinates.py b/src/aws/osml/photogrammetry/coordinates.py
index aab4709..1b14331 100644
--- a/src/aws/osml/photogrammetry/coordinates.py
+++ b/src/aws/osml/photogrammetry/coordinates.py
@@ -159,18 +159,16 @@ class GeodeticWorldCoordinate(WorldCoordinate):
         if lat_degrees < 0:
             lat_degrees *= -1.0
             lh = "S"
-        ld = int(lat_degrees)
-        lm = int(round(lat_degrees - ld, 6) * 60)
-        ls = int(round(lat_degrees - ld - lm / 60, 6) * 3600)
+        lm, ls = divmod(int(round(lat_degrees * 3600, 3)), 60)
+        ld, lm = divmod(lm, 60)
 
         lon_degrees = np.degrees(self.longitude)
         oh = "E"
         if lon_degrees < 0:
             lon_degrees *= -1.0
             oh = "W"
-        od = int(lon_degrees)
-        om = int(round(lon_degrees - od, 6) * 60)
-        os = int(round(lon_degrees - od - om / 60, 6) * 3600)
+        om, os = divmod(int(round(lon_degrees * 3600, 3)), 60)
+        od, om = divmod(om, 60)
 
         result = []
         i = 0
-- 
2.43.0


From 801c0427de69724b1f6d1287070e2e2cb2980e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:28 +0000
Subject: [PATCH 03/45] fix: build the geographic feature index from the
 feature geometries

shapely.shape() does not exist and STRtree does not accept tuples, so indexing by
geographic geometry always raised.
---
 src/aws/osml/features/feature_index.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/features/feature_index.py b/src/aws/osml/features/feature_index.py
index 6fd8b90..b3f7eb2 100644
--- a/src/aws/osml/features/feature_index.py
+++ b/src/aws/osml/features/feature_index.py
@@ -5,6 +5,7 @@ from typing import Iterable, Optional
 
 import geojson
 import shapely
+import shapely.geometry
 
 from .imaged_feature_property_accessor import ImagedFeaturePropertyAccessor
 
@@ -51,7 +52,10 @@ class STRFeature2DSpatialIndex(Feature2DSpatialIndex):
         if use_image_geometries and property_accessor is not None:
             geometries = [property_accessor.find_image_geometry(feature) for feature in self.features]
         else:
-            geometries = [(shapely.shape(feature.geometry), feature) for feature in self.features]
+            geometries = [
+                shapely.geometry.shape(feature.geometry) if feature.geometry is not None else None
+                for feature in self.features
+            ]
 
         self.index = shapely.STRtree(geometries)
 
-- 
2.43.0


From f119e89f4eb6935b8c855f7ee08c50f2c5468845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:28 +0000
Subject: [PATCH 04/45] fix: cover image bounding boxes and skip shapeless
 features when geolocating

The approximation grid ignored an imageBBox larger than the imageGeometry, so its
corners were clamped to the grid edge, and a list in which no feature has a shape
raised a ValueError.
---
 src/aws/osml/features/geolocation.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index be5a969..0e954f4 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -143,14 +143,22 @@ class Geolocator:
         # benefit by creating the same resolution of approximation grid over the smaller area.
         feature_bounds = [math.inf, math.inf, -math.inf, -math.inf]
         for feature in features:
-            image_geometry = self.property_accessor.find_image_geometry(feature)
-            if image_geometry is None:
-                continue
-            image_geometry_bbox = image_geometry.bounds
-            feature_bounds[0] = min(feature_bounds[0], image_geometry_bbox[0])
-            feature_bounds[1] = min(feature_bounds[1], image_geometry_bbox[1])
-            feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
-            feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
+            for image_shape in (
+                self.property_accessor.find_image_geometry(feature),
+                self.property_accessor.get_image_bbox(feature),
+            ):
+                if image_shape is None:
+                    continue
+                image_geometry_bbox = image_shape.bounds
+                feature_bounds[0] = min(feature_bounds[0], image_geometry_bbox[0])
+                feature_bounds[1] = min(feature_bounds[1], image_geometry_bbox[1])
+                feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
+                feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
+
+        # None of the features have a location in the image so there is nothing to compute.
+        if math.isinf(feature_bounds[0]):
+            logging.warning("None of the features have a valid detection shape")
+            return
 
         # Expand the bounds to handle edge case where the features are all located at a single point or line.
         feature_bounds[0] -= 10
-- 
2.43.0


From bacaa624aa1f00df88934d8e3184d5f89b5daa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:24 +0000
Subject: [PATCH 05/45] fix: read SIDD chip corners as corner pixels, as they
 are written

The corner coordinates of a SIDD geometric chip are those of its corner pixels
(column 0 to columns - 1), which is what the SIDD updater writes. The sensor model
builder placed them at column count / row count, so chips created by this library
were located up to one pixel off.
---
 src/aws/osml/gdal/sidd_sensor_model_builder.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aws/osml/gdal/sidd_sensor_model_builder.py b/src/aws/osml/gdal/sidd_sensor_model_builder.py
index 2f2de02..32e6959 100644
--- a/src/aws/osml/gdal/sidd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sidd_sensor_model_builder.py
@@ -119,14 +119,14 @@ class SIDDSensorModelBuilder(SensorModelBuilder):
             # Since this SIDD image is a chip of a full image wrap the regular sensor model in a sensor model that
             # will handle the conversions between the chipped image coordinates and the full image coordinates.
             # This 4 corner transformation handles images that are cropped, rotated, and scaled, from the full
-            # SIDD image grid.
+            # SIDD image grid. The corner coordinates are the locations of the corner pixels of the chip, see section
+            # 5.1.1 of the SIDD specification v3.0 Volume 1.
             geo_chip = sidd.downstream_reprocessing.geometric_chip
-            chip_num_rows = geo_chip.chip_size.row
-            chip_num_cols = geo_chip.chip_size.col
+            last_row = geo_chip.chip_size.row - 1
+            last_col = geo_chip.chip_size.col - 1
 
             chipped_image_coords = [
-                ImageCoordinate(coord)
-                for coord in [[0, 0], [chip_num_cols, 0], [chip_num_cols, chip_num_rows], [0, chip_num_rows]]
+                ImageCoordinate(coord) for coord in [[0, 0], [last_col, 0], [last_col, last_row], [0, last_row]]
             ]
             full_image_coords = [
                 ImageCoordinate([x.col, x.row])
-- 
2.43.0


From 723cda66c5d495a894614e9bd84cf1f6d090e547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:56 +0000
Subject: [PATCH 06/45] fix: compute every SIDD chip relative to the source
 image

An updater used for more than one chip treated each new chip as a chip of the
previous one, so every tile after the first was written with wrong corners.
---
 src/aws/osml/image_processing/sidd_updater.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aws/osml/image_processing/sidd_updater.py b/src/aws/osml/image_processing/sidd_updater.py
index 67583a5..049ad9f 100644
--- a/src/aws/osml/image_processing/sidd_updater.py
+++ b/src/aws/osml/image_processing/sidd_updater.py
@@ -26,6 +26,12 @@ class SIDDUpdater:
             parser = XmlParser()
             self.sidd = parser.from_string(self.xml_str)
 
+        # Here we're storing off the original chip definition to support the case where multiple chips are
+        # created from a SIDD image that may already have been chipped.
+        self.original_geometric_chip = None
+        if self.sidd.downstream_reprocessing:
+            self.original_geometric_chip = self.sidd.downstream_reprocessing.geometric_chip
+
     def update_image_data_for_chip(self, chip_bounds: List[int], output_size: Optional[Tuple[int, int]]) -> None:
         """
         This adds or updates the SIDD GeometricChip structure so that the ChipSize and original corner coordinates
@@ -77,6 +83,7 @@ class SIDDUpdater:
         # The DownstreamReprocessing element is optional so if it is not set create it first.
         if not self.sidd.downstream_reprocessing:
             self.sidd.downstream_reprocessing = sidd_namespace.DownstreamReprocessingType()
+        self.sidd.downstream_reprocessing.geometric_chip = self.original_geometric_chip
 
         # Identify the location of the UL, UR, LR, LL corners of this chip in the full image. If the image is already
         # a chip of a full image these coordinates need to be updated, so they are still the positions of the new chip
-- 
2.43.0


From 058fb2f55f8941081e933f5c6ea0611e03d4ecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 07/45] fix: ignore an ICHIPB TRE that cannot be parsed

The parse error was logged as leaving the sensor model unchanged, but the half
initialized chip information then raised an AttributeError.
---
 src/aws/osml/gdal/sensor_model_factory.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index 9bd3636..8162e9c 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -51,6 +51,7 @@ class ChippedImageInfoFacade:
         except ValueError as ve:
             logging.warning("Unable to parse ICHIPB TRE found in XML metadata. SensorModel is unchanged.")
             logging.warning(str(ve))
+            raise
 
 
 class SensorModelTypes(Enum):
@@ -143,9 +144,13 @@ class SensorModelFactory:
             chipped_image_info = None
             ichipb_tre = self.xml_tres.find("./tre[@name='ICHIPB']")
             if ichipb_tre is not None:
-                chipped_image_info = ChippedImageInfoFacade(ichipb_tre)
-                full_image_width = chipped_image_info.full_image_width
-                full_image_height = chipped_image_info.full_image_height
+                try:
+                    chipped_image_info = ChippedImageInfoFacade(ichipb_tre)
+                    full_image_width = chipped_image_info.full_image_width
+                    full_image_height = chipped_image_info.full_image_height
+                except ValueError:
+                    # The ICHIPB TRE is not usable so this image is handled as if it is not a chip.
+                    chipped_image_info = None
 
             # Attempt to build a robust sensor model from either RSM or RPC metadata in the TREs. These
             # sensor models always reference the full image so if this is a chip we wrap the resulting sensor
-- 
2.43.0


From 94a3672d6e75cf354e49044db0fd05be05d28f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:42 +0000
Subject: [PATCH 08/45] fix: fall back when a CSCRNA TRE cannot be parsed

A malformed corner coordinate TRE raised a ValueError out of the sensor model
factory instead of leaving the other available sensor models in place.
---
 src/aws/osml/gdal/projective_sensor_model_builder.py | 12 +++++++++---
 src/aws/osml/gdal/sensor_model_factory.py            | 10 ++++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/aws/osml/gdal/projective_sensor_model_builder.py b/src/aws/osml/gdal/projective_sensor_model_builder.py
index c0ae65d..412788b 100644
--- a/src/aws/osml/gdal/projective_sensor_model_builder.py
+++ b/src/aws/osml/gdal/projective_sensor_model_builder.py
@@ -50,9 +50,15 @@ class ProjectiveSensorModelBuilder(SensorModelBuilder):
             logging.debug("No CSCRNA TRE found.")
             return None
 
-        return ProjectiveSensorModelBuilder.build_projective_sensor_model(
-            cscrna_tre, self.full_image_width, self.full_image_height
-        )
+        try:
+            return ProjectiveSensorModelBuilder.build_projective_sensor_model(
+                cscrna_tre, self.full_image_width, self.full_image_height
+            )
+        except ValueError as ve:
+            logging.warning("Unable to parse CSCRNA TRE found in XML metadata. No SensorModel created.")
+            logging.warning(str(ve))
+
+            return None
 
     @staticmethod
     def build_projective_sensor_model(
diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index 8162e9c..085572f 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -173,15 +173,17 @@ class SensorModelFactory:
             if SensorModelTypes.PROJECTIVE in self.selected_sensor_model_types:
                 cscrna_tre = self.xml_tres.find("./tre[@name='CSCRNA']")
                 if cscrna_tre is not None:
-                    approximate_sensor_model = ProjectiveSensorModelBuilder(
+                    corner_sensor_model = ProjectiveSensorModelBuilder(
                         self.xml_tres, full_image_width, full_image_height
                     ).build()
-                    if approximate_sensor_model is not None and chipped_image_info is not None:
-                        approximate_sensor_model = ChippedImageSensorModel(
+                    if corner_sensor_model is not None and chipped_image_info is not None:
+                        corner_sensor_model = ChippedImageSensorModel(
                             chipped_image_info.full_image_coordinates,
                             chipped_image_info.chipped_image_coordinates,
-                            approximate_sensor_model,
+                            corner_sensor_model,
                         )
+                    if corner_sensor_model is not None:
+                        approximate_sensor_model = corner_sensor_model
 
                 # TODO: Maybe create a projective sensor model from corner locations derived from the precision model
                 # TODO: Consider using the rough corners from IGEOLO
-- 
2.43.0


From ddc574f1adeac952b6301f3f000e140976611684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:52 +0000
Subject: [PATCH 09/45] fix: reject RPC and RSM metadata with missing
 coefficients or sections

Coefficient groups without a field or with an index out of range, RPC polynomials
without 20 coefficients and RSM sections without a polynomial raised lookup errors
(from the factory or later from the sensor model) instead of building no model.
---
 src/aws/osml/gdal/rpc_sensor_model_builder.py | 5 ++++-
 src/aws/osml/gdal/rsm_sensor_model_builder.py | 2 ++
 src/aws/osml/gdal/xmltre_utils.py             | 4 +++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/rpc_sensor_model_builder.py b/src/aws/osml/gdal/rpc_sensor_model_builder.py
index ea77fe7..e2f42f4 100644
--- a/src/aws/osml/gdal/rpc_sensor_model_builder.py
+++ b/src/aws/osml/gdal/rpc_sensor_model_builder.py
@@ -104,4 +104,7 @@ class RPCSensorModelBuilder(SensorModelBuilder):
 
         :return: the RPC polynomial
         """
-        return RPCPolynomial(parse_rpc_coefficients(rpc_tre, polynomial_name))
+        coefficients = parse_rpc_coefficients(rpc_tre, polynomial_name)
+        if len(coefficients) != 20:
+            raise ValueError(f"Expected 20 coefficients for {polynomial_name} but found {len(coefficients)}")
+        return RPCPolynomial(coefficients)
diff --git a/src/aws/osml/gdal/rsm_sensor_model_builder.py b/src/aws/osml/gdal/rsm_sensor_model_builder.py
index 2b59c10..1c21d78 100644
--- a/src/aws/osml/gdal/rsm_sensor_model_builder.py
+++ b/src/aws/osml/gdal/rsm_sensor_model_builder.py
@@ -311,6 +311,8 @@ class RSMSensorModelBuilder(SensorModelBuilder):
         for row in range(1, num_section_rows + 1):
             row_of_sensor_models = []
             for col in range(1, num_section_cols + 1):
+                if (row, col) not in sensor_model_grid_map:
+                    raise ValueError(f"Image is missing the RSMPCA TRE for section ({row}, {col})")
                 row_of_sensor_models.append(sensor_model_grid_map[(row, col)])
             section_sensor_model_grid.append(row_of_sensor_models)
 
diff --git a/src/aws/osml/gdal/xmltre_utils.py b/src/aws/osml/gdal/xmltre_utils.py
index 53b8a15..6e521e8 100644
--- a/src/aws/osml/gdal/xmltre_utils.py
+++ b/src/aws/osml/gdal/xmltre_utils.py
@@ -54,8 +54,10 @@ def parse_rpc_coefficients(tre: ET.Element, repeated_name: str) -> List[float]:
         if index_str is None:
             raise ValueError("Invalid XML TRE: Repeated group in XML TRE is missing required index attribute")
         index = int(index_str)
+        if not 0 <= index < num_coefficients:
+            raise ValueError(f"Invalid XML TRE: Repeated group index {index} is not in [0, {num_coefficients})")
 
-        if group[0] is None:
+        if len(group) == 0:
             raise ValueError("Invalid XML TRE: Repeated group in XML TRE is missing required field child element")
 
         value_str = group[0].get("value")
-- 
2.43.0


From 1f68871c41d31cfdf05103e85c1679e251835990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:01 +0000
Subject: [PATCH 10/45] fix: build no SICD sensor model for unsupported image
 formation algorithms

A range/azimuth grid formed by an algorithm other than PFA or RGAZCOMP produced a
sensor model without a projection that failed on first use.
---
 src/aws/osml/gdal/sicd_sensor_model_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aws/osml/gdal/sicd_sensor_model_builder.py b/src/aws/osml/gdal/sicd_sensor_model_builder.py
index 5cb798d..d24099b 100644
--- a/src/aws/osml/gdal/sicd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sicd_sensor_model_builder.py
@@ -176,6 +176,10 @@ class SICDSensorModelBuilder(SensorModelBuilder):
             logger.warning(f"SICD image with unknown grid type {sicd.grid.type_value}. No sensor model created.")
             return None
 
+        if projection_set is None:
+            logger.warning("SICD image with unsupported image formation algorithm. No sensor model created.")
+            return None
+
         sicd_sensor_model = SICDSensorModel(
             coord_converter=coord_converter,
             coa_projection_set=projection_set,
-- 
2.43.0


From 81de3ed6eb2d0f83d480dba66d0d3874bb981e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:21 +0000
Subject: [PATCH 11/45] fix: keep the TRE based sensor model when SAR metadata
 is unusable

A SICD or SIDD segment that could not be turned into a sensor model replaced an
RPC or RSM model that had already been built with nothing.
---
 src/aws/osml/gdal/sensor_model_factory.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index 085572f..9752cc3 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -201,10 +201,14 @@ class SensorModelFactory:
                     if "SIDD" in xml_str:
                         # SIDD images will often contain SICD XML metadata as well but the SIDD should come first
                         # so we can stop processing other XML data segments
-                        precision_sensor_model = SIDDSensorModelBuilder(sidd_xml=xml_str).build()
+                        precision_sensor_model = (
+                            SIDDSensorModelBuilder(sidd_xml=xml_str).build() or precision_sensor_model
+                        )
                         break
                     elif "SICD" in xml_str and SensorModelTypes.SICD in self.selected_sensor_model_types:
-                        precision_sensor_model = SICDSensorModelBuilder(sicd_xml=xml_str).build()
+                        precision_sensor_model = (
+                            SICDSensorModelBuilder(sicd_xml=xml_str).build() or precision_sensor_model
+                        )
                         break
 
         # If we have both an approximate and a precision sensor model return them as a composite so applications
-- 
2.43.0


From ba2cf8f32cdb3662fd07e12a01ab35dd8b8e4fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:14 +0000
Subject: [PATCH 12/45] fix: return the first tile column for locations on the
 antimeridian

A longitude of exactly -180 degrees was assigned to tile column -1, which does not
exist in the tile matrix.
---
 src/aws/osml/image_processing/map_tileset_wmq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/map_tileset_wmq.py b/src/aws/osml/image_processing/map_tileset_wmq.py
index 4ed12cf..930559d 100644
--- a/src/aws/osml/image_processing/map_tileset_wmq.py
+++ b/src/aws/osml/image_processing/map_tileset_wmq.py
@@ -130,7 +130,7 @@ class WebMercatorQuadMapTileSet(MapTileSet):
         :param y_pixels: the y location in pixels
         :return: the col, row tuple for the corresponding tile index
         """
-        tile_col = int(math.ceil(x_pixels / float(self.tile_size)) - 1)
+        tile_col = max(int(math.ceil(x_pixels / float(self.tile_size)) - 1), 0)
         tile_row = int(math.ceil(y_pixels / float(self.tile_size)) - 1)
         return tile_col, tile_row
 
-- 
2.43.0


From f8d2b888136cc31566d37574e51fd3a72ab6c905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:23 +0000
Subject: [PATCH 13/45] fix: compute SAR power values of integer pixels without
 overflow

Squaring 16-bit components overflowed, so the power of bright RE16I_IM16I pixels
was wrong and could even be negative.
---
 src/aws/osml/image_processing/sar_complex_imageop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aws/osml/image_processing/sar_complex_imageop.py b/src/aws/osml/image_processing/sar_complex_imageop.py
index 4fd590c..45c594b 100644
--- a/src/aws/osml/image_processing/sar_complex_imageop.py
+++ b/src/aws/osml/image_processing/sar_complex_imageop.py
@@ -47,6 +47,9 @@ def complex_to_power_value(complex_data: np.ndarray) -> np.ndarray:
     :param complex_data: the SAR complex image signal with real and imaginary components
     :return: the power values
     """
+    if np.issubdtype(complex_data.dtype, np.integer):
+        # The square of an integer component does not fit into the type of the pixels (e.g. RE16I_IM16I)
+        complex_data = complex_data.astype(np.float64)
     return np.sum(np.square(complex_data), axis=0)
 
 
-- 
2.43.0


From cc2e194f2c1020984e40369b7a97ad25f14778dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 14/45] fix: accept 0 as the last bucket value of a histogram

Histograms of pixels that are all <= 0 ended at 0, which was mistaken for a missing
value and replaced with the number of buckets.
---
 src/aws/osml/gdal/dynamic_range_adjustment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/dynamic_range_adjustment.py b/src/aws/osml/gdal/dynamic_range_adjustment.py
index 2be82b6..828f012 100644
--- a/src/aws/osml/gdal/dynamic_range_adjustment.py
+++ b/src/aws/osml/gdal/dynamic_range_adjustment.py
@@ -48,9 +48,9 @@ class DRAParameters:
         :return: a set of DRA parameters containing recommended and actual ranges of values
         """
         num_histogram_bins = len(counts)
-        if not first_bucket_value:
+        if first_bucket_value is None:
             first_bucket_value = 0
-        if not last_bucket_value:
+        if last_bucket_value is None:
             last_bucket_value = num_histogram_bins
 
         # Find the first and last non-zero counts
-- 
2.43.0


From f07eca5da89f786fce3af265761e0c758b46ebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:17 +0000
Subject: [PATCH 15/45] fix: adjust the range of images in which all pixels
 have the same value

A constant band made the histogram computation fail, so no tile factory could be
created for the image.
---
 src/aws/osml/gdal/gdal_utils.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_utils.py b/src/aws/osml/gdal/gdal_utils.py
index e0f6b76..2b4d0c0 100644
--- a/src/aws/osml/gdal/gdal_utils.py
+++ b/src/aws/osml/gdal/gdal_utils.py
@@ -156,13 +156,17 @@ def get_type_and_scales(
             if band_type == gdalconst.GDT_Float32 or band_type == gdalconst.GDT_Float64:
                 num_buckets = 255
 
-            dra = DRAParameters.from_counts(
-                counts=band.GetHistogram(
-                    buckets=num_buckets, max=max_value, min=min_value, include_out_of_range=1, approx_ok=1
-                ),
-                first_bucket_value=min_value,
-                last_bucket_value=max_value,
-            )
+            if max_value > min_value:
+                dra = DRAParameters.from_counts(
+                    counts=band.GetHistogram(
+                        buckets=num_buckets, max=max_value, min=min_value, include_out_of_range=1, approx_ok=1
+                    ),
+                    first_bucket_value=min_value,
+                    last_bucket_value=max_value,
+                )
+            else:
+                # All the pixels have the same value so there is no histogram to compute
+                dra = DRAParameters(min_value, max_value, min_value, max_value)
 
             if range_adjustment == RangeAdjustmentType.DRA:
                 selected_min = dra.suggested_min_value
-- 
2.43.0


From f50e0813d3727cf25a08d1ec43b61c53db657751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 16/45] fix: do not scale double precision tiles by an
 overflowing range

Without a range adjustment every pixel of a Float64 tile was NaN.
---
 src/aws/osml/image_processing/gdal_tile_factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index a694d09..ba3541b 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -535,6 +535,10 @@ class GDALTileFactory:
             "outputType": output_type,
             "format": self.tile_format,
         }
+        if output_type == gdalconst.GDT_Float64 and self.range_adjustment == RangeAdjustmentType.NONE:
+            # The width of the full double precision range overflows so scaling by it turns every pixel into NaN. The
+            # output type can represent the source pixels without scaling.
+            del gdal_translate_kwargs["scaleParams"]
 
         creation_options = []
         if self.tile_format == GDALImageFormats.NITF:
-- 
2.43.0


From 9577504f1db320d9563269b03651185d498b7748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:27 +0000
Subject: [PATCH 17/45] fix: take the orthophoto elevation from the center of
 the image

The column and row of the image center were swapped, so for images that are not
square the default elevation came from a location that may not even be in it.
---
 src/aws/osml/image_processing/gdal_tile_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index ba3541b..d100083 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -183,7 +183,7 @@ class GDALTileFactory:
         # the image.
         center_x = self.raster_dataset.RasterXSize / 2
         center_y = self.raster_dataset.RasterYSize / 2
-        geo_image_center = self.sensor_model.image_to_world(ImageCoordinate([center_y, center_x]))
+        geo_image_center = self.sensor_model.image_to_world(ImageCoordinate([center_x, center_y]))
 
         def world_to_image_func(lon, lat):
             # TODO: Assign the elevation from a DEM
-- 
2.43.0


From 6af157f9a6d5e78e08aae48adb51dababb83d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:35 +0000
Subject: [PATCH 18/45] fix: create orthophoto tiles with the requested width
 and height

The interpolation grids are indexed by row and column, so a tile that is not square
was returned with its width and height exchanged and the content distorted.
---
 src/aws/osml/image_processing/gdal_tile_factory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index d100083..f1dd13b 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -276,16 +276,16 @@ class GDALTileFactory:
         # Create 2D linear interpolators that map the pixels in the map tile to x and y values in the source image.
         # This will allow us to efficiently generate the maps needed by the opencv::remap function for every pixel
         # in the destination image.
-        src_x_interpolator = RectBivariateSpline(pixel_x, pixel_y, src_x, kx=1, ky=1)
-        src_y_interpolator = RectBivariateSpline(pixel_x, pixel_y, src_y, kx=1, ky=1)
+        src_x_interpolator = RectBivariateSpline(pixel_y, pixel_x, src_x, kx=1, ky=1)
+        src_y_interpolator = RectBivariateSpline(pixel_y, pixel_x, src_y, kx=1, ky=1)
 
         # Create the map1 and map2 arrays that capture the non-linear relationship between each pixel in the map tile
         # (dst) to pixels in the original image (src). See opencv::remap documentation for definitions of these
         # parameters.
         dst_x = np.linspace(0, tile_size[0] - 1, tile_size[0])
         dst_y = np.linspace(0, tile_size[1] - 1, tile_size[1])
-        map1 = src_x_interpolator(dst_x, dst_y).astype(np.float32)
-        map2 = src_y_interpolator(dst_x, dst_y).astype(np.float32)
+        map1 = src_x_interpolator(dst_y, dst_x).astype(np.float32)
+        map2 = src_y_interpolator(dst_y, dst_x).astype(np.float32)
 
         logger.debug(
             f"Sanity check remap array sizes. They should match the desired map tile size {tile_size[0]}x{tile_size[1]}"
-- 
2.43.0


From 3c68247322bf05cac5fd1652c55674438dceca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:44 +0000
Subject: [PATCH 19/45] fix: do not create orthophoto tiles from an empty
 region of the image

Tiles that only touch the edge of the image, or overlap it by less than a pixel of
the selected overview, were created from an empty source array and contained
uninitialized pixels.
---
 src/aws/osml/image_processing/gdal_tile_factory.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index f1dd13b..6aab78a 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -210,10 +210,10 @@ class GDALTileFactory:
             int(np.ceil(np.max(src_y))),
         )
         if (
-            src_bbox[0] > self.raster_dataset.RasterXSize
-            or src_bbox[1] > self.raster_dataset.RasterYSize
-            or src_bbox[2] < 0
-            or src_bbox[3] < 0
+            src_bbox[0] >= self.raster_dataset.RasterXSize
+            or src_bbox[1] >= self.raster_dataset.RasterYSize
+            or src_bbox[2] <= 0
+            or src_bbox[3] <= 0
         ):
             # Source bbox does not intersect the image, no tile to create
             logger.debug(
@@ -242,6 +242,11 @@ class GDALTileFactory:
         logger.debug(f"After Clip to Image Bounds src_bbox = {src_bbox}")
 
         overview_bbox = tuple([int(x / 2**r_level) for x in src_bbox])
+        # A region narrower than a pixel of the overview still needs at least that pixel
+        overview_bbox = overview_bbox[0:2] + (
+            max(overview_bbox[2], overview_bbox[0] + 1),
+            max(overview_bbox[3], overview_bbox[1] + 1),
+        )
         logger.debug(f"Using r-level: {r_level}")
         logger.debug(f"overview_bbox = {overview_bbox}")
         logger.debug(f"Dataset size = {self.raster_dataset.RasterXSize},{self.raster_dataset.RasterYSize}")
-- 
2.43.0


From 0a5ee9bc6945450bbb2cab9b69fc4e95b89370a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:54 +0000
Subject: [PATCH 20/45] fix: keep the band order of color orthophoto tiles

The PNG encoder expects blue, green, red channels, so the red and blue bands of the
image were exchanged in the encoded tile.
---
 src/aws/osml/image_processing/gdal_tile_factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 6aab78a..3f438de 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -326,6 +326,10 @@ class GDALTileFactory:
             # add alpha mask
             output_tile_pixels = np.dstack((output_tile_pixels, alpha_mask))
 
+        # imencode expects the color channels of an image with 3 bands (plus alpha) in blue, green, red order
+        if dst.ndim == 3 and dst.shape[2] == 3:
+            output_tile_pixels = cv2.cvtColor(output_tile_pixels, cv2.COLOR_RGBA2BGRA)
+
         # TODO: Formats other than PNG?
         is_success, image_bytes = cv2.imencode(".png", output_tile_pixels)
         return image_bytes if is_success else None
-- 
2.43.0


From 18625a0cf4c117a8e2c1b255aa677967ae910bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 21/45] fix: stretch min-max adjusted orthophoto tiles to the
 full output range

The pixels were divided by the maximum instead of by the width of the value range,
so images that do not start at 0 came out darker than requested.
---
 src/aws/osml/image_processing/gdal_tile_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 3f438de..3d3c3e8 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -466,7 +466,7 @@ class GDALTileFactory:
         max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
 
         # Apply the Min-Max normalization
-        normalized_pixel = (pixel_array - min_value) * (255.0 / max(max_value, 1.0))
+        normalized_pixel = (pixel_array - min_value) * (255.0 / max(max_value - min_value, 1.0))
         normalized_pixel = np.clip(normalized_pixel, 0.0, 255.0)
         return normalized_pixel.astype(np.uint8)
 
-- 
2.43.0


From e418bff0e41919d6f9f90a8538e2b718246c261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 22/45] fix: left justify the fields of a copied NITF DES
 header

GDAL strips the trailing spaces of the fields, so right justifying them moved the
values of every field that is not full, including the user defined subheader of SICD
and SIDD segments.
---
 src/aws/osml/gdal/nitf_des_accessor.py | 34 +++++++++++++-------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/aws/osml/gdal/nitf_des_accessor.py b/src/aws/osml/gdal/nitf_des_accessor.py
index b586555..14d82c9 100644
--- a/src/aws/osml/gdal/nitf_des_accessor.py
+++ b/src/aws/osml/gdal/nitf_des_accessor.py
@@ -66,22 +66,22 @@ class NITFDESAccessor:
         """
         result_builder = StringIO()
         result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESVER", int), "02d"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DECLAS", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLSY", str), ">2"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCODE", str), ">11"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLH", str), ">2"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESREL", str), ">20"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCTP", str), ">2"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCDT", str), ">8"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCXM", str), ">4"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDG", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDGDT", str), ">8"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLTX", str), ">43"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCATP", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCAUT", str), ">40"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCRSN", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESSRDT", str), ">8"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLN", str), ">15"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DECLAS", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLSY", str), "<2"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCODE", str), "<11"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLH", str), "<2"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESREL", str), "<20"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCTP", str), "<2"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCDT", str), "<8"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCXM", str), "<4"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDG", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDGDT", str), "<8"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLTX", str), "<43"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCATP", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCAUT", str), "<40"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCRSN", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESSRDT", str), "<8"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLN", str), "<15"))
 
         # TODO: If DESID = TRE_OVERFLOW DESOFLW, DESITEM
 
@@ -91,7 +91,7 @@ class NITFDESAccessor:
             result_builder.write(
                 format(
                     NITFDESAccessor.parse_field_value(des_element, "DESSHF", str),
-                    f">{subheader_length}",
+                    f"<{subheader_length}",
                 )
             )
 
-- 
2.43.0


From 78ad8e3a6d095edfe6e4e39d4a49a35600290205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:52 +0000
Subject: [PATCH 23/45] fix: treat missing DEM tiles as missing when GDAL
 exceptions are enabled

With gdal.UseExceptions() a location without a DEM tile raised a RuntimeError instead
of leaving the elevation unchanged.
---
 src/aws/osml/gdal/gdal_dem_tile_factory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_dem_tile_factory.py b/src/aws/osml/gdal/gdal_dem_tile_factory.py
index b4caca1..447c9a7 100644
--- a/src/aws/osml/gdal/gdal_dem_tile_factory.py
+++ b/src/aws/osml/gdal/gdal_dem_tile_factory.py
@@ -47,7 +47,11 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
         """
         tile_location = f"{self.tile_directory}/{tile_path}"
         tile_location = tile_location.replace("s3:/", "/vsis3", 1)
-        ds = gdal.Open(tile_location)
+        try:
+            ds = gdal.Open(tile_location)
+        except RuntimeError:
+            # GDAL reports missing files this way if UseExceptions is enabled.
+            ds = None
 
         # It isn't unusual for a DEM tile set to be missing tiles for regions (particularly over the ocean). If
         # the raster dataset can't be opened we'll return nothing so the client can proceed knowing that the
-- 
2.43.0


From e93a5ca15fe09b2c376187d58524ade165ff0480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:11 +0000
Subject: [PATCH 24/45] fix: restore GDAL options when a configuration
 environment is nested or extended

Entering the same environment twice overwrote the saved values, so the temporary
options (e.g. credentials) stayed set, and options added while it was active raised a
KeyError on exit.
---
 src/aws/osml/gdal/gdal_config.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_config.py b/src/aws/osml/gdal/gdal_config.py
index a0053c6..23153f7 100644
--- a/src/aws/osml/gdal/gdal_config.py
+++ b/src/aws/osml/gdal/gdal_config.py
@@ -1,7 +1,7 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
 import logging
-from typing import Dict, Optional
+from typing import Dict, List, Optional
 
 from osgeo import gdal
 
@@ -58,7 +58,7 @@ class GDALConfigEnv:
             self.options = options.copy()
         else:
             self.options = {}
-        self.old_options: Dict = {}
+        self.old_options: List[Dict] = []
 
     def with_aws_credentials(self, aws_credentials: Optional[Dict[str, str]]) -> "GDALConfigEnv":
         """
@@ -79,10 +79,12 @@ class GDALConfigEnv:
         return self
 
     def __enter__(self) -> None:
+        old_options: Dict = {}
         for key, val in self.options.items():
-            self.old_options[key] = gdal.GetConfigOption(key)
+            old_options[key] = gdal.GetConfigOption(key)
             gdal.SetConfigOption(key, str(val))
+        self.old_options.append(old_options)
 
     def __exit__(self, exc_type: str, exc_val: str, exc_traceback: str) -> None:
-        for key, val in self.options.items():
-            gdal.SetConfigOption(key, self.old_options[key])
+        for key, val in self.old_options.pop().items():
+            gdal.SetConfigOption(key, val)
-- 
2.43.0


From b676811f5ffb7711e4da21302f55830b1f8679cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:31 +0000
Subject: [PATCH 25/45] fix: summarize DEM tiles from every elevation post

---
 src/aws/osml/gdal/gdal_dem_tile_factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_dem_tile_factory.py b/src/aws/osml/gdal/gdal_dem_tile_factory.py
index 447c9a7..d50f5a3 100644
--- a/src/aws/osml/gdal/gdal_dem_tile_factory.py
+++ b/src/aws/osml/gdal/gdal_dem_tile_factory.py
@@ -77,7 +77,9 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
         lr_corner_ecf = geodetic_to_geocentric(sensor_model.image_to_world(ImageCoordinate([width, height]))).coordinate
         post_spacing = np.linalg.norm(ul_corner_ecf - lr_corner_ecf) / np.sqrt(width * width + height * height)
 
-        stats = raster_band.GetStatistics(True, True)
+        # The summary bounds the search for a surface intersection, so it must cover every post in the tile; do not
+        # accept statistics approximated from a sample of the blocks.
+        stats = raster_band.GetStatistics(False, True)
         summary = ElevationRegionSummary(
             min_elevation=stats[0],
             max_elevation=stats[1],
-- 
2.43.0


From 6baf95c9013986b2c73310859a41b743b9e0bac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:38 +0000
Subject: [PATCH 26/45] fix: project SAR images to the default surface where
 the DEM has no coverage

---
 src/aws/osml/photogrammetry/sicd_sensor_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/photogrammetry/sicd_sensor_model.py b/src/aws/osml/photogrammetry/sicd_sensor_model.py
index 912d441..bf9541c 100644
--- a/src/aws/osml/photogrammetry/sicd_sensor_model.py
+++ b/src/aws/osml/photogrammetry/sicd_sensor_model.py
@@ -1050,7 +1050,11 @@ class SICDSensorModel(SensorModel):
         xrow_ycol = self.coord_converter.rowcol_to_xrowycol(row_col=row_col)
         r_tgt_coa, r_dot_tgt_coa, time_coa, arp_coa, varp_coa = self.coa_projection_set.precise_rrdot_computation(xrow_ycol)
 
-        if elevation_model is not None:
+        # An elevation model without coverage for this scene can not define a surface.
+        if (
+            elevation_model is not None
+            and elevation_model.describe_region(geocentric_to_geodetic(self.coord_converter.scp_ecf)) is not None
+        ):
             surface_projection = DEMRRDotSurfaceProjection(
                 self.coord_converter.scp_ecf, self.side_of_track, elevation_model=elevation_model
             )
-- 
2.43.0


From bf929992b1c495e0e8e8b115c589fbe0b7a393a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:42 +0000
Subject: [PATCH 27/45] fix: do not stall the RSM image to world search on the
 ground domain bounds

---
 .../photogrammetry/replacement_sensor_model.py  | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/aws/osml/photogrammetry/replacement_sensor_model.py b/src/aws/osml/photogrammetry/replacement_sensor_model.py
index 3f4cb7a..c353270 100644
--- a/src/aws/osml/photogrammetry/replacement_sensor_model.py
+++ b/src/aws/osml/photogrammetry/replacement_sensor_model.py
@@ -530,25 +530,18 @@ class RSMPolynomialSensorModel(RSMSensorModel):
 
         initial_search_distance = options.get(SensorModelOptions.INITIAL_SEARCH_DISTANCE) if options is not None else None
         if initial_search_distance is None:
-            initial_search_distance = sqrt(((v1.longitude - v4.longitude) ** 2) + ((v1.latitude - v4.latitude) ** 2))
+            min_lon, min_lat, max_lon, max_lat = self.context.ground_domain.geodetic_lonlat_bbox
+            initial_search_distance = min(max_lon - min_lon, max_lat - min_lat) / 2.0
 
         # Iteratively adjust the initial guess to minimize the distance to the target image coordinate. We are only
         # allowing the x,y components to vary here and the z is fixed to the elevation model used by the ground
-        # domain. The starting simplex is estimated as a triangle centered in the ground domain.
+        # domain. The starting simplex is estimated as a triangle centered in, and no larger than, the ground domain
+        # where the polynomials are valid. The search is not bounded to the ground domain because clipping the simplex
+        # flattens it against a bound where the search then stalls away from the matching location.
         res = minimize(
             distance_to_target_coordinate,
             initial_guess,
             method="Nelder-Mead",
-            bounds=[
-                (
-                    self.context.ground_domain.geodetic_lonlat_bbox[0],
-                    self.context.ground_domain.geodetic_lonlat_bbox[2],
-                ),
-                (
-                    self.context.ground_domain.geodetic_lonlat_bbox[1],
-                    self.context.ground_domain.geodetic_lonlat_bbox[3],
-                ),
-            ],
             options={
                 "xatol": radians(0.000001),
                 "fatol": 0.5,
-- 
2.43.0


From 2e43c5b343fe35fa24164503c3cd4ce9b537a3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:30 +0000
Subject: [PATCH 28/45] fix: limit the histogram size used to adjust the range
 of 32-bit images

---
 src/aws/osml/gdal/gdal_utils.py                    | 4 +++-
 src/aws/osml/image_processing/gdal_tile_factory.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_utils.py b/src/aws/osml/gdal/gdal_utils.py
index 2b4d0c0..d515450 100644
--- a/src/aws/osml/gdal/gdal_utils.py
+++ b/src/aws/osml/gdal/gdal_utils.py
@@ -152,7 +152,9 @@ def get_type_and_scales(
             min_value = stats[0]
             max_value = stats[1]
 
-            num_buckets = int(max_value - min_value)
+            # One bucket per value for pixels of up to 16 bits. Histograms of larger integer types must be limited to
+            # a number of buckets that fits in memory.
+            num_buckets = min(int(max_value - min_value), 2**16)
             if band_type == gdalconst.GDT_Float32 or band_type == gdalconst.GDT_Float64:
                 num_buckets = 255
 
diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 3d3c3e8..25fee02 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -484,7 +484,9 @@ class GDALTileFactory:
         min_value = band.GetMinimum() if band.GetMinimum() is not None else np.min(pixel_array)
         max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
 
-        hist = band.GetHistogram(min=min_value, max=max_value, buckets=max(256, int(max_value - min_value)))
+        # Limit the number of buckets so histograms of 32-bit pixels fit in memory
+        buckets = min(max(256, int(max_value - min_value)), 2**16)
+        hist = band.GetHistogram(min=min_value, max=max_value, buckets=buckets)
         dra_parameters = DRAParameters.from_counts(
             hist, first_bucket_value=min_value, last_bucket_value=max_value, max_percentage=0.97
         )
-- 
2.43.0


From 439bbc4d270fec0021076399d704726268439872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:22 +0000
Subject: [PATCH 29/45] fix: geolocate features that cross the antimeridian

The approximation grid interpolated longitudes linearly across the jump from 180 to -180 degrees, so features there were
placed anywhere around the globe.
---
 src/aws/osml/features/geolocation.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index 0e954f4..0955529 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -60,6 +60,10 @@ class LocationGridInterpolator:
         latitude_values.shape = longitude_values.shape
         elevation_values.shape = longitude_values.shape
 
+        # The longitudes of an area that crosses the antimeridian jump by 360 degrees. They have to be continuous
+        # to be interpolated.
+        longitude_values = np.unwrap(np.unwrap(longitude_values, axis=0), axis=1)
+
         self.longitude_interpolator = RectBivariateSpline(xs, ys, longitude_values, kx=1, ky=1)
         self.latitude_interpolator = RectBivariateSpline(xs, ys, latitude_values, kx=1, ky=1)
         self.elevation_interpolator = RectBivariateSpline(xs, ys, elevation_values, kx=1, ky=1)
@@ -79,6 +83,8 @@ class LocationGridInterpolator:
             self.latitude_interpolator(image_coord[0], image_coord[1])[0][0],
             self.elevation_interpolator(image_coord[0], image_coord[1])[0][0],
         ]
+        if abs(world_coord[0]) > math.pi:
+            world_coord[0] = math.remainder(world_coord[0], 2.0 * math.pi)
         world_coordinate = GeodeticWorldCoordinate(world_coord)
         if self.elevation_model is not None:
             self.elevation_model.set_elevation(world_coordinate)
@@ -203,7 +209,13 @@ class Geolocator:
                     for corner in bbox_corners_image_coords
                 ]
                 bbox_corners_world_geometry = shapely.MultiPoint(bbox_corners_world_coords)
-                feature["bbox"] = bbox_corners_world_geometry.bounds
+                min_lon, min_lat, max_lon, max_lat = bbox_corners_world_geometry.bounds
+                if max_lon - min_lon > 180.0:
+                    # The box crosses the antimeridian, the westernmost edge has the larger longitude. See the GeoJSON
+                    # specification (RFC 7946) section 5.2.
+                    min_lon = min(coord[0] for coord in bbox_corners_world_coords if coord[0] >= 0.0)
+                    max_lon = max(coord[0] for coord in bbox_corners_world_coords if coord[0] < 0.0)
+                feature["bbox"] = (min_lon, min_lat, max_lon, max_lat)
 
             # If the feature has the "imageGeometry" property set then we will convert it to the "geometry" property
             # defined in the GeoJSON spec. The "geometry" property will have the same type (e.g. Point, LineString,
-- 
2.43.0


From 5ee02efe95b435dc85db0537dbd7391c2507ceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:25 +0000
Subject: [PATCH 30/45] fix: ignore a geotransform that can not be inverted

The corners of a small NITF tile can coincide. Loading such an image failed although other metadata describes its
sensor model.
---
 src/aws/osml/gdal/gdal_sensor_model_builder.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_sensor_model_builder.py b/src/aws/osml/gdal/gdal_sensor_model_builder.py
index 57f9576..22e47fa 100644
--- a/src/aws/osml/gdal/gdal_sensor_model_builder.py
+++ b/src/aws/osml/gdal/gdal_sensor_model_builder.py
@@ -1,5 +1,6 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
+import logging
 from math import radians
 from typing import List, Optional
 
@@ -32,11 +33,16 @@ class GDALAffineSensorModelBuilder(SensorModelBuilder):
         """
         Use the GDAL GeoTransform to construct a sensor model.
 
-        :return: affine transform based SensorModel that uses the GDAL GeoTransform
+        :return: affine transform based SensorModel that uses the GDAL GeoTransform; None if it is not invertible
         """
         if self.geo_transform is None:
             return None
-        return GDALAffineSensorModel(self.geo_transform, self.proj_wkt)
+        try:
+            return GDALAffineSensorModel(self.geo_transform, self.proj_wkt)
+        except ValueError as ve:
+            logging.warning("Unable to use the GeoTransform of this image. No SensorModel created.")
+            logging.warning(str(ve))
+            return None
 
 
 class GDALGCPSensorModelBuilder(SensorModelBuilder):
-- 
2.43.0


From a72be1c793991750d6ee15a2827c07bb30693dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:09 +0000
Subject: [PATCH 31/45] fix: reject TREs with missing polynomial coefficient
 groups

---
 src/aws/osml/gdal/xmltre_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aws/osml/gdal/xmltre_utils.py b/src/aws/osml/gdal/xmltre_utils.py
index 6e521e8..8f126d2 100644
--- a/src/aws/osml/gdal/xmltre_utils.py
+++ b/src/aws/osml/gdal/xmltre_utils.py
@@ -49,6 +49,7 @@ def parse_rpc_coefficients(tre: ET.Element, repeated_name: str) -> List[float]:
     num_coefficients = int(num_coefficients_str)
 
     result: List[float] = [0.0] * num_coefficients
+    found_indexes = set()
     for group in repeated:
         index_str = group.get("index")
         if index_str is None:
@@ -65,5 +66,9 @@ def parse_rpc_coefficients(tre: ET.Element, repeated_name: str) -> List[float]:
             raise ValueError("Invalid XML TRE: Field in repeated group in XML TRE is missing required value attribute")
         value = float(value_str)
         result[index] = value
+        found_indexes.add(index)
+
+    if len(found_indexes) != num_coefficients:
+        raise ValueError(f"Invalid XML TRE: Found {len(found_indexes)} of {num_coefficients} groups for {repeated_name}")
 
     return result
-- 
2.43.0


From 9b39abe83cfa9c76f0025833423643ee3884be4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:22 +0000
Subject: [PATCH 32/45] fix: map tiles of images with two or more than three
 bands fail without range adjustment

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 25fee02..08a4f82 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -392,7 +392,8 @@ class GDALTileFactory:
         elif self.range_adjustment == RangeAdjustmentType.MINMAX:
             return self._normalize_bands(pixel_array, self._normalize_band_minmax)
         else:
-            return pixel_array.astype(np.uint8)
+            # No adjustment of the values but the bands to display still need to be selected
+            return self._normalize_bands(pixel_array, lambda band, band_pixels: band_pixels.astype(np.uint8))
 
     def _normalize_bands(
         self, pixel_array: np.array, normalize_band_func: Callable[[gdal.Band, np.array], np.array]
-- 
2.43.0


From c9bae90124333f6818cdaec512daa461bdfdc270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:02 +0000
Subject: [PATCH 33/45] fix: projective transforms of small images far from the
 origin are badly conditioned

---
 src/aws/osml/photogrammetry/transforms.py | 46 ++++++++++++++++++-----
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/aws/osml/photogrammetry/transforms.py b/src/aws/osml/photogrammetry/transforms.py
index b4d780c..ea6cfb1 100644
--- a/src/aws/osml/photogrammetry/transforms.py
+++ b/src/aws/osml/photogrammetry/transforms.py
@@ -72,8 +72,16 @@ class ProjectiveTransform:
 
         :return: the projective transform
         """
-        xs = src[:, 0]
-        ys = src[:, 1]
+        # Work with points that are centered and scaled to the unit square. The raw coordinates can be nearly identical
+        # when compared to their distance from the origin (e.g. longitudes and latitudes for the corners of a small image)
+        # which makes the equations too poorly conditioned to solve.
+        src_normalization = cls._normalization_matrix(src)
+        dst_normalization = cls._normalization_matrix(dst)
+        normalized_src = src * np.diag(src_normalization)[0:2] + src_normalization[0:2, 2]
+        normalized_dst = dst * np.diag(dst_normalization)[0:2] + dst_normalization[0:2, 2]
+
+        xs = normalized_src[:, 0]
+        ys = normalized_src[:, 1]
         num_points = src.shape[0]
 
         # The Coefficient Matrix
@@ -84,17 +92,37 @@ class ProjectiveTransform:
         a[num_points:, 3] = 1
         a[num_points:, 4] = xs
         a[num_points:, 5] = ys
-        a[:num_points, 6] = -dst[:, 0] * xs
-        a[:num_points, 7] = -dst[:, 0] * ys
-        a[num_points:, 6] = -dst[:, 1] * xs
-        a[num_points:, 7] = -dst[:, 1] * ys
+        a[:num_points, 6] = -normalized_dst[:, 0] * xs
+        a[:num_points, 7] = -normalized_dst[:, 0] * ys
+        a[num_points:, 6] = -normalized_dst[:, 1] * xs
+        a[num_points:, 7] = -normalized_dst[:, 1] * ys
 
         # The dependent variable values
         b = np.zeros((num_points * 2,))
-        b[:num_points] = dst[:, 0]
-        b[num_points:] = dst[:, 1]
+        b[:num_points] = normalized_dst[:, 0]
+        b[num_points:] = normalized_dst[:, 1]
 
         # See: https://numpy.org/doc/stable/reference/generated/numpy.linalg.lstsq.html
-        matrix_parameters = np.linalg.lstsq(a, b, rcond=None)[0]
+        a0, a1, a2, b0, b1, b2, c0, c1 = np.linalg.lstsq(a, b, rcond=None)[0]
+
+        # Convert the transform between normalized points into a transform between the original points
+        normalized_matrix = np.array([[a1, a2, a0], [b1, b2, b0], [c0, c1, 1.0]])
+        matrix = np.linalg.inv(dst_normalization) @ normalized_matrix @ src_normalization
+        matrix = matrix / matrix[2, 2]
+        matrix_parameters = matrix[[0, 0, 0, 1, 1, 1, 2, 2], [2, 0, 1, 2, 0, 1, 0, 1]]
 
         return cls(matrix_parameters)
+
+    @staticmethod
+    def _normalization_matrix(points: npt.ArrayLike) -> np.ndarray:
+        """
+        Compute the matrix that moves the center of a set of points to the origin and scales them to a unit size.
+
+        :param points: the points, [[x, y], ...]
+
+        :return: the 3x3 matrix for the normalization
+        """
+        center = np.mean(points, axis=0)
+        extent = np.ptp(points, axis=0)
+        scale = 1.0 / np.where(extent > 0.0, extent, 1.0)
+        return np.array([[scale[0], 0.0, -center[0] * scale[0]], [0.0, scale[1], -center[1] * scale[1]], [0.0, 0.0, 1.0]])
-- 
2.43.0


From a6ed75e78c8cff8b1b2174db71ab8ba7376d29b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:52 +0000
Subject: [PATCH 34/45] fix: complex image tiles of images without statistics
 use a meaningless mean

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 08a4f82..5c0c4d3 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -442,7 +442,8 @@ class GDALTileFactory:
         approx_abs_band_means = []
         for band_num in range(1, self.raster_dataset.RasterCount + 1):
             band_stats = self.raster_dataset.GetRasterBand(band_num).GetStatistics(True, False)
-            if band_stats and len(band_stats) == 4:
+            # GDAL reports a negative standard deviation for bands without statistics
+            if band_stats and len(band_stats) == 4 and band_stats[3] >= 0:
                 min_value, max_value, mean_value, std_value = band_stats
                 approx_abs_band_means.append(std_value * 50 / 68 + mean_value)
         if len(approx_abs_band_means) > 0:
-- 
2.43.0


From f86cf169e7f7c0b08f2fa6ec97532ec251e43fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:07 +0000
Subject: [PATCH 35/45] fix: elevation tiles in a projected CRS are misplaced

The tile's geo transform maps posts to coordinates of the CRS of the raster. Pass that CRS to the sensor model so that
tiles in a projected (or other non WGS84) CRS are located correctly.
---
 src/aws/osml/gdal/gdal_dem_tile_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_dem_tile_factory.py b/src/aws/osml/gdal/gdal_dem_tile_factory.py
index d50f5a3..229d0c7 100644
--- a/src/aws/osml/gdal/gdal_dem_tile_factory.py
+++ b/src/aws/osml/gdal/gdal_dem_tile_factory.py
@@ -69,7 +69,7 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
         raster_band = ds.GetRasterBand(1)
         band_as_array = raster_band.ReadAsArray(0, 0, ds.RasterXSize, ds.RasterYSize)
         height, width = band_as_array.shape
-        sensor_model = GDALAffineSensorModel(geo_transform)
+        sensor_model = GDALAffineSensorModel(geo_transform, ds.GetProjection() or None)
 
         # Compute the distance in meters from the upper left to the lower right corner. Divide that by the distance
         # in pixels to get an approximate pixel size in meters
-- 
2.43.0


From ea2fd22c74f62fb76b99a6fef5cfa04600427e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:53 +0000
Subject: [PATCH 36/45] fix: RPC models do not recognise locations across the
 antimeridian

A scene around longitude 180 has points whose longitude differs from the longitude offset of the model by almost a full
turn. Take the difference the short way around, and keep the longitudes that image_to_world reports and looks elevations
up at within -180 to 180 degrees.
---
 src/aws/osml/photogrammetry/rpc_sensor_model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/photogrammetry/rpc_sensor_model.py b/src/aws/osml/photogrammetry/rpc_sensor_model.py
index 23f9d3a..732e0d5 100644
--- a/src/aws/osml/photogrammetry/rpc_sensor_model.py
+++ b/src/aws/osml/photogrammetry/rpc_sensor_model.py
@@ -1,6 +1,6 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
-from math import degrees, radians, sqrt
+from math import degrees, pi, radians, remainder, sqrt
 from typing import Any, Dict, List, Optional, Tuple
 
 import numpy as np
@@ -162,7 +162,8 @@ class RPCSensorModel(SensorModel):
         # GeodeticWorldCoordinate is assumed to be in radians with meters elevation. Convert the coordinate to
         # degrees before normalizing the values.
         # TODO: Check that GeodeticWorldCoordinate in RSM is meters elevation
-        l_val = (degrees(geodetic_coordinate.x) - self.long_off) / self.long_scale
+        # The difference of the longitudes is taken the short way around, the scene may be across the antimeridian.
+        l_val = remainder(degrees(geodetic_coordinate.x) - self.long_off, 360.0) / self.long_scale
         p_val = (degrees(geodetic_coordinate.y) - self.lat_off) / self.lat_scale
         h_val = (geodetic_coordinate.z - self.height_off) / self.height_scale
         norm_domain_coordinate = WorldCoordinate([l_val, p_val, h_val])
@@ -199,7 +200,7 @@ class RPCSensorModel(SensorModel):
         # distance between that new image location and the input image location. When those locations match then
         # we know we have the ground domain coordinate that corresponds to the input.
         def distance_to_target_coordinate(lonlat_coord: Tuple[float, float]) -> float:
-            ground_domain_coordinate = GeodeticWorldCoordinate([lonlat_coord[0], lonlat_coord[1], 0.0])
+            ground_domain_coordinate = GeodeticWorldCoordinate([remainder(lonlat_coord[0], 2.0 * pi), lonlat_coord[1], 0.0])
             self.default_elevation_model.set_elevation(ground_domain_coordinate)
             if elevation_model:
                 elevation_model.set_elevation(ground_domain_coordinate)
@@ -236,7 +237,7 @@ class RPCSensorModel(SensorModel):
 
         # The minimization result is an (x,y) tuple, so we need to expand it to x,y,z and replace the z component with
         # the height from the elevation model. Note that the units of this are radians, radians, meters
-        world_coordinate = GeodeticWorldCoordinate(np.append(res.x, 0.0))
+        world_coordinate = GeodeticWorldCoordinate([remainder(res.x[0], 2.0 * pi), res.x[1], 0.0])
         self.default_elevation_model.set_elevation(world_coordinate)
         if elevation_model:
             elevation_model.set_elevation(world_coordinate)
-- 
2.43.0


From 61d51928257ed69e9f2b5fd09c5b31a367ace2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:12 +0000
Subject: [PATCH 37/45] fix: SAR locations near the border of an elevation tile
 fail or ignore the terrain

The heights of the surface were bounded by the tile of the scene centre only. A range / range-rate contour that
reaches terrain of another tile outside of those heights has no intersection, which raised an IndexError. Where the
other tile does not exist the location was put at the lowest height of the first tile instead of the default surface.
---
 .../osml/photogrammetry/sicd_sensor_model.py  | 65 +++++++++++++++----
 1 file changed, 52 insertions(+), 13 deletions(-)

diff --git a/src/aws/osml/photogrammetry/sicd_sensor_model.py b/src/aws/osml/photogrammetry/sicd_sensor_model.py
index bf9541c..4994496 100644
--- a/src/aws/osml/photogrammetry/sicd_sensor_model.py
+++ b/src/aws/osml/photogrammetry/sicd_sensor_model.py
@@ -877,7 +877,10 @@ class DEMRRDotSurfaceProjection(RRDotSurfaceProjection):
         # (3) Compute the projection along the R/Rdot contour to the surface of constant HAE at height hae_max.
         # The projection point at height hae_max is point_a. Also compute the cosine and sine of the contour angle
         # to point_a, cos_caa and sin_caa.
-        point_a = self.hae_max_surface_projection.rrdot_to_ground(r_tgt_coa, r_dot_tgt_coa, arp_position, arp_velocity)[0]
+        hae_min_surface_projection, hae_max_surface_projection = self._bound_surface_on_contour(
+            r_tgt_coa, r_dot_tgt_coa, arp_position, arp_velocity
+        )
+        point_a = hae_max_surface_projection.rrdot_to_ground(r_tgt_coa, r_dot_tgt_coa, arp_position, arp_velocity)[0]
         cos_caa = np.dot(point_a - ctr, u_rrx) / rrrc
         # This variable is defined in the specification but it does not appear to be used anywhere
         # sin_caa = self.look * np.sqrt(1 - cos_caa * cos_caa)
@@ -885,7 +888,7 @@ class DEMRRDotSurfaceProjection(RRDotSurfaceProjection):
         # (4) Compute the projection along the R/Rdot contour to the surface of constant HAE at height hae_min.
         # The projection point at height hae_min is point_b. Also compute the cosine and sine of the contour angle
         # to point_b, cos_cab and sin_cab.
-        point_b = self.hae_min_surface_projection.rrdot_to_ground(r_tgt_coa, r_dot_tgt_coa, arp_position, arp_velocity)[0]
+        point_b = hae_min_surface_projection.rrdot_to_ground(r_tgt_coa, r_dot_tgt_coa, arp_position, arp_velocity)[0]
         cos_cab = np.dot(point_b - ctr, u_rrx) / rrrc
         sin_cab = self.look * np.sqrt(1 - cos_cab * cos_cab)
 
@@ -932,8 +935,12 @@ class DEMRRDotSurfaceProjection(RRDotSurfaceProjection):
         prev_delta_height = None
         for n in range(0, npts):
             point_lle = geocentric_to_geodetic(WorldCoordinate(points_ecf[n]))
-            point_dem = GeodeticWorldCoordinate(point_lle.coordinate.copy())
+            point_dem = GeodeticWorldCoordinate([point_lle.longitude, point_lle.latitude, np.nan])
             self.elevation_model.set_elevation(point_dem)
+            if np.isnan(point_dem.elevation):
+                # The elevation model has no data here so there is no surface to intersect
+                prev_indicator = None
+                continue
             delta_height = point_lle.elevation - point_dem.elevation
 
             # Determine if the contour point is ABOVE (indicator = 1), ON (indicator = 0), or BELOW (indicator = -1)
@@ -966,6 +973,36 @@ class DEMRRDotSurfaceProjection(RRDotSurfaceProjection):
         # ellipsoid.
         return np.array(intersection_points)
 
+    def _bound_surface_on_contour(
+        self, r_tgt_coa, r_dot_tgt_coa, arp_position, arp_velocity
+    ) -> Tuple[HAERRDotSurfaceProjection, HAERRDotSurfaceProjection]:
+        """
+        The heights of the surface are only known to be between hae_min and hae_max in the region around the reference
+        point. This method widens that range for the regions reached by the R/Rdot contour.
+
+        :param r_tgt_coa: target COA range
+        :param r_dot_tgt_coa: target COA range rate
+        :param arp_position: ARP position
+        :param arp_velocity: ARP velocity
+        :return: the projections to the surfaces of constant HAE below and above the DEM surface
+        """
+        bounds = (self.hae_min_surface_projection, self.hae_max_surface_projection)
+        max_regions = 10
+        for _ in range(max_regions):
+            heights = [bound.hae for bound in bounds]
+            for bound in bounds:
+                point_ecf = bound.rrdot_to_ground(r_tgt_coa, r_dot_tgt_coa, arp_position, arp_velocity)[0]
+                summary = self.elevation_model.describe_region(geocentric_to_geodetic(WorldCoordinate(point_ecf)))
+                if summary is not None:
+                    heights += [summary.min_elevation, summary.max_elevation]
+            if min(heights) == bounds[0].hae and max(heights) == bounds[1].hae:
+                break
+            bounds = tuple(
+                HAERRDotSurfaceProjection(scp_ecf=self.scp_ecf, side_of_track=self.side_of_track, hae=hae)
+                for hae in (min(heights), max(heights))
+            )
+        return bounds
+
 
 class SICDSensorModel(SensorModel):
     """
@@ -1050,21 +1087,23 @@ class SICDSensorModel(SensorModel):
         xrow_ycol = self.coord_converter.rowcol_to_xrowycol(row_col=row_col)
         r_tgt_coa, r_dot_tgt_coa, time_coa, arp_coa, varp_coa = self.coa_projection_set.precise_rrdot_computation(xrow_ycol)
 
-        # An elevation model without coverage for this scene can not define a surface.
+        coords_ecf = self.default_surface_projection.rrdot_to_ground(r_tgt_coa, r_dot_tgt_coa, arp_coa, varp_coa)
+
+        # An elevation model without coverage for this location can not define a surface.
+        location_ecf = WorldCoordinate(coords_ecf[0])
         if (
             elevation_model is not None
-            and elevation_model.describe_region(geocentric_to_geodetic(self.coord_converter.scp_ecf)) is not None
+            and elevation_model.describe_region(geocentric_to_geodetic(location_ecf)) is not None
         ):
             surface_projection = DEMRRDotSurfaceProjection(
-                self.coord_converter.scp_ecf, self.side_of_track, elevation_model=elevation_model
+                location_ecf, self.side_of_track, elevation_model=elevation_model
             )
-        else:
-            surface_projection = self.default_surface_projection
-
-        # Note that for a DEM the r/rdot contour may intersect the surface at multiple locations
-        # resulting in an ambiguous location. Here we are arbitrarily selecting the first result.
-        # TODO: Is there a better way to handle multiple DEM intersections?
-        coords_ecf = surface_projection.rrdot_to_ground(r_tgt_coa, r_dot_tgt_coa, arp_coa, varp_coa)
+            # Note that for a DEM the r/rdot contour may intersect the surface at multiple locations
+            # resulting in an ambiguous location. Here we are arbitrarily selecting the first result.
+            # TODO: Is there a better way to handle multiple DEM intersections?
+            dem_coords_ecf = surface_projection.rrdot_to_ground(r_tgt_coa, r_dot_tgt_coa, arp_coa, varp_coa)
+            if len(dem_coords_ecf) > 0:
+                coords_ecf = dem_coords_ecf
 
         return geocentric_to_geodetic(WorldCoordinate(coords_ecf[0]))
 
-- 
2.43.0


From 76da07f8a1e2aa35393968fa3128db6a1f7b3429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:14 +0000
Subject: [PATCH 38/45] fix: elevations next to posts without data are
 interpolated from the no-data value

---
 .../photogrammetry/digital_elevation_model.py | 41 +++++++++++++++++--
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/photogrammetry/digital_elevation_model.py b/src/aws/osml/photogrammetry/digital_elevation_model.py
index 05b60b5..6bc1afe 100644
--- a/src/aws/osml/photogrammetry/digital_elevation_model.py
+++ b/src/aws/osml/photogrammetry/digital_elevation_model.py
@@ -5,8 +5,9 @@
 
 import operator
 from abc import ABC, abstractmethod
-from typing import Any, Optional, Tuple
+from typing import Any, Optional, Tuple, Union
 
+import numpy as np
 from cachetools import LRUCache, cachedmethod
 from scipy.interpolate import RectBivariateSpline
 
@@ -66,6 +67,33 @@ class DigitalElevationModelTileFactory(ABC):
         """
 
 
+class VoidInterpolationGrid:
+    """
+    An interpolation grid for elevation arrays that have posts without data. The interpolated elevation is NaN wherever
+    it depends on one of those posts.
+    """
+
+    def __init__(self, x: Any, y: Any, elevations: Any, voids: Any) -> None:
+        """
+        Construct the grid from the elevations at each [x, y].
+
+        :param x: the x coordinates of the posts
+        :param y: the y coordinates of the posts
+        :param elevations: the array of elevations
+        :param voids: an array of the same shape that is true for each post without data
+        """
+        self.elevation_interpolator = RectBivariateSpline(x, y, np.where(voids, 0, elevations), kx=1, ky=1)
+        self.void_interpolator = RectBivariateSpline(x, y, voids.astype(np.float32), kx=1, ky=1)
+
+    def __call__(self, x: float, y: float) -> Any:
+        """
+        :param x: the x coordinate in the grid
+        :param y: the y coordinate in the grid
+        :return: an array containing the elevation or NaN if there is no data
+        """
+        return np.where(self.void_interpolator(x, y) > 1e-9, np.nan, self.elevation_interpolator(x, y))
+
+
 class DigitalElevationModel(ElevationModel):
     """
     A Digital Elevation Model (DEM) is a representation of the topographic surface of the Earth. Theoretically
@@ -121,7 +149,10 @@ class DigitalElevationModel(ElevationModel):
 
         if interpolation_grid is not None and sensor_model is not None:
             image_coordinate = sensor_model.world_to_image(geodetic_world_coordinate)
-            geodetic_world_coordinate.elevation = interpolation_grid(image_coordinate.x, image_coordinate.y)[0][0]
+            elevation = interpolation_grid(image_coordinate.x, image_coordinate.y)[0][0]
+            # The elevation is unknown next to posts without data
+            if not np.isnan(elevation):
+                geodetic_world_coordinate.elevation = elevation
 
     def describe_region(self, geodetic_world_coordinate: GeodeticWorldCoordinate) -> Optional[ElevationRegionSummary]:
         """
@@ -141,7 +172,7 @@ class DigitalElevationModel(ElevationModel):
     @cachedmethod(operator.attrgetter("raster_cache"))
     def get_interpolation_grid(
         self, tile_path: str
-    ) -> Tuple[Optional[RectBivariateSpline], Optional[SensorModel], Optional[ElevationRegionSummary]]:
+    ) -> Tuple[Optional[Union[RectBivariateSpline, VoidInterpolationGrid]], Optional[SensorModel], Optional[ElevationRegionSummary]]:
         """
         This method loads and converts an array of elevation values into a class that can
         interpolate values that lie between measured elevations. The sensor model is also
@@ -161,6 +192,10 @@ class DigitalElevationModel(ElevationModel):
             height, width = elevations_array.shape
             x = range(0, width)
             y = range(0, height)
+            if summary is not None and summary.no_data_value is not None:
+                voids = np.isnan(elevations_array) | (elevations_array == summary.no_data_value)
+                if np.any(voids):
+                    return VoidInterpolationGrid(x, y, elevations_array.T, voids.T), sensor_model, summary
             return RectBivariateSpline(x, y, elevations_array.T, kx=1, ky=1), sensor_model, summary
         else:
             return None, None, None
-- 
2.43.0


From ee18e5322010b9158712ff01e5144ac55b1b381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 39/45] fix: SAR metadata is identified by the root element of
 the document, not by words in its text

---
 src/aws/osml/gdal/nitf_des_accessor.py             | 13 +++++++++++++
 src/aws/osml/gdal/sensor_model_factory.py          |  5 +++--
 src/aws/osml/image_processing/gdal_tile_factory.py |  5 +++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/gdal/nitf_des_accessor.py b/src/aws/osml/gdal/nitf_des_accessor.py
index 14d82c9..ad8b04c 100644
--- a/src/aws/osml/gdal/nitf_des_accessor.py
+++ b/src/aws/osml/gdal/nitf_des_accessor.py
@@ -128,6 +128,19 @@ class NITFDESAccessor:
         # changes the representation of this information in their APIs
         return None
 
+    @staticmethod
+    def extract_xml_root_name(xml_str: str) -> Optional[str]:
+        """
+        This function finds the local name of the root element in an XML document (e.g. SICD or SIDD). The root element
+        identifies the kind of metadata; the names of these formats may also occur in the text of other documents.
+
+        :param xml_str: the XML document
+        :return: the name of the root element without any namespace prefix or None if there isn't one
+        """
+        without_comments = re.sub(r"<!--.*?-->", "", xml_str, flags=re.DOTALL)
+        root_match = re.search(r"<(?![?!])(?:[^\s:<>/]+:)?([^\s:<>/]+)", without_comments)
+        return root_match.group(1) if root_match else None
+
     @staticmethod
     def parse_field_value(des_element: ET.Element, field_name: str, type_conversion: Callable[[str], T]) -> T:
         """
diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index 9752cc3..a85e039 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -198,14 +198,15 @@ class SensorModelFactory:
                     if not xml_str:
                         continue
 
-                    if "SIDD" in xml_str:
+                    xml_root_name = des_accessor.extract_xml_root_name(xml_str)
+                    if xml_root_name == "SIDD":
                         # SIDD images will often contain SICD XML metadata as well but the SIDD should come first
                         # so we can stop processing other XML data segments
                         precision_sensor_model = (
                             SIDDSensorModelBuilder(sidd_xml=xml_str).build() or precision_sensor_model
                         )
                         break
-                    elif "SICD" in xml_str and SensorModelTypes.SICD in self.selected_sensor_model_types:
+                    elif xml_root_name == "SICD" and SensorModelTypes.SICD in self.selected_sensor_model_types:
                         precision_sensor_model = (
                             SICDSensorModelBuilder(sicd_xml=xml_str).build() or precision_sensor_model
                         )
diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 5c0c4d3..f37c7a0 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -68,13 +68,14 @@ class GDALTileFactory:
                         continue
 
                     # Check to see if this is SICD or SIDD data
-                    if "SIDD" in xml_str:
+                    xml_root_name = self.des_accessor.extract_xml_root_name(xml_str)
+                    if xml_root_name == "SIDD":
                         # SIDD images will often contain SICD XML metadata as well but the SIDD should come first
                         # so we can stop processing other XML data segments if we find a SIDD segment.
                         self.sar_des_header = self.des_accessor.extract_des_header(xml_data_segment)
                         self.sar_updater = SIDDUpdater(xml_str)
                         break
-                    elif "SICD" in xml_str:
+                    elif xml_root_name == "SICD":
                         self.sar_des_header = self.des_accessor.extract_des_header(xml_data_segment)
                         self.sar_updater = SICDUpdater(xml_str)
                         break
-- 
2.43.0


From fa4bfe3269e3b8141c71768373e34f29317ed7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:44 +0000
Subject: [PATCH 40/45] fix: Make orthophoto tiles of regions larger than
 cv2.remap accepts

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index f37c7a0..4d5aa0e 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -263,6 +263,12 @@ class GDALTileFactory:
         # based on the raw pixel values.
         src = self._normalize_image_for_display(src)
 
+        # The cv2.remap function does not accept images with SHRT_MAX or more pixels in a dimension. If there are not
+        # enough overviews to keep the region smaller than that skip pixels.
+        border_size = 2
+        src_step = int(np.ceil(max(src.shape[0:2]) / (np.iinfo(np.int16).max - 1 - 2 * border_size)))
+        src = src[::src_step, ::src_step]
+
         # Add a replicate border around the source image to handle out-of-bound coordinates during remapping.
         # When using cv2.remap, some coordinates may fall outside the boundaries of the source image.
         # Using cv2.BORDER_CONSTANT or setting scalar values will assign a default color (such as black)
@@ -270,14 +276,13 @@ class GDALTileFactory:
         # By using cv2.BORDER_REPLICATE, the edge pixels of the source image are repeated in the border region,
         # allowing remap to use valid pixel values for out-of-bound coordinates, avoiding default color (black lines)
         # around the output image.
-        border_size = 2
         src_bordered = cv2.copyMakeBorder(src, border_size, border_size, border_size, border_size, cv2.BORDER_REPLICATE)
 
         # Update the src_x and src_y coordinates because we cropped the image and pulled it from a different
         # resolution level. The original coordinates assumed the image origin at 0,0 in a full resolution
         # image and adjusted the remapping coordinates to account for the added border
-        src_x = (src_x - src_bbox[0]) / 2**r_level + border_size
-        src_y = (src_y - src_bbox[1]) / 2**r_level + border_size
+        src_x = (src_x - src_bbox[0]) / 2**r_level / src_step + border_size
+        src_y = (src_y - src_bbox[1]) / 2**r_level / src_step + border_size
 
         # Create 2D linear interpolators that map the pixels in the map tile to x and y values in the source image.
         # This will allow us to efficiently generate the maps needed by the opencv::remap function for every pixel
-- 
2.43.0


From 734be23db9217e0865d7eecc10a0c8e059f69b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:22 +0000
Subject: [PATCH 41/45] fix: Geolocate features next to ones with an empty
 image geometry

---
 src/aws/osml/features/geolocation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index 0955529..57b9bd5 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -222,10 +222,13 @@ class Geolocator:
             # Polygon) as the "imageGeometry" property. If the feature does not have the "imageGeometry" property
             # defined this
             image_geometry = self.property_accessor.get_image_geometry(feature)
+            if image_geometry is not None and image_geometry.is_empty:
+                # GeoJSON allows geometries without coordinates, those are equivalent to a missing geometry
+                image_geometry = None
             if image_bbox is None and image_geometry is None:
                 logging.info(f"Feature may be using deprecated attributes: {feature}")
                 image_geometry = self.property_accessor.find_image_geometry(feature)
-                if image_geometry is None:
+                if image_geometry is None or image_geometry.is_empty:
                     logging.warning(f"There isn't a valid detection shape for feature: {feature}")
                     continue
 
-- 
2.43.0


From f1378adb274dfdb59ef2f4f9d9fa99791d2a8de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:29 +0000
Subject: [PATCH 42/45] fix: Locate the elevation posts of a DEM tile at the
 centers of its pixels

---
 src/aws/osml/gdal/gdal_dem_tile_factory.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_dem_tile_factory.py b/src/aws/osml/gdal/gdal_dem_tile_factory.py
index 229d0c7..28c1409 100644
--- a/src/aws/osml/gdal/gdal_dem_tile_factory.py
+++ b/src/aws/osml/gdal/gdal_dem_tile_factory.py
@@ -69,12 +69,25 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
         raster_band = ds.GetRasterBand(1)
         band_as_array = raster_band.ReadAsArray(0, 0, ds.RasterXSize, ds.RasterYSize)
         height, width = band_as_array.shape
-        sensor_model = GDALAffineSensorModel(geo_transform, ds.GetProjection() or None)
+        # The geo transform from GDAL locates the corners of the pixels but the elevation posts are at their centers.
+        # Move the origin to the first post so that the image coordinates of the model are the grid indexes of the posts.
+        x_origin, x_column, x_row, y_origin, y_column, y_row = geo_transform
+        post_transform = [
+            x_origin + (x_column + x_row) / 2.0,
+            x_column,
+            x_row,
+            y_origin + (y_column + y_row) / 2.0,
+            y_column,
+            y_row,
+        ]
+        sensor_model = GDALAffineSensorModel(post_transform, ds.GetProjection() or None)
 
         # Compute the distance in meters from the upper left to the lower right corner. Divide that by the distance
         # in pixels to get an approximate pixel size in meters
-        ul_corner_ecf = geodetic_to_geocentric(sensor_model.image_to_world(ImageCoordinate([0, 0]))).coordinate
-        lr_corner_ecf = geodetic_to_geocentric(sensor_model.image_to_world(ImageCoordinate([width, height]))).coordinate
+        ul_corner = ImageCoordinate([-0.5, -0.5])
+        lr_corner = ImageCoordinate([width - 0.5, height - 0.5])
+        ul_corner_ecf = geodetic_to_geocentric(sensor_model.image_to_world(ul_corner)).coordinate
+        lr_corner_ecf = geodetic_to_geocentric(sensor_model.image_to_world(lr_corner)).coordinate
         post_spacing = np.linalg.norm(ul_corner_ecf - lr_corner_ecf) / np.sqrt(width * width + height * height)
 
         # The summary bounds the search for a surface intersection, so it must cover every post in the tile; do not
-- 
2.43.0


From a2c9299037a3ce87d005ad23a849aaa3c082463a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:13 +0000
Subject: [PATCH 43/45] fix: Geolocate geometry collections that contain a
 point without coordinates

---
 src/aws/osml/features/geolocation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index 57b9bd5..76370a3 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -260,6 +260,8 @@ class Geolocator:
             raise ValueError("Unable to geolocate features without a geometry property")
 
         if isinstance(image_geometry, shapely.Point):
+            if image_geometry.is_empty:
+                return geojson.Point([])
             print(f"Geolocating point: {image_geometry.coords[0]}")
             return geojson.Point(Geolocator.radians_coordinate_to_degrees(interpolation_grid(image_geometry.coords[0])))
         elif isinstance(image_geometry, (shapely.LineString, shapely.LinearRing)):
-- 
2.43.0


From c77e3392e63ea67631e140051bbfeabc597b13c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:56 +0000
Subject: [PATCH 44/45] fix: Find the tiles of locations on the northern and
 southern limits of a tile set

---
 src/aws/osml/image_processing/map_tileset_wmq.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/map_tileset_wmq.py b/src/aws/osml/image_processing/map_tileset_wmq.py
index 930559d..a41802d 100644
--- a/src/aws/osml/image_processing/map_tileset_wmq.py
+++ b/src/aws/osml/image_processing/map_tileset_wmq.py
@@ -78,6 +78,9 @@ class WebMercatorQuadMapTileSet(MapTileSet):
             radians=True,
             direction=TransformDirection.FORWARD,
         )
+        # Rounding can move a location on the northern or southern limit of the tile set just outside of it
+        if math.isclose(abs(y_meters), self.origin_shift, rel_tol=1e-12):
+            y_meters = math.copysign(self.origin_shift, y_meters)
         x_pixels, y_pixels = self._meters_to_pixels(x_meters, y_meters, tile_matrix)
         tile_col, tile_row = self._pixels_to_tile(x_pixels, y_pixels)
         return self.get_tile(MapTileId(tile_matrix=tile_matrix, tile_row=tile_row, tile_col=tile_col))
@@ -131,7 +134,7 @@ class WebMercatorQuadMapTileSet(MapTileSet):
         :return: the col, row tuple for the corresponding tile index
         """
         tile_col = max(int(math.ceil(x_pixels / float(self.tile_size)) - 1), 0)
-        tile_row = int(math.ceil(y_pixels / float(self.tile_size)) - 1)
+        tile_row = int(math.ceil(y_pixels / float(self.tile_size)) - 1) if y_pixels != 0.0 else 0
         return tile_col, tile_row
 
     def _calculate_tile_bounds_meters(self, tile_id: MapTileId) -> tuple[float, float, float, float]:
-- 
2.43.0


From 58a488c00250475aadc17210dc6c1ef30b073fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:56 +0000
Subject: [PATCH 45/45] fix: Treat DEM tiles without any valid elevation like
 missing tiles

---
 src/aws/osml/gdal/gdal_dem_tile_factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aws/osml/gdal/gdal_dem_tile_factory.py b/src/aws/osml/gdal/gdal_dem_tile_factory.py
index 28c1409..cd4b91d 100644
--- a/src/aws/osml/gdal/gdal_dem_tile_factory.py
+++ b/src/aws/osml/gdal/gdal_dem_tile_factory.py
@@ -67,6 +67,10 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
             return None, None, None
 
         raster_band = ds.GetRasterBand(1)
+        if not raster_band.GetMaskBand().ReadAsArray().any():
+            logging.debug(f"DEM tile does not have any valid elevations: {tile_location}")
+            return None, None, None
+
         band_as_array = raster_band.ReadAsArray(0, 0, ds.RasterXSize, ds.RasterYSize)
         height, width = band_as_array.shape
         # The geo transform from GDAL locates the corners of the pixels but the elevation posts are at their centers.
-- 
2.43.0

