From 5ab82adb20127be1e8d290cf81c3cf0ecdf0d589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 01/66] fix: DataFrame.column_uom used a non-existent attribute

---
 resqpy/olio/dataframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/dataframe.py b/resqpy/olio/dataframe.py
index c0ba987..743de0d 100644
--- a/resqpy/olio/dataframe.py
+++ b/resqpy/olio/dataframe.py
@@ -170,10 +170,10 @@ class DataFrame:
     def column_uom(self, col_index):
         """Returns units of measure for the specified column, or Euc if no units present."""
 
-        if self.units_table is None:
+        if self.uom_list is None:
             return 'Euc'
         assert 0 <= col_index < self.n_cols, 'column index out of range'
-        return self.units_table.get_string(col_index)
+        return self.uom_list[col_index]
 
     def write_hdf5_and_create_xml(self):
         """Write dataframe data to hdf5 file and create xml for RESQML objects to represent dataframe."""
-- 
2.43.0


From 226d99aa23ed406b50c7c7ad5fac0f2e6faa7f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 02/66] fix: Trajectory.set_tangents called a non-existent
 model method

---
 resqpy/well/_trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/well/_trajectory.py b/resqpy/well/_trajectory.py
index 624b16e..e2ec38e 100644
--- a/resqpy/well/_trajectory.py
+++ b/resqpy/well/_trajectory.py
@@ -592,7 +592,7 @@ class Trajectory(BaseResqpy):
         if write_hdf5:
             h5_reg = rwh5.H5Register(self.model)
             h5_reg.register_dataset(self.uuid, 'tangentVectors', self.tangent_vectors)
-            h5_reg.write(file = self.model.h5_filename(), mode = 'a')
+            h5_reg.write(file = self.model.h5_file_name(), mode = 'a')
 
         return self.tangent_vectors
 
-- 
2.43.0


From fbf8b2fe45f2d9474da28bdda1b418b1931cb655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 03/66] fix: add_faults instantiated Grid with an unsupported
 argument

---
 resqpy/derived_model/_add_faults.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_add_faults.py b/resqpy/derived_model/_add_faults.py
index ac5e494..24558e0 100644
--- a/resqpy/derived_model/_add_faults.py
+++ b/resqpy/derived_model/_add_faults.py
@@ -269,7 +269,7 @@ def _create_gcs_if_requested(create_gcs, composite_face_set_dict, new_epc_file,
         if new_epc_file is not None:
             grid_uuid = grid.uuid
             model = rq.Model(new_epc_file)
-            grid = grr.Grid(model, root = model.root(uuid = grid_uuid), find_properties = False)
+            grid = grr.Grid(model, uuid = grid_uuid, find_properties = False)
         grid.set_face_set_gcs_list_from_dict(composite_face_set_dict, create_organizing_objects_where_needed = True)
         combined_gcs = grid.face_set_gcs_list[0]
         for gcs in grid.face_set_gcs_list[1:]:
-- 
2.43.0


From ec3982746b3cd3b018bf6f53fe2831c84d54249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 04/66] fix: interpolated grid crs duplication passed a wrong
 argument list

---
 resqpy/derived_model/_interpolated_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_interpolated_grid.py b/resqpy/derived_model/_interpolated_grid.py
index 014d991..b3a4f9c 100644
--- a/resqpy/derived_model/_interpolated_grid.py
+++ b/resqpy/derived_model/_interpolated_grid.py
@@ -160,7 +160,7 @@ def _inherit_basics(grid, grid_a, grid_b):
     # inherit the coordinate reference system used by the grid geometry
     grid.crs_uuid = grid_a.crs_uuid
     if grid_a.model is not grid.model:
-        grid.model.duplicate_node(grid_a.model.root_for_uuid(grid_a, grid.crs_uuid), add_as_part = True)
+        grid.model.duplicate_node(grid_a.model.root_for_uuid(grid.crs_uuid), add_as_part = True)
     grid.crs = rqc.Crs(grid.model, uuid = grid.crs_uuid)
 
     if grid_a.inactive is None or grid_b.inactive is None:
-- 
2.43.0


From 85eab2bca7b182cd19688e58ff27390985639d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 05/66] fix: Grid._add_geom_points_xml omitted a required
 argument

---
 resqpy/grid/_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_grid.py b/resqpy/grid/_grid.py
index ad9cff1..a82e80a 100644
--- a/resqpy/grid/_grid.py
+++ b/resqpy/grid/_grid.py
@@ -2294,4 +2294,4 @@ class Grid(BaseResqpy):
 
     def _add_geom_points_xml(self, geom_node, ext_uuid):
         """Generate geometry points node in xml, called during create_xml, overridden for RegularGrid."""
-        return _add_pillar_points_xml(self, geom_node, ext_uuid)
+        return _add_pillar_points_xml(self, geom_node, ext_uuid, False)
-- 
2.43.0


From cc701c7539fa1edbc3b2d8e96fc0626618b810c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 06/66] fix: shift_polyline and flatten_polyline instantiated
 Polyline with an unsupported argument

---
 resqpy/lines/_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/lines/_common.py b/resqpy/lines/_common.py
index 17d1233..51c91cf 100644
--- a/resqpy/lines/_common.py
+++ b/resqpy/lines/_common.py
@@ -82,7 +82,7 @@ def shift_polyline(parent_model, poly_root, xyz_shift = (0, 0, 0), title = ''):
 
     from resqpy.lines._polyline import Polyline
 
-    poly = Polyline(parent_model = parent_model, poly_root = poly_root)
+    poly = Polyline(parent_model = parent_model, uuid = rqet.uuid_for_part_root(poly_root))
     if title != '':
         poly.title = title
     else:
@@ -100,7 +100,7 @@ def flatten_polyline(parent_model, poly_root, axis = "z", value = 0.0, title = '
     axis = axis.lower()
     value = float(value)
     assert axis in ["x", "y", "z"], 'Axis must be x, y or z'
-    poly = Polyline(parent_model = parent_model, poly_root = poly_root)
+    poly = Polyline(parent_model = parent_model, uuid = rqet.uuid_for_part_root(poly_root))
     if title != '':
         poly.title = title
     else:
-- 
2.43.0


From 62712e1d73b12622c8d253cf876ce0f66032a3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 07/66] fix: infill_block_geometry nudging omitted the depth
 array

---
 resqpy/olio/grid_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/olio/grid_functions.py b/resqpy/olio/grid_functions.py
index 897fdbe..0e61b27 100644
--- a/resqpy/olio/grid_functions.py
+++ b/resqpy/olio/grid_functions.py
@@ -117,6 +117,7 @@ def infill_block_geometry(extent,
                             j = j,
                             k_base = k_base,
                             extent = extent,
+                            depth = depth,
                             void_interval = void_interval,
                             void_bottom_depth = void_bottom_depth,
                             depth_zero_tolerance = depth_zero_tolerance,
-- 
2.43.0


From 023d8f601ebdc5f570393740c824fa4ea7490d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 08/66] fix: VDB.root_static_property built its arguments
 wrongly

---
 resqpy/olio/vdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/vdb.py b/resqpy/olio/vdb.py
index 0cc8e16..b7904f7 100644
--- a/resqpy/olio/vdb.py
+++ b/resqpy/olio/vdb.py
@@ -896,7 +896,7 @@ class VDB():
     def root_static_property(self, keyword, dtype = None, unpack = None):
         """Loads and returns a ROOT static property array."""
 
-        return self.grid_static_property('ROOT'.keyword, dtype = dtype, unpack = unpack)
+        return self.grid_static_property('ROOT', keyword, dtype = dtype, unpack = unpack)
 
     def grid_static_property(self, grid_name, keyword, dtype = None, unpack = None):
         """Loads and returns a static property array for named grid."""
-- 
2.43.0


From 172eba104664f1fe4a5334986ebb59652acd39e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 09/66] fix: derive_from_wellspec passed time arguments not
 accepted by derive_from_dataframe

---
 resqpy/well/_blocked_well.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 0c672f7..528a56e 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -751,7 +751,9 @@ class BlockedWell(BaseResqpy):
                               grid_name_to_check = None,
                               use_face_centres = True,
                               add_as_properties = False,
-                              length_uom = None):
+                              length_uom = None,
+                              time_index = None,
+                              time_series_uuid = None):
         """Populate empty blocked well from WELLSPEC-like dataframe; first columns must be IW, JW, L (i, j, k).
 
         note:
@@ -870,7 +872,11 @@ class BlockedWell(BaseResqpy):
             trajectory_mds = trajectory_mds)
 
         self.create_md_datum_and_trajectory(grid, trajectory_mds, trajectory_points, length_uom, well_name)
-        self.__add_as_properties_if_specified(add_as_properties = add_as_properties, df = df, length_uom = length_uom)
+        self.__add_as_properties_if_specified(add_as_properties = add_as_properties,
+                                              df = df,
+                                              length_uom = length_uom,
+                                              time_index = time_index,
+                                              time_series_uuid = time_series_uuid)
 
         return self
 
-- 
2.43.0


From a7b550b86e0885212e09e336963848d4638c5d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 10/66] fix: DeviationSurvey md datum not restored when loading
 from xml

---
 resqpy/well/_deviation_survey.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/resqpy/well/_deviation_survey.py b/resqpy/well/_deviation_survey.py
index 6a67a4b..b6be96f 100644
--- a/resqpy/well/_deviation_survey.py
+++ b/resqpy/well/_deviation_survey.py
@@ -461,11 +461,9 @@ class DeviationSurvey(BaseResqpy):
     def _load_related_datum(self):
         """Return related MdDatum object from XML if present."""
 
-        md_datum_uuid = bu.uuid_from_string(rqet.find_tag(rqet.find_tag(self.root, 'MdDatum'), 'UUID'))
+        md_datum_uuid = bu.uuid_from_string(rqet.find_nested_tags_text(self.root, ['MdDatum', 'UUID']))
         if md_datum_uuid is not None:
-            md_datum_part = 'obj_MdDatum_' + str(md_datum_uuid) + '.xml'
-            md_datum = rqmdd.MdDatum(self.model,
-                                     md_datum_root = self.model.root_for_part(md_datum_part, is_rels = False))
+            md_datum = rqmdd.MdDatum(self.model, uuid = md_datum_uuid)
         else:
             md_datum = None
         return md_datum
-- 
2.43.0


From 807bf2bec451ff7df97fc2b2ca4a84516bebf064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 11/66] fix: consolidated reference used a non-existent uuid
 function

---
 resqpy/model/_xml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resqpy/model/_xml.py b/resqpy/model/_xml.py
index a0e5ffd..9653e10 100644
--- a/resqpy/model/_xml.py
+++ b/resqpy/model/_xml.py
@@ -110,7 +110,7 @@ def _referenced_node(model, ref_node, consolidate = False):
         resident_uuid_int = model.consolidation.map[uuid.int]
         if resident_uuid_int is None:
             return None
-        resident_uuid = bu.uuid_for_int(resident_uuid_int)
+        resident_uuid = bu.uuid_from_int(resident_uuid_int)
         node = model.root_for_part(model.part_for_uuid(resident_uuid))
         if node is not None:
             # patch resident uuid and title into ref node!
@@ -623,6 +623,9 @@ def _create_reciprocal_relationship(model, node_a, rel_type_a, node_b, rel_type_
         rel_b.set('Type', ns_url['rels_ext'] + rel_type_b)
         rel_b.set('Target', part_name_a)
 
+    if create_a or create_b:
+        model.set_modified()
+
     if "EpcExternalPart" in rel_part_name_a or "EpcExternalPart" in rel_part_name_b:
         return
 
-- 
2.43.0


From e7303e3457bdbad48c0153039d22286ebee8fd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 12/66] fix: GenericInterpretation.is_equivalent compared a
 non-existent attribute

---
 resqpy/organize/generic_interpretation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/organize/generic_interpretation.py b/resqpy/organize/generic_interpretation.py
index 470a868..1d9c382 100644
--- a/resqpy/organize/generic_interpretation.py
+++ b/resqpy/organize/generic_interpretation.py
@@ -64,7 +64,7 @@ class GenericInterpretation(BaseResqpy):
             return False
         if self.domain != other.domain:
             return False
-        if not ou.equivalent_chrono_pairs(self.main_has_occurred_during, other.main_has_occurred_during):
+        if not ou.equivalent_chrono_pairs(self.has_occurred_during, other.has_occurred_during):
             return False
         if check_extra_metadata and not ou.equivalent_extra_metadata(self, other):
             return False
-- 
2.43.0


From e1dd549d6a528c8e6d95b509dc4eddca0487cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 13/66] fix: FaultInterpretation wrote mean azimuth as mean dip

---
 resqpy/organize/fault_interpretation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/organize/fault_interpretation.py b/resqpy/organize/fault_interpretation.py
index 703ef64..fb89a9d 100644
--- a/resqpy/organize/fault_interpretation.py
+++ b/resqpy/organize/fault_interpretation.py
@@ -219,7 +219,7 @@ class FaultInterpretation(BaseResqpy):
         if self.mean_dip is not None:
             dip = rqet.SubElement(fi, ns['resqml2'] + 'MeanDip')
             dip.set(ns['xsi'] + 'type', ns['eml'] + 'PlaneAngleMeasure')
-            dip.text = str(self.mean_azimuth)
+            dip.text = str(self.mean_dip)
 
         if self.throw_interpretation_list is not None and len(self.throw_interpretation_list):
             previous_has_occurred_during = ('never', 'never')
-- 
2.43.0


From 91954fda3195f06ca457b0356ecd45b8623fe2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 14/66] fix: epc_subdir filtering subscripted a method

---
 resqpy/model/_catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/model/_catalogue.py b/resqpy/model/_catalogue.py
index 0a74510..67b0a4f 100644
--- a/resqpy/model/_catalogue.py
+++ b/resqpy/model/_catalogue.py
@@ -719,7 +719,7 @@ def _filtered_by_epc_subdir(model, parts_list, epc_subdir):
             epc_subdir += '/'
         filtered_list = []
         for part in parts_list:
-            if part.startswith[epc_subdir]:
+            if part.startswith(epc_subdir):
                 filtered_list.append(part)
         return filtered_list
     else:
-- 
2.43.0


From f0e199b16673bfbc059ef746d1f642ed83574854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 15/66] fix: misspelt relationship role in
 mesh_from_regular_grid_column_property

---
 resqpy/multi_processing/wrappers/mesh_mp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/multi_processing/wrappers/mesh_mp.py b/resqpy/multi_processing/wrappers/mesh_mp.py
index 2141bdc..95ff8a6 100644
--- a/resqpy/multi_processing/wrappers/mesh_mp.py
+++ b/resqpy/multi_processing/wrappers/mesh_mp.py
@@ -75,7 +75,7 @@ def mesh_from_regular_grid_column_property_wrapper(
         mesh.write_hdf5()
         mesh.create_xml()
         uuid_list.append(mesh.uuid)
-        model.create_reciprocal_relationship_uuids(mesh.uuid, "sourceObject", prop_uuid, "detinationObject")
+        model.create_reciprocal_relationship_uuids(mesh.uuid, "sourceObject", prop_uuid, "destinationObject")
 
     model.store_epc(quiet = True)
 
-- 
2.43.0


From a61dc1669da3c273d8bd44031bd79e496961d1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 16/66] fix: misspelt tag for points properties

---
 resqpy/property/property_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 83aaf95..48b7f9a 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1875,7 +1875,7 @@ class PropertyCollection():
 
     def _shape_and_type_of_part_get_h5keypair(self, part, part_node, model):
         if self.points_for_part(part):
-            patch_list = rqet.list_of_tag(part_node, 'PatchOfpoints')
+            patch_list = rqet.list_of_tag(part_node, 'PatchOfPoints')
             assert len(patch_list) == 1  # todo: handle more than one patch of points
             return model.h5_uuid_and_path_for_node(rqet.find_tag(patch_list[0], 'Coordinates'))
         else:
-- 
2.43.0


From 574d42e7f275042f7db738e3c0a4fdc82225ae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 17/66] fix: escape special characters in written xml attribute
 values

---
 resqpy/olio/xml_et.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/xml_et.py b/resqpy/olio/xml_et.py
index 2e2d5a0..78ef622 100644
--- a/resqpy/olio/xml_et.py
+++ b/resqpy/olio/xml_et.py
@@ -672,6 +672,12 @@ def creation_date_for_node(node):
     return find_nested_tags_text(node, ['Citation', 'Creation'])
 
 
+def _escaped_attribute(value):
+    """Returns attribute value with characters that are special within a double quoted xml attribute escaped."""
+
+    return value.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')
+
+
 def write_xml_node(xml_fp, root, level = 0, namespace_keys = []):
     """Recursively write an xml node to an open file; return number of nodes written."""
     if root is None:
@@ -708,9 +714,9 @@ def write_xml_node(xml_fp, root, level = 0, namespace_keys = []):
             type_attr, type_pre_colon = colon_prefixed(val)
             attrib_list.append(colon_attrib_key + '="' + type_attr + '"')
         elif ct_special and colon_attrib_key == 'PartName' and val.startswith('obj_'):
-            attrib_list.append(colon_attrib_key + '="/' + val + '"')
+            attrib_list.append(colon_attrib_key + '="/' + _escaped_attribute(val) + '"')
         else:
-            attrib_list.append(colon_attrib_key + '="' + val + '"')
+            attrib_list.append(colon_attrib_key + '="' + _escaped_attribute(val) + '"')
 
     for attrib_ns in attrib_ns_list:
         line += ' xmlns:' + attrib_ns + '="' + ns[attrib_ns] + '"'
-- 
2.43.0


From 6b455a5b8e99d699863f45aeec03cdc636b330b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 18/66] fix: h5_clear_filename_cache called a non-existent
 function

---
 resqpy/model/_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/model/_model.py b/resqpy/model/_model.py
index a46f921..81ba310 100644
--- a/resqpy/model/_model.py
+++ b/resqpy/model/_model.py
@@ -1493,7 +1493,7 @@ class Model():
     def h5_clear_filename_cache(self):
         """Clears the cached filenames associated with all ext uuids."""
 
-        m_h._h5_clear_filename_cache(self)
+        m_h.h5_clear_filename_cache(self)
 
     def create_root(self):
         """Initialises an empty main xml tree for model.
-- 
2.43.0


From 8026793aa9e6c0229756ba7384527010dd540ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 19/66] fix: flag model as modified when removing extra
 metadata, patching a root or adding a relationship

---
 resqpy/model/_forestry.py | 1 +
 resqpy/model/_model.py    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index feaa787..802250c 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -466,6 +466,7 @@ def _patch_root_for_part(model, part, root):
     part_tree = rqet.ElementTree(element = root)
     model.parts_forest[part] = (content_type, uuid, part_tree)
     _add_to_object_parts(model, part)
+    model.set_modified()
 
 
 def _remove_part(model, part_name, remove_relationship_part):
diff --git a/resqpy/model/_model.py b/resqpy/model/_model.py
index 81ba310..44d99be 100644
--- a/resqpy/model/_model.py
+++ b/resqpy/model/_model.py
@@ -2048,6 +2048,7 @@ class Model():
         """
 
         rqet.cut_extra_metadata(self.root_for_uuid(uuid))
+        self.set_modified()
 
     def copy_part_from_other_model(self,
                                    other_model,
-- 
2.43.0


From 3c10ac49c7ccd254409426b2154dfa08119e02d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 20/66] fix: Crs offsets were rounded when written to xml

---
 resqpy/crs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/crs.py b/resqpy/crs.py
index d8366e4..ef58f40 100644
--- a/resqpy/crs.py
+++ b/resqpy/crs.py
@@ -465,15 +465,15 @@ class Crs(BaseResqpy):
 
         xoffset = rqet.SubElement(crs, ns['resqml2'] + 'XOffset')
         xoffset.set(ns['xsi'] + 'type', ns['xsd'] + 'double')
-        xoffset.text = '{0:5.3f}'.format(self.x_offset)
+        xoffset.text = str(self.x_offset)
 
         yoffset = rqet.SubElement(crs, ns['resqml2'] + 'YOffset')
         yoffset.set(ns['xsi'] + 'type', ns['xsd'] + 'double')
-        yoffset.text = '{0:5.3f}'.format(self.y_offset)
+        yoffset.text = str(self.y_offset)
 
         zoffset = rqet.SubElement(crs, ns['resqml2'] + 'ZOffset')
         zoffset.set(ns['xsi'] + 'type', ns['xsd'] + 'double')
-        zoffset.text = '{0:6.4f}'.format(self.z_offset)
+        zoffset.text = str(self.z_offset)
 
         rotation = rqet.SubElement(crs, ns['resqml2'] + 'ArealRotation')
         rotation.set('uom', self.rotation_units)
-- 
2.43.0


From a54f950e39e998d581765ee796b58d729a404d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 21/66] fix: Surface role not restored when loading from xml

---
 resqpy/surface/_surface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index d2b183e..6309d3d 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -225,6 +225,9 @@ class Surface(rqsb.BaseSurface):
     def _load_from_xml(self):
         root_node = self.root
         assert root_node is not None
+        role = rqet.find_tag_text(root_node, 'SurfaceRole')
+        if role is not None:
+            self.surface_role = role
         self.extract_patches(root_node)
         ref_node = rqet.find_tag(root_node, 'RepresentedInterpretation')
         if ref_node is not None:
-- 
2.43.0


From 291532397e69973f20d4911584a7bbc7f1cc9aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 22/66] fix: GeobodyInterpretation domain not restored when
 loading from xml

---
 resqpy/organize/geobody_interpretation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/organize/geobody_interpretation.py b/resqpy/organize/geobody_interpretation.py
index dd0bfb4..b4cc326 100644
--- a/resqpy/organize/geobody_interpretation.py
+++ b/resqpy/organize/geobody_interpretation.py
@@ -67,6 +67,7 @@ class GeobodyInterpretation(BaseResqpy):
             self.geobody_feature = ogf.GeobodyFeature(self.model,
                                                       uuid = self.feature_root.attrib['uuid'],
                                                       feature_name = self.model.title_for_root(self.feature_root))
+        self.domain = rqet.find_tag_text(root_node, 'Domain')
         self.has_occurred_during = ou.extract_has_occurred_during(root_node)
         self.composition = rqet.find_tag_text(root_node, 'GeologicUnitComposition')
         self.implacement = rqet.find_tag_text(root_node, 'GeologicUnitMaterialImplacement')
-- 
2.43.0


From 1b8556ac408dbf824ba56a899a8e9e5516727f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 23/66] fix: GridConnectionSet grid index null value not
 restored when loading from xml

---
 resqpy/fault/_grid_connection_set.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index d094452..729955c 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -419,6 +419,9 @@ class GridConnectionSet(BaseResqpy):
         assert self.count > 0, 'empty grid connection set'
         self.cell_index_pairs_null_value = rqet.find_nested_tags_int(root, ['CellIndexPairs', 'NullValue'])
         self.face_index_pairs_null_value = rqet.find_nested_tags_int(root, ['LocalFacePerCellIndexPairs', 'NullValue'])
+        grid_null_value = rqet.find_nested_tags_int(root, ['GridIndexPairs', 'NullValue'])  # optional array
+        if grid_null_value is not None:
+            self.grid_index_pairs_null_value = grid_null_value
         # postpone loading of hdf5 array data till on-demand load (cell, grid & face index pairs)
         self.grid_list = []
         for child in root:
-- 
2.43.0


From 93bdd9fd4dd4d35587e43723b3e861fdc91d7a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 24/66] fix: StratigraphicUnitInterpretation.is_equivalent
 ignored check_extra_metadata

---
 resqpy/strata/_stratigraphic_unit_interpretation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/strata/_stratigraphic_unit_interpretation.py b/resqpy/strata/_stratigraphic_unit_interpretation.py
index c6fa901..9dc0dd1 100644
--- a/resqpy/strata/_stratigraphic_unit_interpretation.py
+++ b/resqpy/strata/_stratigraphic_unit_interpretation.py
@@ -137,7 +137,7 @@ class StratigraphicUnitInterpretation(rqsgui.GeologicUnitInterpretation):
         returns:
            bool: True if this interpretation is essentially the same as the other; False otherwise
         """
-        if not super().is_equivalent(other):
+        if not super().is_equivalent(other, check_extra_metadata = check_extra_metadata):
             return False
         if self.deposition_mode is not None and other.deposition_mode is not None:
             return self.deposition_mode == other.deposition_mode
-- 
2.43.0


From 96f70714123b2b433ea5fd351257dd98fddbe8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 25/66] fix: missing relationship between grid with dynamic
 geometry and its time series

---
 resqpy/grid/_create_grid_xml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resqpy/grid/_create_grid_xml.py b/resqpy/grid/_create_grid_xml.py
index e66a787..1e3e480 100644
--- a/resqpy/grid/_create_grid_xml.py
+++ b/resqpy/grid/_create_grid_xml.py
@@ -236,6 +236,11 @@ def __add_as_part(add_relationships, ext_uuid, grid, ijk, write_geometry):
             ext_part = rqet.part_name_for_object('obj_EpcExternalPartReference', ext_uuid, prefixed = False)
             ext_node = grid.model.root_for_part(ext_part)
             grid.model.create_reciprocal_relationship(ijk, 'mlToExternalPartProxy', ext_node, 'externalPartProxyToMl')
+            # create 2 way relationship between IjkGrid and TimeSeries for dynamic geometry
+            if grid.time_index is not None and grid.time_series_uuid is not None:
+                grid.model.create_reciprocal_relationship(ijk, 'destinationObject',
+                                                          grid.model.root_for_uuid(grid.time_series_uuid),
+                                                          'sourceObject')
         # create relationship with parent grid
         if grid.parent_window is not None and grid.parent_grid_uuid is not None:
             grid.model.create_reciprocal_relationship(ijk, 'destinationObject',
-- 
2.43.0


From 537586904ebb0d5f3352e4c245c034ba0aced966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 26/66] fix: missing relationship between mesh and its
 supporting representation

---
 resqpy/surface/_mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/surface/_mesh.py b/resqpy/surface/_mesh.py
index 73a1825..372c89a 100644
--- a/resqpy/surface/_mesh.py
+++ b/resqpy/surface/_mesh.py
@@ -305,6 +305,7 @@ class Mesh(rqsb.BaseSurface):
 
         elif self.flavour == 'ref&z':
             self.__create_xml_refandz(p_node, ext_uuid)
+            ref_root = self.model.root_for_uuid(self.ref_uuid)
 
         elif self.flavour == 'reg&z':
             self.__create_xml_regandz(p_node, ext_uuid)
-- 
2.43.0


From fcbd5df351de46d9896d0ffd6543f346f8097d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 27/66] fix: property set relationship with parent set was made
 to the reference node

---
 resqpy/property/_collection_create_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/property/_collection_create_xml.py b/resqpy/property/_collection_create_xml.py
index d35777d..0863cca 100644
--- a/resqpy/property/_collection_create_xml.py
+++ b/resqpy/property/_collection_create_xml.py
@@ -36,7 +36,7 @@ def _create_property_set_xml_add_as_part(collection, ps_node, ps_uuid, add_relat
     if add_relationships:
         # todo: add relationship with time series if time set kind is not 'not a time set'?
         if collection.parent_set_root is not None:
-            collection.model.create_reciprocal_relationship(ps_node, 'destinationObject', parent_set_ref_node,
+            collection.model.create_reciprocal_relationship(ps_node, 'destinationObject', collection.parent_set_root,
                                                             'sourceObject')
         for prop_node in prop_node_list:
             collection.model.create_reciprocal_relationship(ps_node, 'destinationObject', prop_node, 'sourceObject')
-- 
2.43.0


From 4a7f11442f98410a0d5bfeb15342e2ea654cb149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:57 +0000
Subject: [PATCH 28/66] fix: roles of relationships created when copying parts
 between models were reversed

---
 resqpy/model/_forestry.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 802250c..145b13d 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -657,16 +657,16 @@ def _copy_referenced_parts(model, other_model, realization, consolidate, force,
     # log.debug(f'copying {len(relatives[0])} referenced parts for uuid: {uuid} of type: {model.type_of_uuid(uuid)}')
     for ref_uuid_int in relatives[0]:  # using dict in other model instead of duplicated xml
         if ref_uuid_int in model.uuid_part_dict:
-            m_x._create_reciprocal_relationship(model, root_node, 'sourceObject',
-                                                m_c._root_for_uuid(model, ref_uuid_int), 'destinationObject')
+            m_x._create_reciprocal_relationship(model, root_node, 'destinationObject',
+                                                m_c._root_for_uuid(model, ref_uuid_int), 'sourceObject')
             continue
         if not force:
             referred_part = m_c._part_for_uuid(other_model, bu.uuid_from_int(ref_uuid_int))
             if m_c._type_of_part(other_model, referred_part) == 'obj_EpcExternalPartReference':
                 continue
             if referred_part in m_c._list_of_parts(model):
-                m_x._create_reciprocal_relationship(model, root_node, 'sourceObject',
-                                                    m_c._root_for_part(model, referred_part), 'destinationObject')
+                m_x._create_reciprocal_relationship(model, root_node, 'destinationObject',
+                                                    m_c._root_for_part(model, referred_part), 'sourceObject')
                 continue
             resident_part = _copy_part_from_other_model(model,
                                                         other_model,
@@ -701,11 +701,12 @@ def _copy_referenced_parts(model, other_model, realization, consolidate, force,
 
 
 def _copy_relationships_for_present_targets(model, other_model, consolidate, force, resident_uuid, root_node):
-    for source_flag in [True, False]:
+    # related modes: 1 for referring objects, 0 for referenced objects, 2 for other (soft) relationships
+    for source_flag, related_mode in [(True, 1), (False, 0), (True, 2)]:
         other_related_parts = m_c._parts_list_filtered_by_related_uuid(other_model,
                                                                        m_c._list_of_parts(other_model),
                                                                        resident_uuid,
-                                                                       uuid_is_source = source_flag)
+                                                                       related_mode = related_mode)
         for related_part in other_related_parts:
             if not force and (related_part in model.parts_forest):
                 resident_related_part = related_part
-- 
2.43.0


From 25f736195245906ee8c160299b78cb840f11b2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 29/66] fix: zone property kind lookup used a non-existent
 object type

---
 resqpy/property/property_kind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/property/property_kind.py b/resqpy/property/property_kind.py
index 733af18..5ca01e7 100644
--- a/resqpy/property/property_kind.py
+++ b/resqpy/property/property_kind.py
@@ -130,7 +130,7 @@ def create_transmisibility_multiplier_property_kind(model):
 def establish_zone_property_kind(model):
     """Returns zone local property kind object, creating the xml and adding as part if not found in model."""
 
-    zone_pk_uuid = model.uuid(obj_type = 'LocalPropertyKind', title = 'zone')
+    zone_pk_uuid = model.uuid(obj_type = 'PropertyKind', title = 'zone')
     if zone_pk_uuid is None:
         zone_pk = PropertyKind(model, title = 'zone', parent_property_kind = 'discrete')
         zone_pk.create_xml()
-- 
2.43.0


From ce75b90d9d676d894c5346a227189fb24e18366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 30/66] fix: removing a part without references raised an
 exception; its other relationships were not recorded

---
 resqpy/model/_forestry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 145b13d..61b28f0 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -224,6 +224,8 @@ def _add_uuid_relations(model, uuid_int, part):
     if "EpcExternalPart" in part:
         return
     root = model.parts_forest[part][2].getroot()
+    if uuid_int not in model.uuid_rels_dict:  # ensure an entry even if the part has no references
+        model.uuid_rels_dict[uuid_int] = (set(), set(), set())
     for ref_node in rqet.list_obj_references(root):
         if "EpcExternalPart" in rqet.find_tag_text(ref_node, "ContentType"):
             continue
-- 
2.43.0


From 619340416d8e87b2f0912f67b92c40c550ef98f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 31/66] fix: copied references were also recorded as soft
 relations, failing the catalogue consistency check

---
 resqpy/model/_forestry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 61b28f0..69ed8d9 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -237,6 +237,7 @@ def _add_uuid_relations(model, uuid_int, part):
             model.uuid_rels_dict[uuid_int] = ({ref_uuid_int}, set(), set())
         else:
             value[0].add(ref_uuid_int)
+            value[2].discard(ref_uuid_int)  # no longer only softly related
 
         # Adding uuid to the reference uuid key.
         ref_value = model.uuid_rels_dict.get(ref_uuid_int)
@@ -244,6 +245,7 @@ def _add_uuid_relations(model, uuid_int, part):
             model.uuid_rels_dict[ref_uuid_int] = (set(), {uuid_int}, set())
         else:
             ref_value[1].add(uuid_int)
+            ref_value[2].discard(uuid_int)
 
 
 def _copy_dataset_if_requested(copy_from, epc_file, quiet):
-- 
2.43.0


From c320f5a775d198c7d7793104f6fa78006d3f4fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 32/66] fix: flag model as modified when a reference is patched
 to a consolidated equivalent

---
 resqpy/model/_xml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/model/_xml.py b/resqpy/model/_xml.py
index 9653e10..62dc9d0 100644
--- a/resqpy/model/_xml.py
+++ b/resqpy/model/_xml.py
@@ -121,6 +121,7 @@ def _referenced_node(model, ref_node, consolidate = False):
                 title = rqet.citation_title_for_node(node)
                 if title:
                     title_node.text = str(title)
+            model.set_modified()
     else:
         node = model.root_for_part(model.part_for_uuid(uuid))
     # log.debug(f'ref_node return node: {node}')
-- 
2.43.0


From 24b1b97b286272fef3b39ede25cea4b4c0033bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 33/66] fix: removing an external part reference raised an
 exception part way through

---
 resqpy/model/_forestry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 69ed8d9..ce0a21e 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -495,7 +495,7 @@ def _remove_part(model, part_name, remove_relationship_part):
     _del_uuid_to_part(model, part_name)
     _del_uuid_relations(model, part_name)
     model.parts_forest.pop(part_name)
-    model.object_parts.pop(part_name)
+    model.object_parts.pop(part_name, None)
     _remove_part_from_main_tree(model, part_name)
     model.set_modified()
 
@@ -504,7 +504,9 @@ def _del_uuid_relations(model, part_name):
     uuid = model.uuid_for_part(part_name)
     if uuid is None:
         return
-    relations = model.uuid_rels_dict[uuid.int]
+    relations = model.uuid_rels_dict.get(uuid.int)
+    if relations is None:  # eg. hdf5 external parts do not have an entry
+        return
     for related_uuid_int in relations[0]:
         model.uuid_rels_dict[related_uuid_int][1].remove(uuid.int)
     for related_uuid_int in relations[1]:
-- 
2.43.0


From b1b5780c8d0d745b6ef3c32ddd195a14857e0f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 34/66] fix: loading an epc holding a file which is not a
 RESQML part raised an exception

---
 resqpy/model/_forestry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index ce0a21e..37c82a2 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -129,7 +129,7 @@ def _tidy_up_forests(model, tidy_main_tree = True, tidy_others = False, remove_e
             _remove_part_from_main_tree(model, part)
         _del_uuid_to_part(model, part)
         del model.parts_forest[part]
-        model.object_parts.pop(part)
+        model.object_parts.pop(part, None)
     deletion_list = []
     for part, info in model.rels_forest.items():
         if info == (None, None):
@@ -140,6 +140,7 @@ def _tidy_up_forests(model, tidy_main_tree = True, tidy_others = False, remove_e
             _remove_part_from_main_tree(model, part)
         del model.rels_forest[part]
     if tidy_others:
+        deletion_list = []
         for part, info in model.other_forest.items():
             if info == (None, None):
                 deletion_list.append(part)
-- 
2.43.0


From 2bd88532d374dc1e5cd0173a8329fb5c89f5c585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 35/66] fix: uom filter ignored when inheriting parts
 selectively from another property collection

---
 resqpy/property/_collection_add_part.py | 4 +++-
 resqpy/property/property_collection.py  | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/resqpy/property/_collection_add_part.py b/resqpy/property/_collection_add_part.py
index 24cdb97..1af168b 100644
--- a/resqpy/property/_collection_add_part.py
+++ b/resqpy/property/_collection_add_part.py
@@ -17,7 +17,7 @@ import resqpy.property._collection_get_attributes as pcga
 
 def _add_selected_part_from_other_dict(collection, part, other, realization, support_uuid, uuid, continuous,
                                        categorical, count, points, indexable, property_kind, facet_type, facet,
-                                       citation_title, citation_title_match_mode, time_series_uuid, time_index,
+                                       citation_title, citation_title_match_mode, time_series_uuid, time_index, uom,
                                        string_lookup_uuid, related_uuid, const_value, extra, ignore_clashes):
     if _check_not_none_and_not_equals(realization, other.realization_for_part, part):
         return
@@ -47,6 +47,8 @@ def _add_selected_part_from_other_dict(collection, part, other, realization, sup
         return
     if _check_not_none_and_not_equals(time_index, other.time_index_for_part, part):
         return
+    if _check_not_none_and_not_equals(uom, other.uom_for_part, part):
+        return
     if _check_not_none_and_not_uuid_match(string_lookup_uuid, other.string_lookup_uuid_for_part, part):
         return
     if _check_not_none_and_not_equals(const_value, other.constant_value_for_part, part):
diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 48b7f9a..846dac3 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -496,8 +496,8 @@ class PropertyCollection():
             pcap._add_selected_part_from_other_dict(self, part, other, realization, support_uuid, uuid, continuous,
                                                     categorical, count, points, indexable, property_kind, facet_type,
                                                     facet, citation_title, citation_title_match_mode, time_series_uuid,
-                                                    time_index, string_lookup_uuid, related_uuid, const_value, extra,
-                                                    ignore_clashes)
+                                                    time_index, uom, string_lookup_uuid, related_uuid, const_value,
+                                                    extra, ignore_clashes)
 
     def inherit_similar_parts_for_time_series_from_other_collection(self,
                                                                     other,
-- 
2.43.0


From 5af2e6f87650ca601f0c197b5666666e50ac058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 36/66] fix: tolerance not passed on when computing half cell
 transmissibilities

---
 resqpy/grid/_transmissibility.py   | 2 +-
 resqpy/unstructured/_prism_grid.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_transmissibility.py b/resqpy/grid/_transmissibility.py
index 1c3bf3c..32be92f 100644
--- a/resqpy/grid/_transmissibility.py
+++ b/resqpy/grid/_transmissibility.py
@@ -394,7 +394,7 @@ def half_cell_transmissibility(grid, use_property = True, realization = None, to
 
     if half_t is None:
         # note: properties must be identifiable in property_collection
-        half_t = rqtr.half_cell_t(grid, realization = realization)
+        half_t = rqtr.half_cell_t(grid, realization = realization, tolerance = tolerance)
 
     if realization is None:
         grid.array_half_cell_t = half_t
diff --git a/resqpy/unstructured/_prism_grid.py b/resqpy/unstructured/_prism_grid.py
index 7551487..95f0d9b 100644
--- a/resqpy/unstructured/_prism_grid.py
+++ b/resqpy/unstructured/_prism_grid.py
@@ -685,7 +685,8 @@ class VerticalPrismGrid(PrismGrid):
             half_t = rqtr.half_cell_t_vertical_prism(self,
                                                      triple_perm_horizontal = triple_perm_horizontal,
                                                      perm_k = perm_k,
-                                                     ntg = ntg)
+                                                     ntg = ntg,
+                                                     tolerance = tolerance)
 
         if realization is None:
             self.array_half_cell_t = half_t
-- 
2.43.0


From b6da9ef230db2f5214fdcb1252e74300fadc680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 37/66] fix: realization_list ignored sort_list argument

---
 resqpy/property/property_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 846dac3..8b55c6a 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1000,7 +1000,7 @@ class PropertyCollection():
     def realization_list(self, sort_list = True):
         """Returns a list of unique realization numbers present in the collection."""
 
-        return self.unique_element_list(0)
+        return self.unique_element_list(0, sort_list = sort_list)
 
     def support_uuid_for_part(self, part):
         """Returns supporting representation object's uuid that the property relates to.
-- 
2.43.0


From 9047e660897164280f32140923dddb0eb4b68396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 38/66] fix: add_similar_to_imported_list ignored discrete and
 string_lookup_uuid arguments

---
 resqpy/property/property_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 8b55c6a..94a1208 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -2381,7 +2381,7 @@ class PropertyCollection():
         args = {}
         args['keyword'] = get_arg(keyword, get_arg(title, similar.title))
         assert args['keyword'] is not None
-        args['discrete'] = get_arg(uom, not similar.is_continuous())
+        args['discrete'] = get_arg(discrete, not similar.is_continuous())
         args['uom'] = get_arg(uom, similar.uom())
         args['time_index'] = get_arg(time_index, similar.time_index())
         args['null_value'] = get_arg(null_value, similar.null_value())
@@ -2395,7 +2395,7 @@ class PropertyCollection():
         args['const_value'] = const_value  # NB. not inherited
         args['points'] = get_arg(points, similar.is_points())
         args['time_series_uuid'] = get_arg(time_series_uuid, similar.time_series_uuid())
-        args['string_lookup_uuid'] = get_arg(time_series_uuid, similar.string_lookup_uuid())
+        args['string_lookup_uuid'] = get_arg(string_lookup_uuid, similar.string_lookup_uuid())
         em = similar.extra_metadata if hasattr(similar, 'extra_metadata') else {}
         args['source_info'] = get_arg(source_info, em.get('source'))
 
-- 
2.43.0


From 077ed9058224a805cc003cadfcd0c0ef3d86726e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 39/66] fix: corp_eight_mode argument of import_nexus was
 ignored

---
 resqpy/rq_import/_import_nexus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/rq_import/_import_nexus.py b/resqpy/rq_import/_import_nexus.py
index 44342dc..f9d122c 100644
--- a/resqpy/rq_import/_import_nexus.py
+++ b/resqpy/rq_import/_import_nexus.py
@@ -208,6 +208,7 @@ def import_nexus(
                 corp_bin = True,
                 comment_char = None,  # comment char will be detected automatically
                 data_free_of_comments = False,
+                eight_mode = corp_eight_mode,
                 use_binary = use_binary)
         else:
             cp_binary_file = abt.cp_binary_filename(
@@ -226,6 +227,7 @@ def import_nexus(
                     corp_bin = False,
                     comment_char = None,  # comment char will be detected automatically
                     data_free_of_comments = False,
+                    eight_mode = corp_eight_mode,
                     use_binary = use_binary)
                 if use_binary:
                     wd.write_pure_binary_data(cp_binary_file,
-- 
2.43.0


From c930971f74e7470d3833a3865447772cf3b4d9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 40/66] fix: masked argument of split_horizons_points was
 ignored

---
 resqpy/grid/_points_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index 26ccc95..a750efd 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -1293,4 +1293,6 @@ def split_horizons_points(grid, min_k0 = None, max_k0 = None, masked = False):
         hp[:, :, :, 1, 0, :] = points[min_k0:end_k0, 1:, :-1, :]
         hp[:, :, :, 0, 1, :] = points[min_k0:end_k0, :-1, 1:, :]
         hp[:, :, :, 1, 1, :] = points[min_k0:end_k0, 1:, 1:, :]
+    if masked:
+        hp = ma.masked_invalid(hp)
     return hp
-- 
2.43.0


From f970a8c33f4c1a89fe02f827fc088944de5bc3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 41/66] fix: uuid_is_source argument of
 parts_list_filtered_by_related_uuid was ignored

---
 resqpy/model/_catalogue.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/model/_catalogue.py b/resqpy/model/_catalogue.py
index 67b0a4f..3cb5c07 100644
--- a/resqpy/model/_catalogue.py
+++ b/resqpy/model/_catalogue.py
@@ -403,6 +403,8 @@ def _parts_list_filtered_by_related_uuid(model, parts_list, uuid, uuid_is_source
         all_relations = relations[0] | relations[1] | relations[2]
     else:
         all_relations = relations[related_mode]
+    if uuid_is_source is not None:
+        all_relations = all_relations & relations[0 if uuid_is_source else 1]
 
     filtered_list = []
     for part in parts_list:
-- 
2.43.0


From 7b506d0b83874d6126fe7fefc090406cfbf9aa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 42/66] fix: active_only ignored when blocking a well against a
 grid from its trajectory

---
 resqpy/grid_surface/_blocked_well_populate.py | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/resqpy/grid_surface/_blocked_well_populate.py b/resqpy/grid_surface/_blocked_well_populate.py
index 9a167e0..da0f710 100644
--- a/resqpy/grid_surface/_blocked_well_populate.py
+++ b/resqpy/grid_surface/_blocked_well_populate.py
@@ -188,13 +188,15 @@ def populate_blocked_well_from_trajectory(blocked_well,
             if rqgs.point_is_within_cell(traj_xyz[-1], grid, kji0):
                 # well terminates within cell: add termination blocked interval (or unblocked if inactive cell)
                 log.debug(f'adding termination interval for cell {kji0}')
-                # todo: check for inactive cell and make an unblocked interval instead, if required
                 node_mds_list.append(trajectory.measured_depths[-1])
                 node_count += 1
-                grid_indices_list.append(0)
-                cell_indices_list.append(grid.natural_cell_index(kji0))
-                cell_count += 1
-                face_pairs_list.append(((entry_axis, entry_polarity), (-1, -1)))
+                if active_only and grid.inactive is not None and grid.inactive[tuple(kji0)]:
+                    grid_indices_list.append(-1)
+                else:
+                    grid_indices_list.append(0)
+                    cell_indices_list.append(grid.natural_cell_index(kji0))
+                    cell_count += 1
+                    face_pairs_list.append(((entry_axis, entry_polarity), (-1, -1)))
                 break
             else:
                 next_cell_info = __forward_nudge(axis, entry_axis, entry_knot, entry_polarity, entry_xyz, grid, kissed,
@@ -206,13 +208,15 @@ def populate_blocked_well_from_trajectory(blocked_well,
         else:
             exit_fraction = __segment_fraction(traj_xyz, exit_knot, exit_xyz)
             log.debug(f'adding blocked interval for cell kji0: {kji0}')
-            # todo: check for inactive cell and make an unblocked interval instead, if required
             node_mds_list.append(__back_calculated_md(trajectory, exit_knot, exit_fraction))
             node_count += 1
-            grid_indices_list.append(0)
-            cell_indices_list.append(grid.natural_cell_index(kji0))
-            cell_count += 1
-            face_pairs_list.append(((entry_axis, entry_polarity), (exit_axis, exit_polarity)))
+            if active_only and grid.inactive is not None and grid.inactive[tuple(kji0)]:
+                grid_indices_list.append(-1)
+            else:
+                grid_indices_list.append(0)
+                cell_indices_list.append(grid.natural_cell_index(kji0))
+                cell_count += 1
+                face_pairs_list.append(((entry_axis, entry_polarity), (exit_axis, exit_polarity)))
 
             previous_kji0 = kji0
             # log.debug(f'previous kji0 set to {previous_kji0}')
-- 
2.43.0


From 7615c2c7ef2ddd25d4aa8a6be832366b90023dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 43/66] fix: include_units argument of
 WellIntervalPropertyCollection.to_pandas was ignored

---
 resqpy/property/well_interval_property_collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/property/well_interval_property_collection.py b/resqpy/property/well_interval_property_collection.py
index 6288880..d43c05c 100644
--- a/resqpy/property/well_interval_property_collection.py
+++ b/resqpy/property/well_interval_property_collection.py
@@ -36,6 +36,8 @@ class WellIntervalPropertyCollection(rqp_pc.PropertyCollection):
         data = {}
         for log in self.logs():
             col_name = log.name
+            if include_units and log.uom:
+                col_name += f' ({log.uom})'
             values = log.values()
             data[col_name] = values
         df = pd.DataFrame(data = data, index = cell_indices)
-- 
2.43.0


From 11a478899f5bf34ee0b6bd8b5cf2dd9ebc2231e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:02 +0000
Subject: [PATCH 44/66] fix: title_suffix argument of
 FaultInterpretation.create_xml was ignored

---
 resqpy/organize/fault_interpretation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/organize/fault_interpretation.py b/resqpy/organize/fault_interpretation.py
index fb89a9d..56b4222 100644
--- a/resqpy/organize/fault_interpretation.py
+++ b/resqpy/organize/fault_interpretation.py
@@ -167,11 +167,11 @@ class FaultInterpretation(BaseResqpy):
         assert self.is_normal == (self.is_listric is None)
         if not self.title:
             if tectonic_boundary_feature_root is not None:
-                title = rqet.find_nested_tags_text(tectonic_boundary_feature_root, ['Citation', 'Title'])
+                self.title = rqet.find_nested_tags_text(tectonic_boundary_feature_root, ['Citation', 'Title'])
             else:
-                title = 'fault interpretation'
-            if title_suffix:
-                title += ' ' + title_suffix
+                self.title = 'fault interpretation'
+        if title_suffix:
+            self.title += ' ' + title_suffix
 
         if reuse and self.try_reuse():
             return self.root
-- 
2.43.0


From e47f727b71089f199324dfb33c82b6b7bbf23e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:33 +0000
Subject: [PATCH 45/66] fix: new_epc_file argument of
 add_one_blocked_well_property was ignored

---
 resqpy/derived_model/_add_one_blocked_well_property.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resqpy/derived_model/_add_one_blocked_well_property.py b/resqpy/derived_model/_add_one_blocked_well_property.py
index 2826713..a4f220f 100644
--- a/resqpy/derived_model/_add_one_blocked_well_property.py
+++ b/resqpy/derived_model/_add_one_blocked_well_property.py
@@ -73,6 +73,14 @@ def add_one_blocked_well_property(epc_file,
     # open up model and establish grid object
     model = rq.Model(epc_file)
 
+    if new_epc_file:  # copy blocked well, dependencies, and any objects referred to by the new property
+        source_model = model
+        model = rq.new_model(new_epc_file)
+        model.copy_uuid_from_other_model(source_model, blocked_well_uuid, consolidate = False)
+        for uuid in (time_series_uuid, string_lookup_uuid, local_property_kind_uuid):
+            if uuid is not None:
+                model.copy_uuid_from_other_model(source_model, uuid, consolidate = False)
+
     blocked_well = rqw.BlockedWell(model, uuid = blocked_well_uuid)
     assert blocked_well is not None, f'no blocked well object found with uuid {blocked_well_uuid}'
 
-- 
2.43.0


From 75596970e9031518ab9520971a3575e4ab34790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:33 +0000
Subject: [PATCH 46/66] fix: return_64_bit argument of load_array_from_ab_file
 was ignored

---
 resqpy/olio/ab_toolbox.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/olio/ab_toolbox.py b/resqpy/olio/ab_toolbox.py
index 5614620..466b376 100644
--- a/resqpy/olio/ab_toolbox.py
+++ b/resqpy/olio/ab_toolbox.py
@@ -27,6 +27,8 @@ def load_array_from_ab_file(file_name, shape, return_64_bit = False):
             log.warning('binary file contains more data than expected: ' + file_name)
     except Exception:
         pass
+    if return_64_bit and a.dtype.kind in 'fiu':
+        a = a.astype(np.dtype(a.dtype.kind + '8'), copy = False)
     return a
 
 
-- 
2.43.0


From c32121c04077f24676800353f9a3e054340f3b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:35 +0000
Subject: [PATCH 47/66] fix: default values stated in documentation of some
 arguments did not match those in force

---
 resqpy/derived_model/_gather_ensemble.py            | 2 +-
 resqpy/fault/_gcs_functions.py                      | 4 ++--
 resqpy/grid/_cell_properties.py                     | 6 +++---
 resqpy/grid/_grid.py                                | 8 ++++----
 resqpy/grid/_xyz.py                                 | 2 +-
 resqpy/grid_surface/grid_surface_cuda.py            | 4 ++--
 resqpy/lines/_common.py                             | 2 +-
 resqpy/multi_processing/wrappers/grid_surface_mp.py | 2 +-
 resqpy/property/grid_property_collection.py         | 3 ++-
 resqpy/rq_import/_import_nexus.py                   | 2 +-
 resqpy/rq_import/_import_vdb_all_grids.py           | 2 +-
 resqpy/strata/_stratigraphic_unit_interpretation.py | 2 +-
 resqpy/well/_trajectory.py                          | 4 ++--
 13 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/resqpy/derived_model/_gather_ensemble.py b/resqpy/derived_model/_gather_ensemble.py
index 0910a1f..43095f1 100644
--- a/resqpy/derived_model/_gather_ensemble.py
+++ b/resqpy/derived_model/_gather_ensemble.py
@@ -28,7 +28,7 @@ def gather_ensemble(case_epc_list,
        shared_grids (boolean, default True): if True and consolidate is True, then grids are also consolidated
           with equivalence based on extent of grids (and citation titles if grid extents within the first case
           are not distinct); ignored if consolidate is False
-       shared_time_series (boolean, default False): if True and consolidate is True, then time series are consolidated
+       shared_time_series (boolean, default True): if True and consolidate is True, then time series are consolidated
           with equivalence based on title, without checking that timestamp lists are the same
        create_epc_lookup (boolean, default True): if True, a StringLookupTable is created to map from realization
           number to case epc path
diff --git a/resqpy/fault/_gcs_functions.py b/resqpy/fault/_gcs_functions.py
index 0d54abb..dc13e30 100644
--- a/resqpy/fault/_gcs_functions.py
+++ b/resqpy/fault/_gcs_functions.py
@@ -80,7 +80,7 @@ def k_gap_connection_set(grid, skip_inactive = True, feature_name = 'k gap conne
        grid (grid.Grid): the grid for which a K gap connection set is required
        skip_inactive (boolean, default True): if True, connections are not included where there is an inactive cell
           above or below the pinchout; if False, such connections are included
-       feature_name (string, default 'pinchout'): the name to use as citation title in the feature and interpretation
+       feature_name (string, default 'k gap connection'): the name to use as citation title in the feature and interpretation
        tolerance (float, default 0.001): the minimum vertical distance below which a K gap is deemed to be zero
           thickness; units are implicitly the z units of the coordinate reference system used by grid
 
@@ -256,7 +256,7 @@ def grid_columns_property_from_gcs_property(model,
         gcs_property_uuid (UUID): the uuid of the existing grid connection set property
         null_value (float or int, default NaN): the value to use in columns where no K faces are present in the gcs
         title (str, optional): the title for the new grid property; defaults to that of the gcs property
-        multiple_handling (str, default 'mean'): one of 'default', 'mean', 'min', 'max', 'min_k', 'max_k', 'exception';
+        multiple_handling (str, default 'default'): one of 'default', 'mean', 'min', 'max', 'min_k', 'max_k', 'exception';
             determines how a value is generated when more than one K face is present in the gcs for a column
 
     returns:
diff --git a/resqpy/grid/_cell_properties.py b/resqpy/grid/_cell_properties.py
index d7ca8da..47baf5a 100644
--- a/resqpy/grid/_cell_properties.py
+++ b/resqpy/grid/_cell_properties.py
@@ -28,10 +28,10 @@ def thickness(grid,
                              thickness is required; zero based indexing
        cache_resqml_array (boolean, default True): If True, the raw points array from the hdf5 file
                              is cached in memory, but only if it is needed to generate the thickness
-       cache_cp_array (boolean, default True): If True, an array of corner points is generated and
+       cache_cp_array (boolean, default False): If True, an array of corner points is generated and
                              added as an attribute of the grid, with attribute name corner_points, but only
                              if it is needed in order to generate the thickness
-       cache_thickness_array (boolean, default False): if True, thicknesses are generated for all cells in
+       cache_thickness_array (boolean, default True): if True, thicknesses are generated for all cells in
                              the grid and added as an attribute named array_thickness
        property_collection (property:GridPropertyCollection, optional): If not None, this collection
                              is probed for a suitable thickness or cell length property which is used
@@ -147,7 +147,7 @@ def volume(grid,
        cache_cp_array (boolean, default False): If True, an array of corner points is generated and
                              added as an attribute of the grid, with attribute name corner_points, but only
                              if it is needed in order to generate the volume
-       cache_volume_array (boolean, default False): if True, volumes are generated for all cells in
+       cache_volume_array (boolean, default True): if True, volumes are generated for all cells in
                              the grid and added as an attribute named array_volume
        property_collection (property:GridPropertyCollection, optional): If not None, this collection
                              is probed for a suitable volume property which is used preferentially
diff --git a/resqpy/grid/_grid.py b/resqpy/grid/_grid.py
index a82e80a..aea5cc4 100644
--- a/resqpy/grid/_grid.py
+++ b/resqpy/grid/_grid.py
@@ -1838,7 +1838,7 @@ class Grid(BaseResqpy):
            cache_cp_array (boolean, default False): If True, an array of corner points is generated and
                                  added as an attribute of the grid, with attribute name corner_points, but only
                                  if it is needed in order to generate the volume
-           cache_volume_array (boolean, default False): if True, volumes are generated for all cells in
+           cache_volume_array (boolean, default True): if True, volumes are generated for all cells in
                                  the grid and added as an attribute named array_volume
            property_collection (property:GridPropertyCollection, optional): If not None, this collection
                                  is probed for a suitable volume property which is used preferentially
@@ -1899,10 +1899,10 @@ class Grid(BaseResqpy):
                                  thickness is required; zero based indexing
            cache_resqml_array (boolean, default True): If True, the raw points array from the hdf5 file
                                  is cached in memory, but only if it is needed to generate the thickness
-           cache_cp_array (boolean, default True): If True, an array of corner points is generated and
+           cache_cp_array (boolean, default False): If True, an array of corner points is generated and
                                  added as an attribute of the grid, with attribute name corner_points, but only
                                  if it is needed in order to generate the thickness
-           cache_thickness_array (boolean, default False): if True, thicknesses are generated for all cells in
+           cache_thickness_array (boolean, default True): if True, thicknesses are generated for all cells in
                                  the grid and added as an attribute named array_thickness
            property_collection (property:GridPropertyCollection, optional): If not None, this collection
                                  is probed for a suitable thickness or cell length property which is used
@@ -2098,7 +2098,7 @@ class Grid(BaseResqpy):
 
         arguments:
            points_root (optional): if not None, the xml root node for the points data (speed optimization)
-           lazy (boolean, default True): if True, only the 8 outermost logical corners of the grid are used
+           lazy (boolean, default False): if True, only the 8 outermost logical corners of the grid are used
               to determine the ranges of xyz and hence the centre; if False, all the points in the entire
               grid are scanned to determine the xyz ranges in an exhaustive manner
            local (boolean, default False): if True, the xyz values that are returned are in the local
diff --git a/resqpy/grid/_xyz.py b/resqpy/grid/_xyz.py
index ad05335..de47eea 100644
--- a/resqpy/grid/_xyz.py
+++ b/resqpy/grid/_xyz.py
@@ -68,7 +68,7 @@ def xyz_box_centre(grid, points_root = None, lazy = False, local = False):
 
     arguments:
        points_root (optional): if not None, the xml root node for the points data (speed optimization)
-       lazy (boolean, default True): if True, only the 8 outermost logical corners of the grid are used
+       lazy (boolean, default False): if True, only the 8 outermost logical corners of the grid are used
           to determine the ranges of xyz and hence the centre; if False, all the points in the entire
           grid are scanned to determine the xyz ranges in an exhaustive manner
        local (boolean, default False): if True, the xyz values that are returned are in the local
diff --git a/resqpy/grid_surface/grid_surface_cuda.py b/resqpy/grid_surface/grid_surface_cuda.py
index f5ea83c..4804131 100644
--- a/resqpy/grid_surface/grid_surface_cuda.py
+++ b/resqpy/grid_surface/grid_surface_cuda.py
@@ -99,9 +99,9 @@ def project_polygons_to_surfaces(
         dx (float): cell's thickness along x-axis.
         dy (float): cell's thickness along y-axis.
         dz (float): cell's thickness along z-axis.
-        l_tol (float, default 0.0): a fraction of the line length to allow for an intersection to be found
+        l_tol (float): a fraction of the line length to allow for an intersection to be found
             just outside the segment.
-        t_tol (float, default 0.0): a fraction of the triangle size to allow for an intersection to be found
+        t_tol (float): a fraction of the triangle size to allow for an intersection to be found
             just outside the triangle.
 
     returns:
diff --git a/resqpy/lines/_common.py b/resqpy/lines/_common.py
index 51c91cf..4dad765 100644
--- a/resqpy/lines/_common.py
+++ b/resqpy/lines/_common.py
@@ -163,7 +163,7 @@ def spline(points,
         tangent_vectors (numpy float array of shape (N, 3), optional) if present, tangent
             vectors to use in the construction of the cubic spline; if None, tangents are
             calculated
-        tangent_weight (string, default 'linear'): one of 'linear', 'square' or 'cube', giving
+        tangent_weight (string, default 'square'): one of 'linear', 'square' or 'cube', giving
             increased weight to relatively shorter of 2 line segments at each knot when computing
             tangent vectors; ignored if tangent_vectors is not None
         min_subdivisions (int, default 1): the resulting line will have at least this number
diff --git a/resqpy/multi_processing/wrappers/grid_surface_mp.py b/resqpy/multi_processing/wrappers/grid_surface_mp.py
index f9c2c9a..1f4c449 100644
--- a/resqpy/multi_processing/wrappers/grid_surface_mp.py
+++ b/resqpy/multi_processing/wrappers/grid_surface_mp.py
@@ -63,7 +63,7 @@ def find_faces_to_represent_surface_regular_wrapper(
         random_agitation (bool, default False): if True, the agitation is by a small random distance; if False,
            a constant positive shift of 5.0e-6 is applied to x, y & z values; ignored if agitate is False
         feature_type (str, default 'fault'): one of 'fault', 'horizon', or 'geobody boundary'
-        trimmed (bool, default True): if True the surface has already been trimmed
+        trimmed (bool, default False): if True the surface has already been trimmed
         is_curtain (bool, default False): if True, only the top layer is intersected with the surface and bisector
            is generated as a column property if requested
         extend_fault_representation (bool, default False): if True, the representation is extended with a flange
diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index badec26..1f199b6 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -376,7 +376,8 @@ class GridPropertyCollection(rqp.PropertyCollection):
            keyword (string): the keyword to associate with the imported data, which will become the citation title
            extent_kji (optional, default None): if present, [nk, nj, ni] being the extent (shape) of the array to be imported;
               if None, the shape of the grid associated with this collection is used
-           discrete (boolean, optional, default False): if True, integer data is imported, if False, float data
+           discrete (boolean, optional, default None): if True, integer data is imported, if False, float data; if None,
+              the type of data is inferred from the file name extension
            uom (string, optional, default None): the resqml units of measure applicable to the data
            time_index (integer, optional, default None): if present, this array is for time varying data and this value is the
               index into a time series associated with this collection
diff --git a/resqpy/rq_import/_import_nexus.py b/resqpy/rq_import/_import_nexus.py
index f9d122c..2e4dafc 100644
--- a/resqpy/rq_import/_import_nexus.py
+++ b/resqpy/rq_import/_import_nexus.py
@@ -114,7 +114,7 @@ def import_nexus(
           only relevant if vdb_file is not None; see also vdb_property_list
         - vdb_recurrent_properties (bool, default False): if True, recurrent vdb properties are imported;
           only relevant if vdb_file is not None; see also vdb_property_list
-        - timestep_selection (str, default 'all): 'first', 'last', 'first and last', 'all',
+        - timestep_selection (str, default 'all'): 'first', 'last', 'first and last', 'all',
           or list of ints being reporting timestep numbers; ignored if vdb_recurrent_properties is False
         - use_compressed_time_series (bool, default True): generates reduced time series containing
           timesteps with recurrent properties from vdb, rather than full nexus summary time series
diff --git a/resqpy/rq_import/_import_vdb_all_grids.py b/resqpy/rq_import/_import_vdb_all_grids.py
index 0930c70..4da05af 100644
--- a/resqpy/rq_import/_import_vdb_all_grids.py
+++ b/resqpy/rq_import/_import_vdb_all_grids.py
@@ -67,7 +67,7 @@ def import_vdb_all_grids(resqml_file_root,
         - vdb_recurrent_properties (bool, default False): if True, recurrent vdb properties are imported;
           only relevant if vdb_file is not None; see also vdb_property_list
         - decoarsen (bool, default True): where ICOARSE is present, redistribute data to uncoarse cells
-        - timestep_selection (str, default 'all): 'first', 'last', 'first and last', 'all', or list of ints
+        - timestep_selection (str, default 'all'): 'first', 'last', 'first and last', 'all', or list of ints
           being reporting timestep numbers to include; ignored if vdb_recurrent_properties is False
         - create_property_set (bool, default False): if True a resqml PropertySet is created
         - vdb_property_list (list of str, optional): list of vdb static and/or recurrent properties to
diff --git a/resqpy/strata/_stratigraphic_unit_interpretation.py b/resqpy/strata/_stratigraphic_unit_interpretation.py
index 9dc0dd1..dbcd20f 100644
--- a/resqpy/strata/_stratigraphic_unit_interpretation.py
+++ b/resqpy/strata/_stratigraphic_unit_interpretation.py
@@ -48,7 +48,7 @@ class StratigraphicUnitInterpretation(rqsgui.GeologicUnitInterpretation):
               this object will be initialised
            title (str, optional): the citation title (feature name) of the new interpretation;
               ignored if uuid is not None
-           domain (str, default 'time'): 'time', 'depth' or 'mixed', being the domain of the interpretation;
+           domain (str, default 'depth'): 'time', 'depth' or 'mixed', being the domain of the interpretation;
               ignored if uuid is not None
            stratigraphic_unit_feature (StratigraphicUnitFeature, optional): the feature which this object is
               an interpretation of; ignored if uuid is not None
diff --git a/resqpy/well/_trajectory.py b/resqpy/well/_trajectory.py
index e2ec38e..3c738b9 100644
--- a/resqpy/well/_trajectory.py
+++ b/resqpy/well/_trajectory.py
@@ -569,7 +569,7 @@ class Trajectory(BaseResqpy):
               if True or no tangents vectors exist then they are computed
            write_hdf5 (boolean, default False): if True and new tangent vectors are computed then the array is also written
               directly to the hdf5 file
-           weight (string, default 'linear'): one of 'linear', 'square', 'cube'; if linear, each tangent is the mean of the
+           weight (string, default 'cube'): one of 'linear', 'square', 'cube'; if linear, each tangent is the mean of the
               direction vectors of the two trjectory segments which meet at the knot; the square and cube options give
               increased weight to the direction vector of shorter segments (usually better)
 
@@ -716,7 +716,7 @@ class Trajectory(BaseResqpy):
            max_segment_length (float, optional): if present, each segment of this trajectory is subdivided so
               that the naive subdivided length is not greater than the specified length
            max_degrees_per_knot (float, default 5.0): the maximum number of degrees
-           use_tangents_if_present (boolean, default False): if True, any tangent vectors in this trajectory
+           use_tangents_if_present (boolean, default True): if True, any tangent vectors in this trajectory
               are used during splining
            store_tangents_if_calculated (boolean, default True): if True any tangents calculated by the method
               are stored in the object (causing any previous tangents to be discarded); however, the new tangents
-- 
2.43.0


From 87f2929fd1dd2442571cabb9760a424bfdf092f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:45 +0000
Subject: [PATCH 48/66] fix: composite_bounding_box overwrote the first box of
 the list passed in

---
 resqpy/grid/_xyz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_xyz.py b/resqpy/grid/_xyz.py
index de47eea..de0c23f 100644
--- a/resqpy/grid/_xyz.py
+++ b/resqpy/grid/_xyz.py
@@ -97,7 +97,7 @@ def bounding_box(grid, cell_kji0, points_root = None, cache_cp_array = False):
 def composite_bounding_box(grid, bounding_box_list):
     """Returns the xyz box which envelopes all the boxes in the list, as a numpy array of shape (2, 3)."""
 
-    result = bounding_box_list[0]
+    result = np.array(bounding_box_list[0])
     for box in bounding_box_list[1:]:
         result[0] = np.minimum(result[0], box[0])
         result[1] = np.maximum(result[1], box[1])
-- 
2.43.0


From 363a6df48d4d967e570afc8f02ffccc01b68d35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:45 +0000
Subject: [PATCH 49/66] fix: finding faces for a surface altered the points, or
 crs uuid, of the surface

---
 resqpy/grid_surface/_find_faces.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index fdb8e4d..2c99814 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -90,7 +90,7 @@ def find_faces_to_represent_surface_staffa(grid, surface, name, feature_type = "
         i_faces = None
 
     # log.debug('finding surface triangle boxes')
-    t, p = surface.triangles_and_points()
+    t, p = surface.triangles_and_points(copy = True)
     if not bu.matching_uuids(grid.crs_uuid, surface.crs_uuid):
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
@@ -261,7 +261,7 @@ def find_faces_to_represent_surface_regular(
         log.debug("making all triangles clockwise")
         # note: following will shuffle order of vertices within t cached in surface
         surface.make_all_clockwise_xy(reorient = True)
-    t, p = surface.triangles_and_points()
+    t, p = surface.triangles_and_points(copy = True)
     assert t is not None and p is not None, f"surface {surface.title} is empty"
     if agitate:
         if random_agitation:
@@ -275,7 +275,6 @@ def find_faces_to_represent_surface_regular(
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
         s_crs.convert_array_to(grid.crs, p)
-        surface.crs_uuid = grid.crs.uuid
         log.debug(f"surface: {surface.title}; p0: {p[0]}; crs uuid: {surface.crs_uuid}")
         log.debug(f"surface min xyz: {np.min(p, axis = 0)}")
         log.debug(f"surface max xyz: {np.max(p, axis = 0)}")
@@ -601,11 +600,10 @@ def find_faces_to_represent_surface_regular_dense_optimised(grid,
         grid.block_dxyz_dkji[1, 1],
         grid.block_dxyz_dkji[0, 2],
     )
-    triangles, points = surface.triangles_and_points()
+    triangles, points = surface.triangles_and_points(copy = True)
     t_dtype = np.int32 if len(triangles) < 2_000_000_000 else np.int64
     assert (triangles is not None and points is not None), f"surface {surface.title} is empty"
     if agitate:
-        points = points.copy()
         if random_agitation:
             points += 1.0e-5 * (np.random.random(points.shape) - 0.5)
         else:
@@ -617,7 +615,6 @@ def find_faces_to_represent_surface_regular_dense_optimised(grid,
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
         s_crs.convert_array_to(grid.crs, points)
-        surface.crs_uuid = grid.crs.uuid
         # log.debug(f'surface: {surface.title}; p0: {points[0]}; crs uuid: {surface.crs_uuid}')
         # log.debug(f'surface min xyz: {np.min(points, axis = 0)}')
         # log.debug(f'surface max xyz: {np.max(points, axis = 0)}')
@@ -982,7 +979,6 @@ def find_faces_to_represent_surface_regular_optimised(grid,
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
         s_crs.convert_array_to(grid.crs, points)
-        surface.crs_uuid = grid.crs.uuid
         # log.debug(f'surface: {surface.title}; p0: {points[0]}; crs uuid: {surface.crs_uuid}')
         # log.debug(f'surface min xyz: {np.min(points, axis = 0)}')
         # log.debug(f'surface max xyz: {np.max(points, axis = 0)}')
-- 
2.43.0


From c7e56c6473551d6364adc03868fd476eee2cee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:45 +0000
Subject: [PATCH 50/66] fix: drape_to_surface converted the crs of the caller's
 surface points in place

---
 resqpy/derived_model/_drape_to_surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/derived_model/_drape_to_surface.py b/resqpy/derived_model/_drape_to_surface.py
index 5f6cc65..c6a38a5 100644
--- a/resqpy/derived_model/_drape_to_surface.py
+++ b/resqpy/derived_model/_drape_to_surface.py
@@ -115,6 +115,8 @@ def drape_to_surface(epc_file,
         source_grid.crs = rqc.Crs(source_grid.model, uuid = source_grid.crs_uuid)
     if surface_crs != source_grid.crs:
         surface.triangles_and_points()
+        surface = copy.copy(surface)
+        surface.points = surface.points.copy()
         surface_crs.convert_array_to(source_grid.crs, surface.points)
 
     # take a copy of the grid
-- 
2.43.0


From 1a1fdd4cdcfad4530c382e84cd9a050d0490b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:45 +0000
Subject: [PATCH 51/66] fix: combining polylines converted the crs of the
 source polylines in place

---
 resqpy/lines/_polyline_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index 1481f04..c394523 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -519,7 +519,7 @@ class PolylineSet(rql_c._BasePolyline):
             else:
                 curr_crs = rcrs.Crs(self.model, uuid = poly.crs_uuid)
                 if not curr_crs.is_equivalent(master_crs):
-                    shifted = curr_crs.convert_array_to(master_crs, poly.coordinates)
+                    shifted = curr_crs.convert_array_to(master_crs, poly.coordinates.copy())
                     self.coordinates = np.concatenate((self.coordinates, shifted))
                 else:
                     self.coordinates = np.concatenate((self.coordinates, poly.coordinates))
-- 
2.43.0


From fb344a03bb9e8e0ed04f08409fb5e714762563b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:45 +0000
Subject: [PATCH 52/66] fix: trajectory surface intersection nudged the
 trajectory, or start point, in place

---
 resqpy/grid_surface/_trajectory_intersects.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid_surface/_trajectory_intersects.py b/resqpy/grid_surface/_trajectory_intersects.py
index 51f6c98..54d496d 100644
--- a/resqpy/grid_surface/_trajectory_intersects.py
+++ b/resqpy/grid_surface/_trajectory_intersects.py
@@ -170,8 +170,7 @@ def find_first_intersection_of_trajectory_with_surface(trajectory,
     tri = None
     knot = start
     xyz_2 = tri_2 = None
-    if start_xyz is None:
-        start_xyz = trajectory.control_points[knot]
+    start_xyz = np.array(trajectory.control_points[knot] if start_xyz is None else start_xyz)
     if knot < trajectory.knot_count - 2 and vec.isclose(start_xyz, trajectory.control_points[knot + 1]):
         knot += 1
     if nudge is not None and nudge != 0.0:
@@ -383,7 +382,7 @@ def find_intersection_of_trajectory_interval_with_column_face(trajectory,
     log.debug(f"intersecting trajectory segment with column face ji0 {col_ji0} face {'KJI'[axis]}{'-+'[polarity]}")
     if start_xyz is not None:
         if nudge is not None and nudge != 0.0:  # here we typically nudge back up the wellbore
-            start_xyz += nudge * vec.unit_vector(trajectory.control_points[start_knot + 1] - start_xyz)
+            start_xyz = start_xyz + nudge * vec.unit_vector(trajectory.control_points[start_knot + 1] - start_xyz)
         line_p = start_xyz
     else:
         line_p = trajectory.control_points[start_knot]
-- 
2.43.0


From 3c5d898270c432072f6a41cf837f49e8b59096e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:26 +0000
Subject: [PATCH 53/66] fix: index_for_timestamp_closest_to returned 0 for any
 timestamp after the first and before the second

---
 resqpy/time_series/_time_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/time_series/_time_series.py b/resqpy/time_series/_time_series.py
index e7cdb74..dacd61e 100644
--- a/resqpy/time_series/_time_series.py
+++ b/resqpy/time_series/_time_series.py
@@ -138,7 +138,7 @@ class TimeSeries(ats.AnyTimeSeries):
         if not self.timestamps:
             return None
         before = self.index_for_timestamp_not_later_than(timestamp)
-        if not before:
+        if before is None:
             return 0
         if before == len(self.timestamps) - 1 or self.timestamps[before] == timestamp:
             return before
-- 
2.43.0


From fb418bab67504dbea1ebdb271ec7c5f2a70995f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:26 +0000
Subject: [PATCH 54/66] fix: exclude_value argument of masked_array was ignored
 if zero

---
 resqpy/property/property_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 94a1208..46e2672 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1697,7 +1697,7 @@ class PropertyCollection():
         """
 
         mask = self._masked_array_apply_inactive(exclude_inactive, points, simple_array)
-        if exclude_value:
+        if exclude_value is not None:
             null_mask = (simple_array == exclude_value)
             if mask is None:
                 mask = null_mask
-- 
2.43.0


From 1a27628e0206989d1e723bce238213a768c42122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:55 +0000
Subject: [PATCH 55/66] fix: coordinate reference systems were equivalent
 whatever the units of their rotations

---
 resqpy/crs.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resqpy/crs.py b/resqpy/crs.py
index ef58f40..5a87d04 100644
--- a/resqpy/crs.py
+++ b/resqpy/crs.py
@@ -314,12 +314,16 @@ class Crs(BaseResqpy):
             return False
         if self.null_transform and other_crs.null_transform:
             return True
+        other_rotation = wam.convert(other_crs.rotation,
+                                     other_crs.rotation_units,
+                                     self.rotation_units,
+                                     quantity = 'plane angle')
         if (maths.isclose(self.x_offset, other_crs.x_offset, abs_tol = 1e-4) and
                 maths.isclose(self.y_offset, other_crs.y_offset, abs_tol = 1e-4) and
                 maths.isclose(self.z_offset, other_crs.z_offset, abs_tol = 1e-4) and
-                maths.isclose(self.rotation, other_crs.rotation, abs_tol = 1e-4)):
+                maths.isclose(self.rotation, other_rotation, abs_tol = 1e-4)):
             return True
-        # todo: handle and check rotation units; modularly equivalent rotations
+        # todo: handle modularly equivalent rotations
         return False
 
     def convert_to(self, other_crs: 'Crs', xyz: PointType) -> Tuple[float, float, float]:
-- 
2.43.0


From 594db12fab2d6c2cc9d59174a45d660e69549786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:55 +0000
Subject: [PATCH 56/66] fix: domain was only compared in
 WellboreInterpretation.is_equivalent if both had xml

---
 resqpy/organize/wellbore_interpretation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/organize/wellbore_interpretation.py b/resqpy/organize/wellbore_interpretation.py
index 7ce321e..592208c 100644
--- a/resqpy/organize/wellbore_interpretation.py
+++ b/resqpy/organize/wellbore_interpretation.py
@@ -90,10 +90,10 @@ class WellboreInterpretation(BaseResqpy):
         if self.root is not None and other.root is not None:
             if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
                 return False
-            if self.domain != other.domain:
-                return False
         elif self.root is not None or other.root is not None:
             return False
+        if self.domain != other.domain:
+            return False
         if check_extra_metadata and not ou.equivalent_extra_metadata(self, other):
             return False
         return (self.title == other.title and self.is_drilled == other.is_drilled)
-- 
2.43.0


From 9036d347b077e404f1d4538a96b0d1ba1ef7f009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:45 +0000
Subject: [PATCH 57/66] fix: packing of one imported boolean array affected the
 arrays written after it

---
 resqpy/property/property_collection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 46e2672..1e9ed4e 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -2473,10 +2473,11 @@ class PropertyCollection():
                 uuid = entry[0]
                 cached_name = entry[3]
             tail = 'points_patch0' if entry[18] else 'values_patch0'
+            array_dtype = dtype
             if use_pack and (str(dtype).startswith('bool') or
                              (dtype is None and str(self.__dict__[cached_name].dtype) == 'bool')):
-                dtype = 'pack'
-            h5_reg.register_dataset(uuid, tail, self.__dict__[cached_name], dtype = dtype)
+                array_dtype = 'pack'
+            h5_reg.register_dataset(uuid, tail, self.__dict__[cached_name], dtype = array_dtype)
         h5_reg.write(file = file_name, mode = mode, use_int32 = use_int32)
 
     def write_hdf5_for_part(self,
-- 
2.43.0


From f924e165c592f8dcb6235b6fe6ec9a02ca2779f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:45 +0000
Subject: [PATCH 58/66] fix: crs of one fault polyline was applied to later
 polylines without a crs

---
 resqpy/derived_model/_add_faults.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/derived_model/_add_faults.py b/resqpy/derived_model/_add_faults.py
index 24558e0..28ec6ce 100644
--- a/resqpy/derived_model/_add_faults.py
+++ b/resqpy/derived_model/_add_faults.py
@@ -368,11 +368,11 @@ def _populate_composite_face_sets_for_polylines(model, grid, polylines, lines_cr
     if polylines:
         for i, polyline in enumerate(polylines):
             new_line = polyline.coordinates.copy()
+            polyline_crs = lines_crs
             if polyline.crs_uuid is not None and polyline.crs_uuid != lines_crs_uuid:
-                lines_crs_uuid = polyline.crs_uuid
-                lines_crs = rqc.Crs(model, uuid = lines_crs_uuid)
-            if lines_crs:
-                lines_crs.convert_array_to(grid_crs, new_line)
+                polyline_crs = rqc.Crs(model, uuid = polyline.crs_uuid)
+            if polyline_crs:
+                polyline_crs.convert_array_to(grid_crs, new_line)
             title = polyline.title if polyline.title else 'fault_' + str(i)
             _make_face_sets_for_new_lines([new_line], title, grid, full_pillar_list_dict, composite_face_set_dict)
     else:
-- 
2.43.0


From 9bf1a2fe920901c141eb6fc9ae715d0bb3125bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:45 +0000
Subject: [PATCH 59/66] fix: matching of grids by title when gathering an
 ensemble raised TypeError

---
 resqpy/derived_model/_gather_ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_gather_ensemble.py b/resqpy/derived_model/_gather_ensemble.py
index 43095f1..dac3731 100644
--- a/resqpy/derived_model/_gather_ensemble.py
+++ b/resqpy/derived_model/_gather_ensemble.py
@@ -89,7 +89,7 @@ def gather_ensemble(case_epc_list,
                     if grid_extent in host_grid_shapes:
                         if title_match_required:
                             case_grid_title = rqet.citation_title_for_node(grid_root)
-                            for host_grid_index in len(host_grid_uuids):
+                            for host_grid_index in range(len(host_grid_uuids)):
                                 if grid_extent == host_grid_shapes[
                                         host_grid_index] and case_grid_title == host_grid_titles[host_grid_index]:
                                     host_index = host_grid_index
-- 
2.43.0


From c0e25e72395059912b8f5f9a7d19dc5dd0fe20c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:45 +0000
Subject: [PATCH 60/66] fix: inheriting features already in the connection set
 raised TypeError

---
 resqpy/fault/_grid_connection_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 729955c..87c9756 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1976,7 +1976,7 @@ class GridConnectionSet(BaseResqpy):
         for featured_triplet in featured.feature_list:
             featured_uuid = bu.uuid_from_string(featured_triplet[1])  # bu call probably not needed
             if featured_uuid in feature_uuid_list:
-                featured_index_map.append(feature_uuid_list.index[featured_uuid])
+                featured_index_map.append(feature_uuid_list.index(featured_uuid))
             else:
                 featured_index_map.append(len(self.feature_list))
                 self.feature_list.append(featured_triplet)
-- 
2.43.0


From 2e21b9f03c36a94f49e492b7041c2e1b0f45fb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:45 +0000
Subject: [PATCH 61/66] fix: cell_inactive raised ValueError when given a pore
 volume array

---
 resqpy/grid/_cell_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_cell_properties.py b/resqpy/grid/_cell_properties.py
index 47baf5a..a1a992b 100644
--- a/resqpy/grid/_cell_properties.py
+++ b/resqpy/grid/_cell_properties.py
@@ -326,7 +326,7 @@ def cell_inactive(grid, cell_kji0, pv_array = None, pv_tol = 0.01):
     if grid.inactive is not None:
         return grid.inactive[tuple(cell_kji0)]
     if pv_array is not None:  # fabricate an inactive mask from pore volume data
-        grid.inactive = not (pv_array > pv_tol)  # NaN in pv array will end up inactive
+        grid.inactive = np.logical_not(pv_array > pv_tol)  # NaN in pv array will end up inactive
         return grid.inactive[tuple(cell_kji0)]
     return ((not grr_dg.cell_geometry_is_defined(grid, cell_kji0 = cell_kji0)) or
             grid.pinched_out(cell_kji0, cache_pinchout_array = True))
-- 
2.43.0


From 86798329446f49f51fe4355fdc89c32b5397ba26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:43 +0000
Subject: [PATCH 62/66] fix: an empty list of candidate parts was searched as
 if it were the whole model

---
 resqpy/model/_catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/model/_catalogue.py b/resqpy/model/_catalogue.py
index 3cb5c07..1fb3803 100644
--- a/resqpy/model/_catalogue.py
+++ b/resqpy/model/_catalogue.py
@@ -25,7 +25,7 @@ def _parts(model,
            sort_by = None):
     """Returns a list of parts matching all of the arguments passed."""
 
-    if not parts_list:
+    if parts_list is None:
         parts_list = _list_of_parts(model)
     if uuid is not None:
         part_name = model.uuid_part_dict.get(bu.uuid_as_int(uuid))
-- 
2.43.0


From 2a8f61afa6eaebd76c2719f9ba4e16ccd589c517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:43 +0000
Subject: [PATCH 63/66] fix: points properties imported with an unstructured
 grid were written under the wrong hdf5 path

---
 resqpy/unstructured/_unstructured_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/unstructured/_unstructured_grid.py b/resqpy/unstructured/_unstructured_grid.py
index 4611a63..a46ec94 100644
--- a/resqpy/unstructured/_unstructured_grid.py
+++ b/resqpy/unstructured/_unstructured_grid.py
@@ -943,7 +943,8 @@ class UnstructuredGrid(BaseResqpy):
         if imported_properties is not None and imported_properties.imported_list is not None:
             for entry in imported_properties.imported_list:
                 if hasattr(imported_properties, entry[3]):  # otherwise constant array
-                    h5_reg.register_dataset(entry[0], 'values_patch0', imported_properties.__dict__[entry[3]])
+                    tail = 'points_patch0' if entry[18] else 'values_patch0'
+                    h5_reg.register_dataset(entry[0], tail, imported_properties.__dict__[entry[3]])
                 if entry[10] == 'active':
                     self.active_property_uuid = entry[0]
 
-- 
2.43.0


From 24f722877dc4d9c1872f421cf55636ce4c6b87ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:43 +0000
Subject: [PATCH 64/66] fix: inheriting a constant property into a hexahedral
 grid raised AssertionError

---
 resqpy/unstructured/_hexa_grid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resqpy/unstructured/_hexa_grid.py b/resqpy/unstructured/_hexa_grid.py
index 3f94bb5..67eb745 100644
--- a/resqpy/unstructured/_hexa_grid.py
+++ b/resqpy/unstructured/_hexa_grid.py
@@ -205,8 +205,10 @@ class HexaGrid(rug.UnstructuredGrid):
             for part in ijk_pc.parts():
                 count = ijk_pc.count_for_part(part)
                 hexa_part_shape = (hexa_grid.cell_count,) if count == 1 else (hexa_grid.cell_count, count)
+                const_value = ijk_pc.constant_value_for_part(part)
+                a = ijk_pc.cached_part_array_ref(part).reshape(hexa_part_shape) if const_value is None else None
                 hexa_pc.add_cached_array_to_imported_list(
-                    ijk_pc.cached_part_array_ref(part).reshape(hexa_part_shape),
+                    a,
                     'inherited from grid ' + str(ijk_grid.title),
                     ijk_pc.citation_title_for_part(part),
                     discrete = not ijk_pc.continuous_for_part(part),
@@ -220,7 +222,7 @@ class HexaGrid(rug.UnstructuredGrid):
                     realization = ijk_pc.realization_for_part(part),
                     indexable_element = ijk_pc.indexable_for_part(part),
                     count = count,
-                    const_value = ijk_pc.constant_value_for_part(part))
+                    const_value = const_value)
                 # todo: patch min & max values if present in ijk part
                 hexa_pc.write_hdf5_for_imported_list()
                 hexa_pc.create_xml_for_imported_list_and_add_parts_to_model(
-- 
2.43.0


From 00aae5e813634ef8b069d690f5231ae44e391a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:43 +0000
Subject: [PATCH 65/66] fix: sampling a constant property of another collection
 raised AssertionError

---
 resqpy/property/property_collection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 1e9ed4e..0d026d1 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -414,7 +414,10 @@ class PropertyCollection():
             target_shape = self.supporting_shape(indexable_element = other.indexable_for_part(part),
                                                  direction = pcga._part_direction(other, part))
             assert np.prod(target_shape) == flattened_indices.size
-            a = other.cached_part_array_ref(part).flatten()[flattened_indices].reshape(target_shape)
+            if info[20] is None:
+                a = other.cached_part_array_ref(part).flatten()[flattened_indices].reshape(target_shape)
+            else:
+                a = None
             self.add_cached_array_to_imported_list(a,
                                                    source,
                                                    info[10],
-- 
2.43.0


From 922454afdae0aa3a2ee9b179c500ba715fb526e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:43 +0000
Subject: [PATCH 66/66] fix: soft relationships listed after one without a uuid
 were ignored

---
 resqpy/model/_forestry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 37c82a2..827d616 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -213,7 +213,7 @@ def _add_uuid_soft_relations(model, uuid_int, part):
                 relation_part_name = relation_node.attrib['Target']
                 relation_uuid_str = rqet.uuid_in_part_name(relation_part_name, return_uuid_str = True)
                 if relation_uuid_str is None:
-                    return  # probably HDF5 external resource
+                    continue  # probably HDF5 external resource
                 relation_uuid_int = _hex_to_int(relation_uuid_str)
                 rels_sets = model.uuid_rels_dict.get(uuid_int)
                 if rels_sets is not None and relation_uuid_int not in rels_sets[
-- 
2.43.0

