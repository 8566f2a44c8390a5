From 7c9e6b4044131a563f9cb637436e14d749502e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:53 +0000
Subject: [PATCH 01/25] fix: edge e6 of the reference hexahedron connects
 vertices 2 and 6

---
 viennagrid/topology/hexahedron.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/topology/hexahedron.hpp b/viennagrid/topology/hexahedron.hpp
index a456043..fae8b53 100644
--- a/viennagrid/topology/hexahedron.hpp
+++ b/viennagrid/topology/hexahedron.hpp
@@ -111,7 +111,7 @@ namespace viennagrid
         element.set_boundary_element( boundary_element, inserter.template insert<true, true>(boundary_element), index++ );
 
         boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(2), 0 );
-        boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(5), 1 );
+        boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(6), 1 );
         element.set_boundary_element( boundary_element, inserter.template insert<true, true>(boundary_element), index++ );
 
         boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(3), 0 );
-- 
2.43.0


From 5048da3ab516075f1e95fbb9d81255576146ffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:53 +0000
Subject: [PATCH 02/25] fix: id generator must not hand out an explicitly used
 id equal to its next id

---
 viennagrid/storage/id_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/storage/id_generator.hpp b/viennagrid/storage/id_generator.hpp
index e594fe4..555cc2f 100644
--- a/viennagrid/storage/id_generator.hpp
+++ b/viennagrid/storage/id_generator.hpp
@@ -120,7 +120,7 @@ namespace viennagrid
       using base::set_max_id;
       void set_max_id( id_type last_id_ )
       {
-        if (last_id_ > last_id)
+        if (!(last_id_ < last_id))
         {
           last_id = last_id_;
           ++last_id;
-- 
2.43.0


From 1c25540f5dd152d35171e202b1a3efa25f4447df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:04 +0000
Subject: [PATCH 03/25] fix: erasing elements must not separate hidden_key_map
 keys from their elements

---
 viennagrid/mesh/element_deletion.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/viennagrid/mesh/element_deletion.hpp b/viennagrid/mesh/element_deletion.hpp
index 0be50e1..f34ff99 100644
--- a/viennagrid/mesh/element_deletion.hpp
+++ b/viennagrid/mesh/element_deletion.hpp
@@ -82,6 +82,11 @@ namespace viennagrid
     }
 
 
+    /** @brief Elements in a hidden_key_map must not be swapped because each key has to stay with its element. For internal use only */
+    inline bool has_hidden_keys(...) { return false; }
+    template<typename KeyT, typename ValueT>
+    bool has_hidden_keys(viennagrid::hidden_key_map<KeyT, ValueT> const *) { return true; }
+
     /** @brief For internal use only */
     template<typename MeshT, typename MeshViewT>
     struct erase_functor
@@ -109,10 +114,18 @@ namespace viennagrid
           ids_to_erase.push_back( it->id() );
 
         ElementRangeType elements(mesh_obj_);
+        bool const hidden_keys = has_hidden_keys( static_cast<typename ElementRangeType::base_container_type *>(0) );
 
         for (typename std::deque<id_type>::iterator it = ids_to_erase.begin(); it != ids_to_erase.end(); ++it)
         {
           ElementRangeIterator to_erase_it = find( mesh_obj_, *it );
+
+          if (hidden_keys)
+          {
+            elements.erase( to_erase_it );
+            continue;
+          }
+
           ElementRangeIterator back_it = --elements.end();
 
           if (back_it != to_erase_it)
-- 
2.43.0


From 058668fc0758e7ef9362230fc0a12ab363bfa8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:04 +0000
Subject: [PATCH 04/25] fix: erase(segment, element) has to erase the element
 itself from the segment

---
 viennagrid/mesh/segmentation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index b24bc77..acf3872 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -2158,6 +2158,7 @@ namespace viennagrid
   {
     typedef typename viennagrid::result_of::mesh_view<SegmentHandleT>::type ToEraseViewT;
     ToEraseViewT elements_to_erase = viennagrid::make_view(segment);
+    viennagrid::elements< viennagrid::element<ElementTagT, WrappedConfigT> >(elements_to_erase).insert_unique_handle( viennagrid::handle(segment, element) );
     viennagrid::mark_referencing_elements( segment, elements_to_erase, viennagrid::handle(segment, element) );
 
     detail::non_recursive_erase_functor<SegmentHandleT> functor( segment );
-- 
2.43.0


From 23f1b6fe802c4dca599f27bcf408d32e06c2ce88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:04 +0000
Subject: [PATCH 05/25] fix: segmentation::clear() has to drop segment names
 and all_elements()

---
 viennagrid/mesh/segmentation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index acf3872..d01e865 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -916,7 +916,9 @@ namespace viennagrid
     {
       highest_id = -1;
       segment_id_map.clear();
+      segment_name_map.clear();
       segments.clear();
+      all_elements_ = viennagrid::make_view(*mesh_);
       appendix_ = appendix_type();
     }
 
-- 
2.43.0


From 9843a17a0c64180830b6f36b0841e44da71b4dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:16 +0000
Subject: [PATCH 06/25] fix: segment name lookup, default-name collision and
 at(name) of a segmentation

---
 viennagrid/mesh/segmentation.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index d01e865..ad2d693 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -93,6 +93,9 @@ namespace viennagrid
       */
     void set_name( std::string const & new_name )
     {
+      if (new_name == name())
+        return;
+
       // name is already present
       if (parent().segment_name_map.find(new_name) != parent().segment_name_map.end())
         throw segment_name_collision_exception(new_name);
@@ -677,6 +680,11 @@ namespace viennagrid
       if (it != segment_id_map.end())
           return it->second; // segment already is present
 
+      std::stringstream ss;
+      ss << segment_id;
+      if (segment_name_map.find(ss.str()) != segment_name_map.end())
+        throw segment_name_collision_exception(ss.str());
+
       segments.push_back( segment(this, mesh(), segment_id) );
       segment & new_segment = segments.back();
 
@@ -685,12 +693,8 @@ namespace viennagrid
 
       it = segment_id_map.insert( std::make_pair(segment_id, segment_handle_type(new_segment)) ).first;
 
-      std::stringstream ss;
-      ss << segment_id;
       segments.back().name = ss.str();
-
-      if (!segment_name_map.insert(std::make_pair(ss.str(), &it->second)).second)
-        throw segment_name_collision_exception(ss.str());
+      segment_name_map.insert(std::make_pair(ss.str(), &it->second));
 
       return it->second;
     }
@@ -798,7 +802,7 @@ namespace viennagrid
       typename segment_name_map_type::const_iterator it = segment_name_map.find(segment_name);
       if( it == segment_name_map.end() )
         throw viennagrid::segment_name_not_found_exception(segment_name);
-      return it->second;
+      return *(it->second);
     }
 
 
-- 
2.43.0


From 656aa8edaa47b88fe357ee1e325def9a3ab9156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:59 +0000
Subject: [PATCH 07/25] fix: segment_ids() of an element without segment info
 returned a dangling range

---
 viennagrid/mesh/segmentation.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index ad2d693..d681a00 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -1609,6 +1609,9 @@ namespace viennagrid
   {
   public:
 
+    /** @brief For internal use only */
+    typedef SegmentInfoT segment_info_type;
+
     segment_id_range_t(SegmentInfoT & segment_info) : segment_info_(&segment_info) {}
 
     /** @brief An iterator for iterating over all segment IDs */
@@ -1721,7 +1724,11 @@ namespace viennagrid
   {
     typedef typename result_of::segment_id_range< SegmentationT, viennagrid::element<ElementTagT, WrappedConfigT> >::type SegmentIDRangeType;
     typedef viennagrid::element<ElementTagT, WrappedConfigT> ElementType;
-    return SegmentIDRangeType( viennagrid::make_field<ElementType>( viennagrid::detail::element_segment_mapping_collection(segmentation) )(element) );
+    typedef typename SegmentIDRangeType::segment_info_type SegmentInfoType;
+
+    static SegmentInfoType no_segments = SegmentInfoType(); // the range references its segment info, hence an element without segment info must not yield a temporary
+    SegmentInfoType * segment_info = viennagrid::make_field<ElementType>( viennagrid::detail::element_segment_mapping_collection(segmentation) ).find(element);
+    return SegmentIDRangeType( segment_info ? *segment_info : no_segments );
   }
 
 
-- 
2.43.0


From fb4e99abe3c4264c0160eb0d3f58fa7ab965306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:53 +0000
Subject: [PATCH 08/25] fix: interface detection kept interface flags of facets
 that left a segment

---
 viennagrid/algorithm/interface.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/interface.hpp b/viennagrid/algorithm/interface.hpp
index 72a9d92..a680432 100644
--- a/viennagrid/algorithm/interface.hpp
+++ b/viennagrid/algorithm/interface.hpp
@@ -135,6 +135,7 @@ namespace viennagrid
                 >::type::segment_interface_information_wrapper_type dst_interface_information_container_wrapper_type;
 
         dst_interface_information_container_wrapper_type & dst_interface_information_container_wrapper = interface_information_collection<element_tag>( seg0, seg1 );
+        dst_interface_information_container_wrapper.container.clear();
         typename viennagrid::result_of::accessor< typename dst_interface_information_container_wrapper_type::container_type, element_type >::type dst_accessor( dst_interface_information_container_wrapper.container );
 
         transfer_boundary_information(seg0, viennagrid::make_field<facet_type>(src_interface_information_container_wrapper.container), dst_accessor);
@@ -228,7 +229,7 @@ namespace viennagrid
             >::type::segment_interface_information_wrapper_type interface_information_container_wrapper_type;
     interface_information_container_wrapper_type & interface_information_container_wrapper = detail::interface_information_collection<FacetTag>( seg0, seg1 );
 
-
+    interface_information_container_wrapper.container.clear(); // drop interface flags of a previous detection
     detail::detect_interface( seg0, seg1, viennagrid::make_field<FacetType>(interface_information_container_wrapper.container) );
 
     transfer_interface_information( seg0, seg1 );
-- 
2.43.0


From e3169e2f2b1c892cdf8ec06c77621bdf26335565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:46 +0000
Subject: [PATCH 09/25] fix: is_in_segment() of an element without segment info
 read past the segment info container

---
 viennagrid/mesh/segmentation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index d681a00..6e2c2be 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -1579,7 +1579,8 @@ namespace viennagrid
     template< typename segment_handle_type, typename accessor_type, typename element_type >
     bool is_in_segment( segment_handle_type const & segment, accessor_type const accessor, element_type const & element )
     {
-      return is_in_segment( segment, accessor(element) );
+      typename accessor_type::const_pointer segment_info = accessor.find(element); // NULL, if no segment information has been stored for the element
+      return segment_info && is_in_segment( segment, *segment_info );
     }
   }
 
-- 
2.43.0


From 2dc4d196fb04e72771cdbf0b83a8b791bb0db9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:27 +0000
Subject: [PATCH 10/25] fix: copy_element() passed its tolerance to push_back
 and did not return the new element

---
 viennagrid/mesh/element_creation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/mesh/element_creation.hpp b/viennagrid/mesh/element_creation.hpp
index 742e34e..815fe19 100644
--- a/viennagrid/mesh/element_creation.hpp
+++ b/viennagrid/mesh/element_creation.hpp
@@ -390,7 +390,7 @@ namespace viennagrid
 
     VertexRangeType vertices(element);
     for (VertexRangeIterator vit = vertices.begin(); vit != vertices.end(); ++vit)
-      vertex_handles.push_back( make_unique_vertex(mesh_segment, viennagrid::point(*vit)), tolerance );
+      vertex_handles.push_back( make_unique_vertex(mesh_segment, viennagrid::point(*vit), tolerance) );
 
     return make_element<ElementTag>( mesh_segment, vertex_handles.begin(), vertex_handles.end() );
   }
@@ -402,7 +402,7 @@ namespace viennagrid
       typename viennagrid::result_of::element_tag<ElementT>::type
     >::type copy_element( ElementT const & element, MeshOrSegmentHandleT & mesh_segment )
   {
-    copy_element(element, mesh_segment, -1.0);
+    return copy_element(element, mesh_segment, -1.0);
   }
 
   namespace detail
-- 
2.43.0


From dce26fcfcfbfda677cc8733414471eea944ff15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:48 +0000
Subject: [PATCH 11/25] fix: volume of quadrilaterals and hexahedra follows the
 reference orientation

The decompositions assumed cyclic (VTK_QUAD/VTK_HEXAHEDRON) vertex order
although elements use the VTK_PIXEL/VTK_VOXEL order, so anything but a
parallelogram/parallelepiped got a wrong volume.
---
 viennagrid/algorithm/volume.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/viennagrid/algorithm/volume.hpp b/viennagrid/algorithm/volume.hpp
index 4f7d491..0c66c57 100644
--- a/viennagrid/algorithm/volume.hpp
+++ b/viennagrid/algorithm/volume.hpp
@@ -92,7 +92,7 @@ namespace viennagrid
       PointType const & p2 = accessor( vertices(cell)[2] );
       PointType const & p3 = accessor( vertices(cell)[3] );
 
-      return spanned_volume(p0, p1, p3) + spanned_volume(p1, p2, p3); //sum up the two triangular parts
+      return spanned_volume(p0, p1, p2) + spanned_volume(p1, p3, p2); //sum up the two triangular parts (reference orientation: p0 and p3 are opposite)
     }
 
 
@@ -160,13 +160,13 @@ namespace viennagrid
       PointType const & p6 = accessor( vertices(cell)[6] );
       PointType const & p7 = accessor( vertices(cell)[7] );
 
-      //decompose hexahedron into six tetrahedra
-      return spanned_volume(p0, p1, p3, p4)
-             + spanned_volume(p4, p1, p3, p7)
-             + spanned_volume(p4, p1, p7, p5)
-             + spanned_volume(p1, p2, p3, p7)
-             + spanned_volume(p1, p2, p7, p5)
-             + spanned_volume(p5, p2, p7, p6);
+      //decompose hexahedron into six tetrahedra around the diagonal p0-p7 (reference orientation)
+      return spanned_volume(p0, p1, p3, p7)
+             + spanned_volume(p0, p1, p5, p7)
+             + spanned_volume(p0, p2, p3, p7)
+             + spanned_volume(p0, p2, p6, p7)
+             + spanned_volume(p0, p4, p5, p7)
+             + spanned_volume(p0, p4, p6, p7);
     }
 
 
-- 
2.43.0


From 94b10fba9a077f83872c8aae8cea5e74cd8f63c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:13 +0000
Subject: [PATCH 12/25] fix: centroid() of a mesh or segment compiles

The overload set was called with an explicit cell tag, which made the
compiler instantiate mesh<cell tag>.
---
 viennagrid/algorithm/centroid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/algorithm/centroid.hpp b/viennagrid/algorithm/centroid.hpp
index c2ffa3e..942069f 100644
--- a/viennagrid/algorithm/centroid.hpp
+++ b/viennagrid/algorithm/centroid.hpp
@@ -222,7 +222,7 @@ namespace viennagrid
   centroid(mesh<WrappedConfigT> const & mesh_obj)
   {
     typedef typename viennagrid::result_of::cell_tag< mesh<WrappedConfigT> >::type CellTag;
-    return centroid<CellTag>(mesh_obj, default_point_accessor(mesh_obj));
+    return detail::centroid_mesh<CellTag>(mesh_obj, default_point_accessor(mesh_obj));
   }
 
 
@@ -274,7 +274,7 @@ namespace viennagrid
   centroid(segment_handle<SegmentationT> const & segment)
   {
     typedef typename viennagrid::result_of::cell_tag< segment_handle<SegmentationT> >::type CellTag;
-    return centroid<CellTag>(segment, default_point_accessor(segment));
+    return detail::centroid_mesh<CellTag>(segment, default_point_accessor(segment));
   }
 } //namespace viennagrid
 #endif
-- 
2.43.0


From bb55c0a238a07daf163578a633a9609797cd9a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:01 +0000
Subject: [PATCH 13/25] fix: post-increment of container and view iterators
 returned the incremented iterator

distance(line, segment) dereferenced the end iterator of a segment with one line.
---
 viennagrid/storage/container.hpp | 32 ++++++++++++++++----------------
 viennagrid/storage/view.hpp      | 32 ++++++++++++++++----------------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/viennagrid/storage/container.hpp b/viennagrid/storage/container.hpp
index d934cbb..29d511d 100644
--- a/viennagrid/storage/container.hpp
+++ b/viennagrid/storage/container.hpp
@@ -95,10 +95,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -125,10 +125,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -159,10 +159,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -195,10 +195,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -233,10 +233,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const &  value() const { return base_const_iterator::operator*(); }
@@ -264,10 +264,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
@@ -299,10 +299,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
@@ -336,10 +336,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
diff --git a/viennagrid/storage/view.hpp b/viennagrid/storage/view.hpp
index 52fed04..2d289a7 100644
--- a/viennagrid/storage/view.hpp
+++ b/viennagrid/storage/view.hpp
@@ -89,10 +89,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       iterator & operator++() { base::operator++(); return *this; }
-      iterator operator++(int) { base::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base::operator--(); return *this; }
-      iterator operator--(int) { base::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
     private:
       view * view_;
@@ -123,10 +123,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_iterator & operator++() { base::operator++(); return *this; }
-      const_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base::operator--(); return *this; }
-      const_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view const * view_;
@@ -156,10 +156,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       reverse_iterator & operator++() { base::operator++(); return *this; }
-      reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      reverse_iterator operator++(int) { reverse_iterator tmp(*this); ++*this; return tmp; }
 
       reverse_iterator & operator--() { base::operator--(); return *this; }
-      reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      reverse_iterator operator--(int) { reverse_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view * view_;
@@ -190,10 +190,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_reverse_iterator & operator++() { base::operator++(); return *this; }
-      const_reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_reverse_iterator operator++(int) { const_reverse_iterator tmp(*this); ++*this; return tmp; }
 
       const_reverse_iterator & operator--() { base::operator--(); return *this; }
-      const_reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_reverse_iterator operator--(int) { const_reverse_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view const * view_;
@@ -353,10 +353,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       iterator & operator++() { base::operator++(); return *this; }
-      iterator operator++(int) { base::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base::operator--(); return *this; }
-      iterator operator--(int) { base::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
     private:
       view * view_;
@@ -387,10 +387,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_iterator & operator++() { base::operator++(); return *this; }
-      const_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base::operator--(); return *this; }
-      const_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view const * view_;
@@ -420,10 +420,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       reverse_iterator & operator++() { base::operator++(); return *this; }
-      reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      reverse_iterator operator++(int) { reverse_iterator tmp(*this); ++*this; return tmp; }
 
       reverse_iterator & operator--() { base::operator--(); return *this; }
-      reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      reverse_iterator operator--(int) { reverse_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view * view_;
@@ -454,10 +454,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_reverse_iterator & operator++() { base::operator++(); return *this; }
-      const_reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_reverse_iterator operator++(int) { const_reverse_iterator tmp(*this); ++*this; return tmp; }
 
       const_reverse_iterator & operator--() { base::operator--(); return *this; }
-      const_reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_reverse_iterator operator--(int) { const_reverse_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view const * view_;
-- 
2.43.0


From 3d306157bd7a3c3f5c813b4a4b0d73839f0a9df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:17 +0000
Subject: [PATCH 14/25] fix: quantity_transfer to higher dimension reads the
 value of each source element

The coboundary branch passed the destination element to the source accessor
instead of the adjacent source element, so it neither compiled with typed
accessors nor returned source values with untyped ones.
---
 viennagrid/algorithm/quantity_transfer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/quantity_transfer.hpp b/viennagrid/algorithm/quantity_transfer.hpp
index 8956976..29eb3ea 100644
--- a/viennagrid/algorithm/quantity_transfer.hpp
+++ b/viennagrid/algorithm/quantity_transfer.hpp
@@ -13,6 +13,7 @@
    License:      MIT (X11), see file LICENSE in the base directory
 ======================================================================= */
 
+#include <map>
 #include <vector>
 #include "viennagrid/forwards.hpp"
 #include "viennagrid/mesh/mesh.hpp"
@@ -136,7 +137,7 @@ namespace viennagrid
                                 ++sodit)
           {
             if (filter_src(*sodit))
-              destination_value_container.push_back(accessor_src(*dit));
+              destination_value_container.push_back(accessor_src(*sodit));
           }
 
           //
-- 
2.43.0


From fb2721a745ce11fd7663037252e9b7ddb1fdbd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:17 +0000
Subject: [PATCH 15/25] fix: dynamic_accessor_wrapper forwards operator() and
 at() to the wrapped accessor

It called a member access() which no accessor has, so the class could not be used at all.
---
 viennagrid/accessor.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 0c7b53a..15a6f1f 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -622,11 +622,11 @@ namespace viennagrid
     virtual pointer find( access_type const & element ) { return accessor.find(element); }
     virtual const_pointer find( access_type const & element ) const { return accessor.find(element); }
 
-    virtual reference operator()( access_type const & element )       { return access(element); }
-    virtual const_reference operator()( access_type const & element ) const { return access(element); }
+    virtual reference operator()( access_type const & element )       { return accessor(element); }
+    virtual const_reference operator()( access_type const & element ) const { return accessor(element); }
 
-    virtual reference at( access_type const & element ) { return accessor.access(element); }
-    virtual const_reference at( access_type const & element ) const { return accessor.access(element); }
+    virtual reference at( access_type const & element ) { return accessor.at(element); }
+    virtual const_reference at( access_type const & element ) const { return accessor.at(element); }
 
   private:
     AccessorType accessor;
@@ -652,8 +652,8 @@ namespace viennagrid
     dynamic_accessor_wrapper(AccessorType accessor_) : accessor(accessor_) {}
 
     virtual const_pointer find( access_type const & element ) const { return accessor.find(element); }
-    virtual const_reference operator()( access_type const & element ) const { return access(element); }
-    virtual const_reference at( access_type const & element ) const { return accessor.access(element); }
+    virtual const_reference operator()( access_type const & element ) const { return accessor(element); }
+    virtual const_reference at( access_type const & element ) const { return accessor.at(element); }
 
   private:
     AccessorType accessor;
-- 
2.43.0


From b8ff4169967d6e372087a775e05bff45b59c1971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:16 +0000
Subject: [PATCH 16/25] fix: a default-constructed field is not valid

The container pointer was left uninitialised, so is_valid() read garbage.
---
 viennagrid/accessor.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 15a6f1f..1b23f22 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -693,7 +693,7 @@ namespace viennagrid
 
     typedef typename access_type::id_type::base_id_type offset_type;
 
-    dense_container_field() : default_value() {}
+    dense_container_field() : container(0), default_value() {}
     dense_container_field( ContainerType & container_ ) : container(&container_), default_value() {}
     dense_container_field( ContainerType & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -768,7 +768,7 @@ namespace viennagrid
 
     typedef typename access_type::id_type::base_id_type offset_type;
 
-    dense_container_field() : default_value() {}
+    dense_container_field() : container(0), default_value() {}
     dense_container_field( ContainerType const & container_ ) : container(&container_), default_value() {}
     dense_container_field( ContainerType const & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -828,7 +828,7 @@ namespace viennagrid
     typedef value_type *         pointer;
     typedef value_type const *   const_pointer;
 
-    std_map_field() : default_value() {}
+    std_map_field() : container(0), default_value() {}
     std_map_field( ContainerType & container_ ) : container(&container_), default_value() {}
     std_map_field( ContainerType & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -897,7 +897,7 @@ namespace viennagrid
     typedef value_type const *         pointer;
     typedef value_type const *   const_pointer;
 
-    std_map_field() : default_value() {}
+    std_map_field() : container(0), default_value() {}
     std_map_field( ContainerType const & container_ ) : container(&container_), default_value() {}
     std_map_field( ContainerType const & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
-- 
2.43.0


From 640779ec00173969ab7959789f00953b631bdfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:01 +0000
Subject: [PATCH 17/25] fix: at() of map-based accessors and fields throws for
 missing data

The non-const overloads silently created an entry; the accessor concept (and every
other accessor) requires std::out_of_range if no data is available.
---
 viennagrid/accessor.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 1b23f22..f47669b 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -369,7 +369,9 @@ namespace viennagrid
 
     reference at(AccessType const & element)
     {
-      return (*this)(element);
+      typename container_type::iterator it = (*container).find( unpack(element) );
+      if (it == (*container).end()) throw std::out_of_range("std_map_accessor::at() failed");
+      return it->second;
     }
 
     const_reference at(AccessType const & element) const
@@ -863,7 +865,9 @@ namespace viennagrid
 
     reference at(AccessType const & element)
     {
-      return (*this)(element);
+      typename container_type::iterator it = (*container).find( unpack(element) );
+      if (it == (*container).end()) throw std::out_of_range("std_map_field::at() failed");
+      return it->second;
     }
 
     const_reference at(AccessType const & element) const
-- 
2.43.0


From 47d869befb26430a4f5a829c26b3aed470a68b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:25 +0000
Subject: [PATCH 18/25] fix: vtk_reader reads one vector per element for fields
 registered on a segment

---
 viennagrid/io/vtk_reader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 40a5776..9739659 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -542,7 +542,7 @@ namespace viennagrid
           }
           else if (current_registered_segment_vertex_vector_data.find(name) != current_registered_segment_vertex_vector_data.end())
           {
-            for (std::size_t i=0; i<container.second.size(); ++i)
+            for (std::size_t i=0; i<container.second.size()/3; ++i)
             {
               std::size_t global_vertex_id = local_to_global_map[seg_id][i];
               VertexType const & vertex = viennagrid::elements<viennagrid::vertex_tag>(mesh_obj)[global_vertex_id];
@@ -636,7 +636,7 @@ namespace viennagrid
           }
           else if (current_registered_segment_cell_vector_data.find(name) != current_registered_segment_cell_vector_data.end())
           {
-            for (std::size_t i=0; i<container.second.size(); ++i)
+            for (std::size_t i=0; i<container.second.size()/3; ++i)
             {
               CellType const & cell = viennagrid::dereference_handle( segment, local_cell_handle[seg_id][i] );
 
-- 
2.43.0


From 6a3f0b4b79f5556f7ff968a7f7fd40d901a8cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:20 +0000
Subject: [PATCH 19/25] fix: vtk_reader: a data array without
 NumberOfComponents has one component

---
 viennagrid/io/vtk_reader.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 9739659..bf51bd7 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -364,6 +364,8 @@ namespace viennagrid
 
           if (tag.has_attribute("numberofcomponents"))
             components = static_cast<std::size_t>(atoi(tag.get_value("numberofcomponents").c_str()));
+          else
+            components = 1;
 
           //now read data:
           if (components == 1)
-- 
2.43.0


From 9b4c007824e026f0004038ec80c70895d005f9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:48 +0000
Subject: [PATCH 20/25] fix: vtk_reader accepts vector point data with points
 outside the cells

---
 viennagrid/io/vtk_reader.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index bf51bd7..5cfec6e 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -478,11 +478,7 @@ namespace viennagrid
 
       /** @brief Writes data for vertices to the ViennaGrid mesh using ViennaData */
       template <typename ContainerType>
-      void setupDataVertex(MeshType & mesh_obj, SegmentHandleType &
-#ifndef NDEBUG
-        segment
-#endif
-        , segment_id_type seg_id, ContainerType const & container, std::size_t num_components)
+      void setupDataVertex(MeshType & mesh_obj, SegmentHandleType &, segment_id_type seg_id, ContainerType const & container, std::size_t num_components)
       {
         std::string const & name = container.first;
 
@@ -561,7 +557,7 @@ namespace viennagrid
             std::cout << "* vtk_reader::operator(): Reading vector quantity "
                       << container.first << " to vertices." << std::endl;
             #endif
-            assert( 3 * viennagrid::elements<viennagrid::vertex_tag>(segment).size() == container.second.size());
+            assert( 3 * local_to_global_map[seg_id].size() == container.second.size());
             for (std::size_t i=0; i<container.second.size() / 3; ++i)
             {
               std::size_t global_vertex_id = local_to_global_map[seg_id][i];
-- 
2.43.0


From c803cd73cfc4a7f00a79e33507966c6c8ac77bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:38 +0000
Subject: [PATCH 21/25] fix: neper_tess_reader without seed points compiles

---
 viennagrid/io/neper_tess_reader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/io/neper_tess_reader.hpp b/viennagrid/io/neper_tess_reader.hpp
index 31a8f3b..e89177f 100644
--- a/viennagrid/io/neper_tess_reader.hpp
+++ b/viennagrid/io/neper_tess_reader.hpp
@@ -44,11 +44,11 @@ namespace viennagrid
        * @param filename      Name of the file
        */
       template <typename MeshT>
-      int operator()(MeshT & mesh_obj, std::string const & filename) const
+      void operator()(MeshT & mesh_obj, std::string const & filename) const
       {
         std::vector< std::pair<typename viennagrid::result_of::point<MeshT>::type, int> > seed_points;
 
-        return (*this)(mesh_obj, filename, seed_points);
+        (*this)(mesh_obj, filename, seed_points);
       }
 
       /** @brief The functor interface triggering the read operation. Segmentations are not supported in this version.
-- 
2.43.0


From 0d809dd9cb78819d912b57a984cf58b686a01897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:38 +0000
Subject: [PATCH 22/25] fix: netgen_reader rejects files that end early

---
 viennagrid/io/netgen_reader.hpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/viennagrid/io/netgen_reader.hpp b/viennagrid/io/netgen_reader.hpp
index 0ba1eed..3122a9a 100644
--- a/viennagrid/io/netgen_reader.hpp
+++ b/viennagrid/io/netgen_reader.hpp
@@ -76,7 +76,8 @@ namespace viennagrid
         //
         // Read vertices:
         //
-        reader >> node_num;
+        if (!(reader >> node_num))
+          throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": EOF encountered when reading number of vertices.");
         assert(node_num > 0);
 
         #if defined VIENNAGRID_DEBUG_STATUS || defined VIENNAGRID_DEBUG_IO
@@ -87,25 +88,22 @@ namespace viennagrid
 
         for (int i=0; i<node_num; i++)
         {
-          if (!reader.good())
-            throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": EOF encountered while reading vertices.");
-
           PointType p;
 
           for (std::size_t j=0; j<static_cast<std::size_t>(point_dim); j++)
             reader >> p[j];
 
+          if (!reader)
+            throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": EOF encountered while reading vertices.");
+
           viennagrid::make_vertex_with_id( mesh_obj, typename VertexType::id_type(i), p );
         }
 
-        if (!reader.good())
-          throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": EOF encountered when reading number of cells.");
-
-
         //
         // Read cells:
         //
-        reader >> cell_num;
+        if (!(reader >> cell_num))
+          throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": EOF encountered when reading number of cells.");
 
         #if defined VIENNAGRID_DEBUG_STATUS || defined VIENNAGRID_DEBUG_IO
         std::cout << "* netgen_reader::operator(): Reading " << cell_num << " cells... " << std::endl;
@@ -116,18 +114,15 @@ namespace viennagrid
           std::size_t vertex_num;
           viennagrid::static_array<VertexHandleType, boundary_elements<CellTag, vertex_tag>::num> cell_vertex_handles;
 
-          if (!reader.good())
-            throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": EOF encountered while reading cells (segment index expected).");
-
           int segment_index;
-          reader >> segment_index;
+          if (!(reader >> segment_index))
+            throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": EOF encountered while reading cells (segment index expected).");
 
           for (std::size_t j=0; j<static_cast<std::size_t>(boundary_elements<CellTag, vertex_tag>::num); ++j)
           {
-            if (!reader.good())
+            if (!(reader >> vertex_num))
               throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": EOF encountered while reading cells (cell ID expected).");
 
-            reader >> vertex_num;
             cell_vertex_handles[j] = viennagrid::vertices(mesh_obj).handle_at(vertex_num-1);
           }
 
-- 
2.43.0


From 2c411147cf5cbae75ef784e3bdeabfd09496fb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:38 +0000
Subject: [PATCH 23/25] fix: opendx_writer writes vertex positions instead of
 vertex ids as connections

---
 viennagrid/io/opendx_writer.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/viennagrid/io/opendx_writer.hpp b/viennagrid/io/opendx_writer.hpp
index 3fd7723..434dba6 100644
--- a/viennagrid/io/opendx_writer.hpp
+++ b/viennagrid/io/opendx_writer.hpp
@@ -87,6 +87,7 @@ namespace viennagrid
         typedef typename viennagrid::result_of::cell_tag<MeshType>::type CellTag;
 
         typedef typename result_of::element<MeshType, viennagrid::vertex_tag>::type                           VertexType;
+        typedef typename VertexType::id_type                                                                  VertexIDType;
         typedef typename result_of::element<MeshType, CellTag>::type     CellType;
 
         typedef typename viennagrid::result_of::const_element_range<MeshType, viennagrid::vertex_tag>::type   VertexRange;
@@ -128,10 +129,14 @@ namespace viennagrid
 
           //Nodes:
           VertexRange vertices = viennagrid::elements<vertex_tag>(mesh_obj);
+          std::map<VertexIDType, std::size_t> vertex_index_map;   //ids need not be consecutive
           for (VertexIterator vit = vertices.begin();
               vit != vertices.end();
               ++vit)
           {
+            std::size_t vertex_index = vertex_index_map.size();
+            vertex_index_map[vit->id()] = vertex_index;
+
             PointWriter<geometric_dim>::write(writer, viennagrid::point( mesh_obj, *vit ) );
             writer << std::endl;
           }
@@ -152,7 +157,7 @@ namespace viennagrid
                 ++vocit)
             {
               VertexType const & vertex = *vocit;
-              writer << vertex.id() << " ";
+              writer << vertex_index_map[vertex.id()] << " ";
             }
             writer << std::endl;
           }
-- 
2.43.0


From 12c9466886648268a3d7b5aac9f1fa43ef5c66e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:40 +0000
Subject: [PATCH 24/25] fix: compare dereferenced handles through the free
 function, so Voronoi quantities can be written for segments

---
 viennagrid/mesh/mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/mesh/mesh.hpp b/viennagrid/mesh/mesh.hpp
index a825e32..39d7c31 100644
--- a/viennagrid/mesh/mesh.hpp
+++ b/viennagrid/mesh/mesh.hpp
@@ -960,7 +960,7 @@ namespace viennagrid
       template<typename HandleT>
       bool operator() ( HandleT h1, HandleT h2 )
       {
-          return &viennagrid::dereference_handle( container, h1 ) < &viennagrid::dereference_handle( container, h2 );
+          return &dereference_handle( container, h1 ) < &dereference_handle( container, h2 );
       }
 
     private:
-- 
2.43.0


From 41204f8a37d91ee22713b514b14b81f991de284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:58 +0000
Subject: [PATCH 25/25] fix: interface area of an edge counts the part beyond
 an obtuse cell only if a neighbour cell takes it

---
 viennagrid/algorithm/voronoi.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/viennagrid/algorithm/voronoi.hpp b/viennagrid/algorithm/voronoi.hpp
index 49edba8..a4b0044 100644
--- a/viennagrid/algorithm/voronoi.hpp
+++ b/viennagrid/algorithm/voronoi.hpp
@@ -427,11 +427,13 @@ namespace viennagrid
               voronoi_unique_quantity_update(interface_area_cell_contribution_accessor(*eocit), std::make_pair( cit.handle(), interface_contribution) );
 
               // contribution from other cell containing the circumcenter:
-              interface_contribution = spanned_volume(edge_intersection, circ_center);
-              interface_area_accessor(*eocit) += interface_contribution;
               //if ( other_cell != NULL)
               if (!detail::is_handle_invalid( other_cells, other_cell ))
+              {
+                interface_contribution = spanned_volume(edge_intersection, circ_center);
+                interface_area_accessor(*eocit) += interface_contribution;
                 voronoi_unique_quantity_update(interface_area_cell_contribution_accessor(*eocit), std::make_pair( other_cell, interface_contribution) );
+              }
 
 
               //
-- 
2.43.0

