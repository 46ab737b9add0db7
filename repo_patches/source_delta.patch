From 0256f6aa9b55b9afe6b9f842446408be7e094ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:11 +0000
Subject: [PATCH 001/105] fix: Node::add_child on a list or leaf left stale
 children and data behind

---
 src/libs/conduit/conduit_node.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index d166625..5bc3818 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14268,6 +14268,10 @@ Node::add_child(const std::string &name)
         return child(name);
     }
 
+    // make sure this node (not only its schema) has the object role,
+    // any leaf data or list children are released
+    init_object();
+
     Schema &child_schema = m_schema->add_child(name);
     Schema *child_ptr = &child_schema;
     Node *child_node = new Node();
-- 
2.43.0


From 6cf177c891feea8ae835e23296fb1eac6673e3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:11 +0000
Subject: [PATCH 002/105] fix: Node::remove(index) deleted out of bounds for an
 invalid index

---
 src/libs/conduit/conduit_node.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 5bc3818..00fdf5a 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14650,6 +14650,12 @@ Node::append()
 void
 Node::remove(index_t idx)
 {
+    if( ((size_t) idx) >= m_children.size())
+    {
+        CONDUIT_ERROR("Cannot remove child with invalid index: " << idx <<
+                      " (number of children: " << m_children.size() << ")");
+    }
+
     // note: we must remove the child pointer before the
     // schema. b/c the child pointer uses the schema
     // to cleanup
-- 
2.43.0


From e1b774b1abbf20dad0688d353d6ca894555aa3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:11 +0000
Subject: [PATCH 003/105] fix: Node::swap and Node::move left wrong parent
 links, and broke sibling swaps

---
 src/libs/conduit/conduit_node.cpp | 41 ++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 00fdf5a..2455907 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -8717,40 +8717,47 @@ Node::swap(Node &n_b)
     Schema *schema_a = m_schema;
     Schema *schema_b = n_b.m_schema;
 
+    // find where each schema lives in its parent before changing anything,
+    // b/c both nodes can be children of the same parent
+    index_t idx_a = -1;
+    index_t idx_b = -1;
+
     // check if node a has a parent Node
     if(this->parent() != NULL)
     {
         // find index in parent schema
-        Schema *a_parent_schema = schema_a->parent();
-        index_t idx = a_parent_schema->child_index(schema_a);
-        // as we swap, we need to make sure the parent schema is updated
-        if(idx < 0)
+        idx_a = schema_a->parent()->child_index(schema_a);
+        if(idx_a < 0)
         {
             // error
             CONDUIT_ERROR("Node::swap internal error,"
                          "failed to find schema child index in this Node's parent.");
         }
-
-        a_parent_schema->children()[idx] = schema_b;
     }
 
     // check if node b has a parent Node
     if(n_b.parent() != NULL)
     {
         // find index in parent schema
-        Schema *b_parent_schema = schema_b->parent();
-        index_t idx = b_parent_schema->child_index(schema_b);
-
-        // as we swap, we need to make sure the parent schema is updated
-        if(idx < 0)
+        idx_b = schema_b->parent()->child_index(schema_b);
+        if(idx_b < 0)
         {
             // error
             CONDUIT_ERROR("Node::swap internal error,"
                          "failed to find schema child index in passed Node's parent.");
 
         }
+    }
 
-        b_parent_schema->children()[idx] = schema_a;
+    // as we swap, we need to make sure the parent schemas are updated
+    if(idx_a >= 0)
+    {
+        schema_a->parent()->children()[idx_a] = schema_b;
+    }
+
+    if(idx_b >= 0)
+    {
+        schema_b->parent()->children()[idx_b] = schema_a;
     }
 
     // swap-o-rama
@@ -8775,6 +8782,16 @@ Node::swap(Node &n_b)
     // this should be an efficient O(1)
     std::swap(m_children,n_b.m_children);
 
+    // the children have new parents
+    for(size_t i=0; i < m_children.size(); i++)
+    {
+        m_children[i]->m_parent = this;
+    }
+
+    for(size_t i=0; i < n_b.m_children.size(); i++)
+    {
+        n_b.m_children[i]->m_parent = &n_b;
+    }
 }
 
 
-- 
2.43.0


From 3e165c9763d6a64958b754646c094c0c9f5d4736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:12 +0000
Subject: [PATCH 004/105] fix: Node::set of a shorter array read past the end
 of the source

---
 src/libs/conduit/conduit_node.cpp | 46 +++++++++++++++----------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 2455907..9a8a0a4 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -937,7 +937,7 @@ Node::set_int8_array(const int8_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -959,7 +959,7 @@ Node::set_int16_array(const int16_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -981,7 +981,7 @@ Node::set_int32_array(const int32_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1003,7 +1003,7 @@ Node::set_int64_array(const int64_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1029,7 +1029,7 @@ Node::set_uint8_array(const uint8_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1051,7 +1051,7 @@ Node::set_uint16_array(const uint16_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1073,7 +1073,7 @@ Node::set_uint32_array(const uint32_array  &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1095,7 +1095,7 @@ Node::set_uint64_array(const uint64_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1120,7 +1120,7 @@ Node::set_float32_array(const float32_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1142,7 +1142,7 @@ Node::set_float64_array(const float64_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1168,7 +1168,7 @@ Node::set(const char_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1188,7 +1188,7 @@ Node::set(const signed_char_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1204,7 +1204,7 @@ Node::set(const unsigned_char_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1224,7 +1224,7 @@ Node::set(const short_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1239,7 +1239,7 @@ Node::set(const unsigned_short_array&data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1259,7 +1259,7 @@ Node::set(const int_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1274,7 +1274,7 @@ Node::set(const unsigned_int_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1294,7 +1294,7 @@ Node::set(const long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1309,7 +1309,7 @@ Node::set(const unsigned_long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1329,7 +1329,7 @@ Node::set(const long_long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1344,7 +1344,7 @@ Node::set(const unsigned_long_long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1364,7 +1364,7 @@ Node::set(const float_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1384,7 +1384,7 @@ Node::set(const double_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
-- 
2.43.0


From fc2e7bf99a5e142e7958fa0873561a64868a3195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:30 +0000
Subject: [PATCH 005/105] fix: Node::set of a vector ignored the stride of a
 compatible destination

---
 src/libs/conduit/conduit_node.cpp | 90 ++++++++++++++++++++-----------
 1 file changed, 60 insertions(+), 30 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 9a8a0a4..04a14a7 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -1495,9 +1495,12 @@ void
 Node::set_int8_vector(const std::vector<int8> &data)
 {
     init(DataType::int8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int8)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(int8),                 // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(int8));                // src stride per ele
 }
 
 //---------------------------------------------------------------------------//
@@ -1512,9 +1515,12 @@ void
 Node::set_int16_vector(const std::vector<int16> &data)
 {
     init(DataType::int16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int16)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(int16),                // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(int16));               // src stride per ele
 }
 
 //---------------------------------------------------------------------------//
@@ -1529,9 +1535,12 @@ void
 Node::set_int32_vector(const std::vector<int32> &data)
 {
     init(DataType::int32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int32)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(int32),                // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(int32));               // src stride per ele
 }
 
 //---------------------------------------------------------------------------//
@@ -1546,9 +1555,12 @@ void
 Node::set_int64_vector(const std::vector<int64> &data)
 {
     init(DataType::int64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int64)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(int64),                // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(int64));               // src stride per ele
 }
 
 //---------------------------------------------------------------------------//
@@ -1567,9 +1579,12 @@ void
 Node::set_uint8_vector(const std::vector<uint8> &data)
 {
     init(DataType::uint8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint8)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(uint8),                // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(uint8));               // src stride per ele
 }
 
 //---------------------------------------------------------------------------//
@@ -1584,9 +1599,12 @@ void
 Node::set_uint16_vector(const std::vector<uint16> &data)
 {
     init(DataType::uint16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint16)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(uint16),               // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(uint16));              // src stride per ele
 }
 
 //---------------------------------------------------------------------------//
@@ -1601,9 +1619,12 @@ void
 Node::set_uint32_vector(const std::vector<uint32> &data)
 {
     init(DataType::uint32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint32)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(uint32),               // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(uint32));              // src stride per ele
 }
 
 //---------------------------------------------------------------------------//
@@ -1618,9 +1639,12 @@ void
 Node::set_uint64_vector(const std::vector<uint64> &data)
 {
     init(DataType::uint64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint64)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(uint64),               // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(uint64));              // src stride per ele
 }
 
 //---------------------------------------------------------------------------//
@@ -1639,9 +1663,12 @@ void
 Node::set_float32_vector(const std::vector<float32> &data)
 {
     init(DataType::float32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(float32)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(float32),              // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(float32));             // src stride per ele
 }
 
 //---------------------------------------------------------------------------//
@@ -1657,9 +1684,12 @@ void
 Node::set_float64_vector(const std::vector<float64> &data)
 {
     init(DataType::float64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(float64)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(float64),              // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(float64));             // src stride per ele
 }
 
 //---------------------------------------------------------------------------//
-- 
2.43.0


From 9d2d5648ae0f24dccfd2cf6419286cc7841e791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:30 +0000
Subject: [PATCH 006/105] fix: Node::set with the node itself, an ancestor or a
 descendant as source

---
 src/libs/conduit/conduit_node.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 04a14a7..31229a5 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -468,6 +468,34 @@ Node::mmap(const std::string &stream_path,
 void
 Node::set_node(const Node &node)
 {
+    if(this == &node)
+    {
+        return;
+    }
+
+    // if the source is an ancestor or descendant of this node, changing
+    // this node changes the source: use an intermediate copy.
+    bool related = false;
+
+    for(const Node *n = node.parent(); n != NULL && !related; n = n->parent())
+    {
+        related = (n == this);
+    }
+
+    for(const Node *n = this->parent(); n != NULL && !related; n = n->parent())
+    {
+        related = (n == &node);
+    }
+
+    if(related)
+    {
+        Node tmp;
+        tmp.set_allocator(m_allocator_id);
+        tmp.set_node(node);
+        swap(tmp);
+        return;
+    }
+
     if(node.dtype().id() == DataType::OBJECT_ID)
     {
         reset();
-- 
2.43.0


From 298044f4fe69e2f6374592bfbac74ee1e2f650fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:30 +0000
Subject: [PATCH 007/105] fix: Node::fetch_existing recursed without end on an
 empty path

---
 src/libs/conduit/conduit_node.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 31229a5..c70f7f0 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14399,6 +14399,11 @@ Node::fetch_existing(const std::string &path) const
                       << ") is not an object");
     }
 
+    if(path.empty())
+    {
+        CONDUIT_ERROR("Cannot fetch_existing empty path string");
+    }
+
     std::string p_curr;
     std::string p_next;
     utils::split_path(path,p_curr,p_next);
@@ -14448,6 +14453,11 @@ Node::fetch_existing(const std::string &path)
                       << ") is not an object");
     }
 
+    if(path.empty())
+    {
+        CONDUIT_ERROR("Cannot fetch_existing empty path string");
+    }
+
     std::string p_curr;
     std::string p_next;
     utils::split_path(path,p_curr,p_next);
-- 
2.43.0


From c70e45ea86be44169d919af8402e661bb617efab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:23 +0000
Subject: [PATCH 008/105] fix: Node::set of native-typed vectors and
 initializer lists ignored the stride of a compatible destination

---
 src/libs/conduit/conduit_node.cpp | 324 ++++++++++++++++++++----------
 1 file changed, 216 insertions(+), 108 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index c70f7f0..1023ee6 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -1737,9 +1737,12 @@ void
 Node::set(const std::vector<char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(char)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(char),                 // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(char));                // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -1749,9 +1752,12 @@ void
 Node::set(const std::vector<signed char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(signed char)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(signed char),          // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(signed char));         // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -1759,9 +1765,12 @@ void
 Node::set(const std::vector<unsigned char> &data)
 {
     init(DataType::c_unsigned_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned char)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(unsigned char),        // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(unsigned char));       // src stride per ele
 }
 //-----------------------------------------------------------------------------
 #endif // end use char check
@@ -1774,9 +1783,12 @@ void
 Node::set(const std::vector<short> &data)
 {
     init(DataType::c_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(short)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(short),                // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(short));               // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -1784,9 +1796,12 @@ void
 Node::set(const std::vector<unsigned short> &data)
 {
     init(DataType::c_unsigned_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned short)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(unsigned short),       // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(unsigned short));      // src stride per ele
 }
 //-----------------------------------------------------------------------------
 #endif // end use short check
@@ -1799,9 +1814,12 @@ void
 Node::set(const std::vector<int> &data)
 {
     init(DataType::c_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(int),                  // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(int));                 // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -1809,9 +1827,12 @@ void
 Node::set(const std::vector<unsigned int> &data)
 {
     init(DataType::c_unsigned_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned int)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(unsigned int),         // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(unsigned int));        // src stride per ele
 }
 //-----------------------------------------------------------------------------
 #endif // end use int check
@@ -1824,9 +1845,12 @@ void
 Node::set(const std::vector<long> &data)
 {
     init(DataType::c_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(long),                 // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(long));                // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -1834,9 +1858,12 @@ void
 Node::set(const std::vector<unsigned long> &data)
 {
     init(DataType::c_unsigned_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(unsigned long),        // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(unsigned long));       // src stride per ele
 }
 //-----------------------------------------------------------------------------
 #endif // end use long check
@@ -1849,9 +1876,12 @@ void
 Node::set(const std::vector<long long> &data)
 {
     init(DataType::c_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(long long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(long long),            // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(long long));           // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -1859,9 +1889,12 @@ void
 Node::set(const std::vector<unsigned long long> &data)
 {
     init(DataType::c_unsigned_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned long long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(unsigned long long),   // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(unsigned long long));  // src stride per ele
 }
 //-----------------------------------------------------------------------------
 #endif // end use long long check
@@ -1874,9 +1907,12 @@ void
 Node::set(const std::vector<float> &data)
 {
     init(DataType::c_float(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(float)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(float),                // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(float));               // src stride per ele
 }
 //-----------------------------------------------------------------------------
 #endif // end use float check
@@ -1889,9 +1925,12 @@ void
 Node::set(const std::vector<double> &data)
 {
     init(DataType::c_double(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(double)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(double),               // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.data(),                  // src
+            sizeof(double));              // src stride per ele
 }
 //-----------------------------------------------------------------------------
 #endif // end use double check
@@ -1927,9 +1966,12 @@ void
 Node::set_int8_initializer_list(const std::initializer_list<int8> &data)
 {
     init(DataType::int8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int8) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(int8),                 // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(int8));                // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -1946,9 +1988,12 @@ void
 Node::set_int16_initializer_list(const std::initializer_list<int16> &data)
 {
     init(DataType::int16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int16) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(int16),                // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(int16));               // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -1965,9 +2010,12 @@ void
 Node::set_int32_initializer_list(const std::initializer_list<int32> &data)
 {
     init(DataType::int32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int32) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(int32),                // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(int32));               // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -1985,9 +2033,12 @@ void
 Node::set_int64_initializer_list(const std::initializer_list<int64> &data)
 {
     init(DataType::int64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int64) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(int64),                // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(int64));               // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2009,9 +2060,12 @@ void
 Node::set_uint8_initializer_list(const std::initializer_list<uint8> &data)
 {
     init(DataType::uint8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint8) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(uint8),                // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(uint8));               // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2028,9 +2082,12 @@ void
 Node::set_uint16_initializer_list(const std::initializer_list<uint16> &data)
 {
     init(DataType::uint16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint16) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(uint16),               // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(uint16));              // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2047,9 +2104,12 @@ void
 Node::set_uint32_initializer_list(const std::initializer_list<uint32> &data)
 {
     init(DataType::uint32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint32) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(uint32),               // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(uint32));              // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2066,9 +2126,12 @@ void
 Node::set_uint64_initializer_list(const std::initializer_list<uint64> &data)
 {
     init(DataType::uint64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint64) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(uint64),               // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(uint64));              // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2090,9 +2153,12 @@ void
 Node::set_float32_initializer_list(const std::initializer_list<float32> &data)
 {
     init(DataType::float32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(float32) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(float32),              // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(float32));             // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2109,9 +2175,12 @@ void
 Node::set_float64_initializer_list(const std::initializer_list<float64> &data)
 {
     init(DataType::float64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(float64) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(float64),              // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(float64));             // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2130,9 +2199,12 @@ void
 Node::set(const std::initializer_list<char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(char) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(char),                 // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(char));                // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2142,9 +2214,12 @@ void
 Node::set(const std::initializer_list<signed char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(signed char) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(signed char),          // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(signed char));         // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2152,9 +2227,12 @@ void
 Node::set(const std::initializer_list<unsigned char> &data)
 {
     init(DataType::c_unsigned_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned char) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(unsigned char),        // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(unsigned char));       // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2168,9 +2246,12 @@ void
 Node::set(const std::initializer_list<short> &data)
 {
     init(DataType::c_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(short) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(short),                // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(short));               // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2178,9 +2259,12 @@ void
 Node::set(const std::initializer_list<unsigned short> &data)
 {
     init(DataType::c_unsigned_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned short) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(unsigned short),       // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(unsigned short));      // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2194,9 +2278,12 @@ void
 Node::set(const std::initializer_list<int> &data)
 {
     init(DataType::c_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(int),                  // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(int));                 // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2204,9 +2291,12 @@ void
 Node::set(const std::initializer_list<unsigned int> &data)
 {
     init(DataType::c_unsigned_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned int) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(unsigned int),         // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(unsigned int));        // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2220,9 +2310,12 @@ void
 Node::set(const std::initializer_list<long> &data)
 {
     init(DataType::c_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(long),                 // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(long));                // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2230,9 +2323,12 @@ void
 Node::set(const std::initializer_list<unsigned long> &data)
 {
     init(DataType::c_unsigned_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(unsigned long),        // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(unsigned long));       // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2246,9 +2342,12 @@ void
 Node::set(const std::initializer_list<long long> &data)
 {
     init(DataType::c_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(long long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(long long),            // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(long long));           // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2256,9 +2355,12 @@ void
 Node::set(const std::initializer_list<unsigned long long> &data)
 {
     init(DataType::c_unsigned_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned long long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(unsigned long long),   // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(unsigned long long));  // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2272,9 +2374,12 @@ void
 Node::set(const std::initializer_list<float> &data)
 {
     init(DataType::c_float(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(float) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(float),                // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(float));               // src stride per ele
 }
 //-----------------------------------------------------------------------------
 #endif // end use float check
@@ -2287,9 +2392,12 @@ void
 Node::set(const std::initializer_list<double> &data)
 {
     init(DataType::c_double(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(double) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),  // dest
+            data.size(),                  // num eles to copy
+            sizeof(double),               // bytes per element
+            (size_t)dtype().stride(),     // dest stride per ele
+            data.begin(),                 // src
+            sizeof(double));              // src stride per ele
 }
 //-----------------------------------------------------------------------------
 #endif // end use double check
-- 
2.43.0


From a56ad6b7c4d25cb4738b3adee8d4fde4b61b91c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:45 +0000
Subject: [PATCH 009/105] fix: DataArray::set from a shorter array or accessor
 read past the end of the source

---
 src/libs/conduit/conduit_data_array.cpp | 60 ++++++++++++++++---------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/src/libs/conduit/conduit_data_array.cpp b/src/libs/conduit/conduit_data_array.cpp
index ababf48..c0b7ca4 100644
--- a/src/libs/conduit/conduit_data_array.cpp
+++ b/src/libs/conduit/conduit_data_array.cpp
@@ -1763,7 +1763,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<int8> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1775,7 +1776,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<int16> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1787,7 +1789,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<int32> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1799,7 +1802,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<int64> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1815,7 +1819,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<uint8> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1827,7 +1832,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<uint16> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1839,7 +1845,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<uint32> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1851,7 +1858,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<uint64> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1867,7 +1875,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<float32> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1879,7 +1888,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<float64> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1901,7 +1911,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataAccessor<int8> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1913,7 +1924,8 @@ template <typename T>
 void            
 DataArray<T>::set(const DataAccessor<int16> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1925,7 +1937,8 @@ template <typename T>
 void            
 DataArray<T>::set(const DataAccessor<int32> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1937,7 +1950,8 @@ template <typename T>
 void            
 DataArray<T>::set(const DataAccessor<int64> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1953,7 +1967,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataAccessor<uint8> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1965,7 +1980,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataAccessor<uint16> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1977,7 +1993,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataAccessor<uint32> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1989,7 +2006,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataAccessor<uint64> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -2005,7 +2023,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataAccessor<float32> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -2017,7 +2036,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataAccessor<float64> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
-- 
2.43.0


From 036347cd430b448ec7f38b1e198332939a22b297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:26 +0000
Subject: [PATCH 010/105] fix: Node::release leaked a buffer allocated while
 the node is empty

---
 src/libs/conduit/conduit_node.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 1023ee6..76f7f62 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17520,17 +17520,11 @@ Node::release()
     // clean up any allocated or mmaped buffers
     if(m_alloced && m_data)
     {
-        ///
-        /// TODO: why do we need to check for empty here?
-        ///
-        if(dtype().id() != DataType::EMPTY_ID)
-        {
-            // clean up our storage
-            utils::conduit_free(m_data, m_allocator_id);
-            m_data = NULL;
-            m_data_size = 0;
-            m_alloced   = false;
-        }
+        // clean up our storage
+        utils::conduit_free(m_data, m_allocator_id);
+        m_data = NULL;
+        m_data_size = 0;
+        m_alloced   = false;
     }
     else if(m_mmaped && m_mmap)
     {
-- 
2.43.0


From 12daf316d3b46a4c293bee488fcf77d1dd1a7b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:05 +0000
Subject: [PATCH 011/105] fix: JSON text left object names and control
 characters unescaped

---
 src/libs/conduit/conduit_node.cpp   |  4 ++-
 src/libs/conduit/conduit_schema.cpp |  4 ++-
 src/libs/conduit/conduit_utils.cpp  | 38 ++++++++++++++++++++++++++---
 3 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 76f7f62..b042437 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -13683,7 +13683,9 @@ Node::to_json_generic(std::ostream &os,
         for(size_t i=0; i <  nchildren;i++)
         {
             utils::indent(os,indent,depth+1,pad);
-            os << "\""<< m_schema->object_order()[i] << "\": ";
+            os << "\""
+               << utils::escape_special_chars(m_schema->object_order()[i])
+               << "\": ";
             m_children[i]->to_json_generic(os,
                                            detailed,
                                            address,
diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index e7c7bfe..a33e868 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -546,7 +546,9 @@ Schema::to_json_stream(std::ostream &os,
         for(size_t i=0; i < nchildren;i++)
         {
             utils::indent(os,indent,depth+1,pad);
-            os << "\""<< object_order()[i] << "\": ";
+            os << "\""
+               << utils::escape_special_chars(object_order()[i])
+               << "\": ";
             children()[i]->to_json_stream(os,indent,depth+1,pad,eoe);
             if(i < nchildren-1)
                 os << ",";
diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 6601ae1..35efdcf 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -1167,7 +1167,18 @@ escape_special_chars(const std::string &input)
 
             default:
             {
-                res += val;
+                unsigned char uval = (unsigned char)val;
+                // other control characters
+                if(uval < 0x20 || uval == 0x7f)
+                {
+                    char buffer[8] = {0};
+                    snprintf(buffer,8,"\\u%04x",(unsigned int)uval);
+                    res += buffer;
+                }
+                else
+                {
+                    res += val;
+                }
             }
         }
     }
@@ -1242,11 +1253,32 @@ unescape_special_chars(const std::string &input)
                     i++;
                     break;
                 }
-                // \uFFFF & unknown escape strings
+                // \u00XX, for the ascii chars we escape this way
+                case 'u':
+                {
+                    unsigned int code = 0;
+                    if( i + 5 < input_size &&
+                        input.find_first_not_of("0123456789abcdefABCDEF",
+                                                i + 2) >= i + 6 &&
+                        sscanf(input.substr(i+2,4).c_str(),"%x",&code) == 1 &&
+                        code < 0x80)
+                    {
+                        res += (char)code;
+                        // skip escape sequence
+                        i += 5;
+                    }
+                    else
+                    {
+                        // simply emit
+                        res += input[i];
+                    }
+                    break;
+                }
+                // unknown escape strings
                 default:
                 {
                     // simply emit
-                    res += val;
+                    res += input[i];
                     break;
                 }
             }
-- 
2.43.0


From 9094f59b91e0176b97e1f606d522fdb2484cb0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:05 +0000
Subject: [PATCH 012/105] fix: conduit_json strings were unescaped twice when
 parsed

---
 src/libs/conduit/conduit_generator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index feb5ef3..8ad93cd 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -957,7 +957,8 @@ Generator::Parser::JSON::parse_inline_leaf(const conduit_rapidjson::Value &jvalu
         if(node.dtype().id() == DataType::CHAR8_STR_ID)
         {
             std::string sval(jvalue.GetString());
-            node.set(utils::unescape_special_chars(sval));
+            // note: the JSON parser already resolved any escape sequences
+            node.set(sval);
         }
         else
         {
-- 
2.43.0


From 6987b8b3d5a6b1a71adf7fd977289de15252875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:05 +0000
Subject: [PATCH 013/105] fix: conduit_json could not parse the nan and inf
 scalars it writes

---
 src/libs/conduit/conduit_generator.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 8ad93cd..8f0fc46 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -960,6 +960,20 @@ Generator::Parser::JSON::parse_inline_leaf(const conduit_rapidjson::Value &jvalu
             // note: the JSON parser already resolved any escape sequences
             node.set(sval);
         }
+        // nan and inf are written as strings
+        else if(node.dtype().is_floating_point() &&
+                string_is_double(jvalue.GetString()))
+        {
+            float64 fval = string_to_double(jvalue.GetString());
+            if(node.dtype().id() == DataType::FLOAT32_ID)
+            {
+                node.set((float32)fval);
+            }
+            else
+            {
+                node.set(fval);
+            }
+        }
         else
         {
              // JSON type incompatible with char8_str
-- 
2.43.0


From 71e3b86bdb93ac4806cb91f174eb25fa3efb02a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:55 +0000
Subject: [PATCH 014/105] fix: unexpected JSON types and values aborted the
 process instead of raising an error

---
 src/libs/conduit/conduit_generator.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 8f0fc46..7adafa3 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -19,6 +19,20 @@
 //-----------------------------------------------------------------------------
 // -- rapidjson includes -- 
 //-----------------------------------------------------------------------------
+// unexpected JSON types and values must end as conduit errors,
+// not as failed asserts
+#include "conduit_error.hpp"
+#include "conduit_utils.hpp"
+#define RAPIDJSON_ASSERT(x)                                                  \
+do                                                                           \
+{                                                                            \
+    if(!(x))                                                                 \
+    {                                                                        \
+        CONDUIT_ERROR("JSON Generator error:\n"                              \
+                      << "unexpected JSON type or value: " << #x);           \
+    }                                                                        \
+} while(0)
+
 #include "rapidjson/document.h"
 #include "rapidjson/error/en.h"
 
-- 
2.43.0


From ce184843e72a81e435dfd56e493c4878bd633a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:55 +0000
Subject: [PATCH 015/105] fix: base64 JSON with short or unpadded data read and
 wrote out of bounds

---
 src/libs/conduit/conduit_generator.cpp | 6 ++++++
 src/libs/conduit/conduit_schema.hpp    | 1 +
 src/libs/conduit/conduit_utils.cpp     | 3 ++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 7adafa3..7cf4590 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -1831,6 +1831,12 @@ Generator::Parser::JSON::parse_base64(Node *node,
                              encoded_len,
                              decode_ptr);
 
+        // make sure the schema doesn't describe more than we decoded
+        CONDUIT_ASSERT( (s.spanned_bytes() <= dec_buff_size),
+                        "conduit_base64_json protocol error: schema describes "
+                        << s.spanned_bytes() << " bytes, but data/base64 only"
+                        << " provides " << dec_buff_size);
+
         node->set(s,decode_ptr);
 
     }
diff --git a/src/libs/conduit/conduit_schema.hpp b/src/libs/conduit/conduit_schema.hpp
index 1b70dc5..269799d 100644
--- a/src/libs/conduit/conduit_schema.hpp
+++ b/src/libs/conduit/conduit_schema.hpp
@@ -52,6 +52,7 @@ public:
     friend class Node;
     friend class NodeIterator;
     friend class NodeConstIterator;
+    friend class Generator;
 
 //----------------------------------------------------------------------------
 //
diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 35efdcf..e406e1f 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -1329,7 +1329,8 @@ base64_encode_buffer_size(index_t src_nbytes)
 index_t
 base64_decode_buffer_size(index_t encoded_nbytes)
 {
-    return (encoded_nbytes / 4) * 3 + 1;
+    // round up, the encoded text may lack its padding
+    return ((encoded_nbytes + 3) / 4) * 3 + 1;
 }
 
 
-- 
2.43.0


From c98067d122a86938ab3652e02867da24c27535fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:55 +0000
Subject: [PATCH 016/105] fix: Node::as_string read past the end of strings
 without terminator

---
 src/libs/conduit/conduit_node.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index b042437..356d443 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -15662,7 +15662,15 @@ Node::as_string() const
                         DataType::CHAR8_STR_ID,
                         "as_string() const",
                         std::string());
-    return std::string(as_char8_str());
+    // the data may not be null terminated
+    const char *str = as_char8_str();
+    size_t max_len  = (size_t) dtype().number_of_elements();
+    size_t len = 0;
+    while(str != NULL && len < max_len && str[len] != 0)
+    {
+        len++;
+    }
+    return len == 0 ? std::string() : std::string(str,len);
 }
 
 
-- 
2.43.0


From 37ac63982fe6fa6b3dbb00245c9031b39aa01846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:55 +0000
Subject: [PATCH 017/105] fix: Schema and Node constructors leaked when parsing
 their text failed

---
 src/libs/conduit/conduit_node.cpp   | 4 ++--
 src/libs/conduit/conduit_schema.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 356d443..213665d 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -141,8 +141,8 @@ Node::Node(const Schema &schema)
 //---------------------------------------------------------------------------//
 Node::Node(const Generator &gen,
            bool external)
+: Node() // with this, ~Node() cleans up if parsing throws
 {
-    init_defaults();
     if(external)
     {
         gen.walk_external(*this);
@@ -158,8 +158,8 @@ Node::Node(const Generator &gen,
 Node::Node(const std::string &schema,
            void *data,
            bool external)
+: Node() // with this, ~Node() cleans up if parsing throws
 {
-    init_defaults();
     Generator g(schema,"conduit_json",data);
 
     if(external)
diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index a33e868..ca240b4 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -76,15 +76,15 @@ Schema::Schema(const DataType &dtype)
 
 //---------------------------------------------------------------------------//
 Schema::Schema(const std::string &json_schema)
+: Schema() // with this, ~Schema() cleans up if parsing throws
 {
-    init_defaults();
     set(json_schema);
 }
 
 //---------------------------------------------------------------------------//
 Schema::Schema(const char *json_schema)
+: Schema() // with this, ~Schema() cleans up if parsing throws
 {
-    init_defaults();
     set(std::string(json_schema));
 }
 
-- 
2.43.0


From 711d24e7d44c71593db82f14917c2ec322a8d19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:54 +0000
Subject: [PATCH 018/105] fix: a dtype name as conduit_json or conduit_yaml
 leaf gave a node without data, or one aliasing the caller's data

---
 src/libs/conduit/conduit_generator.cpp | 30 +++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 7cf4590..8f4c7aa 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -1565,12 +1565,19 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
     {
         DataType dtype;
         parse_leaf_dtype(jvalue,curr_offset,dtype);
-        schema->set(dtype);
         
         if(data != NULL)
         {
+            uint8 *src_data_ptr = ((uint8*)data) + dtype.offset();
+            DataType des_dtype;
+            dtype.compact_to(des_dtype);
             // node is already linked to the schema pointer
-            node->set_data_ptr(data);
+            // we need to dynamically alloc, use compact dtype
+            node->set(des_dtype); // causes an init
+            // copy bytes from src data to node's memory
+            memcpy(node->data_ptr(),
+                   src_data_ptr,
+                   des_dtype.strided_bytes());
         }
         else
         {
@@ -1762,10 +1769,10 @@ Generator::Parser::JSON::walk_json_schema_external(Node   *node,
     {
         DataType dtype;
         parse_leaf_dtype(jvalue,curr_offset,dtype);
-        schema->set(dtype);
         
         if(data != NULL)
         {
+             schema->set(dtype);
              // node is already linked to the schema pointer
              node->set_data_ptr(data);
         }
@@ -2889,13 +2896,26 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
     {
         DataType dtype;
         parse_leaf_dtype(yaml_doc, yaml_node, curr_offset, dtype);
-        schema->set(dtype);
 
-        if (data)
+        if (data && external)
         {
+            schema->set(dtype);
             // node is already linked to the schema pointer
             node->set_data_ptr(data);
         }
+        else if (data)
+        {
+            uint8 *src_data_ptr = ((uint8*)data) + dtype.offset();
+            DataType des_dtype;
+            dtype.compact_to(des_dtype);
+            // node is already linked to the schema pointer
+            // we need to dynamically alloc, use compact dtype
+            node->set(des_dtype); // causes an init
+            // copy bytes from src data to node's memory
+            memcpy(node->data_ptr(),
+                   src_data_ptr,
+                   des_dtype.strided_bytes());
+        }
         else
         {
             // node is already linked to the schema pointer
-- 
2.43.0


From d5208368a88ad6e0277ca5b6277b3fe7253274a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:02 +0000
Subject: [PATCH 019/105] fix: external walk of a YAML layout lost offsets and
 strides; external walks printed the schema to stdout

---
 src/libs/conduit/conduit_generator.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 8f4c7aa..2c1fcee 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -1678,7 +1678,6 @@ Generator::Parser::JSON::walk_json_schema_external(Node   *node,
                     {
                         // node is already linked to the schema pointer
                         schema->set(dtype);
-                        schema->print();
                         node->set_data_ptr(data);
                     }
                     else
@@ -2774,8 +2773,7 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                         if (external) // handle conduit_yaml_external case
                         {
                             // node is already linked to the schema pointer
-                            schema->set(des_dtype);
-                            schema->print();
+                            schema->set(src_dtype);
                             node->set_data_ptr(data);
                         }
                         else
-- 
2.43.0


From 35f2b4ffd59a66bb86eab773e5b84065c65b2e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:07 +0000
Subject: [PATCH 020/105] fix: JSON arrays with integers above INT64_MAX failed
 to parse, and arrays of numeric looking strings turned into numbers

---
 src/libs/conduit/conduit_generator.cpp | 60 ++++++++++++++++++--------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 2c1fcee..746bc16 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -14,6 +14,7 @@
 // -- standard lib includes -- 
 //-----------------------------------------------------------------------------
 #include <stdio.h>
+#include <cmath>
 #include <cstdlib>
 
 //-----------------------------------------------------------------------------
@@ -497,14 +498,14 @@ Generator::Parser::JSON::json_to_numeric_dtype(const conduit_rapidjson::Value &j
     index_t res = DataType::EMPTY_ID; 
     if(jvalue.IsNumber())
     {
-        // TODO: We could have better logic for dealing with int vs uint
-        if(jvalue.IsUint64() || 
-           jvalue.IsInt64()  || 
-           jvalue.IsUint()   ||
-           jvalue.IsInt())
+        if(jvalue.IsInt64())
         {
             res  = DataType::INT64_ID; // for int
         }
+        else if(jvalue.IsUint64())
+        {
+            res  = DataType::UINT64_ID; // only values that int64 can't hold
+        }
         else if(jvalue.IsDouble())
         {
             res  = DataType::FLOAT64_ID; // for float
@@ -513,7 +514,9 @@ Generator::Parser::JSON::json_to_numeric_dtype(const conduit_rapidjson::Value &j
     }
     else if(jvalue.IsString()) // we may have strings that are nan, inf, etc
     {
-        if(string_is_double(jvalue.GetString()))
+        // (strings that spell a finite number are still strings)
+        if(string_is_double(jvalue.GetString()) &&
+           !std::isfinite(string_to_double(jvalue.GetString())))
         {
             res  = DataType::FLOAT64_ID;
         }
@@ -536,27 +539,39 @@ Generator::Parser::JSON::check_homogenous_json_array(const conduit_rapidjson::Va
     // we could also have string reps of nan, infinity, etc.
     // json_to_numeric_dtype handles that case fo us
 
-    index_t val_type = json_to_numeric_dtype(jvalue[(conduit_rapidjson::SizeType)0]); 
-    bool homogenous  = (val_type != DataType::EMPTY_ID);
+    bool has_negative = false;
+    bool has_uint64   = false;
+    bool has_float64  = false;
 
-    for (conduit_rapidjson::SizeType i = 1; i < jvalue.Size() && homogenous; i++)
+    for (conduit_rapidjson::SizeType i = 0; i < jvalue.Size(); i++)
     {
         index_t curr_val_type = json_to_numeric_dtype(jvalue[i]);
-        if(val_type == DataType::INT64_ID  &&
-           curr_val_type ==  DataType::FLOAT64_ID)
+        if(curr_val_type == DataType::EMPTY_ID)
+        {
+            // non homogenous inline
+            return DataType::EMPTY_ID;
+        }
+        else if(curr_val_type == DataType::FLOAT64_ID)
         {
-            // promote to a double (may be lossy in some cases)
-            val_type = DataType::FLOAT64_ID;
+            has_float64 = true;
         }
-        else if(curr_val_type == DataType::EMPTY_ID)
+        else if(curr_val_type == DataType::UINT64_ID)
         {
-            // non homogenous inline
-            homogenous = false;
-            val_type = DataType::EMPTY_ID;
+            has_uint64 = true;
         }
+        else if(jvalue[i].GetInt64() < 0)
+        {
+            has_negative = true;
+        }
+    }
+
+    if(has_float64 || (has_uint64 && has_negative))
+    {
+        // promote to a double (may be lossy in some cases)
+        return DataType::FLOAT64_ID;
     }
 
-    return val_type;
+    return has_uint64 ? DataType::UINT64_ID : DataType::INT64_ID;
 }
 
 //---------------------------------------------------------------------------//
@@ -1112,7 +1127,8 @@ Generator::Parser::JSON::parse_inline_value(const conduit_rapidjson::Value &jval
                         << "number of elements in JSON array is more"
                         << "than dtype can hold");
         
-        if(hval_type == DataType::INT64_ID)
+        if(hval_type == DataType::INT64_ID ||
+           hval_type == DataType::UINT64_ID)
         {
             if(node.dtype().is_unsigned_integer())
             {
@@ -1311,6 +1327,12 @@ Generator::Parser::JSON::walk_pure_json_schema(Node *node,
             int64_array vals = node->value();
             parse_json_int64_array(jvalue,vals);
         }
+        else if(hval_type == DataType::UINT64_ID)
+        {
+            node->set(DataType::uint64(jvalue.Size()));
+            uint64_array vals = node->value();
+            parse_json_uint64_array(jvalue,vals);
+        }
         else if(hval_type == DataType::FLOAT64_ID)
         {
             node->set(DataType::float64(jvalue.Size()));
-- 
2.43.0


From c2209de994e804c8d051c89808f256b20ac900ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:45 +0000
Subject: [PATCH 021/105] fix: the largest doubles were written to text as
 infinity

---
 src/libs/conduit/conduit_utils.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index e406e1f..5aca2c4 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -38,6 +38,7 @@
 #include <stdlib.h>
 
 #include <algorithm>
+#include <cmath>
 #include <limits>
 #include <fstream>
 #include <map>
@@ -1370,6 +1371,13 @@ float64_to_string(float64 value)
     char buffer[64] = {0};
     snprintf(buffer,64,"%.15g",value);
 
+    // rounding to 15 digits can push the largest values past DBL_MAX,
+    // use all digits for those
+    if(std::isfinite(value) && !std::isfinite(strtod(buffer,NULL)))
+    {
+        snprintf(buffer,64,"%.17g",value);
+    }
+
     std::string res(buffer);
 
     // we check for inf or nan in string form.
-- 
2.43.0


From f6151afe6eca26ce4bdaad2015c4c9b312faed69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:45 +0000
Subject: [PATCH 022/105] fix: YAML integers above INT64_MAX were clamped to
 INT64_MAX

---
 src/libs/conduit/conduit_generator.cpp | 84 +++++++++++++++++++++-----
 1 file changed, 68 insertions(+), 16 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 746bc16..4d2feaf 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -14,8 +14,10 @@
 // -- standard lib includes -- 
 //-----------------------------------------------------------------------------
 #include <stdio.h>
+#include <cerrno>
 #include <cmath>
 #include <cstdlib>
+#include <cstring>
 
 //-----------------------------------------------------------------------------
 // -- rapidjson includes -- 
@@ -120,6 +122,11 @@ public:
     // to an integer
     static bool string_is_integer(const char *txt_value);
 
+    // checks if input c-string holds an integer that fits in a long,
+    // or (second case) only in an unsigned long
+    static bool string_is_long(const char *txt_value);
+    static bool string_is_unsigned_long(const char *txt_value);
+
     // converts c-string to double
     static double string_to_double(const char *txt_value);
     // converts c-string to long
@@ -441,6 +448,28 @@ Generator::Parser::string_is_integer(const char *txt_value)
     return *val_end == 0;
 }
 
+//---------------------------------------------------------------------------//
+bool
+Generator::Parser::string_is_long(const char *txt_value)
+{
+    if(!string_is_integer(txt_value))
+        return false;
+    errno = 0;
+    strtol(txt_value,NULL,10);
+    return errno != ERANGE;
+}
+
+//---------------------------------------------------------------------------//
+bool
+Generator::Parser::string_is_unsigned_long(const char *txt_value)
+{
+    if(!string_is_integer(txt_value) || strchr(txt_value,'-') != NULL)
+        return false;
+    errno = 0;
+    strtoul(txt_value,NULL,10);
+    return errno != ERANGE;
+}
+
 //---------------------------------------------------------------------------//
 double 
 Generator::Parser::string_to_double(const char *txt_value)
@@ -2016,10 +2045,14 @@ index_t
 Generator::Parser::YAML::yaml_leaf_to_numeric_dtype(const char *txt_value)
 {
     index_t res = DataType::EMPTY_ID;
-    if(string_is_integer(txt_value))
+    if(string_is_long(txt_value))
     {
         res = DataType::INT64_ID;
     }
+    else if(string_is_unsigned_long(txt_value))
+    {
+        res = DataType::UINT64_ID; // only values that int64 can't hold
+    }
     else if(string_is_double(txt_value))
     {
         res = DataType::FLOAT64_ID;
@@ -2170,7 +2203,8 @@ Generator::Parser::YAML::parse_inline_value(yaml_document_t *yaml_doc,
                         << "number of elements in YAML array is more"
                         << "than dtype can hold");
 
-        if (hval_type == DataType::INT64_ID)
+        if (hval_type == DataType::INT64_ID ||
+            hval_type == DataType::UINT64_ID)
         {
             if (node.dtype().is_unsigned_integer())
             {
@@ -2366,6 +2400,7 @@ Generator::Parser::YAML::check_homogenous_yaml_numeric_sequence(const Node &node
     index_t res = DataType::EMPTY_ID;
     seq_size = -1;
     bool ok = true;
+    bool has_negative = false;
     index_t cld_idx;
     for (cld_idx = 0; cld_idx < get_yaml_sequence_length(yaml_node); cld_idx ++)
     {
@@ -2390,11 +2425,22 @@ Generator::Parser::YAML::check_homogenous_yaml_numeric_sequence(const Node &node
                 // good so far, promote to child's dtype
                 res = child_dtype_id;
             }
-            else if (res == DataType::INT64_ID && child_dtype_id == DataType::FLOAT64_ID)
+            else if (child_dtype_id == DataType::FLOAT64_ID)
             {
                 // promote to float64
                 res = DataType::FLOAT64_ID;
             }
+            else if (res == DataType::INT64_ID && child_dtype_id == DataType::UINT64_ID)
+            {
+                // promote to uint64
+                res = DataType::UINT64_ID;
+            }
+
+            if (child_dtype_id == DataType::INT64_ID &&
+                string_to_long(get_yaml_string(yaml_child)) < 0)
+            {
+                has_negative = true;
+            }
         }
         else
         {
@@ -2407,6 +2453,11 @@ Generator::Parser::YAML::check_homogenous_yaml_numeric_sequence(const Node &node
     if (ok)
     {
         seq_size = cld_idx;
+        if (res == DataType::UINT64_ID && has_negative)
+        {
+            // no integer type holds all values
+            res = DataType::FLOAT64_ID;
+        }
     }
     else
     {
@@ -2499,10 +2550,14 @@ void
 Generator::Parser::YAML::parse_yaml_inline_leaf(const char *yaml_txt,
                                                 Node &node)
 {
-    if (string_is_integer(yaml_txt))
+    if (string_is_long(yaml_txt))
     {
         node.set(static_cast<int64>(string_to_long(yaml_txt)));
     }
+    else if (string_is_unsigned_long(yaml_txt))
+    {
+        node.set(static_cast<uint64>(string_to_unsigned_long(yaml_txt)));
+    }
     else if (string_is_double(yaml_txt))
     {
         node.set(static_cast<float64>(string_to_double(yaml_txt)));
@@ -3208,18 +3263,15 @@ Generator::Parser::YAML::walk_pure_yaml_schema(Node *node,
 
         if (hval_type == DataType::INT64_ID)
         {
-            if (node->dtype().is_unsigned_integer())
-            {
-                node->set(DataType::uint64(seq_size));
-                uint64_array vals = node->value();
-                parse_yaml_array<uint64>(yaml_doc, yaml_node, vals, seq_size);
-            }
-            else
-            {
-                node->set(DataType::int64(seq_size));
-                int64_array vals = node->value();
-                parse_yaml_array<int64>(yaml_doc, yaml_node, vals, seq_size);
-            }
+            node->set(DataType::int64(seq_size));
+            int64_array vals = node->value();
+            parse_yaml_array<int64>(yaml_doc, yaml_node, vals, seq_size);
+        }
+        else if (hval_type == DataType::UINT64_ID)
+        {
+            node->set(DataType::uint64(seq_size));
+            uint64_array vals = node->value();
+            parse_yaml_array<uint64>(yaml_doc, yaml_node, vals, seq_size);
         }
         else if(hval_type == DataType::FLOAT64_ID)
         {
-- 
2.43.0


From 4e069f4d12eaf7cb3d0cf7137233ee5d5bde5f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:45 +0000
Subject: [PATCH 023/105] fix: conduit_yaml leaves without number_of_elements,
 with length references, or with number-like strings parsed wrong

---
 src/libs/conduit/conduit_generator.cpp | 31 ++++++++++++--------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 4d2feaf..66f8eca 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -2472,7 +2472,11 @@ void
 Generator::Parser::YAML::parse_inline_leaf(const char *yaml_txt,
                                            Node &node)
 {
-    if (string_is_integer(yaml_txt) || string_is_double(yaml_txt))
+    if (node.dtype().id() == DataType::CHAR8_STR_ID)
+    {
+        node.set_char8_str(yaml_txt);
+    }
+    else if (string_is_integer(yaml_txt) || string_is_double(yaml_txt))
     {
         switch(node.dtype().id())
         {
@@ -2527,21 +2531,14 @@ Generator::Parser::YAML::parse_inline_leaf(const char *yaml_txt,
     }
     else // general string case
     {
-        if (node.dtype().id() == DataType::CHAR8_STR_ID)
-        {
-            node.set_char8_str(yaml_txt);
-        }
-        else
-        {
-             // YAML type incompatible with char8_str
-             // only allow strings to be assigned to a char8_str type
-             // throw parsing error if our inline values
-             // don't match what we expected
+         // YAML type incompatible with char8_str
+         // only allow strings to be assigned to a char8_str type
+         // throw parsing error if our inline values
+         // don't match what we expected
 
-            CONDUIT_ERROR("YAML Generator error:\n"
-                           << "a YAML string can only be used as an inline"
-                           << " value for a Conduit CHAR8_STR Node.");
-        }
+        CONDUIT_ERROR("YAML Generator error:\n"
+                       << "a YAML string can only be used as an inline"
+                       << " value for a Conduit CHAR8_STR Node.");
     }
 }
 
@@ -2696,7 +2693,7 @@ Generator::Parser::YAML::parse_leaf_dtype(yaml_document_t *yaml_doc,
                 length = get_yaml_sequence_length(value_node);
             }
             // support explicit length 0 in a schema
-            else if (fetch_yaml_node_from_object_by_name(yaml_doc, yaml_node, "number_of_elements"))
+            else if (! fetch_yaml_node_from_object_by_name(yaml_doc, yaml_node, "number_of_elements"))
             {
                 length = 1;
             }
@@ -2781,7 +2778,7 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                     }
                     else if (check_yaml_is_mapping_node(len_value))
                     {
-                        const yaml_node_t *ref_value = fetch_yaml_node_from_object_by_name(yaml_doc, yaml_node, "reference");
+                        const yaml_node_t *ref_value = fetch_yaml_node_from_object_by_name(yaml_doc, len_value, "reference");
                         if (ref_value)
                         {
                             const std::string ref_path = get_yaml_string(ref_value);
-- 
2.43.0


From 4dff19789c02ed6a6283f030dabf112b26fa4096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:18 +0000
Subject: [PATCH 024/105] fix: object names that are not plain YAML keys made
 invalid YAML text

---
 src/libs/conduit/conduit_node.cpp   |  2 +-
 src/libs/conduit/conduit_schema.cpp |  2 +-
 src/libs/conduit/conduit_utils.cpp  | 16 ++++++++++++++++
 src/libs/conduit/conduit_utils.hpp  |  6 ++++++
 4 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 213665d..ce66a4a 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14094,7 +14094,7 @@ Node::to_yaml_generic(std::ostream &os,
         for(size_t i=0; i <  nchildren;i++)
         {
             utils::indent(os,indent,depth,pad);
-            os << m_schema->object_order()[i] << ": ";
+            os << utils::yaml_key(m_schema->object_order()[i]) << ": ";
             m_children[i]->to_yaml_generic(os,
                                            detailed,
                                            indent,
diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index ca240b4..fdcf069 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -635,7 +635,7 @@ Schema::to_yaml_stream(std::ostream &os,
         {
             utils::indent(os,indent,depth,pad);
             // we always need eoe
-            os << object_order()[i] << ": " << eoe;
+            os << utils::yaml_key(object_order()[i]) << ": " << eoe;
             children()[i]->to_yaml_stream(os,
                                           indent,
                                           depth+1,
diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 5aca2c4..c753cd5 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -1187,6 +1187,22 @@ escape_special_chars(const std::string &input)
     return res;
 }
 
+//-----------------------------------------------------------------------------
+std::string
+yaml_key(const std::string &name)
+{
+    // plain keys: letters, digits, and "_/.+-" and spaces after the first char
+    bool plain = !name.empty() && name[name.size()-1] != ' ';
+    for(size_t i=0; i < name.size() && plain; i++)
+    {
+        const char c = name[i];
+        plain = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ||
+                (c >= '0' && c <= '9') || c == '_' || c == '/' ||
+                (i > 0 && (c == '.' || c == '+' || c == '-' || c == ' '));
+    }
+    return plain ? name : "\"" + escape_special_chars(name) + "\"";
+}
+
 //-----------------------------------------------------------------------------
 std::string
 unescape_special_chars(const std::string &input)
diff --git a/src/libs/conduit/conduit_utils.hpp b/src/libs/conduit/conduit_utils.hpp
index 03cdf96..ef7cee6 100644
--- a/src/libs/conduit/conduit_utils.hpp
+++ b/src/libs/conduit/conduit_utils.hpp
@@ -483,6 +483,12 @@ namespace utils
     std::string CONDUIT_API escape_special_chars(const std::string &input);
     std::string CONDUIT_API unescape_special_chars(const std::string &input);
 
+//-----------------------------------------------------------------------------
+/// Helper for writing object names as yaml keys.
+/// Names that yaml can't hold as plain keys are quoted and escaped.
+//-----------------------------------------------------------------------------
+    std::string CONDUIT_API yaml_key(const std::string &name);
+
 
 //-----------------------------------------------------------------------------
 /// fmt style string formatting helpers
-- 
2.43.0


From 2e11ad11584538de2568eee02b931bd2ad0ed020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:31 +0000
Subject: [PATCH 025/105] fix: Schema::to_yaml wrote invalid YAML for lists of
 leaves

---
 src/libs/conduit/conduit_schema.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index fdcf069..1dc5c2d 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -654,6 +654,12 @@ Schema::to_yaml_stream(std::ostream &os,
         {
             utils::indent(os,indent,depth,pad);
             os << "- ";
+            // containers start with eoe, leaves need it to start their entries
+            if(!children()[i]->dtype().is_object() &&
+               !children()[i]->dtype().is_list())
+            {
+                os << eoe;
+            }
             children()[i]->to_yaml_stream(os,
                                           indent,
                                           depth+1,
-- 
2.43.0


From 090036febfb78084d87ac0f92d554780dd917829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:49 +0000
Subject: [PATCH 026/105] fix: YAML aliases to an enclosing node recursed
 without end

---
 src/libs/conduit/conduit_generator.cpp | 48 ++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 66f8eca..d3b8642 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -256,6 +256,10 @@ public:
        yaml_node_t     *yaml_doc_root_ptr();
 
     private:
+        // throws exception if aliases create a cycle
+        void         check_for_cycles(int node_id,
+                                      std::vector<int> &state);
+
         yaml_document_t m_yaml_doc;
         yaml_parser_t   m_yaml_parser;
 
@@ -2006,6 +2010,50 @@ Generator::Parser::YAML::YAMLParserWrapper::parse(const char *yaml_txt)
     {
         m_yaml_doc_is_valid = true;
     }
+
+    // aliases can make a yaml node its own descendant, we can't walk those
+    std::vector<int> state(m_yaml_doc.nodes.top - m_yaml_doc.nodes.start, 0);
+    if(!state.empty())
+    {
+        check_for_cycles(1,state);
+    }
+}
+
+//---------------------------------------------------------------------------//
+void
+Generator::Parser::YAML::YAMLParserWrapper::check_for_cycles(int node_id,
+                                                             std::vector<int> &state)
+{
+    // state: 0 = not visited, 1 = is an ancestor, 2 = done
+    if(state[node_id-1] == 2)
+    {
+        return;
+    }
+
+    CONDUIT_ASSERT(state[node_id-1] == 0,
+                   "YAML Generator error:\n"
+                   << "YAML alias refers to an enclosing sequence or mapping.");
+
+    state[node_id-1] = 1;
+    yaml_node_t *yaml_node = yaml_document_get_node(&m_yaml_doc,node_id);
+    if(yaml_node->type == YAML_SEQUENCE_NODE)
+    {
+        for(yaml_node_item_t *itr = yaml_node->data.sequence.items.start;
+            itr < yaml_node->data.sequence.items.top; itr++)
+        {
+            check_for_cycles(*itr,state);
+        }
+    }
+    else if(yaml_node->type == YAML_MAPPING_NODE)
+    {
+        for(yaml_node_pair_t *itr = yaml_node->data.mapping.pairs.start;
+            itr < yaml_node->data.mapping.pairs.top; itr++)
+        {
+            check_for_cycles(itr->key,state);
+            check_for_cycles(itr->value,state);
+        }
+    }
+    state[node_id-1] = 2;
 }
 
 //---------------------------------------------------------------------------//
-- 
2.43.0


From 4608543b25c208d512e8ef9eeef5028dc21963a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:18 +0000
Subject: [PATCH 027/105] fix: JSON text with a string that ends in a
 backslash, or with a quote in a comment, failed to parse

---
 src/libs/conduit/conduit_utils.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index c753cd5..7f2ba96 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -959,6 +959,7 @@ json_sanitize(const std::string &json)
     std::string res;
     bool        in_comment=false;
     bool        in_string=false;
+    bool        escaped=false;
     bool        in_id =false;
     std::string cur_id = "";
 
@@ -966,12 +967,19 @@ json_sanitize(const std::string &json)
     {
         bool emit = true;
         // check for start & end of a string
-        if(json[i] == '\"' &&  ( i > 0 && ( json[i-1] != '\\' )))
+        // (inside of strings, skip the char that follows a backslash)
+        if(in_string)
         {
-            if(in_string)
+            if(escaped)
+                escaped = false;
+            else if(json[i] == '\\')
+                escaped = true;
+            else if(json[i] == '\"')
                 in_string = false;
-            else
-                in_string = true;
+        }
+        else if(json[i] == '\"' && !in_comment)
+        {
+            in_string = true;
         }
 
         // handle two cases were we want to sanitize:
-- 
2.43.0


From 1ab3ccda01542ca3738a868d8350b7b24d7b6023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:04 +0000
Subject: [PATCH 028/105] fix: JSON text that is a single word, such as the
 null of an empty node, failed to parse

---
 src/libs/conduit/conduit_utils.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 7f2ba96..5d8a6ec 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -1004,9 +1004,9 @@ json_sanitize(const std::string &json)
                 {
                     // ids can't start with numbers ,
                     // check the prior char if it exists
-                    if(i > 0 &&
-                       !check_num_char(json[i-1]) &&
-                       json[i-1] != '.')
+                    if(i == 0 ||
+                       (!check_num_char(json[i-1]) &&
+                        json[i-1] != '.'))
                     {
                         in_id = true;
                         // accum id chars
@@ -1061,6 +1061,19 @@ json_sanitize(const std::string &json)
             res += json[i];
     }
 
+    // the text may end with an id
+    if(in_id)
+    {
+        if(cur_id == "true" || cur_id == "false" || cur_id == "null")
+        {
+            res += cur_id;
+        }
+        else
+        {
+            res += "\"" + cur_id + "\"";
+        }
+    }
+
     return res;
 }
 
-- 
2.43.0


From 5685ece5c7a6b1e75cdcc9b713e984627cf54d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:05 +0000
Subject: [PATCH 029/105] fix: DataType reported negative sizes for strided
 layouts without elements

---
 src/libs/conduit/conduit_data_type.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_data_type.cpp b/src/libs/conduit/conduit_data_type.cpp
index af6a717..aa3fc71 100644
--- a/src/libs/conduit/conduit_data_type.cpp
+++ b/src/libs/conduit/conduit_data_type.cpp
@@ -641,7 +641,7 @@ conduit::index_t
 DataType::strided_bytes() const
 {
     // this is the memory extent excluding the offset
-    return m_stride * (m_num_ele -1) + m_ele_bytes;
+    return m_num_ele > 0 ? m_stride * (m_num_ele -1) + m_ele_bytes : 0;
 }
 
 
@@ -656,7 +656,7 @@ DataType::bytes_compact() const
 conduit::index_t
 DataType::spanned_bytes() const
 {
-    return m_offset + m_stride * (m_num_ele -1) + m_ele_bytes;
+    return m_offset + strided_bytes();
 }
 
 //---------------------------------------------------------------------------//
-- 
2.43.0


From d39d0d632eba98874953c06236a57746a88cdd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:05 +0000
Subject: [PATCH 030/105] fix: Schema::compatible and Schema::equals missed
 children whose names have slashes

---
 src/libs/conduit/conduit_schema.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index 1dc5c2d..9892923 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -321,8 +321,8 @@ Schema::compatible(const Schema &s) const
             itr != s.object_map().end() && res;
             itr++)
         {
-            // make sure we actually have the path
-            if(has_path(itr->first))
+            // make sure we actually have the child
+            if(has_child(itr->first))
             {
                 // use index to fetch the child from the other schema
                 const Schema &s_chld = s.child(itr->second);
@@ -379,7 +379,7 @@ Schema::equals(const Schema &s) const
             itr != s.object_map().end() && res;
             itr++)
         {
-            if(has_path(itr->first))
+            if(has_child(itr->first))
             {
                 size_t s_idx = (size_t) itr->second;
                 res = s.children()[s_idx]->equals(child(itr->first));
@@ -394,7 +394,7 @@ Schema::equals(const Schema &s) const
             itr != object_map().end() && res;
             itr++)
         {
-            if(s.has_path(itr->first))
+            if(s.has_child(itr->first))
             {
                 size_t idx = (size_t) itr->second;
                 res = children()[idx]->equals(s.child(itr->first));
-- 
2.43.0


From b1a00c517c6db5bbcf6e2ca851e1c3378e8a146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:05 +0000
Subject: [PATCH 031/105] fix: Schema::fetch_existing refused paths with ..

---
 src/libs/conduit/conduit_schema.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index 9892923..a349d88 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -925,8 +925,6 @@ Schema::fetch_existing(const std::string &path)
     std::string p_next;
     utils::split_path(path,p_curr,p_next);
 
-    size_t idx = (size_t) child_index(p_curr);
-    
     // check for parent
     if(p_curr == "..")
     {
@@ -939,6 +937,8 @@ Schema::fetch_existing(const std::string &path)
             return m_parent->fetch_existing(p_next);
         }
     }
+
+    size_t idx = (size_t) child_index(p_curr);
     
     if(p_next.empty())
     {
-- 
2.43.0


From acf0bac5bb9516dad8e8738d96c978be703bd9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:05 +0000
Subject: [PATCH 032/105] fix: Node::serialize to a vector wrote out of bounds
 for trees with strided leaves

---
 src/libs/conduit/conduit_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index ce66a4a..9840710 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17820,7 +17820,7 @@ Node::serialize(uint8 *data,index_t curr_offset) const
         for(itr = m_children.begin(); itr < m_children.end(); ++itr)
         {
             (*itr)->serialize(&data[0],curr_offset);
-            curr_offset+=(*itr)->total_strided_bytes();
+            curr_offset+=(*itr)->total_bytes_compact();
         }
     }
     else
-- 
2.43.0


From 411f299f41f04188ee3587bc61a7e91592f7a3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:05 +0000
Subject: [PATCH 033/105] fix: Node::load gave uninitialized values when the
 file is shorter than its schema

---
 src/libs/conduit/conduit_node.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 9840710..a36d487 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -304,6 +304,12 @@ Node::load(const std::string &stream_path,
         CONDUIT_ERROR("<Node::load> failed to open: " << stream_path);
     }
     ifs.read((char *)m_data,dsize);
+    if(ifs.gcount() != (std::streamsize)dsize)
+    {
+        CONDUIT_ERROR("<Node::load> " << stream_path << " holds "
+                      << ifs.gcount() << " bytes, the schema needs "
+                      << dsize);
+    }
     ifs.close();
 
     //
-- 
2.43.0


From 0ebe768c789dac62037167df6eb227bd6dd3c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:05 +0000
Subject: [PATCH 034/105] fix: Node::update with a leaf of the node itself as
 source used freed memory

---
 src/libs/conduit/conduit_node.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index a36d487..72c9be1 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -8751,7 +8751,12 @@ Node::update(const Node &n_src)
         }
         else // not compatible
         {
-            n_src.compact_to(*this);
+            // compact to an intermediate node first, b/c the source
+            // can be part of this node
+            Node tmp;
+            tmp.set_allocator(m_allocator_id);
+            n_src.compact_to(tmp);
+            swap(tmp);
         }
     }
 }
-- 
2.43.0


From a2b325b6c44d23067bb2d3a5e1a532e1a9fa1310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:51 +0000
Subject: [PATCH 035/105] fix: diff and diff_compatible reported no difference
 between nan and a number

---
 src/libs/conduit/conduit_data_array.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libs/conduit/conduit_data_array.cpp b/src/libs/conduit/conduit_data_array.cpp
index c0b7ca4..f0a0823 100644
--- a/src/libs/conduit/conduit_data_array.cpp
+++ b/src/libs/conduit/conduit_data_array.cpp
@@ -13,6 +13,7 @@
 // -- standard includes -- 
 //-----------------------------------------------------------------------------
 #include <algorithm>
+#include <cmath>
 #include <cstring>
 #include <limits>
 
@@ -248,6 +249,8 @@ DataArray<T>::diff(const DataArray<T> &array, Node &info, const float64 epsilon)
             if(dtype().is_floating_point())
             {
                 res |= info_ptr[i] > epsilon || info_ptr[i] < -epsilon;
+                // a nan on one side only is also a difference
+                res |= std::isnan((float64)(*this)[i]) != std::isnan((float64)array[i]);
             }
             else
             {
@@ -423,6 +426,8 @@ DataArray<T>::diff_compatible(const DataArray<T> &array, Node &info, const float
             if(dtype().is_floating_point())
             {
                 res |= info_ptr[i] > epsilon || info_ptr[i] < -epsilon;
+                // a nan on one side only is also a difference
+                res |= std::isnan((float64)(*this)[i]) != std::isnan((float64)array[i]);
             }
             else
             {
-- 
2.43.0


From a0678fb19fa94838a2105da259b089180c78a3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:51 +0000
Subject: [PATCH 036/105] fix: diff of strings without terminator read past
 their end

---
 src/libs/conduit/conduit_data_array.cpp | 60 +++++++++----------------
 1 file changed, 20 insertions(+), 40 deletions(-)

diff --git a/src/libs/conduit/conduit_data_array.cpp b/src/libs/conduit/conduit_data_array.cpp
index f0a0823..559cb42 100644
--- a/src/libs/conduit/conduit_data_array.cpp
+++ b/src/libs/conduit/conduit_data_array.cpp
@@ -143,30 +143,20 @@ DataArray<T>::diff(const DataArray<T> &array, Node &info, const float64 epsilon)
         // case that is distinct from an empty string.
         if(t_nelems > 0)
         {
-            if(dtype().is_compact())
-            {
-                t_data = (const char*)element_ptr(0);
-            }
-            else
-            {
-                t_compact_data = new uint8[(size_t)dtype().bytes_compact()];
-                compact_elements_to(t_compact_data);
-                t_data = (const char*)t_compact_data;
-            }
+            // copy, b/c the buffer may not be compact or null termed
+            t_compact_data = new uint8[(size_t)dtype().bytes_compact() + 1];
+            compact_elements_to(t_compact_data);
+            t_compact_data[dtype().bytes_compact()] = 0;
+            t_data = (const char*)t_compact_data;
         }
 
         if(o_nelems > 0)
         {
-            if(array.dtype().is_compact())
-            {
-                o_data = (const char*)array.element_ptr(0);
-            }
-            else
-            {
-                o_compact_data = new uint8[(size_t)array.dtype().bytes_compact()];
-                array.compact_elements_to(o_compact_data);
-                o_data = (const char*)o_compact_data;
-            }
+            // copy, b/c the buffer may not be compact or null termed
+            o_compact_data = new uint8[(size_t)array.dtype().bytes_compact() + 1];
+            array.compact_elements_to(o_compact_data);
+            o_compact_data[array.dtype().bytes_compact()] = 0;
+            o_data = (const char*)o_compact_data;
         }
 
         // for debugging:
@@ -298,30 +288,20 @@ DataArray<T>::diff_compatible(const DataArray<T> &array, Node &info, const float
         // case that is distinct from an empty string.
         if(t_nelems > 0)
         {
-            if(dtype().is_compact())
-            {
-                t_data = (const char*)element_ptr(0);
-            }
-            else
-            {
-                t_compact_data = new uint8[(size_t)dtype().bytes_compact()];
-                compact_elements_to(t_compact_data);
-                t_data = (const char*)t_compact_data;
-            }
+            // copy, b/c the buffer may not be compact or null termed
+            t_compact_data = new uint8[(size_t)dtype().bytes_compact() + 1];
+            compact_elements_to(t_compact_data);
+            t_compact_data[dtype().bytes_compact()] = 0;
+            t_data = (const char*)t_compact_data;
         }
 
         if(o_nelems > 0)
         {
-            if(array.dtype().is_compact())
-            {
-                o_data = (const char*)array.element_ptr(0);
-            }
-            else
-            {
-                o_compact_data = new uint8[(size_t)array.dtype().bytes_compact()];
-                array.compact_elements_to(o_compact_data);
-                o_data = (const char*)o_compact_data;
-            }
+            // copy, b/c the buffer may not be compact or null termed
+            o_compact_data = new uint8[(size_t)array.dtype().bytes_compact() + 1];
+            array.compact_elements_to(o_compact_data);
+            o_compact_data[array.dtype().bytes_compact()] = 0;
+            o_data = (const char*)o_compact_data;
         }
 
         // for debugging:
-- 
2.43.0


From 8416233cad4644d5dfb62e38a0f9befe17eab805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:51 +0000
Subject: [PATCH 037/105] fix: diff of distant signed integers had undefined
 behavior

---
 src/libs/conduit/conduit_data_array.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_data_array.cpp b/src/libs/conduit/conduit_data_array.cpp
index 559cb42..56bfafe 100644
--- a/src/libs/conduit/conduit_data_array.cpp
+++ b/src/libs/conduit/conduit_data_array.cpp
@@ -16,6 +16,7 @@
 #include <cmath>
 #include <cstring>
 #include <limits>
+#include <type_traits>
 
 
 //-----------------------------------------------------------------------------
@@ -112,6 +113,23 @@ DataArray<T>::compatible(const DataArray<T> &array) const
     return dtype().compatible(array.dtype());
 }
 
+//---------------------------------------------------------------------------//
+// difference helpers: differences of integers wrap
+namespace detail
+{
+template <typename T>
+T subtract(T a, T b, std::true_type)
+{
+    return (T)((uint64)a - (uint64)b);
+}
+
+template <typename T>
+T subtract(T a, T b, std::false_type)
+{
+    return a - b;
+}
+}
+
 //---------------------------------------------------------------------------//
 template <typename T> 
 bool
@@ -235,7 +253,7 @@ DataArray<T>::diff(const DataArray<T> &array, Node &info, const float64 epsilon)
 
         for(index_t i = 0; i < t_nelems; i++)
         {
-            info_ptr[i] = (*this)[i] - array[i];
+            info_ptr[i] = detail::subtract((*this)[i], array[i], std::is_integral<T>());
             if(dtype().is_floating_point())
             {
                 res |= info_ptr[i] > epsilon || info_ptr[i] < -epsilon;
@@ -402,7 +420,7 @@ DataArray<T>::diff_compatible(const DataArray<T> &array, Node &info, const float
 
         for(index_t i = 0; i < t_nelems; i++)
         {
-            info_ptr[i] = (*this)[i] - array[i];
+            info_ptr[i] = detail::subtract((*this)[i], array[i], std::is_integral<T>());
             if(dtype().is_floating_point())
             {
                 res |= info_ptr[i] > epsilon || info_ptr[i] < -epsilon;
-- 
2.43.0


From d4c9cff7066d2f564fd84fea630f59ed2385f91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:51 +0000
Subject: [PATCH 038/105] fix: diff with relaxint compared only the first
 elements of integer arrays

---
 src/libs/conduit/conduit_node.cpp | 40 +++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 72c9be1..cf03de8 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -18048,6 +18048,28 @@ Node::find_first_data_ptr() const
     return res;
 }
 
+//---------------------------------------------------------------------------//
+namespace detail
+{
+// compares integer leaves of any two integer types element by element,
+// `b` must have at least as many elements as `a`
+bool
+integers_differ(const Node &a, const Node &b)
+{
+    int64_accessor  a_int  = a.as_int64_accessor();
+    int64_accessor  b_int  = b.as_int64_accessor();
+    bool res = false;
+    for(index_t i = 0; i < a.dtype().number_of_elements() && !res; i++)
+    {
+        // an unsigned value that int64 can't hold converts to a negative one
+        bool a_neg = a_int[i] < 0 && a.dtype().is_signed_integer();
+        bool b_neg = b_int[i] < 0 && b.dtype().is_signed_integer();
+        res = a_int[i] != b_int[i] || a_neg != b_neg;
+    }
+    return res;
+}
+}
+
 //---------------------------------------------------------------------------//
 bool
 Node::diff(const Node &n, Node &info, const float64 epsilon, bool relaxint) const
@@ -18064,12 +18086,9 @@ Node::diff(const Node &n, Node &info, const float64 epsilon, bool relaxint) cons
         // We ought to be able to compare integers of different sizes.
         if(relaxint)
         {
-            if(dtype().is_signed_integer() && n.dtype().is_signed_integer())
-                res = to_int64() != n.to_int64();
-            else if(dtype().is_unsigned_integer() && n.dtype().is_unsigned_integer())
-                res = to_uint64() != n.to_uint64();
-            else if(dtype().is_integer() && n.dtype().is_integer())
-                res = to_int64() != n.to_int64();
+            if(dtype().is_integer() && n.dtype().is_integer())
+                res = dtype().number_of_elements() != n.dtype().number_of_elements() ||
+                      detail::integers_differ(*this,n);
             else
                 res = true;
         }
@@ -18252,12 +18271,9 @@ Node::diff_compatible(const Node &n, Node &info, const float64 epsilon,
         // We ought to be able to compare integers of different sizes.
         if(relaxint)
         {
-            if(dtype().is_signed_integer() && n.dtype().is_signed_integer())
-                res = to_int64() != n.to_int64();
-            else if(dtype().is_unsigned_integer() && n.dtype().is_unsigned_integer())
-                res = to_uint64() != n.to_uint64();
-            else if(dtype().is_integer() && n.dtype().is_integer())
-                res = to_int64() != n.to_int64();
+            if(dtype().is_integer() && n.dtype().is_integer())
+                res = dtype().number_of_elements() > n.dtype().number_of_elements() ||
+                      detail::integers_differ(*this,n);
             else
                 res = true;
         }
-- 
2.43.0


From e6ecdf33871063ad1866b3b731a746feee9f6c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:29 +0000
Subject: [PATCH 039/105] fix: HDF5 files stayed open after a refused read or
 write

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 107 ++++++++++++++++++++++-
 1 file changed, 104 insertions(+), 3 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 40c0a8e..50f441f 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -19,6 +19,7 @@
 //-----------------------------------------------------------------------------
 // standard lib includes
 //-----------------------------------------------------------------------------
+#include <exception>
 #include <iostream>
 
 //-----------------------------------------------------------------------------
@@ -383,6 +384,39 @@ private:
     bool          active;
 };
 
+//-----------------------------------------------------------------------------
+// Closes a HDF5 identifier if an error is thrown before it is released.
+//
+// Open identifiers keep their HDF5 file open, which blocks later attempts to
+// create or reopen it.
+//-----------------------------------------------------------------------------
+class HDF5IdGuard
+{
+public:
+        HDF5IdGuard(hid_t &hdf5_id)
+        :  m_hdf5_id(hdf5_id),
+           m_active(true)
+        {}
+
+       ~HDF5IdGuard()
+        {
+            if(m_active && m_hdf5_id >= 0)
+            {
+                H5Idec_ref(m_hdf5_id);
+            }
+        }
+
+        // for the normal path, where the identifier is closed explicitly
+        void release()
+        {
+            m_active = false;
+        }
+
+private:
+    hid_t &m_hdf5_id;
+    bool   m_active;
+};
+
 //-----------------------------------------------------------------------------
 // helper method decls
 //-----------------------------------------------------------------------------
@@ -1670,6 +1704,7 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
 
     // get dimensions of dset
     hid_t dataspace = H5Dget_space(hdf5_dset_id);
+    HDF5IdGuard dataspace_guard(dataspace);
     hsize_t dataset_dim = H5Sget_simple_extent_npoints(dataspace);
     hsize_t dataset_max_dims[1];
     H5Sget_simple_extent_dims(dataspace, NULL, dataset_max_dims);
@@ -1838,16 +1873,17 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
 
         H5Sclose(nodespace);
     }
+    dataspace_guard.release();
     H5Sclose(dataspace);
 
+    conduit_dtype_to_hdf5_dtype_cleanup(h5_dtype_id);
+
     // check write result
     CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(h5_status,
                                                     hdf5_dset_id,
                                                     ref_path,
                                            "Failed to write to HDF5 Dataset "
                                            << hdf5_dset_id);
-
-    conduit_dtype_to_hdf5_dtype_cleanup(h5_dtype_id);
 }
 
 
@@ -1931,11 +1967,13 @@ write_conduit_leaf_to_hdf5_group(const Node &node,
     }
 
     std::string chld_ref_path = join_ref_paths(ref_path,hdf5_dset_name);
+    HDF5IdGuard h5_child_guard(h5_child_id);
     // write the data
     write_conduit_leaf_to_hdf5_dataset(node,
                                        chld_ref_path,
                                        h5_child_id,
                                        opts);
+    h5_child_guard.release();
 
     CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Dclose(h5_child_id),
                                                     hdf5_group_id,
@@ -2313,6 +2351,9 @@ struct h5_read_opdata
 
     // whether to only get metadata
     bool             metadata_only;
+
+    // error thrown by the callback. We can't let it pass through H5Literate
+    std::exception_ptr  error;
 };
 
 //---------------------------------------------------------------------------//
@@ -2439,7 +2480,7 @@ h5l_iterate_traverse_op_func_get_child(Node &node,
 //  circular path in the file.
 //---------------------------------------------------------------------------//
 herr_t
-h5l_iterate_traverse_op_func(hid_t hdf5_id,
+h5l_iterate_traverse_op_func_read(hid_t hdf5_id,
                              const char *hdf5_path,
                              const H5L_info_t *,// hdf5_info -- unused
                              void *hdf5_operator_data)
@@ -2526,6 +2567,8 @@ h5l_iterate_traverse_op_func(hid_t hdf5_id,
                                                        << " path:"
                                                        << hdf5_path);
 
+                HDF5IdGuard h5_group_guard(h5_group_id);
+
                 Node *chld_node_ptr = h5l_iterate_traverse_op_func_get_child(
                                                    *h5_od->node,
                                                    std::string(hdf5_path));
@@ -2536,6 +2579,8 @@ h5l_iterate_traverse_op_func(hid_t hdf5_id,
                                                   *h5_od->opts,
                                                   *chld_node_ptr);
 
+                h5_group_guard.release();
+
                 // close the group
                 CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Gclose(h5_group_id),
                                                                 hdf5_id,
@@ -2566,12 +2611,16 @@ h5l_iterate_traverse_op_func(hid_t hdf5_id,
                                                    << hdf5_id
                                                    << " path:"
                                                    << hdf5_path);
+            HDF5IdGuard h5_dset_guard(h5_dset_id);
+
             read_hdf5_dataset_into_conduit_node(h5_dset_id,
                                                 chld_ref_path,
                                                 h5_od->metadata_only,
                                                 *h5_od->opts,
                                                 *chld_node_ptr);
 
+            h5_dset_guard.release();
+
             // close the dataset
             CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Dclose(h5_dset_id),
                                                             hdf5_id,
@@ -2591,6 +2640,29 @@ h5l_iterate_traverse_op_func(hid_t hdf5_id,
 }
 
 
+//---------------------------------------------------------------------------//
+// H5Literate callback, keeps errors from passing through the HDF5 C library
+//---------------------------------------------------------------------------//
+herr_t
+h5l_iterate_traverse_op_func(hid_t hdf5_id,
+                             const char *hdf5_path,
+                             const H5L_info_t *hdf5_info,
+                             void *hdf5_operator_data)
+{
+    try
+    {
+        return h5l_iterate_traverse_op_func_read(hdf5_id,
+                                                 hdf5_path,
+                                                 hdf5_info,
+                                                 hdf5_operator_data);
+    }
+    catch(...)
+    {
+        ((struct h5_read_opdata*)hdf5_operator_data)->error = std::current_exception();
+        return -1;
+    }
+}
+
 //---------------------------------------------------------------------------//
 void
 read_hdf5_group_into_conduit_node(hid_t hdf5_group_id,
@@ -2691,6 +2763,11 @@ read_hdf5_group_into_conduit_node(hid_t hdf5_group_id,
                            h5l_iterate_traverse_op_func,
                            (void *) &h5_od);
 
+    if(h5_od.error)
+    {
+        std::rethrow_exception(h5_od.error);
+    }
+
     CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(h5_status,
                                                     hdf5_group_id,
                                                     ref_path,
@@ -2844,6 +2921,7 @@ read_hdf5_dataset_into_conduit_node(hid_t hdf5_dset_id,
                                                     ref_path,
                                            "Error reading HDF5 Dataspace: "
                                            << hdf5_dset_id);
+    HDF5IdGuard h5_dspace_guard(h5_dspace_id);
 
     // check for empty case
     if(H5Sget_simple_extent_type(h5_dspace_id) == H5S_NULL)
@@ -2860,6 +2938,7 @@ read_hdf5_dataset_into_conduit_node(hid_t hdf5_dset_id,
                                                         ref_path,
                                                "Error reading HDF5 Datatype: "
                                                << hdf5_dset_id);
+        HDF5IdGuard h5_dtype_guard(h5_dtype_id);
 
         hid_t h5_status    = 0;
 
@@ -3035,6 +3114,8 @@ read_hdf5_dataset_into_conduit_node(hid_t hdf5_dset_id,
                                                             << nelems);
         }
 
+        h5_dtype_guard.release();
+
         CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Tclose(h5_dtype_id),
                                                         hdf5_dset_id,
                                                         ref_path,
@@ -3043,6 +3124,8 @@ read_hdf5_dataset_into_conduit_node(hid_t hdf5_dset_id,
 
     }
 
+    h5_dspace_guard.release();
+
     CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Sclose(h5_dspace_id),
                                                     hdf5_dset_id,
                                                     ref_path,
@@ -3621,11 +3704,15 @@ hdf5_write(const Node &node,
         h5_file_id = hdf5_create_file(file_path);
     }
 
+    HDF5IdGuard h5_file_guard(h5_file_id);
+
     hdf5_write(node,
                h5_file_id,
                hdf5_path,
                opts);
 
+    h5_file_guard.release();
+
     // close the hdf5 file
     CONDUIT_CHECK_HDF5_ERROR(H5Fclose(h5_file_id),
                              "Error closing HDF5 file: " << file_path);
@@ -3729,12 +3816,16 @@ hdf5_read(hid_t hdf5_id,
                             "Failed to fetch HDF5 object from: "
                              << hdf5_id << ":" << hdf5_path);
 
+    HDF5IdGuard h5_child_guard(h5_child_obj);
+
     read_hdf5_tree_into_conduit_node(h5_child_obj,
                                      hdf5_path,
                                      false,
                                      opts,
                                      dest);
 
+    h5_child_guard.release();
+
     CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Oclose(h5_child_obj),
                                                     hdf5_id,
                                                     hdf5_path,
@@ -3765,12 +3856,15 @@ hdf5_read(const std::string &file_path,
 
     // open the hdf5 file for reading
     hid_t h5_file_id = hdf5_open_file_for_read(file_path);
+    HDF5IdGuard h5_file_guard(h5_file_id);
 
     hdf5_read(h5_file_id,
               hdf5_path,
               opts,
               node);
 
+    h5_file_guard.release();
+
     // close the hdf5 file
     CONDUIT_CHECK_HDF5_ERROR(H5Fclose(h5_file_id),
                              "Error closing HDF5 file: " << file_path);
@@ -3874,12 +3968,16 @@ hdf5_read_info(hid_t hdf5_id,
                             "Failed to fetch HDF5 object from: "
                              << hdf5_id << ":" << hdf5_path);
 
+    HDF5IdGuard h5_child_guard(h5_child_obj);
+
     read_hdf5_tree_into_conduit_node(h5_child_obj,
                                      hdf5_path,
                                      true,
                                      opts,
                                      dest);
 
+    h5_child_guard.release();
+
     CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Oclose(h5_child_obj),
                                                     hdf5_id,
                                                     hdf5_path,
@@ -3910,12 +4008,15 @@ hdf5_read_info(const std::string &file_path,
 
     // open the hdf5 file for reading
     hid_t h5_file_id = hdf5_open_file_for_read(file_path);
+    HDF5IdGuard h5_file_guard(h5_file_id);
 
     hdf5_read_info(h5_file_id,
               hdf5_path,
               opts,
               node);
 
+    h5_file_guard.release();
+
     // close the hdf5 file
     CONDUIT_CHECK_HDF5_ERROR(H5Fclose(h5_file_id),
                              "Error closing HDF5 file: " << file_path);
-- 
2.43.0


From 00652d688779fad6b680215b3b74205162983549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:29 +0000
Subject: [PATCH 040/105] fix: a partial write that makes a HDF5 dataset
 extendible left its group open

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 50f441f..4dab633 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -1811,7 +1811,7 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
             // close the old dataset to prevent the old identifier from
             // interfering
             H5Oclose(hdf5_dset_id);
-            H5Dclose(hdf5_dset_parent_id);
+            H5Oclose(hdf5_dset_parent_id);
 
             hdf5_dset_id = H5Oopen(hdf5_id,
                 hdf5_dset_path.c_str(), H5P_DEFAULT);
-- 
2.43.0


From b9e56ecf3114c8ad0f13de9625bed2e27530afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:17 +0000
Subject: [PATCH 041/105] fix: reading a whole HDF5 file with a file handle
 sorted the top level children by name

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 4dab633..87c5ffa 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -2725,7 +2725,14 @@ read_hdf5_group_into_conduit_node(hid_t hdf5_group_id,
 
     // check for creation order index using propertylist
 
-    hid_t h5_gc_plist = H5Gget_create_plist(hdf5_group_id);
+    // note: hdf5_group_id may be a file id, which stands for its root group,
+    // open it as a group since only groups have this property list
+    hid_t h5_self_id  = H5Gopen(hdf5_group_id, ".", H5P_DEFAULT);
+    hid_t h5_gc_plist = H5Gget_create_plist(h5_self_id);
+    if( CONDUIT_HDF5_VALID_ID(h5_self_id) )
+    {
+        H5Gclose(h5_self_id);
+    }
 
     if( CONDUIT_HDF5_VALID_ID(h5_gc_plist) )
     {
-- 
2.43.0


From 8b9f2a6d81be8129d14ee908eb29e815fcf1aead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:40 +0000
Subject: [PATCH 042/105] fix: HDF5 writes at offset 0 of a fixed size dataset
 read past the end of shorter data

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 87c5ffa..8da5706 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -1711,7 +1711,9 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
 
     // if the layout is fixed and no offset/stride is supplied,
     // the entire array is overwriten
-    if (dataset_max_dims[0] != H5S_UNLIMITED && offset == 0 && stride == 1)
+    // (writing more or fewer elements than the dataset holds is a partial write)
+    if (dataset_max_dims[0] != H5S_UNLIMITED && offset == 0 && stride == 1 &&
+        dataset_dim == (hsize_t) dt.number_of_elements())
     {
 
         // if the node is compact, we can write directly from its data ptr
-- 
2.43.0


From 77db495455f903656b99479050fd66c7e1ecfd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:40 +0000
Subject: [PATCH 043/105] fix: opening an existing file write only discarded
 its contents for the basic protocols

---
 src/libs/relay/conduit_relay_io_handle.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_handle.cpp b/src/libs/relay/conduit_relay_io_handle.cpp
index 53d42d4..070d3b5 100644
--- a/src/libs/relay/conduit_relay_io_handle.cpp
+++ b/src/libs/relay/conduit_relay_io_handle.cpp
@@ -409,8 +409,9 @@ BasicHandle::open()
     // we start out with a blank slate
     if( utils::is_file( path() ) )
     {
-        // read if handle is not 'write' only and we aren't truncating
-        if( open_mode_read() && !open_mode_truncate() )
+        // read unless we are truncating, close() writes the entire file,
+        // so this is also necessary to append with a 'write' only handle
+        if( !open_mode_truncate() )
         {
             // read from file
             io::load(path(),
-- 
2.43.0


From dd2914f13ce43eb715a59c94133fb37ee93bfea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:29 +0000
Subject: [PATCH 044/105] fix: HDF5 options given to a save or a handle stayed
 in place when the write was refused

---
 src/libs/relay/conduit_relay_io.cpp        | 26 ++++++++++++++++++++--
 src/libs/relay/conduit_relay_io_handle.cpp | 26 ++++++++++++++++++++--
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io.cpp b/src/libs/relay/conduit_relay_io.cpp
index 0d5e891..087e6d7 100644
--- a/src/libs/relay/conduit_relay_io.cpp
+++ b/src/libs/relay/conduit_relay_io.cpp
@@ -373,7 +373,18 @@ save(const Node &node,
             hdf5_set_options(options["hdf5"]);
         }
 
-        hdf5_save(node,path,options);
+        try
+        {
+            hdf5_save(node,path,options);
+        }
+        catch(...)
+        {
+            if(!prev_options.dtype().is_empty())
+            {
+                hdf5_set_options(prev_options);
+            }
+            throw;
+        }
 
         if(!prev_options.dtype().is_empty())
         {
@@ -500,7 +511,18 @@ save_merged(const Node &node,
             hdf5_set_options(options["hdf5"]);
         }
 
-        hdf5_append(node,path,options);
+        try
+        {
+            hdf5_append(node,path,options);
+        }
+        catch(...)
+        {
+            if(!prev_options.dtype().is_empty())
+            {
+                hdf5_set_options(prev_options);
+            }
+            throw;
+        }
 
         if(!prev_options.dtype().is_empty())
         {
diff --git a/src/libs/relay/conduit_relay_io_handle.cpp b/src/libs/relay/conduit_relay_io_handle.cpp
index 070d3b5..f239c4e 100644
--- a/src/libs/relay/conduit_relay_io_handle.cpp
+++ b/src/libs/relay/conduit_relay_io_handle.cpp
@@ -723,7 +723,18 @@ HDF5Handle::write(const Node &node,
         hdf5_set_options(options()["hdf5"]);
     }
 
-    hdf5_write(node,m_h5_id, opts);
+    try
+    {
+        hdf5_write(node,m_h5_id, opts);
+    }
+    catch(...)
+    {
+        if(!prev_options.dtype().is_empty())
+        {
+            hdf5_set_options(prev_options);
+        }
+        throw;
+    }
 
     if(!prev_options.dtype().is_empty())
     {
@@ -759,7 +770,18 @@ HDF5Handle::write(const Node &node,
         hdf5_set_options(options()["hdf5"]);
     }
 
-    hdf5_write(node,m_h5_id,path,opts);
+    try
+    {
+        hdf5_write(node,m_h5_id,path,opts);
+    }
+    catch(...)
+    {
+        if(!prev_options.dtype().is_empty())
+        {
+            hdf5_set_options(prev_options);
+        }
+        throw;
+    }
 
     if(!prev_options.dtype().is_empty())
     {
-- 
2.43.0


From 05b4c0e7837261153c5d4f8c8243d14a993535fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:09 +0000
Subject: [PATCH 045/105] fix: the shape type of mixed topologies was read past
 the end of a table

---
 src/libs/blueprint/conduit_blueprint_mesh_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp
index df5ad0c..fc3c880 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp
@@ -164,7 +164,7 @@ static const std::vector<const index_t*> TOPO_SHAPE_EMBEDDINGS = {
     &TOPO_TRI_EMBEDDING[0][0], &TOPO_QUAD_EMBEDDING[0][0],
     &TOPO_TET_EMBEDDING[0][0], &TOPO_HEX_EMBEDDING[0][0],
     &TOPO_WEDGE_EMBEDDING[0][0], &TOPO_PYRAMID_EMBEDDING[0][0],
-    nullptr, nullptr};
+    /*polygonal*/ nullptr, /*polyhedral*/ nullptr, /*mixed*/ nullptr};
 
 //-----------------------------------------------------------------------------
 /// blueprint mesh utility structures
-- 
2.43.0


From 5b49d0089b70aa2e98deef18b59e4c9467738388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:09 +0000
Subject: [PATCH 046/105] fix: derived topologies ignored the stride of
 connectivity arrays

---
 .../conduit_blueprint_mesh_topology_metadata.cpp       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_topology_metadata.cpp b/src/libs/blueprint/conduit_blueprint_mesh_topology_metadata.cpp
index f13ea68..1d3fc0d 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_topology_metadata.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_topology_metadata.cpp
@@ -1615,7 +1615,10 @@ TopologyMetadata::Implementation::dispatch_connectivity_ph(const conduit::Node &
 {
     // Dispatch to different versions based on connectivity type.
     index_t sizeslen = sizes.dtype().number_of_elements();
-    if(sizes.dtype().is_int32())
+    // The data can only be accessed by pointer if it is contiguous.
+    if(!sizes.dtype().is_compact())
+        dispatch_shape_ph(subel, sizes.as_index_t_accessor(), sizeslen);
+    else if(sizes.dtype().is_int32())
         dispatch_shape_ph(subel, sizes.as_int32_ptr(), sizeslen);
     else if(sizes.dtype().is_uint32())
         dispatch_shape_ph(subel, sizes.as_uint32_ptr(), sizeslen);
@@ -1636,7 +1639,10 @@ TopologyMetadata::Implementation::dispatch_connectivity(const ShapeType &shape,
     const conduit::Node &conn)
 {
     // Dispatch to different versions based on connectivity type.
-    if(conn.dtype().is_int32())
+    // The data can only be accessed by pointer if it is contiguous.
+    if(!conn.dtype().is_compact())
+        dispatch_shape(shape, conn.as_index_t_accessor(), conn.dtype().number_of_elements());
+    else if(conn.dtype().is_int32())
         dispatch_shape(shape, conn.as_int32_ptr(), conn.dtype().number_of_elements());
     else if(conn.dtype().is_uint32())
         dispatch_shape(shape, conn.as_uint32_ptr(), conn.dtype().number_of_elements());
-- 
2.43.0


From f2241c96bf37508d5949ba9424aaef1a856a1101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:59 +0000
Subject: [PATCH 047/105] fix: strips of uniform coordsets had no elements and
 strips of explicit coordsets too few points

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index f801220..63400d3 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -1062,7 +1062,7 @@ convert_oneD_coordset_to_strip(const conduit::Node &coordset,
 
     if (coord_type == "uniform")
     {
-        dest["dims/i"] = 1;
+        dest["dims/i"] = 2;
         dest["dims/j"] = coordset["dims/i"];
 
         if (coordset.has_child("origin"))
@@ -3958,7 +3958,8 @@ mesh::coordset::generate_strip(const Node& coordset,
 
     if (coord_type == "uniform")
     {
-        coordset_dest["dims/i"] = 1;
+        // dims are numbers of points, a strip is one element wide
+        coordset_dest["dims/i"] = 2;
         coordset_dest["dims/j"] = coordset["dims/i"];
 
         if (coordset.has_child("origin"))
@@ -3973,6 +3974,23 @@ mesh::coordset::generate_strip(const Node& coordset,
             coordset_dest["spacing/dy"] = coordset["spacing/dx"];
         }
     }
+    else if (coord_type == "explicit")
+    {
+        // every point of the line becomes a pair of points
+        float64_accessor src_vals = coordset["values/x"].as_float64_accessor();
+        const index_t npts = src_vals.number_of_elements();
+        coordset_dest["values/x"].set(DataType::float64(2 * npts));
+        coordset_dest["values/y"].set(DataType::float64(2 * npts));
+        float64_array x_vals = coordset_dest["values/x"].value();
+        float64_array y_vals = coordset_dest["values/y"].value();
+        for (index_t i = 0; i < npts; i++)
+        {
+            x_vals[2 * i] = 0.;
+            x_vals[2 * i + 1] = 1.;
+            y_vals[2 * i] = src_vals[i];
+            y_vals[2 * i + 1] = src_vals[i];
+        }
+    }
     else
     {
         coordset_dest["values/x"].set(DataType::float64(2));
-- 
2.43.0


From dee22fc7cee9386e06135a3833933dee33dfb400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:33 +0000
Subject: [PATCH 048/105] fix: fields could only be mapped to the sides of
 polytopal topologies

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 63400d3..bec06a1 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -5298,7 +5298,7 @@ namespace detail
         bool vert_assoc = false; // true if the current field is vertex associated
         int dimensions = 0; // are we in 2D or 3D?
         int new_num_shapes = 0; // the number of new triangles or tetrahedrons
-        int num_orig_shapes = topo_src["elements/sizes"].dtype().number_of_elements(); // the number of original polygons or polyhedra
+        int num_orig_shapes = static_cast<int>(mesh::utils::topology::length(topo_src)); // the number of original polygons or polyhedra
         Node volumes_info; // a container for the volumes of old shapes and the ratio between new and old volumes for each new shape
         bool volumes_calculated = false; // so we only calculate the volumes once as we go through the while loop
         float64_accessor volume_ratio; // a float64 accessor to the ratio between new and old volumes for each new shape
-- 
2.43.0


From c7170e3fedf737308cabed6957e932648129e9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:39 +0000
Subject: [PATCH 049/105] fix: partitioning 1D implicit meshes read and wrote
 past the end of arrays

---
 .../blueprint/conduit_blueprint_mesh_partition.cpp  | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 2ea3ddf..0a49fc0 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -610,7 +610,8 @@ SelectionLogical::get_vertex_ids(const conduit::Node &n_mesh,
         conduit::blueprint::mesh::utils::topology::logical_dims(n_topo, dims, 3);
         index_t ndims = conduit::blueprint::mesh::utils::topology::dims(n_topo);
         dims[0]++;
-        dims[1]++;
+        if(ndims > 1)
+            dims[1]++;
         if(ndims > 2)
             dims[2]++;
 
@@ -620,7 +621,7 @@ SelectionLogical::get_vertex_ids(const conduit::Node &n_mesh,
         auto mesh_NX   = dims[0];
         index_t n_end[3];
         n_end[0] = end[0] + 1;
-        n_end[1] = end[1] + 1;
+        n_end[1] = (ndims > 1) ? (end[1] + 1) : start[1];
         n_end[2] = (ndims > 2) ? (end[2] + 1) : start[2];
 
         for(index_t k = start[2]; k <= n_end[2]; k++)
@@ -2826,7 +2827,7 @@ Partitioner::get_vertex_ids_for_element_ids(const conduit::Node &n_topo,
             {0,1,1},
             {1,1,1}
         };
-        int np = (ndims == 2) ? 4 : 8;
+        int np = (ndims == 1) ? 2 : ((ndims == 2) ? 4 : 8);
         auto n = element_ids.size();
         for(size_t j = 0; j < n; j++)
         {
@@ -3109,7 +3110,8 @@ Partitioner::create_new_uniform_coordset(const conduit::Node &n_coordset,
     index_t ndims = conduit::blueprint::mesh::utils::coordset::dims(n_coordset);
     n_new_coordset["type"] = "uniform";
     n_new_coordset["dims/i"] = end[0] - start[0] + 2;
-    n_new_coordset["dims/j"] = end[1] - start[1] + 2;
+    if(ndims > 1)
+        n_new_coordset["dims/j"] = end[1] - start[1] + 2;
     if(ndims > 2)
         n_new_coordset["dims/k"] = end[2] - start[2] + 2;
 
@@ -3251,7 +3253,8 @@ Partitioner::create_new_structured_topo(const conduit::Node &n_topo,
     n_new_topo["coordset"] = csname;
     conduit::Node &n_dims = n_new_topo["elements/dims"];
     n_dims["i"].set(static_cast<conduit::int64>(end[0] - start[0] + 1));
-    n_dims["j"].set(static_cast<conduit::int64>(end[1] - start[1] + 1));
+    if(n_topo.has_path("elements/dims/j"))
+        n_dims["j"].set(static_cast<conduit::int64>(end[1] - start[1] + 1));
     if(n_topo.has_path("elements/dims/k"))
         n_dims["k"].set(static_cast<conduit::int64>(end[2] - start[2] + 1));
     const char *keys[] = {"elements/origin/i0",
-- 
2.43.0


From 75358c89c92d6db0b320f92c3eb21d82fc7212e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:39 +0000
Subject: [PATCH 050/105] fix: partition ignored the fields option for whole
 domains and for lists of names

---
 .../conduit_blueprint_mesh_partition.cpp      | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 0a49fc0..818e123 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -1979,7 +1979,14 @@ Partitioner::initialize(const conduit::Node &n_mesh,
         selected_fields.clear();
         const conduit::Node &n_fields = options["fields"];
         for(index_t i = 0; i < n_fields.number_of_children(); i++)
-            selected_fields.push_back(n_fields[i].name());
+        {
+            // The fields are a list of names. (Also accept an object whose
+            // children bear the names.)
+            if(n_fields.dtype().is_list() && n_fields[i].dtype().is_string())
+                selected_fields.push_back(n_fields[i].as_string());
+            else
+                selected_fields.push_back(n_fields[i].name());
+        }
     }
 
     // Get whether we want to preserve old numbering of vertices, elements.
@@ -3670,6 +3677,14 @@ Partitioner::wrap(size_t idx, const conduit::Node &n_mesh) const
         for(index_t i = 0; i < n_fields.number_of_children(); i++)
         {
             const conduit::Node &f = n_fields[i];
+            // Honor the list of selected fields, if there is one.
+            if(!selected_fields.empty() &&
+               std::find(selected_fields.begin(),
+                         selected_fields.end(),
+                         f.name()) == selected_fields.end())
+            {
+                continue;
+            }
             n_new_fields[f.name()].set_external_node(f);
         }
     }
@@ -4300,7 +4315,7 @@ Partitioner::execute(conduit::Node &output)
             // maps to it without changing the input mesh.
             const conduit::Node* assoc_aset = nullptr;
             conduit::Node* wrapped_adjset = nullptr;
-            if(mapping || meshes[i]->has_child("adjsets"))
+            if(mapping || !selected_fields.empty() || meshes[i]->has_child("adjsets"))
             {
                 conduit::Node *c = wrap(i, *meshes[i]);
                 chunks.push_back(Chunk(c, true, dr, dd));
-- 
2.43.0


From 962f801ec380fbdf5ead84f7f900687cf6dabdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:00 +0000
Subject: [PATCH 051/105] fix: partition mis-mapped elements of combined 1D
 meshes, lost offsets of uniform domains to truncation, and split ranges into
 an empty half

---
 .../blueprint/conduit_blueprint_mesh_partition.cpp   | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 818e123..3cf3ef9 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -1146,8 +1146,10 @@ SelectionRanges::partition(const conduit::Node &n_mesh) const
             auto rc = (ranges[2*i+1] - ranges[2*i]) + 1;
             if(rc == 1)
             {
-                r0.push_back(ranges[2*i+0]);
-                r0.push_back(ranges[2*i+0]);
+                // Keep both selections from being empty, where possible.
+                std::vector<index_t> &r = (i == 0) ? r0 : r1;
+                r.push_back(ranges[2*i+0]);
+                r.push_back(ranges[2*i+0]);
             }
             else if(rc == 2)
             {
@@ -6876,7 +6878,7 @@ private:
             for(size_t i = 0; i < worigin.size(); i++)
             {
                 const auto difference = sorigin[i] - worigin[i];
-                offsets.push_back(difference / spacing[i]);
+                offsets.push_back(static_cast<index_t>(std::round(difference / spacing[i])));
             }
         }
         else if(mode == CombineImplicitMode::Rectilinear)
@@ -8613,8 +8615,8 @@ private:
                     {
                         const index_t id  = ioff + i;
                         const index_t idx = id * 2;
-                        emap_da[idx] = dom_idx;
-                        emap_da[idx] = i;
+                        emap_da[idx]   = dom_idx;
+                        emap_da[idx+1] = i;
                     }
                 }
             }
-- 
2.43.0


From 4cf8845fb95b191943c7d3eb032a42a2aa9878e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:19 +0000
Subject: [PATCH 052/105] fix: the extents and origins of uniform coordsets
 were truncated to integers

---
 .../blueprint/conduit_blueprint_mesh_utils.cpp     | 14 +++++++-------
 .../blueprint/conduit_blueprint_mesh_utils.hpp     |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index cec1bed..087dd04 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -1450,21 +1450,21 @@ coordset::extents(const Node &n)
         float64 min, max;
         if(csys_type == "uniform")
         {
-            index_t origin = 0;
+            float64 origin = 0.0;
             float64 spacing = 1.0;
             index_t dim = n["dims"][LOGICAL_AXES[i]].to_index_t();
             if(n.has_child("origin")
                 && n["origin"].has_child(csys_axes[i]))
             {
-                origin = n["origin"][csys_axes[i]].to_index_t();
+                origin = n["origin"][csys_axes[i]].to_float64();
             }
             if(n.has_child("spacing")
                 && n["spacing"].has_child("d"+csys_axes[i]))
             {
                 spacing = n["spacing"]["d" + csys_axes[i]].to_float64();
             }
-            min = (float64)origin;
-            max = (float64)origin + (spacing * ((float64)dim - 1.));
+            min = origin;
+            max = origin + (spacing * ((float64)dim - 1.));
             if(spacing < 0.)
             {
                 std::swap(min, max);
@@ -1566,12 +1566,12 @@ coordset::uniform::spacing(const Node &n)
 }
 
 //-----------------------------------------------------------------------------
-std::vector<index_t>
+std::vector<double>
 coordset::uniform::origin(const Node &n)
 {
     auto info = get_coordset_info(n);
     const auto &cset_axes = info.second;
-    std::vector<index_t> retval(cset_axes.size(), 0);
+    std::vector<double> retval(cset_axes.size(), 0.0);
     if(n.has_child("origin"))
     {
         const Node &n_spacing = n["origin"];
@@ -1580,7 +1580,7 @@ coordset::uniform::origin(const Node &n)
             const std::string child_name = cset_axes[i];
             if(n_spacing.has_child(child_name))
             {
-                retval[i] = n_spacing[child_name].to_index_t();
+                retval[i] = n_spacing[child_name].to_double();
             }
         }
     }
diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp
index fc3c880..b7d5d92 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp
@@ -411,7 +411,7 @@ namespace coordset
         */
         std::vector<double> CONDUIT_BLUEPRINT_API spacing(const Node &n);
 
-        std::vector<index_t> CONDUIT_BLUEPRINT_API origin(const Node &n);
+        std::vector<double> CONDUIT_BLUEPRINT_API origin(const Node &n);
     }
 
     std::string CONDUIT_BLUEPRINT_API coordsys(const Node &coordset);
-- 
2.43.0


From 7350f1cb9087b94723cf6d4d509709dbbe29b606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:15 +0000
Subject: [PATCH 053/105] fix: partition did not merge points of domains whose
 extents differ by rounding

---
 .../blueprint/conduit_blueprint_mesh_partition.cpp     | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 3cf3ef9..26feea7 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -4706,7 +4706,7 @@ private:
         logical
     };
 
-    int examine_extents(std::vector<std::vector<float64>> &extents) const;
+    int examine_extents(std::vector<std::vector<float64>> &extents, double tolerance) const;
 
     /**
     @brief Useful when none of the coordsets overlap. Combines all coordinates
@@ -5659,7 +5659,7 @@ point_merge::execute(const std::vector<const Node *> &coordsets,
         return;
     }
 
-    int noverlapping_sets = examine_extents(extents);
+    int noverlapping_sets = examine_extents(extents, tolerance);
     PM_DEBUG_PRINT("I was given " << coordsets.size() << " I am combining " << working_sets.size() << std::endl);
     PM_DEBUG_PRINT("noverlapping sets: " << noverlapping_sets << std::endl);
     if(noverlapping_sets == 0)
@@ -5677,9 +5677,9 @@ point_merge::execute(const std::vector<const Node *> &coordsets,
 
 //-----------------------------------------------------------------------------
 int
-point_merge::examine_extents(std::vector<std::vector<float64>> &extents) const
+point_merge::examine_extents(std::vector<std::vector<float64>> &extents, double tolerance) const
 {
-    const auto overlap = [](const float64 box1[6], const float64 box2[6]) -> bool {
+    const auto overlap = [tolerance](const float64 box1[6], const float64 box2[6]) -> bool {
         bool retval = true;
         for(auto i = 0u; i < 3u; i++)
         {
@@ -5688,7 +5688,7 @@ point_merge::examine_extents(std::vector<std::vector<float64>> &extents) const
             const auto max1 = box1[idx+1];
             const auto min2 = box2[idx];
             const auto max2 = box2[idx+1];
-            retval &= (max1 >= min2 && max2 >= min1);
+            retval &= (max1 + tolerance >= min2 && max2 + tolerance >= min1);
         }
         return retval;
     };
-- 
2.43.0


From e6e2c38d02e5b54685d1b1c4d504cf6dac3addb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:15 +0000
Subject: [PATCH 054/105] fix: partition and map-back copied field values of
 differing types bitwise and overflowed when elements were missing

---
 .../conduit_blueprint_mesh_partition.cpp      | 139 +++++++++++-------
 1 file changed, 87 insertions(+), 52 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 26feea7..4e17a6b 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -8702,7 +8702,7 @@ determine_schema(const Node &in,
         // Check that all children are the same type.
         bool same_types = true;
         for(index_t i = 1; i < num_children; i++)
-            same_types = (in[i].dtype().id() == in[0].dtype().id());
+            same_types = same_types && (in[i].dtype().id() == in[0].dtype().id());
 
         if(same_types && conduit::blueprint::mcarray::is_interleaved(in))
         {
@@ -8752,21 +8752,67 @@ determine_schema(const Node &in,
 }
 
 //-------------------------------------------------------------------------
-static index_t
-total_storage_size(const Node &in)
+/**
+ @brief Returns whether existing storage has the layout (number of components
+        and tuples) needed to hold a field. The types may differ, the values
+        are converted in that case.
+ */
+static bool
+can_contain(const Node &in, const index_t ncomps, const index_t ntuples)
 {
-    index_t size = 0;
     const index_t num_children = in.number_of_children();
-    if(num_children > 0)
+    if(num_children != ncomps)
+        return false;
+    for(index_t i = 0; i < num_children; i++)
     {
-        for(index_t i = 0; i < num_children; i++)
-            size += in[i].dtype().number_of_elements();
+        if(!in[i].dtype().is_number() ||
+           in[i].dtype().number_of_elements() != ntuples)
+        {
+            return false;
+        }
+    }
+    return num_children > 0 || (in.dtype().is_number() &&
+                                in.dtype().number_of_elements() == ntuples);
+}
+
+//-------------------------------------------------------------------------
+/**
+ @brief Copies one value, converting it when the types of the nodes differ.
+ */
+static void
+copy_value(const Node &in, const index_t in_idx, Node &out, const index_t out_idx)
+{
+    const DataType &in_dtype = in.dtype();
+    const DataType &out_dtype = out.dtype();
+    if(in_dtype.id() == out_dtype.id() &&
+       in_dtype.endianness_matches_machine() == out_dtype.endianness_matches_machine())
+    {
+        memcpy(out.element_ptr(out_idx), in.element_ptr(in_idx), out_dtype.element_bytes());
     }
     else
     {
-        size = in.dtype().number_of_elements();
+        Node n_in, n_out;
+        n_in.set_external(DataType(in_dtype.id(), 1, 0,
+                                   in_dtype.element_bytes(), in_dtype.element_bytes(),
+                                   in_dtype.endianness()),
+                          const_cast<void*>(in.element_ptr(in_idx)));
+        Node n_machine(n_in);
+        n_machine.endian_swap_to_machine_default();
+        n_machine.to_data_type(out_dtype.id(), n_out);
+        n_out.endian_swap(out_dtype.endianness());
+        memcpy(out.element_ptr(out_idx), n_out.data_ptr(), out_dtype.element_bytes());
     }
-    return size;
+}
+
+//-------------------------------------------------------------------------
+/**
+ @brief Returns the component of in that corresponds to the ci'th component of out.
+ */
+static const Node &
+matching_component(const Node &in, const Node &out, const index_t ci)
+{
+    return (in.dtype().is_object() && out.dtype().is_object())
+        ? in.fetch_existing(out[ci].name()) : in[ci];
 }
 
 //-------------------------------------------------------------------------
@@ -8808,16 +8854,13 @@ map_vertex_field(const std::vector<const Node*> &in_nodes,
     // Most likely, if we're mapping back, the original mesh contained the
     // field we're mapping in the first place. We don't want to totally reset in
     // case that field points to external data.
-    const index_t detected_size = total_storage_size(out_node);
-    const index_t actual_ncomps = std::max(ncomps, static_cast<index_t>(1));
-    const index_t expected_size = num_vertices * actual_ncomps;
-    if(detected_size != expected_size)
+    if(!can_contain(out_node, ncomps, num_vertices))
     {
         out_node.reset();
         out_node.set(out_schema);
 
 #if defined(CONDUIT_DEBUG_PARTITIONER_MAPBACK)
-        std::cout << out_node.path() << ": resetting to hold " << num_vertices << "*" << actual_ncomps << " values." << std::endl;
+        std::cout << out_node.path() << ": resetting to hold " << num_vertices << "*" << std::max(ncomps, static_cast<index_t>(1)) << " values." << std::endl;
         //out_schema.print();
         //out_node.print();
 #endif
@@ -8841,17 +8884,14 @@ map_vertex_field(const std::vector<const Node*> &in_nodes,
                 const index_t out_idx = pmap[idx];
                 for(index_t ci = 0; ci < ncomps; ci++)
                 {
-                    const auto bytes = out_node[ci].dtype().element_bytes();
-                    void *out_data = out_node[ci].element_ptr(out_idx);
-                    const void *in_data = in_values[ci].element_ptr(idx);
-                    memcpy(out_data, in_data, bytes);
+                    copy_value(matching_component(in_values, out_node, ci), idx,
+                               out_node[ci], out_idx);
                 }
             }
         }
     }
     else
     {
-        const auto bytes = out_node.dtype().element_bytes();
         for(index_t fi = 0; fi < npmaps; fi++)
         {
             const auto &pmap = pointmaps[fi];
@@ -8859,9 +8899,7 @@ map_vertex_field(const std::vector<const Node*> &in_nodes,
             for(index_t idx = 0; idx < pmap.number_of_elements(); idx++)
             {
                 const index_t out_idx = pmap[idx];
-                void *out_data = out_node.element_ptr(out_idx);
-                const void *in_data = in_values.element_ptr(idx);
-                memcpy(out_data, in_data, bytes);
+                copy_value(in_values, idx, out_node, out_idx);
             }
         }
     }
@@ -8905,16 +8943,13 @@ map_vertex_field(const std::vector<const Node*> &in_nodes,
     // Most likely, if we're mapping back, the original mesh contained the
     // field we're mapping in the first place. We don't want to totally reset in
     // case that field points to external data.
-    const index_t detected_size = total_storage_size(out_node);
-    const index_t actual_ncomps = std::max(ncomps, static_cast<index_t>(1));
-    const index_t expected_size = num_vertices * actual_ncomps;
-    if(detected_size != expected_size)
+    if(!can_contain(out_node, ncomps, num_vertices))
     {
         out_node.reset();
         out_node.set(out_schema);
 
 #if defined(CONDUIT_DEBUG_PARTITIONER_MAPBACK)
-        std::cout << out_node.path() << ": resetting to hold " << num_vertices << "*" << actual_ncomps << " values." << std::endl;
+        std::cout << out_node.path() << ": resetting to hold " << num_vertices << "*" << std::max(ncomps, static_cast<index_t>(1)) << " values." << std::endl;
         //out_schema.print();
         //out_node.print();
 #endif
@@ -8935,23 +8970,18 @@ map_vertex_field(const std::vector<const Node*> &in_nodes,
             const Node &in_values  = in_nodes[orig_dom]->child("values");
             for(index_t ci = 0; ci < ncomps; ci++)
             {
-                const auto bytes = out_node[ci].dtype().element_bytes();
-                void *out_data = out_node[ci].element_ptr(i);
-                const void *in_data = in_values[ci].element_ptr(orig_id);
-                memcpy(out_data, in_data, bytes);
+                copy_value(matching_component(in_values, out_node, ci), orig_id,
+                           out_node[ci], i);
             }
         }
     }
     else
     {
-        const auto bytes = out_node.dtype().element_bytes();
         for(index_t i = 0; i < num_vertices; i++)
         {
             const index_t orig_dom = orig_domains[i];
             const index_t orig_id  = orig_ids[i];
-            void *out_data = out_node.element_ptr(i);
-            const void *in_data = in_nodes[orig_dom]->child("values").element_ptr(orig_id);
-            memcpy(out_data, in_data, bytes);
+            copy_value(in_nodes[orig_dom]->child("values"), orig_id, out_node, i);
         }
     }
 }
@@ -8991,7 +9021,6 @@ map_element_field(const std::vector<const Node*> &in_nodes,
         n["type"] = src.dtype().name();
         n["number_of_elements"] = src.dtype().number_of_elements();
     }
-    oni["storage_size"] = total_storage_size(out_node);
     top.print();
 #endif
 
@@ -8999,16 +9028,13 @@ map_element_field(const std::vector<const Node*> &in_nodes,
     // Most likely, if we're mapping back, the original mesh contained the
     // field we're mapping in the first place. We don't want to totally reset in
     // case that field points to external data.
-    const index_t detected_size = total_storage_size(out_node);
-    const index_t actual_ncomps = std::max(ncomps, static_cast<index_t>(1));
-    const index_t expected_size = nelements * actual_ncomps;
-    if(detected_size != expected_size)
+    if(!can_contain(out_node, ncomps, nelements))
     {
         out_node.reset();
         out_node.set(out_schema);
 
 #ifdef CONDUIT_DEBUG_PARTITIONER_MAPBACK
-        std::cout << out_node.path() << ": resetting to hold " << nelements << "*" << actual_ncomps << " values." << std::endl;
+        std::cout << out_node.path() << ": resetting to hold " << nelements << "*" << std::max(ncomps, static_cast<index_t>(1)) << " values." << std::endl;
         //out_schema.print();
         //out_node.print();
 #endif
@@ -9030,25 +9056,20 @@ map_element_field(const std::vector<const Node*> &in_nodes,
             const Node &data = in_nodes[dom_idx]->child("values");
             for(index_t ci = 0; ci < ncomps; ci++)
             {
-                const auto bytes = out_node[ci].dtype().element_bytes();
-                void *out_data = out_node[ci].element_ptr(out_idx);
-                const void *in_data = data[ci].element_ptr(elem_idx);
-                memcpy(out_data, in_data, bytes);
+                copy_value(matching_component(data, out_node, ci), elem_idx,
+                           out_node[ci], out_idx);
             }
         }
     }
     else
     {
-        const auto bytes = out_node.dtype().element_bytes();
         for(index_t out_idx = 0; out_idx < nelements; out_idx++)
         {
             const index_t idx      = out_idx * 2;
             const index_t dom_idx  = elemmap[idx];
             const index_t elem_idx = elemmap[idx+1];
             const Node &data = in_nodes[dom_idx]->child("values");
-            void *out_data = out_node.element_ptr(out_idx);
-            const void *in_data = data.element_ptr(elem_idx);
-            memcpy(out_data, in_data, bytes);
+            copy_value(data, elem_idx, out_node, out_idx);
         }
     }
 }
@@ -10300,16 +10321,20 @@ Partitioner::map_back_fields(const conduit::Node& repart_mesh,
     communicate_mapback(packed_fields);
     for (const auto& orig_dom : packed_fields)
     {
-        // Precompute final element count
+        // Precompute final element count. The partitioned mesh can contain only
+        // some of the elements of the original domain, or some more than once.
         index_t nelems = 0;
         for (const Node& src_chunk : orig_dom.second.children())
         {
             DataArray<index_t> cnk_map = src_chunk["elem_map"].value();
-            nelems += cnk_map.number_of_elements();
+            for (index_t i = 0; i < cnk_map.number_of_elements(); i++)
+            {
+                nelems = std::max(nelems, cnk_map[i] + 1);
+            }
         }
 
         int cnk_id = 0;
-        vector<index_t> tgt_elem_map(nelems * 2);
+        vector<index_t> tgt_elem_map(nelems * 2, -1);
         vector<DataArray<index_t>> tgt_vert_maps(orig_dom.second.number_of_children());
         unordered_map<string, vector<const Node*>> field_groups;
         for (const Node& src_chunk : orig_dom.second.children())
@@ -10360,6 +10385,16 @@ Partitioner::map_back_fields(const conduit::Node& repart_mesh,
             }
             else if (assoc == "element")
             {
+                // Every element of the original domain needs a value.
+                const index_t dom_nelems = mesh::utils::topology::length(tgt_dom["topologies"][assoc_topo]);
+                if (nelems != dom_nelems ||
+                    std::find(tgt_elem_map.begin(), tgt_elem_map.end(), -1) != tgt_elem_map.end())
+                {
+                    CONDUIT_ERROR("Map-back of an element-centered field requires that "
+                                  "the repartitioned mesh contains every element of the "
+                                  "original domain. (domain: " << orig_dom.first <<
+                                  " field: " << field_name << ")");
+                }
                 fields::map_element_field(src_fields, elem_map_arr, output["values"]);
             }
         }
-- 
2.43.0


From 2e5fa7d45f869c50145c2917a3b4ba2d49d96cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:41 +0000
Subject: [PATCH 055/105] fix: o2m iterators apply indices to each entry of a
 relation tuple

---
 .../conduit_blueprint_o2mrelation_iterator.cpp         | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
index 3e9cc9f..ac03850 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
@@ -426,13 +426,13 @@ O2MIterator::index(index_t one_index, index_t many_index, IndexType itype) const
             offset = m_offsets_node->as_index_t_accessor()[one_index];
         }
 
-        index = offset;
-        if(m_indices_node)
+        // the offset locates the relation's tuple; when present, the
+        // indices map each entry of that tuple to its data index
+        index = offset + (many_index - 1);
+        if(m_indices_node && many_index > 0)
         {
-            index = m_indices_node->as_index_t_accessor()[offset];
+            index = m_indices_node->as_index_t_accessor()[index];
         }
-
-        index += (many_index - 1);
     }
     else if(itype == ONE)
     {
-- 
2.43.0


From ed0a036e8224de8b64a89f532122c695f9897fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:41 +0000
Subject: [PATCH 056/105] fix: matset conversions to silo and from by-material
 sets kept too narrow types and sizes

---
 .../conduit_blueprint_mesh_matset_xforms.cpp  | 36 ++++++++++++++-----
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp b/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
index b01006a..28eebcb 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
@@ -81,11 +81,28 @@ to_silo(const conduit::Node &field,
         const float64 epsilon)
 {
     Node temp, data;
-    const DataType int_dtype = bputils::find_widest_dtype(matset, bputils::DEFAULT_INT_DTYPES);
+    DataType int_dtype = bputils::find_widest_dtype(matset, bputils::DEFAULT_INT_DTYPES);
+    // matlist holds negative values and slot indices, which narrow
+    // or unsigned types can't represent
+    if(!int_dtype.is_signed_integer() || int_dtype.element_bytes() < 4)
+    {
+        int_dtype.set(DataType::int64(1));
+    }
     const DataType float_dtype = bputils::find_widest_dtype(matset, bputils::DEFAULT_FLOAT_DTYPE);
     // if matset_values is not empty, we will
     // apply the same xform to it as we do to the volume fractions.
     const bool xform_matset_values = field.has_child("matset_values");
+    // matset_values may use a wider type than the volume fractions
+    DataType mixvar_dtype = float_dtype;
+    if(xform_matset_values)
+    {
+        const DataType values_dtype = bputils::find_widest_dtype(field["matset_values"],
+                                                                 bputils::DEFAULT_FLOAT_DTYPE);
+        if(mixvar_dtype.element_bytes() < values_dtype.element_bytes())
+        {
+            mixvar_dtype.set(values_dtype);
+        }
+    }
 
     // NOTE: matset values are always treated as a float64.
     // we could map to the widest int or float type in the future.
@@ -435,7 +452,7 @@ to_silo(const conduit::Node &field,
 
     if(xform_matset_values)
     {
-        dest["field_mixvar_values"].set(DataType(float_dtype.id(), mset_num_slots));
+        dest["field_mixvar_values"].set(DataType(mixvar_dtype.id(), mset_num_slots));
         if(field.has_child("values"))
         {
             dest["field_values"].set(field["values"]);
@@ -471,8 +488,8 @@ to_silo(const conduit::Node &field,
                 {
                     temp.reset();
                     temp.set(elem_matset_values_maps[elem_index][zone_mix_mat.first]);
-                    data.set_external(float_dtype, dest["field_mixvar_values"].element_ptr(next_slot_index));
-                    temp.to_data_type(float_dtype.id(), data);
+                    data.set_external(mixvar_dtype, dest["field_mixvar_values"].element_ptr(next_slot_index));
+                    temp.to_data_type(mixvar_dtype.id(), data);
                 }
 
                 temp.reset();
@@ -544,11 +561,12 @@ create_reverse_matmap(const conduit::Node &src_matset,
 }
 
 //-----------------------------------------------------------------------------
-// load the element ids into a set to find out how many there are
+// the largest element id tells how many elements there are, elements
+// without materials have no entries
 int
 determine_num_elems_in_multi_buffer_by_material(const conduit::Node &elem_ids)
 {
-    std::set<int> elem_ids_set;
+    int num_elems = 0;
 
     auto eid_itr = elem_ids.children();
     while (eid_itr.has_next())
@@ -559,11 +577,11 @@ determine_num_elems_in_multi_buffer_by_material(const conduit::Node &elem_ids)
         int num_vf = mat_elem_ids_vals.dtype().number_of_elements();
         for (int i = 0; i < num_vf; i ++)
         {
-            elem_ids_set.insert(mat_elem_ids_vals[i]);
+            num_elems = std::max(num_elems, static_cast<int>(mat_elem_ids_vals[i]) + 1);
         }
     }
 
-    return static_cast<int>(elem_ids_set.size());
+    return num_elems;
 };
 
 //-----------------------------------------------------------------------------
@@ -1489,7 +1507,7 @@ to_silo(const conduit::Node &specset,
         CONDUIT_ASSERT(matset_vals_itr.name() == matmap_itr.name(), 
             "blueprint::mesh::specset::to_silo materials must be in the same order "
             "between passed specset and passed matset.");
-        matmap_map[matmap_entry.as_int()] = matmap_index;
+        matmap_map[matmap_entry.to_int()] = matmap_index;
         matmap_index ++;
     }
 
-- 
2.43.0


From c99899d9098cabe514197a9ca866dd5ed2e5f62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:28 +0000
Subject: [PATCH 057/105] fix: partition hung on uni-buffer matsets with
 elements without materials

---
 .../conduit_blueprint_mesh_partition.cpp      | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 4e17a6b..5be0dc1 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -42,6 +42,7 @@
 #include "conduit_blueprint_mesh_utils_iterate_elements.hpp"
 #include "conduit_blueprint_mesh.hpp"
 #include "conduit_blueprint_o2mrelation_iterator.hpp"
+#include "conduit_blueprint_o2mrelation_index.hpp"
 #include "conduit_log.hpp"
 
 #include "conduit_fmt/conduit_fmt.h"
@@ -9275,21 +9276,16 @@ handle_uni_buffer(const Node &n_matset,
 
     const DataAccessor<index_t> material_ids = n_matset["material_ids"].value();
     const DataAccessor<double> volume_fractions = n_matset["volume_fractions"].value();
-    index_t local_elem_id = 0;
-    blueprint::o2mrelation::O2MIterator o2m_itr(n_matset);
-    // Question: Why does o2m_itr.has_next(o2mrelaton::ONE) contain different logic
-    //  than the implementation of o2m_itr.next(o2mrelation::ONE)?
-    //  For instance, if we have an o2m relation with 1 item has_next(ONE) will always
-    //  return false - even if we called o2m_itr.to_front() first.
-    while(o2m_itr.has_next())
+    // elements may have no materials, so use the relation's index to walk it
+    const index_t num_ones =
+        blueprint::o2mrelation::O2MIterator(n_matset).elements(blueprint::o2mrelation::ONE);
+    const blueprint::o2mrelation::O2MIndex o2m_index(n_matset);
+    for(index_t local_elem_id = 0; local_elem_id < num_ones; local_elem_id++)
     {
-        o2m_itr.next(blueprint::o2mrelation::ONE);
-        o2m_itr.to_front(blueprint::o2mrelation::MANY);
-
-        while(o2m_itr.has_next(blueprint::o2mrelation::MANY))
+        const index_t num_manys = o2m_index.size(local_elem_id);
+        for(index_t many_id = 0; many_id < num_manys; many_id++)
         {
-            o2m_itr.next(blueprint::o2mrelation::MANY);
-            const index_t o2m_idx = o2m_itr.index();
+            const index_t o2m_idx = o2m_index.index(local_elem_id, many_id);
             const std::string &mat_name = material_map[material_ids[o2m_idx]];
             auto &pair = out_vfracts_eids[mat_name];
             pair.first.push_back(volume_fractions[o2m_idx]);
@@ -9302,7 +9298,6 @@ handle_uni_buffer(const Node &n_matset,
                 pair.second.push_back(elem_map[local_elem_id]);
             }
         }
-        local_elem_id++;
     }
 }
 
-- 
2.43.0


From 8c54936a9be63b9381a6cb5149dbb6137a59752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:28 +0000
Subject: [PATCH 058/105] fix: o2m compaction and iteration with empty entries,
 single entries and several data arrays

---
 .../conduit_blueprint_o2mrelation.cpp         | 25 ++++++++-------
 ...conduit_blueprint_o2mrelation_iterator.cpp | 31 ++++++++++++++++---
 2 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp b/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
index 6a3bfb6..08ed4d4 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
@@ -14,6 +14,7 @@
 #include "conduit_blueprint_o2mrelation.hpp"
 #include "conduit_blueprint_o2mrelation_utils.hpp"
 #include "conduit_blueprint_o2mrelation_iterator.hpp"
+#include "conduit_blueprint_o2mrelation_index.hpp"
 #include "conduit_log.hpp"
 
 //-----------------------------------------------------------------------------
@@ -209,35 +210,35 @@ void compact_to(const conduit::Node &o2mrelation,
             }
         }
 
+        // NOTE: not every entry needs to relate to values, so we use the
+        // relation's index here instead of walking its iterator
+        const O2MIndex o2mindex(o2mrelation);
+        const index_t num_ones = o2miter.elements(conduit::blueprint::o2mrelation::ONE);
+
         conduit::Node o2m_temp, res_temp;
-        index_t curr_index = 0, curr_offset = 0;
-        while(o2miter.has_next(conduit::blueprint::o2mrelation::ONE))
+        index_t curr_offset = 0;
+        for(index_t one_index = 0; one_index < num_ones; one_index++)
         {
-            const index_t one_index = o2miter.next(conduit::blueprint::o2mrelation::ONE);
-
             res_temp.set_external(offsets_dtype, res_offsets.element_ptr(one_index));
             o2m_temp.set(curr_offset);
             o2m_temp.to_data_type(offsets_dtype.id(), res_temp);
 
-            o2miter.to_front(conduit::blueprint::o2mrelation::MANY);
-            while(o2miter.has_next(conduit::blueprint::o2mrelation::MANY))
+            const index_t num_manys = o2mindex.size(one_index);
+            for(index_t many_index = 0; many_index < num_manys; many_index++, curr_offset++)
             {
-                o2miter.next(conduit::blueprint::o2mrelation::MANY);
-                const index_t data_index = o2miter.index(conduit::blueprint::o2mrelation::DATA);
+                const index_t data_index = o2mindex.index(one_index, many_index);
 
-                for(index_t pi = 0; pi < (index_t)o2m_paths_curr.size(); pi++, curr_index++)
+                for(index_t pi = 0; pi < (index_t)o2m_paths_curr.size(); pi++)
                 {
                     const conduit::Node &o2m_data = o2mrelation[o2m_paths_curr[pi]];
                     conduit::Node &res_data = res[o2m_paths_curr[pi]];
 
                     const conduit::DataType data_dtype(o2m_data.dtype().id(), 1);
                     o2m_temp.set_external(data_dtype, (void*)o2m_data.element_ptr(data_index));
-                    res_temp.set_external(data_dtype, (void*)res_data.element_ptr(curr_index));
+                    res_temp.set_external(data_dtype, (void*)res_data.element_ptr(curr_offset));
                     o2m_temp.to_data_type(data_dtype.id(), res_temp);
                 }
             }
-
-            curr_offset += o2miter.elements(conduit::blueprint::o2mrelation::MANY);
         }
     }
 }
diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
index ac03850..0ca30f1 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
@@ -152,7 +152,13 @@ O2MIterator::has_next(IndexType itype) const
 
     if(itype == DATA)
     {
-        is_next = has_next(ONE) || has_next(MANY);
+        // entries that relate to no values are skipped
+        is_next = has_next(MANY);
+        const index_t ones = elements(0, ONE);
+        for(index_t oi = m_one_index + 1; oi < ones && !is_next; oi++)
+        {
+            is_next = elements(oi, MANY) > 0;
+        }
     }
     else if(itype == ONE)
     {
@@ -181,8 +187,13 @@ O2MIterator::next(IndexType itype)
         }
         else
         {
+            const index_t ones = elements(0, ONE);
             m_many_index = 1;
             m_one_index++;
+            while(m_one_index < ones - 1 && elements(m_one_index, MANY) < 1)
+            {
+                m_one_index++;
+            }
         }
 
         nindex = index(m_one_index, m_many_index, DATA);
@@ -222,7 +233,8 @@ O2MIterator::peek_next(IndexType itype) const
         }
         else
         {
-            nindex = index(m_one_index + 1, 1, DATA);
+            O2MIterator itr(*this);
+            nindex = itr.next(DATA);
         }
     }
     else if(itype == ONE)
@@ -269,7 +281,11 @@ O2MIterator::has_previous(IndexType itype) const
 
     if(itype == DATA)
     {
-        is_prev = has_previous(ONE) || has_previous(MANY);
+        is_prev = has_previous(MANY);
+        for(index_t oi = m_one_index - 1; oi >= 0 && !is_prev; oi--)
+        {
+            is_prev = elements(oi, MANY) > 0;
+        }
     }
     else if(itype == ONE)
     {
@@ -298,8 +314,12 @@ O2MIterator::previous(IndexType itype)
         }
         else
         {
-            m_many_index = elements(m_one_index - 1, MANY);
             m_one_index--;
+            while(m_one_index > 0 && elements(m_one_index, MANY) < 1)
+            {
+                m_one_index--;
+            }
+            m_many_index = elements(m_one_index, MANY);
         }
 
         pindex = index(m_one_index, m_many_index, DATA);
@@ -330,7 +350,8 @@ O2MIterator::peek_previous(IndexType itype) const
         }
         else
         {
-            pindex = index(m_one_index - 1, elements(m_one_index - 1, MANY), DATA);
+            O2MIterator itr(*this);
+            pindex = itr.previous(DATA);
         }
     }
     else if(itype == ONE)
-- 
2.43.0


From 83429973747d4d5f704126e0bad84680c1e733d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:02 +0000
Subject: [PATCH 059/105] fix: mcarray conversions of lists and verify of empty
 first components

---
 .../blueprint/conduit_blueprint_mcarray.cpp   | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mcarray.cpp b/src/libs/blueprint/conduit_blueprint_mcarray.cpp
index 3f31c7d..1d1fde2 100644
--- a/src/libs/blueprint/conduit_blueprint_mcarray.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mcarray.cpp
@@ -76,7 +76,7 @@ bool verify(const conduit::Node &n,
     }
 
     NodeConstIterator itr = n.children();
-    index_t num_elems = 0;
+    index_t num_elems = -1;
 
     while(itr.has_next())
     {
@@ -86,7 +86,7 @@ bool verify(const conduit::Node &n,
         // make sure we have a number
         if(chld.dtype().is_number())
         {
-            if(num_elems == 0)
+            if(num_elems == -1)
             {
                 num_elems = chld.dtype().number_of_elements();
             }
@@ -173,7 +173,15 @@ to_contiguous(const conduit::Node &src,
         curr_dt.set_offset(curr_offset);
         
         // put the dtype into our schema with the correct name
-        s_dest[name] = curr_dt;
+        // (components of a list have no name)
+        if(src.dtype().is_list())
+        {
+            s_dest.append().set(curr_dt);
+        }
+        else
+        {
+            s_dest.add_child(name).set(curr_dt);
+        }
         
         // update the offset for the next component
         curr_offset += elem_bytes * curr_dt.number_of_elements();
@@ -232,7 +240,15 @@ to_interleaved(const conduit::Node &src,
         curr_dt.set_offset(curr_offset);
         
         // put the dtype into our schema with the correct name
-        s_dest[name] = curr_dt;
+        // (components of a list have no name)
+        if(src.dtype().is_list())
+        {
+            s_dest.append().set(curr_dt);
+        }
+        else
+        {
+            s_dest.add_child(name).set(curr_dt);
+        }
         
         // update the offset for the next component
         curr_offset += elem_bytes;
-- 
2.43.0


From 1365840ecdc55df8140ba6fa433da2b6d7de9bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:02 +0000
Subject: [PATCH 060/105] fix: flatten meshes without fields and with mixed
 coordinate types

---
 .../conduit_blueprint_mesh_flatten.cpp        | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
index e5ec91c..0b12e27 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
@@ -724,6 +724,11 @@ MeshFlattener::get_fields_to_flatten(const Node &mesh,
         for(index_t i = 0; i < ndomains; i++)
         {
             const Node &domain = mesh[i];
+            // domains don't need to have fields
+            if(!domain.has_child("fields"))
+            {
+                continue;
+            }
             const Node &fields = domain["fields"];
             auto itr = fields.children();
             while(itr.has_next())
@@ -753,10 +758,10 @@ MeshFlattener::get_reference_field(const Node &mesh,
     const index_t ndomains = mesh.number_of_children();
     for(index_t i = 0; i < ndomains; i++)
     {
-        const Node &fields = mesh[i]["fields"];
-        if(fields.has_child(field_name))
+        const Node *fields = mesh[i].fetch_ptr("fields");
+        if(fields && fields->has_child(field_name))
         {
-            const Node &field = fields[field_name];
+            const Node &field = fields->child(field_name);
             if(check_field_supported(field, topo_name, false))
             {
                 return &field;
@@ -929,7 +934,7 @@ MeshFlattener::generate_element_centers(const Node &topo,
             // Only convert what we need to convert
             if(n_comp.dtype().id() != cset_type)
             {
-                n_cset_values.to_data_type(cset_type, temp[n_comp.name()]);
+                n_comp.to_data_type(cset_type, temp[n_comp.name()]);
             }
             else
             {
@@ -941,9 +946,9 @@ MeshFlattener::generate_element_centers(const Node &topo,
 #define GENERATE_ELEMENT_CENTERS_CSET_TYPE(CsetType, OutputType)\
 {\
     const std::array<const DataArray<CsetType>, 3> cset_values{\
-        (dimension > 0) ? n_cset_values[0].value() : DataArray<CsetType>(),\
-        (dimension > 1) ? n_cset_values[1].value() : DataArray<CsetType>(),\
-        (dimension > 2) ? n_cset_values[2].value() : DataArray<CsetType>(),\
+        (dimension > 0) ? temp[0].value() : DataArray<CsetType>(),\
+        (dimension > 1) ? temp[1].value() : DataArray<CsetType>(),\
+        (dimension > 2) ? temp[2].value() : DataArray<CsetType>(),\
     };\
     utils::generate_element_centers_impl<CsetType, OutputType>(topo, dimension,\
         cset_values.data(), output_values.data(), offset);\
@@ -1149,7 +1154,7 @@ MeshFlattener::flatten_single_domain(const Node &mesh, Node &output,
     }
 
     // Add fields to their respective tables
-    const Node &fields = mesh["fields"];
+    const Node *fields = mesh.fetch_ptr("fields");
 #ifdef DEBUG_MESH_FLATTEN
     std::cout << "Domain[" << domain_id << "] fields to flatten:\n";
     for(index_t i = 0; i < (index_t)fields_to_flatten.size(); i++)
@@ -1162,7 +1167,7 @@ MeshFlattener::flatten_single_domain(const Node &mesh, Node &output,
 #endif
     for(const std::string &field_name : fields_to_flatten)
     {
-        const Node *field = fields.fetch_ptr(field_name);
+        const Node *field = fields ? fields->fetch_ptr(field_name) : nullptr;
         if(field)
         {
             const std::string association = field->child("association").as_string();
-- 
2.43.0


From 8b85788a4f394511a3dabfd54c71a77635285894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:02 +0000
Subject: [PATCH 061/105] fix: partition mis-copied strided and indexed
 material sets

---
 .../conduit_blueprint_mesh_partition.cpp      | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 5be0dc1..d21c62b 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -2167,7 +2167,7 @@ copy_volume_fractions(
 {
     out_data.set_dtype(conduit::DataType(in_data.dtype().id(), element_ids.size()));
 
-    const conduit::DataArray<FloatType> in_values(in_data.element_ptr(0), in_data.dtype());
+    const conduit::DataArray<FloatType> in_values = in_data.value();
     conduit::DataArray<FloatType> out_values(out_data.element_ptr(0), out_data.dtype());
 
     // Iterate over desired element ids
@@ -2191,7 +2191,7 @@ copy_volume_fractions_o2m(
     const conduit::Node &n_in_values = in_data["values"];
     out_data.set_dtype(conduit::DataType(in_data["values"].dtype().id(), element_ids.size()));
 
-    const conduit::DataArray<FloatType> in_values(n_in_values.element_ptr(0), n_in_values.dtype());
+    const conduit::DataArray<FloatType> in_values = n_in_values.value();
     conduit::DataArray<FloatType> out_values(out_data.element_ptr(0), out_data.dtype());
 
     // Iterate over desired element ids
@@ -2273,20 +2273,19 @@ copy_uni_buffer_matset_impl(
 
         // Get the number of "many" elements for this element_id
         const index_t size = indexer.elements(conduit::blueprint::o2mrelation::MANY);
-        index_t idx  = indexer.index(conduit::blueprint::o2mrelation::DATA);
 
 #if 0
         std::cout << "element_id = " << element_id
-            << "\nsize = " << size
-            << "\nidx = " << idx << std::endl;
+            << "\nsize = " << size << std::endl;
 #endif
 
         // Copy each item in the O2M relation
         for(index_t j = 0; j < size; j++)
         {
+            indexer.to(j, conduit::blueprint::o2mrelation::MANY);
+            const index_t idx = indexer.index(conduit::blueprint::o2mrelation::DATA);
             out_material_ids[offset]     = in_material_ids[idx];
             out_volume_fractions[offset] = in_volume_fractions[idx];
-            idx++;
             offset++;
         }
     }
@@ -2562,14 +2561,14 @@ copy_material_based_uni_buffer(const std::vector<index_t> &element_ids,
 
         // Get the number of "many" elements for this element_id
         const index_t size = indexer.elements(conduit::blueprint::o2mrelation::MANY);
-        index_t idx  = indexer.index(conduit::blueprint::o2mrelation::DATA);
 
         // Copy each item in the O2M relation
         for(index_t j = 0; j < size; j++)
         {
+            indexer.to(j, conduit::blueprint::o2mrelation::MANY);
+            const index_t idx = indexer.index(conduit::blueprint::o2mrelation::DATA);
             out_mat_ids[offset] = in_material_ids[idx];
             out_vfracts[offset] = in_volume_fractions[idx];
-            idx++;
             offset++;
         }
     }
@@ -9459,6 +9458,12 @@ combine(const std::vector<Node> &inputs,
         }
     }
 
+    // Every material of the material map needs its (maybe empty) arrays
+    for(const auto &mat : material_map)
+    {
+        out_vfracts_eids[mat.second];
+    }
+
     out_matset["topology"].set(out_topo.name());
     for(const auto &pair : out_vfracts_eids)
     {
-- 
2.43.0


From 9375f52ad5dc449b6375d8b90e04cf7bc4386efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:55 +0000
Subject: [PATCH 062/105] fix: mpi messages of nodes with an offset, mpi tag
 limit probing, broadcast_using_schema into longer leaves

---
 src/libs/relay/conduit_relay_mpi.cpp | 46 ++++++++++++----------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index 330381a..0af4d47 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -368,9 +368,11 @@ public:
      *
      * @note We probe to determine the value since query is not as reliable across MPI distributions.
      */
-    static int upper_bound(MPI_Comm comm)
+    static int upper_bound(MPI_Comm /*comm*/)
     {
-      return probe(comm);
+      // The limit is the same for every communicator. Probe on MPI_COMM_SELF
+      // so the probe messages can't match receives posted by the caller.
+      return probe(MPI_COMM_SELF);
     }
 
 private:
@@ -440,7 +442,7 @@ private:
             int rank;
             MPI_Comm_rank(comm, &rank);
 
-            tag = (low + high) / 2;
+            tag = low + (high - low) / 2;
 
             // Try sending with the current tag.
             int srcBuff = 0;
@@ -531,15 +533,9 @@ send_using_schema(const Node &node, int dest, int tag, MPI_Comm comm)
 {     
     Schema s_data_compact;
     
-    // schema will only be valid if compact and contig
-    if( node.is_compact() && node.is_contiguous())
-    {
-        s_data_compact = node.schema();
-    }
-    else
-    {
-        node.schema().compact_to(s_data_compact);
-    }
+    // note: even the schema of a compact and contiguous node can start
+    // with an offset
+    node.schema().compact_to(s_data_compact);
     
     std::string snd_schema_json = s_data_compact.to_json();
         
@@ -844,7 +840,7 @@ reduce(const Node &snd_node,
     // we can only reduce leaf types 
     if(snd_node.is_compact())
     {
-        snd_ptr = const_cast<void*>(snd_node.data_ptr());
+        snd_ptr = const_cast<void*>(snd_node.element_ptr(0));
     }
     else
     {
@@ -923,7 +919,7 @@ all_reduce(const Node &snd_node,
     // we can only reduce leaf types 
     if(snd_node.is_compact())
     {
-        snd_ptr = const_cast<void*>(snd_node.data_ptr());
+        snd_ptr = const_cast<void*>(snd_node.element_ptr(0));
     }
     else
     {
@@ -1362,7 +1358,6 @@ gather(Node &send_node,
     if(snd_ptr != NULL && 
        send_node.is_compact() )
     {
-        snd_ptr  = send_node.data_ptr();
         snd_size = send_node.total_bytes_compact();
     }
     else
@@ -1834,7 +1829,11 @@ broadcast_using_schema(Node &node,
            node.is_compact() && 
            node.is_contiguous())
         {
-            bcast_buffers["schema"] = node.schema().to_json();
+            // note: even the schema of a compact and contiguous node can
+            // start with an offset
+            Schema s_compact;
+            node.schema().compact_to(s_compact);
+            bcast_buffers["schema"] = s_compact.to_json();
         }
         else
         {
@@ -1901,7 +1900,8 @@ broadcast_using_schema(Node &node,
         {
             
             bcast_data_ptr  = node.contiguous_data_ptr();
-            bcast_data_size = static_cast<int>(node.total_bytes_compact());
+            // note: a compatible node can hold more than what is sent
+            bcast_data_size = static_cast<int>(bcast_schema.total_bytes_compact());
             
             if( bcast_data_ptr == NULL ||
                 ! node.is_compact() )
@@ -2093,15 +2093,9 @@ communicate_using_schema::execute_internal()
         {
             Schema s_data_compact;
             const Node &node = *operations[i].node[0];
-            // schema will only be valid if compact and contig
-            if( node.is_compact() && node.is_contiguous())
-            {
-                s_data_compact = node.schema();
-            }
-            else
-            {
-                node.schema().compact_to(s_data_compact);
-            }
+            // note: even the schema of a compact and contiguous node can
+            // start with an offset
+            node.schema().compact_to(s_data_compact);
     
             std::string snd_schema_json = s_data_compact.to_json();
         
-- 
2.43.0


From 8fdd12962fa354a8f87199d54f9b755540f593d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:08 +0000
Subject: [PATCH 063/105] fix: mesh verify of malformed mixed shapes, windows,
 specsets and tables threw or accepted them

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 39 ++++++++++++-------
 .../blueprint/conduit_blueprint_table.cpp     |  2 +-
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index bec06a1..df3e0ae 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -511,6 +511,10 @@ bool verify_shapes_node(const Node &node, const Node &shape_map, Node &info)
   const std::string protocol = "mesh::topology::unstructured";
   bool res = true;
   res &= verify_integer_field(protocol, node, info);
+  if (!res)
+  {
+    return res;
+  }
 
   const int32_accessor shapes = node.value();
 
@@ -551,10 +555,12 @@ bool verify_mixed_elements_node(const Node& topo_elems, Node &info_elems, bool&
   elems_res &= verify_field_exists(protocol, topo_elems, info_elems, "shape") &&
       conduit::blueprint::mesh::topology::shape::verify(topo_elems["shape"], info_elems["shape"]);
 
-  elems_res &= verify_field_exists(protocol, topo_elems, info_elems, "shape_map") &&
+  const bool shape_map_res = verify_field_exists(protocol, topo_elems, info_elems, "shape_map") &&
       conduit::blueprint::mesh::topology::shape_map::verify(topo_elems["shape_map"], info_elems["shape_map"]);
+  elems_res &= shape_map_res;
 
   elems_res &= verify_field_exists(protocol, topo_elems, info_elems, "shapes") &&
+      shape_map_res &&
       verify_shapes_node(topo_elems["shapes"], topo_elems["shape_map"], info_elems["shapes"]);
 
   return elems_res;
@@ -637,7 +643,8 @@ bool verify_poly_node(bool is_mixed_topo,
                         subnode_res &= verify_field_exists(protocol, sub_node, subnode_info, "shape") &&
                         blueprint::mesh::topology::shape::verify(sub_node["shape"], subnode_info["shape"]);
                         subnode_res &= verify_integer_field(protocol, sub_node, subnode_info, "connectivity");
-                        subnode_res &= sub_node["shape"].as_string() == "polygonal";
+                        subnode_res &= sub_node["shape"].dtype().is_string() &&
+                                       sub_node["shape"].as_string() == "polygonal";
                         subnode_res &= blueprint::o2mrelation::verify(sub_node, subnode_info);
                     }
                     else
@@ -6159,17 +6166,20 @@ mesh::topology::shape_map::verify(const Node& shape_map,
     {
       isEnum |= (enum_value == child.name());
     }
-    if (isEnum)
+    const bool isInteger = child.dtype().is_integer() &&
+                           child.dtype().number_of_elements() > 0;
+    const std::string value = isInteger ? child.to_string() : "not an integer";
+    if (isEnum && isInteger)
     {
       log::info(info, protocol, "has valid value "+ log::quote(child.name()) +
-      "(" + std::to_string(child.as_int32()) + ")");
+      "(" + value + ")");
     }
     else
     {
       log::error(info, protocol, "has invalid value " + log::quote(child.name()) +
-        "(" + std::to_string(child.as_int32()) + ")");
+        "(" + value + ")");
     }
-    res &= isEnum;
+    res &= isEnum && isInteger;
   }
 
   log::validation(info, res);
@@ -6251,8 +6261,11 @@ mesh::matset::verify(const Node &matset,
 
             res &= vfs_res;
         }
-        else if(matset["volume_fractions"].dtype().is_object() &&
-            verify_object_field(protocol, matset, info, "volume_fractions"))
+        else if(!verify_object_field(protocol, matset, info, "volume_fractions"))
+        {
+            res &= vfs_res &= false;
+        }
+        else
         {
             log::info(info, protocol, "detected multi-buffer matset");
 
@@ -6663,7 +6676,7 @@ mesh::specset::verify(const Node &specset,
     else
     {
         bool specmats_res = true;
-        index_t specmats_len = 0;
+        index_t specmats_len = -1;
 
         const Node &specmats = specset["matset_values"];
         Node &specmats_info = info["matset_values"];
@@ -6676,10 +6689,10 @@ mesh::specset::verify(const Node &specset,
             {
                 specmats_res &= false;
             }
-            else
+            else if(specmat.number_of_children() > 0)
             {
                 const index_t specmat_len = specmat.child(0).dtype().number_of_elements();
-                if(specmats_len == 0)
+                if(specmats_len == -1)
                 {
                     specmats_len = specmat_len;
                 }
@@ -6799,10 +6812,10 @@ mesh::adjset::verify(const Node &adjset,
                         index_t window_dim = wndw["origin"].number_of_children();
                         window_res &= !wndw.has_child("dims") ||
                             verify_object_field(protocol, wndw,
-                                wndw_info, "dims", false, window_dim);
+                                wndw_info, "dims", false, false, window_dim);
                         window_res &= !wndw.has_child("ratio") ||
                             verify_object_field(protocol, wndw,
-                                wndw_info, "ratio", false, window_dim);
+                                wndw_info, "ratio", false, false, window_dim);
                     }
 
                     log::validation(wndw_info,window_res);
diff --git a/src/libs/blueprint/conduit_blueprint_table.cpp b/src/libs/blueprint/conduit_blueprint_table.cpp
index 6acdd37..5f72df3 100644
--- a/src/libs/blueprint/conduit_blueprint_table.cpp
+++ b/src/libs/blueprint/conduit_blueprint_table.cpp
@@ -50,7 +50,7 @@ verify_table_values(const Node &n, Node &info)
         if(n_col.dtype().is_list() || n_col.dtype().is_object())
         {
             this_res = blueprint::mcarray::verify(n_col, i_col);
-            this_num_elems = (res) ? n_col[0].dtype().number_of_elements() : 0;
+            this_num_elems = (this_res && n_col.number_of_children() > 0) ? n_col[0].dtype().number_of_elements() : 0;
         }
         else if(n_col.dtype().is_empty())
         {
-- 
2.43.0


From c701f51de00e2410c26eaded75c5de74d8ea08d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:04 +0000
Subject: [PATCH 064/105] fix: index material only fields with a single values
 array

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index df3e0ae..86dd297 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -2409,7 +2409,7 @@ mesh::generate_index_for_single_domain(const Node &mesh,
                     ncomps = fld["values"].number_of_children();
                 }
             }
-            else
+            else if(fld["matset_values"].number_of_children() > 0)
             {
                 if(fld["matset_values"].child(0).dtype().is_object())
                 {
-- 
2.43.0


From 2100023cfbdbec0a07c25433d0ec198e0d0816e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:04 +0000
Subject: [PATCH 065/105] fix: yaml root files that contain a brace are not
 json

---
 src/libs/relay/conduit_relay_io_identify_protocol.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_identify_protocol.cpp b/src/libs/relay/conduit_relay_io_identify_protocol.cpp
index 7b50ef6..7d0905a 100644
--- a/src/libs/relay/conduit_relay_io_identify_protocol.cpp
+++ b/src/libs/relay/conduit_relay_io_identify_protocol.cpp
@@ -151,12 +151,15 @@ identify_file_type(const std::string &path,
             if(test_str.find("\n") != std::string::npos)
             {
                 // for yaml look for ":" 
-                // for json, look for "{"
-                if(test_str.find(":") != std::string::npos)
+                // for json, look for "{" before any ":"
+                // (yaml values can also contain "{")
+                const size_t colon_pos = test_str.find(":");
+                const size_t brace_pos = test_str.find("{");
+                if(colon_pos != std::string::npos)
                 {
                    file_type = "yaml";
                 }
-                if(test_str.find("{") != std::string::npos)
+                if(brace_pos != std::string::npos && brace_pos < colon_pos)
                 {
                    file_type = "json";
                 }
-- 
2.43.0


From ca9f6d77cbcbd38c74b54bdcc5d3791c3089759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:04 +0000
Subject: [PATCH 066/105] fix: distribute domains without destination

---
 .../conduit_blueprint_mpi_mesh_distribute.cpp       | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_distribute.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_distribute.cpp
index 8dc9582..a6c88da 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_distribute.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_distribute.cpp
@@ -134,22 +134,17 @@ distribute(const conduit::Node &mesh,
     int tag = 422000; // unique tag start for distribute
 
     // full walk
+    // (over the destinations, since domains may have none)
     while(o2m_iter.has_next(conduit::blueprint::o2mrelation::DATA))
-    // for( int i = 0; i < o2m_rel.size(); i++)
     {
-        int i = o2m_iter.next(conduit::blueprint::o2mrelation::ONE);
+        index_t o2m_idx  = o2m_iter.next(conduit::blueprint::o2mrelation::DATA);
+        index_t i = o2m_iter.index(conduit::blueprint::o2mrelation::ONE);
         // i is domain id
         // check if we have domain w/ domain id == i
         // if so we will send
         bool have_domain = local_domain_ids.find(i) != local_domain_ids.end();
-        // loop over all dests for domain i
-        o2m_iter.to_front(conduit::blueprint::o2mrelation::MANY);
-        while(o2m_iter.has_next(conduit::blueprint::o2mrelation::MANY))
-        // for (int j = 0; j < o2m_rel.size(i); j++)
+        // current dest for domain i
         {
-            o2m_iter.next(conduit::blueprint::o2mrelation::MANY);
-            // index_t o2m_idx = o2m_rel.map(i,j);
-            index_t o2m_idx  = o2m_iter.index(conduit::blueprint::o2mrelation::DATA);
             index_t des_rank = dmap_values[o2m_idx];
 
             if(have_domain)
-- 
2.43.0


From 7f3b855f312547b108d2ec0a04b5ca15b0cfd11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:04 +0000
Subject: [PATCH 067/105] fix: mesh files in other directories, of single
 domains with ids, with short patterns

---
 src/libs/relay/conduit_relay_io_blueprint.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_blueprint.cpp b/src/libs/relay/conduit_relay_io_blueprint.cpp
index 2fb3f9c..7ddc391 100644
--- a/src/libs/relay/conduit_relay_io_blueprint.cpp
+++ b/src/libs/relay/conduit_relay_io_blueprint.cpp
@@ -194,7 +194,7 @@ public:
         {
             std::string res = pattern;
             res.replace(pattern_idx,
-                        4,
+                        2,
                         conduit_fmt::format("{:d}",idx));
             return res;
         }
@@ -281,7 +281,7 @@ public:
         // cases that are not?
         m_dom_to_tree.set(DataType::index_t(num_domains));
         index_t_array dom_to_tree_vals = m_dom_to_tree.value();
-        for(index_t i=0;i<num_domains;i++)
+        for(index_t i=0;i<doms.number_of_elements();i++)
         {
             dom_to_tree_vals[doms[i]] = i;
         }
@@ -700,6 +700,14 @@ bool clean_mesh(const conduit::Node &data,
     {
       conduit::Node &dest_dom = output.append();
       dest_dom.set_external(data);
+      // note: this algo may re-write domain ids
+      // so make sure this isn't set as external
+      if(dest_dom.has_path("state/domain_id"))
+      {
+          index_t dom_id = dest_dom["state/domain_id"].to_index_t();
+          dest_dom["state/domain_id"].reset();
+          dest_dom["state/domain_id"] = dom_id;
+      }
     }
   }
 
@@ -1662,7 +1670,7 @@ void write_mesh(const Node &mesh,
             else
             {
                 output_tree_pattern = "/domain_%06d/";
-                output_partition_pattern = root_filename + ":/domain_{domain:06d}";
+                output_partition_pattern = output_file_pattern + ":/domain_{domain:06d}";
 
                 //generate part map (we only need domain for this case)
                 output_partition_map["domain"].set(DataType::index_t(global_num_domains));
@@ -2115,7 +2123,7 @@ void read_mesh(const std::string &root_file_path,
     //  legacy case that uses file_pattern and tree_pattern
     //  case that uses a mesh specific partition pattern and partition map
     //  case that uses a mesh specific partition pattern 
-    if(mesh_index["state"].has_child("partition_pattern"))
+    if(has_part_pattern)
     {
         if(mesh_index["state"].has_child("partition_map"))
         {
-- 
2.43.0


From 33e5c9e32354a8729a2f1036cac3d69e3d0d71c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:04 +0000
Subject: [PATCH 068/105] fix: mpi save of no data

---
 src/libs/relay/conduit_relay_io_blueprint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_blueprint.cpp b/src/libs/relay/conduit_relay_io_blueprint.cpp
index 7ddc391..1388310 100644
--- a/src/libs/relay/conduit_relay_io_blueprint.cpp
+++ b/src/libs/relay/conduit_relay_io_blueprint.cpp
@@ -987,7 +987,7 @@ void write_mesh(const Node &mesh,
 
     // reduce to check to see if any valid data exists
 
-    n_local = (int)cycle;
+    n_local = local_boolean;
     relay::mpi::sum_all_reduce(n_local,
                                n_reduced,
                                mpi_comm);
-- 
2.43.0


From 2132bb12cc4db75cf011f57c55bf41c743155c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:20 +0000
Subject: [PATCH 069/105] fix: partition target out of reach hangs

Splitting selections to reach a target larger than the number of selected
elements looped forever (a selection of one element yields no parts, or
an empty one). Stop when no selection can be split.
---
 .../blueprint/conduit_blueprint_mesh_partition.cpp  | 13 ++++++++++---
 .../conduit_blueprint_mpi_mesh_partition.cpp        |  8 ++++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index d21c62b..1b45d7d 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -2078,15 +2078,17 @@ Partitioner::count_targets() const
 void
 Partitioner::get_largest_selection(int &sel_rank, int &sel_index) const
 {
-    sel_rank = 0;
+    // A selection with a single element cannot be split.
+    sel_rank = -1;
     sel_index = -1;
-    long largest_selection_size = 0;
+    long largest_selection_size = 1;
     for(size_t i = 0; i < selections.size(); i++)
     {
         long ssize = static_cast<long>(selections[i]->length(*meshes[i]));
         if(ssize > largest_selection_size)
         {
             largest_selection_size = ssize;
+            sel_rank = 0;
             sel_index = static_cast<int>(i);
         }
     }
@@ -2124,7 +2126,12 @@ Partitioner::split_selections()
             int sel_rank = -1, sel_index = -1;
             get_largest_selection(sel_rank, sel_index);
 
-            if(rank == sel_rank)
+            if(sel_rank < 0)
+            {
+                // There are too few elements to reach the target.
+                splitting = false;
+            }
+            else if(rank == sel_rank)
             {
                 auto ps = selections[sel_index]->partition(*meshes[sel_index]);
 
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
index f911b27..72a6d3f 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
@@ -255,6 +255,14 @@ ParallelPartitioner::get_largest_selection(int &sel_rank, int &sel_index) const
     MPI_Allreduce(&largest_selection, &global_largest_selection,
                   1, MPI_LONG_INT, MPI_MAXLOC, comm);
 
+    // A selection with a single element cannot be split.
+    if(global_largest_selection.value <= 1)
+    {
+        sel_rank = -1;
+        sel_index = -1;
+        return;
+    }
+
     // MPI found us the rank that has the largest selection.
     sel_rank = global_largest_selection.rank;
     sel_index = -1;
-- 
2.43.0


From f49df4350b16b044035f93ae1c0b0b2710d78059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:27 +0000
Subject: [PATCH 070/105] fix: python set of a reversed numpy view stored it in
 memory order

---
 src/libs/conduit/python/conduit_python.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libs/conduit/python/conduit_python.cpp b/src/libs/conduit/python/conduit_python.cpp
index b9564ca..0812ae3 100644
--- a/src/libs/conduit/python/conduit_python.cpp
+++ b/src/libs/conduit/python/conduit_python.cpp
@@ -5125,12 +5125,15 @@ PyConduit_Fill_DataArray_From_PyArray(DataArray<T> &conduit_array,
      *     - Visit elements in memory order, regardless of strides.
      *       This is good for performance when the specific order
      *       elements are visited is unimportant.
+     *   flag NPY_ITER_DONT_NEGATE_STRIDES
+     *     - Keep the element order of reversed views (negative strides).
      *   casting NPY_NO_CASTING
      *     - No casting is required for this operation.
      */
      NpyIter* iter = NpyIter_New(numpy_array,
                                  NPY_ITER_READONLY|
                                  NPY_ITER_EXTERNAL_LOOP|
+                                 NPY_ITER_DONT_NEGATE_STRIDES|
                                  NPY_ITER_REFS_OK,
                                  NPY_KEEPORDER,
                                  NPY_NO_CASTING,
-- 
2.43.0


From 5c6fd44889553a98e3b9ecdf8ebaf94229185da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:27 +0000
Subject: [PATCH 071/105] fix: python set_external of a 0-d numpy array crashes

---
 src/libs/conduit/python/conduit_python.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/python/conduit_python.cpp b/src/libs/conduit/python/conduit_python.cpp
index 0812ae3..d47445f 100644
--- a/src/libs/conduit/python/conduit_python.cpp
+++ b/src/libs/conduit/python/conduit_python.cpp
@@ -6442,8 +6442,10 @@ PyConduit_Node_set_external(PyConduit_Node* self,
     PyArrayObject *py_arr = (PyArrayObject*)py_value;
     npy_intp num_ele = PyArray_SIZE(py_arr);
     index_t offset = 0;
-    index_t stride = (index_t) PyArray_STRIDE(py_arr, 0);
     int nd = PyArray_NDIM(py_arr);
+    // 0-d arrays have no strides
+    index_t stride = (index_t) (nd > 0 ? PyArray_STRIDE(py_arr, 0)
+                                       : PyArray_ITEMSIZE(py_arr));
 
     if (nd > 1)
     {
-- 
2.43.0


From 6d04899b43eacc6834537fe4f54a9b9f83216145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:55 +0000
Subject: [PATCH 072/105] fix: python string arrays read with a length from
 beyond the shape

The string length was read from dims[1] of 1-d arrays (really the stride),
so views were read beyond their ends or with the next strings appended.
---
 src/libs/conduit/python/conduit_python.cpp | 33 +++++++++++++++++-----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/libs/conduit/python/conduit_python.cpp b/src/libs/conduit/python/conduit_python.cpp
index d47445f..1042f4e 100644
--- a/src/libs/conduit/python/conduit_python.cpp
+++ b/src/libs/conduit/python/conduit_python.cpp
@@ -7715,17 +7715,28 @@ PyConduit_Node_Set_From_Numpy_String_Array(Node &node,
     node.reset();
     // get the number of strings, and create a conduit list of strings
     npy_intp num_strings = PyArray_SIZE(py_arr);
-    npy_intp *dims = PyArray_DIMS(py_arr);
-    npy_intp string_len = dims[1];
+    size_t string_len = (size_t)PyArray_ITEMSIZE(py_arr);
+    PyArrayIterObject *py_iter = (PyArrayIterObject*)PyArray_IterNew((PyObject*)py_arr);
+    if(py_iter == NULL)
+    {
+        return -1;
+    }
     for(npy_intp i=0; i < num_strings; i++)
     {
         // read each string into a child
         Node &cld = node.append();
         // numpy strings are fixed len + may not include
         // NULL term.
-        cld.set(DataType::char8_str(string_len),
-                PyArray_GETPTR1(py_arr,i));
+        const char *str_ptr = (const char*)PyArray_ITER_DATA(py_iter);
+        size_t len = 0;
+        while(len < string_len && str_ptr[len] != '\0')
+        {
+            len++;
+        }
+        cld.set_string(std::string(str_ptr,len));
+        PyArray_ITER_NEXT(py_iter);
     }
+    Py_DECREF(py_iter);
 
     return 0;
 }
@@ -7738,15 +7749,19 @@ PyConduit_Node_Set_From_Numpy_Unicode_Array(Node &node,
     node.reset();
     // get the number of strings, and create a conduit list of strings
     npy_intp num_strings = PyArray_SIZE(py_arr);
-    npy_intp *dims = PyArray_DIMS(py_arr);
-    npy_intp buffer_len = dims[1];
+    int buffer_len = (int)PyArray_ITEMSIZE(py_arr);
+    PyArrayIterObject *py_iter = (PyArrayIterObject*)PyArray_IterNew((PyObject*)py_arr);
+    if(py_iter == NULL)
+    {
+        return -1;
+    }
     for(npy_intp i=0; i < num_strings; i++)
     {
         // read each string into a child
         Node &cld = node.append();
 
         // get unicode data and construct a python unicode object from it
-        void *unicode_buffer_ptr = PyArray_GETPTR1(py_arr,i);
+        void *unicode_buffer_ptr = PyArray_ITER_DATA(py_iter);
         PyObject *py_temp_unicode = PyUnicode_From_UTF32_Unicode_Buffer((const char*)unicode_buffer_ptr,
                                                                         buffer_len);
             
@@ -7754,6 +7769,7 @@ PyConduit_Node_Set_From_Numpy_Unicode_Array(Node &node,
         {
             PyErr_SetString(PyExc_TypeError,
                             "Failed to construct PyUnicode from NPY_UNICODE Array entry.");
+            Py_DECREF(py_iter);
             return -1;
         }
         
@@ -7768,6 +7784,7 @@ PyConduit_Node_Set_From_Numpy_Unicode_Array(Node &node,
             // error
             PyErr_SetString(PyExc_TypeError,
                             "Failed to encode unicode string to ASCII for use in conduit");
+            Py_DECREF(py_iter);
             return -1;
         }
 
@@ -7775,7 +7792,9 @@ PyConduit_Node_Set_From_Numpy_Unicode_Array(Node &node,
         cld.set_char8_str(PyBytes_AsString(py_temp_bytes));
         // cleanup temp bytes
         Py_DECREF(py_temp_bytes);
+        PyArray_ITER_NEXT(py_iter);
     }
+    Py_DECREF(py_iter);
 
     return 0;
 }
-- 
2.43.0


From 7c8da49a100231940c02b5e37260773d51869214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:55 +0000
Subject: [PATCH 073/105] fix: python ignores the byte order of numpy arrays

Arrays in the other byte order were stored as raw bytes of the wrong value
(set) or labelled with the machine's byte order (set_external).
---
 src/libs/conduit/python/conduit_python.cpp | 56 ++++++++++++++++++----
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/libs/conduit/python/conduit_python.cpp b/src/libs/conduit/python/conduit_python.cpp
index 1042f4e..2c87d0e 100644
--- a/src/libs/conduit/python/conduit_python.cpp
+++ b/src/libs/conduit/python/conduit_python.cpp
@@ -6440,6 +6440,13 @@ PyConduit_Node_set_external(PyConduit_Node* self,
     // numpy array case
     PyArray_Descr *desc = PyArray_DESCR((PyArrayObject*)py_value);
     PyArrayObject *py_arr = (PyArrayObject*)py_value;
+    index_t ele_bytes = (index_t) PyArray_ITEMSIZE(py_arr);
+    index_t endianness = Endianness::DEFAULT_ID;
+    if(PyArray_ISBYTESWAPPED(py_arr))
+    {
+        endianness = Endianness::machine_is_little_endian() ?
+                     Endianness::BIG_ID : Endianness::LITTLE_ID;
+    }
     npy_intp num_ele = PyArray_SIZE(py_arr);
     index_t offset = 0;
     int nd = PyArray_NDIM(py_arr);
@@ -6465,61 +6472,71 @@ PyConduit_Node_set_external(PyConduit_Node* self,
         case NPY_UINT8 :
         {
             uint8 *numpy_data = (uint8*)PyArray_BYTES(py_arr);
-            node.set_external(numpy_data, num_ele, offset, stride);
+            node.set_external(numpy_data, num_ele, offset, stride,
+                              ele_bytes, endianness);
             break;
         }
         case NPY_UINT16 :
         {
             uint16 *numpy_data = (uint16*)PyArray_BYTES(py_arr);
-            node.set_external(numpy_data, num_ele, offset, stride);
+            node.set_external(numpy_data, num_ele, offset, stride,
+                              ele_bytes, endianness);
             break;
         }
         case NPY_UINT32 :
         {
             uint32 *numpy_data = (uint32*)PyArray_BYTES(py_arr);
-            node.set_external(numpy_data, num_ele, offset, stride);
+            node.set_external(numpy_data, num_ele, offset, stride,
+                              ele_bytes, endianness);
             break;
         }
         case NPY_UINT64 :
         {
             uint64 *numpy_data = (uint64*)PyArray_BYTES(py_arr);
-            node.set_external(numpy_data, num_ele, offset, stride);
+            node.set_external(numpy_data, num_ele, offset, stride,
+                              ele_bytes, endianness);
             break;
         }
         case NPY_INT8 :
         {
             int8 *numpy_data = (int8*)PyArray_BYTES(py_arr);
-            node.set_external(numpy_data, num_ele, offset, stride);
+            node.set_external(numpy_data, num_ele, offset, stride,
+                              ele_bytes, endianness);
             break;
         }
         case NPY_INT16 :
         {
             int16 *numpy_data = (int16*)PyArray_BYTES(py_arr);
-            node.set_external(numpy_data, num_ele, offset, stride);
+            node.set_external(numpy_data, num_ele, offset, stride,
+                              ele_bytes, endianness);
             break;
         }
         case NPY_INT32 :
         {
             int32 *numpy_data = (int32*)PyArray_BYTES(py_arr);
-            node.set_external(numpy_data, num_ele, offset, stride);
+            node.set_external(numpy_data, num_ele, offset, stride,
+                              ele_bytes, endianness);
             break;
         }
         case NPY_INT64 :
         {
             int64 *numpy_data = (int64*)PyArray_BYTES(py_arr);
-            node.set_external(numpy_data, num_ele, offset, stride);
+            node.set_external(numpy_data, num_ele, offset, stride,
+                              ele_bytes, endianness);
             break;
         }
         case NPY_FLOAT32 :
         {
             float32 *numpy_data = (float32*)PyArray_BYTES(py_arr);
-            node.set_external(numpy_data, num_ele, offset, stride);
+            node.set_external(numpy_data, num_ele, offset, stride,
+                              ele_bytes, endianness);
             break;
         }
         case NPY_FLOAT64 :
         {
             float64 *numpy_data = (float64*)PyArray_BYTES(py_arr);
-            node.set_external(numpy_data, num_ele, offset, stride);
+            node.set_external(numpy_data, num_ele, offset, stride,
+                              ele_bytes, endianness);
             break;
         }
         default :
@@ -7852,6 +7869,25 @@ PyConduit_Node_Set_From_Python(Node &node,
         PyArray_Descr *desc = PyArray_DESCR((PyArrayObject*)value);
         PyArrayObject *py_arr = (PyArrayObject*)value;
 
+        if(PyArray_ISBYTESWAPPED(py_arr))
+        {
+            // set from a copy in the machine's byte order
+            PyObject *py_native = PyArray_NewLikeArray(py_arr,
+                                      NPY_KEEPORDER,
+                                      PyArray_DescrNewByteorder(desc,
+                                                                NPY_NATIVE),
+                                      0);
+            if(py_native == NULL ||
+               PyArray_CopyInto((PyArrayObject*)py_native, py_arr) != 0)
+            {
+                Py_XDECREF(py_native);
+                return (-1);
+            }
+            int res = PyConduit_Node_Set_From_Python(node, py_native);
+            Py_DECREF(py_native);
+            return res;
+        }
+
         npy_intp num_ele = PyArray_SIZE(py_arr);
         switch (desc->type_num) 
         {
-- 
2.43.0


From 7fb9e7c201429873da0bb5ba40f903059ad37d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:43 +0000
Subject: [PATCH 074/105] fix: format maps ignore the strides of the map arrays

---
 src/libs/conduit/conduit_utils.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 5d8a6ec..9f10cfe 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -1717,7 +1717,7 @@ format(const std::string &pattern,
             /* ints */
             case conduit::DataType::INT8_ID:
             {
-                int8 val = curr.as_int8_ptr()[map_index];
+                int8 val = curr.as_int8_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1731,7 +1731,7 @@ format(const std::string &pattern,
             }
             case conduit::DataType::INT16_ID:
             {
-                int16 val = curr.as_int16_ptr()[map_index];
+                int16 val = curr.as_int16_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1745,7 +1745,7 @@ format(const std::string &pattern,
             }
             case conduit::DataType::INT32_ID:
             {
-                int32 val = curr.as_int32_ptr()[map_index];
+                int32 val = curr.as_int32_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1759,7 +1759,7 @@ format(const std::string &pattern,
             }
             case conduit::DataType::INT64_ID:
             {
-                int64 val = curr.as_int64_ptr()[map_index];
+                int64 val = curr.as_int64_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1774,7 +1774,7 @@ format(const std::string &pattern,
             /* uints */
             case conduit::DataType::UINT8_ID:
             {
-                uint8 val = curr.as_uint8_ptr()[map_index];
+                uint8 val = curr.as_uint8_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1788,7 +1788,7 @@ format(const std::string &pattern,
             }
             case conduit::DataType::UINT16_ID:
             {
-                uint16 val = curr.as_uint16_ptr()[map_index];
+                uint16 val = curr.as_uint16_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1802,7 +1802,7 @@ format(const std::string &pattern,
             }
             case conduit::DataType::UINT32_ID:
             {
-                uint32 val = curr.as_uint32_ptr()[map_index];
+                uint32 val = curr.as_uint32_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1816,7 +1816,7 @@ format(const std::string &pattern,
             }
             case conduit::DataType::UINT64_ID:
             {
-                uint64 val = curr.as_uint64_ptr()[map_index];
+                uint64 val = curr.as_uint64_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1831,7 +1831,7 @@ format(const std::string &pattern,
             /* floats */
             case conduit::DataType::FLOAT32_ID:
             {
-                float32 val = curr.as_float32_ptr()[map_index];
+                float32 val = curr.as_float32_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1845,7 +1845,7 @@ format(const std::string &pattern,
             }
             case conduit::DataType::FLOAT64_ID:
             {
-                float64 val = curr.as_float64_ptr()[map_index];
+                float64 val = curr.as_float64_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
-- 
2.43.0


From 6cd1dd627e1412e3c7afec7aea139e0109fce175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:35 +0000
Subject: [PATCH 075/105] fix: split_string and rsplit_string keep the rest of
 longer separators

---
 src/libs/conduit/conduit_utils.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 9f10cfe..de7f436 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -461,8 +461,7 @@ split_string(const std::string &str,
     if (found != std::string::npos)
     {
         curr = str.substr(0,found);
-        if(found != str.size()-1)
-            next = str.substr(found+1,str.size()-(found-1));
+        next = str.substr(found+sep.size());
     }
     else
     {
@@ -514,8 +513,7 @@ rsplit_string(const std::string &str,
     if (found != std::string::npos)
     {
         next = str.substr(0,found);
-        if(found != str.size()-1)
-             curr = str.substr(found+1,str.size()-(found-1));
+        curr = str.substr(found+sep.size());
     }
     else
     {
-- 
2.43.0


From fd93d2114c1def6cacdec325bcfa09b6c3afa4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:04 +0000
Subject: [PATCH 076/105] fix: list_directory_contents reports an empty
 directory as an error

---
 src/libs/conduit/conduit_utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index de7f436..f55653c 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -764,6 +764,7 @@ list_directory_contents(const std::string &path,
                         std::vector<std::string> &contents,
                         bool ignore_dot)
 {
+    bool res = false;
     contents.clear();
     if(path.empty())
     {
@@ -787,6 +788,7 @@ list_directory_contents(const std::string &path,
 
         if(slen > 0)
         {
+            res = true;
             char *ptr = buf;
             while(*ptr != 0)
             {
@@ -803,6 +805,7 @@ list_directory_contents(const std::string &path,
         HANDLE dirHandle = FindFirstFile(search_path.c_str(), &fd);
         if(dirHandle != INVALID_HANDLE_VALUE)
         {
+            res = true;
             // Iterate the contents of the directory using FindNextFile
             do
             {
@@ -828,6 +831,7 @@ list_directory_contents(const std::string &path,
     dir = opendir(path.c_str());
     if(dir)
     {
+        res = true;
         // Iterate the contents of the directory using ent
         while((ent = readdir(dir)) != NULL)
         {
@@ -847,7 +851,7 @@ list_directory_contents(const std::string &path,
         closedir(dir);
     }
 #endif
-    return !contents.empty();
+    return res;
 }
 
 //-----------------------------------------------------------------------------
-- 
2.43.0


From 7279cb0bf5f7269a1c01859debc280e9806bf46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:05 +0000
Subject: [PATCH 077/105] fix: kdtree point search misses points across a cut
 plane and on the upper bound of flat boxes

---
 .../conduit_blueprint_mesh_kdtree.hpp         | 87 +++++++++----------
 1 file changed, 43 insertions(+), 44 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_kdtree.hpp b/src/libs/blueprint/conduit_blueprint_mesh_kdtree.hpp
index 530364b..b251898 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_kdtree.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_kdtree.hpp
@@ -153,7 +153,8 @@ private:
 
     int longest(const BoxType &b) const;
     void sortIndexRange(const RangeType &range, int dimension);
-    bool pointInBox(const PointType &pt, const BoxType &b) const;
+    bool pointNearBox(const PointType &pt, const BoxType &b) const;
+    conduit::index_t findPointInBox(const PointType &pt, conduit::index_t bp, const BoxType &b) const;
     bool pointEqual(const PointType &pt, conduit::index_t index) const;
     void printBox(std::ostream &os, const BoxType &b, const std::string &indent) const;
 private:
@@ -368,45 +369,35 @@ kdtree<Indexable, CoordinateType, NDIMS>::findPoint(const kdtree<Indexable, Coor
     std::cout << std::endl;
 #endif
     // Check whether the point is in the global bounding box.
-    if(pointInBox(pt, box))
+    if(pointNearBox(pt, box))
     {
-        // Iterate until we find a box that contains the point.
-        BoxType currentBox;
-        memcpy(currentBox, box, sizeof(BoxType));
-        conduit::index_t bp = 0, prevbp = 0;
-        while(boxes[bp].childOffset != NoChild)
-        {
-            // Cut the box to make 2 child boxes.
-            BoxType A, B;
-            cutBox(currentBox, boxes[bp].splitDimension, A, B);
-
-            // Determine which child box contains the point and set bp to that box.
-            prevbp = bp;
-            if(pointInBox(pt, A))
-            {
+        foundIndex = findPointInBox(pt, 0, box);
 #ifdef CONDUIT_DEBUG_KDTREE
-                std::cout << "    Point in A "; printBox(std::cout, A, "");
-                std::cout << " goes to box " << boxes[bp].childOffset << std::endl;
+        std::cout << "    Point " << ((foundIndex != NotFound) ? "found" : "not found") << std::endl;
 #endif
-                memcpy(currentBox, A, sizeof(BoxType));
-                bp = boxes[bp].childOffset;
-            }
-            else
-            {
-#ifdef CONDUIT_DEBUG_KDTREE
-                std::cout << "    Point in B "; printBox(std::cout, B, "");
-                std::cout << " goes to box " << (boxes[bp].childOffset+1) << std::endl;
-#endif
-                memcpy(currentBox, B, sizeof(BoxType));
-                bp = boxes[bp].childOffset + 1;
-            }
-        }
+
+    }
 #ifdef CONDUIT_DEBUG_KDTREE
-        std::cout << "    Search box: bp=" << prevbp << std::endl;
+    else
+    {
+        std::cout << "Point not in box!" << std::endl;
+    }
 #endif
-        // Check prevbp box for the points of interest.
-        conduit::index_t offset = boxes[prevbp].range.offset;
-        conduit::index_t size = boxes[prevbp].range.size;
+    return foundIndex;
+}
+
+//---------------------------------------------------------------------------
+template <typename Indexable, typename CoordinateType, int NDIMS>
+conduit::index_t
+kdtree<Indexable, CoordinateType, NDIMS>::findPointInBox(const kdtree<Indexable, CoordinateType, NDIMS>::PointType &pt,
+    conduit::index_t bp, const BoxType &b) const
+{
+    conduit::index_t foundIndex = NotFound;
+    if(boxes[bp].childOffset == NoChild)
+    {
+        // Check the box for the points of interest.
+        conduit::index_t offset = boxes[bp].range.offset;
+        conduit::index_t size = boxes[bp].range.size;
         for(conduit::index_t i = 0; i < size && (foundIndex == NotFound); i++)
         {
             // This the index of the point we want to look at.
@@ -418,17 +409,25 @@ kdtree<Indexable, CoordinateType, NDIMS>::findPoint(const kdtree<Indexable, Coor
                 foundIndex = ptIdx;
             }
         }
-#ifdef CONDUIT_DEBUG_KDTREE
-        std::cout << "    Point " << ((found != NotFound) ? "found" : "not found") << std::endl;
-#endif
-
     }
-#ifdef CONDUIT_DEBUG_KDTREE
     else
     {
-        std::cout << "Point not in box!" << std::endl;
+        // Cut the box to make 2 child boxes. A contains the points less than the
+        // cut and B the rest. When the point is within the tolerance of the cut,
+        // its match can be on either side so both boxes must be searched.
+        BoxType A, B;
+        const int dimension = boxes[bp].splitDimension;
+        cutBox(b, dimension, A, B);
+        const CoordinateType cut = A[dimension][1];
+        if(pt[dimension] - pointTolerance < cut)
+        {
+            foundIndex = findPointInBox(pt, boxes[bp].childOffset, A);
+        }
+        if(foundIndex == NotFound && pt[dimension] + pointTolerance >= cut)
+        {
+            foundIndex = findPointInBox(pt, boxes[bp].childOffset + 1, B);
+        }
     }
-#endif
     return foundIndex;
 }
 
@@ -579,12 +578,12 @@ void kdtree<Indexable, CoordinateType, NDIMS>::sortIndexRange(
 
 //---------------------------------------------------------------------------
 template <typename Indexable, typename CoordinateType, int NDIMS>
-bool kdtree<Indexable, CoordinateType, NDIMS>::pointInBox(
+bool kdtree<Indexable, CoordinateType, NDIMS>::pointNearBox(
     const kdtree<Indexable, CoordinateType, NDIMS>::PointType &pt, const BoxType &b) const
 {
     bool retval = true;
     for(int i = 0; i < dims(); i++)
-        retval &= (pt[i] >= b[i][0] && pt[i] < b[i][1]);
+        retval &= (pt[i] + pointTolerance >= b[i][0] && pt[i] - pointTolerance <= b[i][1]);
     return retval;
 }
 
-- 
2.43.0


From 149607fafbdcd943598844bc8bc5dcf137766192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:05 +0000
Subject: [PATCH 078/105] fix: point queries read out of bounds on rectilinear
 and refuse uniform coordsets

---
 src/libs/blueprint/conduit_blueprint_mesh_utils.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index 087dd04..f19cc30 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -3650,7 +3650,15 @@ PointQuery::findPointsInDomain(const conduit::Node &mesh,
     result.resize(numInputPts, NotFound);
 
     // Get the coords that will be used for queries.
-    const conduit::Node &cset = mesh.fetch_existing("coordsets/" + coordsetName);
+    const conduit::Node &input_cset = mesh.fetch_existing("coordsets/" + coordsetName);
+    // The searches need the coordinates of each point.
+    conduit::Node explicit_cset;
+    const bool is_explicit = input_cset.fetch_existing("type").as_string() == "explicit";
+    if(!is_explicit)
+    {
+        conduit::blueprint::mesh::coordset::to_explicit(input_cset, explicit_cset);
+    }
+    const conduit::Node &cset = is_explicit ? input_cset : explicit_cset;
     const conduit::Node *coords[3] = {nullptr, nullptr, nullptr};
     conduit::index_t coordTypes[3];
     std::vector<std::string> axes(coordset::axes(cset));
-- 
2.43.0


From 40644f07d09ba4d6b9c59e0c53dc033a4437e1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:05 +0000
Subject: [PATCH 079/105] fix: spatial_ordering returns no order for 1D
 coordsets

---
 src/libs/blueprint/conduit_blueprint_mesh_utils.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index f19cc30..f5f9f69 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -1784,7 +1784,13 @@ spatial_ordering_impl(std::vector<Indexable> &coords, ElementType /*notused*/, c
 {
     // Sort the coordinates spatially
     std::vector<conduit::index_t> reorder;
-    if(coords.size() == 2)
+    if(coords.size() == 1)
+    {
+        conduit::blueprint::mesh::utils::kdtree<Indexable, ElementType, 1> spatial_sort;
+        spatial_sort.initialize(&coords[0], npts);
+        reorder = std::move(spatial_sort.getIndices());
+    }
+    else if(coords.size() == 2)
     {
         conduit::blueprint::mesh::utils::kdtree<Indexable, ElementType, 2> spatial_sort;
         spatial_sort.initialize(&coords[0], npts);
-- 
2.43.0


From d8247fb4c5b5aa9f6cf20e86bdb7d0bd1a00e17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:05 +0000
Subject: [PATCH 080/105] fix: rewrite_connectivity renumbers the faces of
 polyhedral topologies instead of their points

---
 src/libs/blueprint/conduit_blueprint_mesh_utils.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index f5f9f69..4cdba98 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -2711,7 +2711,12 @@ topology::unstructured::rewrite_connectivity(conduit::Node &btopo,
 
     // Make a new the boundary topology that uses the volume mesh coordset.
     // We remap the connectivity.
-    const auto &n_bconnSrc = btopo["elements/connectivity"];
+    std::string conn_path = "elements/connectivity";
+    if(btopo.fetch_existing("elements/shape").as_string() == "polyhedral")
+    {
+        conn_path = "subelements/connectivity";
+    }
+    const auto &n_bconnSrc = btopo[conn_path];
     const auto bconnSrc = n_bconnSrc.as_index_t_accessor();
     conduit::index_t nbconn = bconnSrc.number_of_elements();
     conduit::Node newconn;
@@ -2751,7 +2756,7 @@ topology::unstructured::rewrite_connectivity(conduit::Node &btopo,
         CONDUIT_ERROR(newconn.dtype().name() << " is not supported for connectivity.");
     }
     btopo["coordset"] = coordset.name();
-    btopo["elements/connectivity"].move(newconn);
+    btopo[conn_path].move(newconn);
 }
 
 //-----------------------------------------------------------------------------
-- 
2.43.0


From acd8071a6a834441a554098729aedcd8e54bdae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:53 +0000
Subject: [PATCH 081/105] fix: in place reorder of some of the elements leaves
 the rest of the old connectivity

---
 src/libs/blueprint/conduit_blueprint_mesh_utils.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index 4cdba98..e340f1a 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -2829,13 +2829,18 @@ topology::unstructured::reorder(const conduit::Node &topo,
         dest_topo["type"] = topo["type"];
         dest_topo["coordset"] = dest_coordset.name();
         dest_topo["elements/shape"] = topo["elements/shape"];
-        conduit::Node tmp;
+        // Convert to new nodes and move them since the destination can be the
+        // input topology and hold more elements than were selected.
+        conduit::Node tmp, converted[3];
         tmp.set_external(newconn.data(), newconn.size());
-        tmp.to_data_type(n_conn.dtype().id(), dest_topo["elements/connectivity"]);
+        tmp.to_data_type(n_conn.dtype().id(), converted[0]);
         tmp.set_external(newsizes.data(), newsizes.size());
-        tmp.to_data_type(n_sizes.dtype().id(), dest_topo["elements/sizes"]);
+        tmp.to_data_type(n_sizes.dtype().id(), converted[1]);
         tmp.set_external(newoffsets.data(), newoffsets.size());
-        tmp.to_data_type(n_offsets.dtype().id(), dest_topo["elements/offsets"]);
+        tmp.to_data_type(n_offsets.dtype().id(), converted[2]);
+        dest_topo["elements/connectivity"].move(converted[0]);
+        dest_topo["elements/sizes"].move(converted[1]);
+        dest_topo["elements/offsets"].move(converted[2]);
 
         // Reorder the coordset now, making it explicit if needed.
         dest_coordset["type"] = "explicit";
-- 
2.43.0


From 73220c9627b01c9ccba61877fc6967571d698303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:26 +0000
Subject: [PATCH 082/105] fix: canonicalize refuses adjsets where a group bears
 the canonical name of another

---
 .../blueprint/conduit_blueprint_mesh_utils.cpp    | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index e340f1a..3bb534c 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -2892,6 +2892,10 @@ adjset::canonicalize(Node &adjset)
 {
     const index_t domain_id = find_domain_id(adjset);
 
+    // The new names, held back until all groups that change have given up their
+    // old name since that can be the new name of another group.
+    std::vector<std::pair<std::string, std::string>> renames;
+
     const std::vector<std::string> &adjset_group_names = adjset["groups"].child_names();
     for(const std::string &old_group_name : adjset_group_names)
     {
@@ -2926,8 +2930,17 @@ adjset::canonicalize(Node &adjset)
         }
 
         if(old_group_name != new_group_name)
-            adjset["groups"].rename_child(old_group_name, new_group_name);
+            renames.emplace_back(old_group_name, new_group_name);
+    }
+
+    for(auto &names : renames)
+    {
+        const std::string temp_name("__" + names.first + "__");
+        adjset["groups"].rename_child(names.first, temp_name);
+        names.first = temp_name;
     }
+    for(const auto &names : renames)
+        adjset["groups"].rename_child(names.first, names.second);
 }
 
 //---------------------------------------------------------------------------
-- 
2.43.0


From c18e71e2fc968253c4eeb508e20bc1657ea65359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:27 +0000
Subject: [PATCH 083/105] fix: to_pairwise_canonical fails when groups of a
 pairwise adjset share a neighbor

---
 src/libs/blueprint/conduit_blueprint_mesh_utils.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index 3bb534c..a78a591 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -3285,7 +3285,18 @@ void adjset::to_pairwise_canonical(conduit::Node &doms,
             const std::string dest_key("adjsets/" + newAdjsetName);              
             const conduit::Node &src_adj = domain[src_key];
             conduit::Node &dest_adj = domain[dest_key];
-            if(conduit::blueprint::mesh::adjset::is_pairwise(src_adj))
+            // Groups can share a neighbor. These need to be combined since there
+            // is a single canonical group name for each pair of domains.
+            std::set<index_t> neighbors;
+            bool unique_neighbors = true;
+            const conduit::Node &n_groups = src_adj["groups"];
+            for(conduit::index_t i = 0; i < n_groups.number_of_children(); i++)
+            {
+                const auto group_neighbors = n_groups[i]["neighbors"].as_index_t_accessor();
+                for(conduit::index_t ni = 0; ni < group_neighbors.number_of_elements(); ni++)
+                    unique_neighbors &= neighbors.insert(group_neighbors[ni]).second;
+            }
+            if(unique_neighbors && conduit::blueprint::mesh::adjset::is_pairwise(src_adj))
             {
                 if(adjset::is_canonical(src_adj))
                 {
-- 
2.43.0


From 3ad67d32979b98aa4a786267dedf075fe0481836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:16 +0000
Subject: [PATCH 084/105] fix: adjset validation reads out of bounds for 2D
 reports and invalid vertices and refuses implicit coordsets

---
 .../conduit_blueprint_mesh_utils.cpp          | 38 +++++++++++++++++--
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index a78a591..4037673 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -3063,6 +3063,7 @@ adjset::validate(const conduit::Node &doms,
         // Iterate over the domains so we can add their adjset points to the
         // point query.
         std::vector<std::tuple<index_t, index_t, index_t, index_t, size_t, std::string, std::vector<double>>> query_guide;
+        std::vector<std::tuple<index_t, index_t, size_t, std::string>> invalid_points;
         std::map<std::pair<index_t,index_t>, bool> bidirectional;
         for(size_t domIdx = 0; domIdx < domains.size(); domIdx++)
         {
@@ -3070,7 +3071,14 @@ adjset::validate(const conduit::Node &doms,
             auto domainId = conduit::blueprint::mesh::utils::find_domain_id(*dom);
 
             // Get the domain's coordset.
-            const conduit::Node &coordset = dom->fetch_existing("coordsets/"+coordsetName);
+            const conduit::Node &input_coordset = dom->fetch_existing("coordsets/"+coordsetName);
+            // The points of implicit coordsets need to be made explicit.
+            conduit::Node explicit_coordset;
+            const bool is_explicit = input_coordset.fetch_existing("type").as_string() == "explicit";
+            if(!is_explicit)
+                conduit::blueprint::mesh::coordset::to_explicit(input_coordset, explicit_coordset);
+            const conduit::Node &coordset = is_explicit ? input_coordset : explicit_coordset;
+            const index_t coordset_len = coordset::length(input_coordset);
 
             // Get the domain's adjset and groups.
             const conduit::Node &adjset = dom->fetch_existing(adjsetPath);
@@ -3100,6 +3108,11 @@ adjset::validate(const conduit::Node &doms,
                     {
                         // Look up the point in the local coordset to get the coordinate.
                         auto ptid = src_values[pi];
+                        if(ptid < 0 || ptid >= coordset_len)
+                        {
+                            invalid_points.emplace_back(domainId, ptid, domIdx, groupName);
+                            continue;
+                        }
                         auto pt = conduit::blueprint::mesh::utils::coordset::_explicit::coords(coordset, ptid);
                         double pt3[3];
                         pt3[0] = pt[0];
@@ -3133,6 +3146,23 @@ adjset::validate(const conduit::Node &doms,
             }
         }
 
+        // Flag any vertices that do not exist in their own domain.
+        for(const auto &obj : invalid_points)
+        {
+            retval = false;
+            const std::string &groupName = std::get<3>(obj);
+            std::string domainName(domains[std::get<2>(obj)]->name());
+            conduit::Node &vn = info[domainName][adjsetName][groupName].append();
+
+            std::stringstream ss;
+            ss << "Domain " << std::get<0>(obj) << " adjset " << adjsetName
+               << " group " << groupName
+               << ": vertex " << std::get<1>(obj) << " does not exist.";
+
+            vn["message"].set(ss.str());
+            vn["vertex"] = std::get<1>(obj);
+        }
+
         // Execute the query.
         PQ.execute(coordsetName);
 
@@ -3158,8 +3188,10 @@ adjset::validate(const conduit::Node &doms,
                 ss << "Domain " << domain_id << " adjset " << adjsetName
                    << " group " << groupName
                    << ": vertex " << ptid
-                   << " (" << coord[0] << ", " << coord[1]
-                   << ", " << coord[2] << ") at index " << ptid
+                   << " (";
+                for(size_t ci = 0; ci < coord.size(); ci++)
+                    ss << ((ci > 0) ? ", " : "") << coord[ci];
+                ss << ") at index " << ptid
                    << " could not be located in neighbor domain "
                    << nbr << ".";
 
-- 
2.43.0


From c7d43b0a9d95fc6a97ad781dd4511a216a10da26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:16 +0000
Subject: [PATCH 085/105] fix: topology search fails on entities without
 points, which adjset validation makes of invalid elements

---
 src/libs/blueprint/conduit_blueprint_mesh_utils.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index 4037673..828e161 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -2272,7 +2272,10 @@ topology::search(const conduit::Node &topo1, const conduit::Node &topo2)
 
     // Get the query results for each mesh2 point. This is a vector of point
     // ids from mesh 1 or NotFound.
-    const auto &r = P.results(domain_id);
+    // There are no results when mesh 2 has no points.
+    std::vector<int> r;
+    if(npts > 0)
+        r = P.results(domain_id);
 
     // Iterate over the entities in mesh2 and map their points to mesh 1 points
     // if possible before computing hashids for them. If a mesh2 entity's points
@@ -2282,7 +2285,8 @@ topology::search(const conduit::Node &topo1, const conduit::Node &topo2)
     {
         // Try and map all of the topo2 entity's points to topo1's coordset.
         // If we can do that then the entity may exist.
-        bool badEntity = false;
+        // An entity without points does not exist.
+        bool badEntity = topo2Ids.empty();
         std::vector<index_t> ids;
         ids.reserve(topo2Ids.size());
         for(const index_t &pt : topo2Ids)
-- 
2.43.0


From 213fd02c8688caa9df68611a40da87d6ef4fed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:06 +0000
Subject: [PATCH 086/105] fix: compare_pointwise and adjset to_topo only see
 domains with ids 0 to n-1, in that order

---
 .../conduit_blueprint_mesh_utils.cpp          | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index 828e161..477e359 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -3386,16 +3386,25 @@ foreach_adjset_mesh_pair_impl(conduit::Node &mesh, const std::string &adjsetName
 {
     namespace bputils = conduit::blueprint::mesh::utils;
 
-    // Determine total number of domains.
+    // Get the domains and sort them by domain id.
     std::vector<Node *> domains = conduit::blueprint::mesh::domains(mesh);
-    int maxDomains = domains.size();
+    std::vector<std::pair<int, const Node *>> ids_domains;
+    for(size_t i = 0; i < domains.size(); i++)
+    {
+        const index_t domain_id = find_domain_id(*domains[i]);
+        ids_domains.emplace_back(static_cast<int>((domain_id >= 0) ? domain_id : i), domains[i]);
+    }
+    std::sort(ids_domains.begin(), ids_domains.end());
 
     // Iterate over each of the possible adjset relationships. Not all of these
     // will have adjset groups.
-    for(int d0 = 0; d0 < maxDomains; d0++)
+    for(size_t i0 = 0; i0 < ids_domains.size(); i0++)
     {
-        for(int d1 = d0 + 1; d1 < maxDomains; d1++)
+        for(size_t i1 = i0 + 1; i1 < ids_domains.size(); i1++)
         {
+            const int d0 = ids_domains[i0].first;
+            const int d1 = ids_domains[i1].first;
+
             // make the adjset group name.
             std::stringstream ss;
             ss << conduit::blueprint::mesh::adjset::group_prefix() << "_" << d0 << "_" << d1;
@@ -3403,10 +3412,9 @@ foreach_adjset_mesh_pair_impl(conduit::Node &mesh, const std::string &adjsetName
 
             // There are up to 2 meshes for the shared boundary.
             conduit::Node mesh[2];
-            int mi = 0;
-            for(size_t dom = 0; dom < domains.size(); dom++)
+            for(int mi = 0; mi < 2; mi++)
             {
-                const Node &domain = *domains[dom];
+                const Node &domain = *ids_domains[(mi == 0) ? i0 : i1].second;
 
                 // If the domain has the adjset, make a point mesh of its points
                 // that we can send to the neighbor.
@@ -3467,8 +3475,6 @@ foreach_adjset_mesh_pair_impl(conduit::Node &mesh, const std::string &adjsetName
 
                     // Make the local point mesh.
                     B.execute(mesh[mi], shapeType);
-
-                    mi++;
                 }
             }
 
-- 
2.43.0


From aa849c6d696d61ef3ddc83295ec7e12d615de44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:14 +0000
Subject: [PATCH 087/105] fix: adjset to_topo and compare_pointwise give
 polygons an unknown shape

---
 src/libs/blueprint/conduit_blueprint_mesh_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index 477e359..d28837f 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -3470,7 +3470,7 @@ foreach_adjset_mesh_pair_impl(conduit::Node &mesh, const std::string &adjsetName
                                 shapeType = "quad";
                         }
                         if(shapeType.empty())
-                            shapeType = "polygon";
+                            shapeType = "polygonal";
                     }
 
                     // Make the local point mesh.
-- 
2.43.0


From 3dd2fb1479d7907a64e4bb5ebb30cd185218ddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:05 +0000
Subject: [PATCH 088/105] fix: raise an error when a file cannot be written
 completely (node, schema, csv)

---
 src/libs/conduit/conduit_node.cpp       | 75 +++++++++++++++++++++++++
 src/libs/conduit/conduit_schema.cpp     | 20 +++++++
 src/libs/relay/conduit_relay_io_csv.cpp |  6 ++
 3 files changed, 101 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index cf03de8..c11fa3d 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -8610,6 +8610,11 @@ Node::serialize(const std::string &stream_path) const
     }
     serialize(ofs);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::serialize> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 
@@ -12899,6 +12904,11 @@ Node::to_string_stream(const std::string &stream_path,
     }
     to_string_stream(ofs,protocol,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_string_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 
@@ -12975,6 +12985,11 @@ Node::to_string_stream(const std::string &stream_path,
     }
     to_string_stream(ofs,opts);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_string_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -13087,6 +13102,11 @@ Node::to_summary_string_stream(const std::string &stream_path,
     }
     to_summary_string_stream(ofs,opts);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_summary_string_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -13365,6 +13385,11 @@ Node::to_json_stream(const std::string &stream_path,
                    pad,
                    eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_json_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -13475,6 +13500,11 @@ Node::to_json_stream(const std::string &stream_path,
     }
     to_json_stream(ofs,opts);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_json_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -13525,6 +13555,11 @@ Node::to_yaml_stream(const std::string &stream_path,
                    pad,
                    eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_yaml_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -13622,6 +13657,11 @@ Node::to_yaml_stream(const std::string &stream_path,
     }
     to_yaml_stream(ofs,opts);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_yaml_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -13669,6 +13709,11 @@ Node::to_json_generic(const std::string &stream_path,
     }
     to_json_generic(ofs,detailed,address,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_json> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 
@@ -13856,6 +13901,11 @@ Node::to_pure_json(const std::string &stream_path,
     }
     to_json_generic(ofs,false,false,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_pure_json> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //---------------------------------------------------------------------------//
@@ -13896,6 +13946,11 @@ Node::to_detailed_json(const std::string &stream_path,
     }
     to_json_generic(ofs,true,false,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_detailed_json> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 
@@ -13938,6 +13993,11 @@ Node::to_detailed_json_external(const std::string &stream_path,
     }
     to_json_generic(ofs,true,true,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_detailed_json> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 
@@ -13983,6 +14043,11 @@ Node::to_base64_json(const std::string &stream_path,
     }
     to_base64_json(ofs,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_base64_json> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 
@@ -14084,6 +14149,11 @@ Node::to_yaml_generic(const std::string &stream_path,
     }
     to_yaml_generic(ofs,detailed,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_yaml_generic> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 
@@ -14217,6 +14287,11 @@ Node::to_pure_yaml(const std::string &stream_path,
     }
     to_yaml_generic(ofs,false,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_pure_yaml> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //---------------------------------------------------------------------------//
diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index a349d88..f81e2e5 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -506,6 +506,11 @@ Schema::to_string_stream(const std::string &stream_path,
     }
     to_string_stream(ofs,protocol,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Schema::to_string_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //---------------------------------------------------------------------------//
@@ -598,6 +603,11 @@ Schema::to_json_stream(const std::string &stream_path,
     }
     to_json_stream(ofs,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Schema::to_json_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //---------------------------------------------------------------------------//
@@ -694,6 +704,11 @@ Schema::to_yaml_stream(const std::string &stream_path,
     }
     to_yaml_stream(ofs,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Schema::to_yaml_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //---------------------------------------------------------------------------//
@@ -731,6 +746,11 @@ Schema::save(const std::string &ofname,
     }
     ofile << oss.str();
     ofile.close();
+    if(ofile.fail())
+    {
+        CONDUIT_ERROR("<Schema::save> failed to write file: "
+                      << "\"" << ofname << "\"");
+    }
 }
 
 
diff --git a/src/libs/relay/conduit_relay_io_csv.cpp b/src/libs/relay/conduit_relay_io_csv.cpp
index b00c22a..79b3586 100644
--- a/src/libs/relay/conduit_relay_io_csv.cpp
+++ b/src/libs/relay/conduit_relay_io_csv.cpp
@@ -173,6 +173,12 @@ write_row_based(const Node &table, const std::string &path)
         }
         fout << "\n";
     }
+
+    fout.close();
+    if(fout.fail())
+    {
+        CONDUIT_ERROR("Failed to write file " << quote(path) << ".");
+    }
 }
 
 //-----------------------------------------------------------------------------
-- 
2.43.0


From ece5510b65762c4311d0f4f7ddc1aa9d71720432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:51 +0000
Subject: [PATCH 089/105] fix: mapping a file shorter than its schema raises an
 error instead of crashing on access

---
 src/libs/conduit/conduit_node.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index c11fa3d..d279197 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -29,6 +29,7 @@
 #include <algorithm>
 #include <iostream>
 #include <map>
+#include <memory>
 
 //-----------------------------------------------------------------------------
 // -- standard c lib includes --
@@ -17450,6 +17451,18 @@ Node::MMap::open(const std::string &path,
     }
     }
 
+    // a mapping that extends past the end of the file can't be accessed
+    struct stat file_stat;
+    if (::fstat(m_mmap_fd, &file_stat) == -1 ||
+        static_cast<index_t>(file_stat.st_size) < data_size)
+    {
+        ::close(m_mmap_fd);
+        m_mmap_fd = -1;
+        CONDUIT_ERROR("<Node::mmap> file: \"" << path << "\""
+                      << " does not provide the expected "
+                      << data_size << " bytes");
+    }
+
     m_data = ::mmap(0,
                     m_data_size,
                     (PROT_READ | PROT_WRITE),
@@ -17457,7 +17470,12 @@ Node::MMap::open(const std::string &path,
                     m_mmap_fd, 0);
 
     if (m_data == MAP_FAILED)
+    {
+        m_data = NULL;
+        ::close(m_mmap_fd);
+        m_mmap_fd = -1;
         CONDUIT_ERROR("<Node::mmap> mmap data = MAP_FAILED" << path);
+    }
 #else
     m_file_hnd = CreateFile(path.c_str(),
                             (GENERIC_READ | GENERIC_WRITE),
@@ -17592,8 +17610,9 @@ Node::allocate(index_t dsize)
 void
 Node::mmap(const std::string &stream_path, index_t data_size)
 {
-    m_mmap = new MMap();
-    m_mmap->open(stream_path,data_size);
+    std::unique_ptr<MMap> new_mmap(new MMap());
+    new_mmap->open(stream_path,data_size);
+    m_mmap = new_mmap.release();
     m_data = m_mmap->data_ptr();
     m_data_size = data_size;
     m_alloced = false;
-- 
2.43.0


From 45375cd362bfbe60dc017049a01cf73f8b622ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:30 +0000
Subject: [PATCH 090/105] fix: release HDF5 property lists when a file cannot
 be opened

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 8da5706..da057dd 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -3373,10 +3373,6 @@ hdf5_create_file(const std::string &file_path)
                                  h5_fc_plist,
                                  h5_fa_plist);
 
-    CONDUIT_CHECK_HDF5_ERROR(h5_file_id,
-                             "Error opening HDF5 file for writing: "
-                             << file_path);
-
     CONDUIT_CHECK_HDF5_ERROR(H5Pclose(h5_fc_plist),
                              "Failed to close HDF5 H5P_GROUP_CREATE "
                              << "property list: " << h5_fc_plist);
@@ -3385,6 +3381,10 @@ hdf5_create_file(const std::string &file_path)
                              "Failed to close HDF5 H5P_FILE_ACCESS "
                              << "property list: " << h5_fa_plist);
 
+    CONDUIT_CHECK_HDF5_ERROR(h5_file_id,
+                             "Error opening HDF5 file for writing: "
+                             << file_path);
+
     return h5_file_id;
 
     // enable hdf5 error stack
@@ -3753,14 +3753,14 @@ hdf5_open_file_for_read(const std::string &file_path)
                                H5F_ACC_RDONLY,
                                h5_fa_plist);
 
-    CONDUIT_CHECK_HDF5_ERROR(h5_file_id,
-                             "Error opening HDF5 file for read only access: "
-                              << file_path);
-
     CONDUIT_CHECK_HDF5_ERROR(H5Pclose(h5_fa_plist),
                              "Failed to close HDF5 H5P_FILE_ACCESS "
                              << "property list: " << h5_fa_plist);
 
+    CONDUIT_CHECK_HDF5_ERROR(h5_file_id,
+                             "Error opening HDF5 file for read only access: "
+                              << file_path);
+
     return h5_file_id;
 
     // restore hdf5 error stack
@@ -3780,14 +3780,14 @@ hdf5_open_file_for_read_write(const std::string &file_path)
                                H5F_ACC_RDWR,
                                h5_fa_plist);
 
-    CONDUIT_CHECK_HDF5_ERROR(h5_file_id,
-                             "Error opening HDF5 file for read + write access: "
-                              << file_path);
-
     CONDUIT_CHECK_HDF5_ERROR(H5Pclose(h5_fa_plist),
                              "Failed to close HDF5 H5P_FILE_ACCESS "
                              << "property list: " << h5_fa_plist);
 
+    CONDUIT_CHECK_HDF5_ERROR(h5_file_id,
+                             "Error opening HDF5 file for read + write access: "
+                              << file_path);
+
     return h5_file_id;
 
     // restore hdf5 error stack
-- 
2.43.0


From ff617dc9fd5d10000cbee9b39053f733d35ebf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:30 +0000
Subject: [PATCH 091/105] fix: loading a directory as a node or schema raises
 conduit::Error

---
 src/libs/conduit/conduit_node.cpp   | 2 +-
 src/libs/conduit/conduit_schema.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index d279197..ea99101 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -369,7 +369,7 @@ Node::load(const std::string &ibase,
     {
         std::ifstream ifile;
         ifile.open(ibase.c_str());
-        if(!ifile.is_open())
+        if(!ifile.is_open() || utils::is_directory(ibase))
         {
             CONDUIT_ERROR("<Node::load> (using protocol = "
                           << proto << ") "
diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index f81e2e5..3e99a6b 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -760,7 +760,7 @@ Schema::load(const std::string &ifname)
 {
     std::ifstream ifile;
     ifile.open(ifname.c_str());
-    if(!ifile.is_open())
+    if(!ifile.is_open() || utils::is_directory(ifname))
     {
         CONDUIT_ERROR("<Schema::load> failed to open file: "
                       << "\"" << ifname << "\"");
-- 
2.43.0


From 64e7e30e21b39d1e354216da92897c3dea26fd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:23 +0000
Subject: [PATCH 092/105] fix: mesh files and handles report a failed commit to
 file instead of terminating in a destructor

---
 src/libs/relay/conduit_relay_io_blueprint.cpp |  8 +++---
 src/libs/relay/conduit_relay_io_handle.cpp    | 26 ++++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_blueprint.cpp b/src/libs/relay/conduit_relay_io_blueprint.cpp
index 1388310..41a5274 100644
--- a/src/libs/relay/conduit_relay_io_blueprint.cpp
+++ b/src/libs/relay/conduit_relay_io_blueprint.cpp
@@ -1274,9 +1274,9 @@ void write_mesh(const Node &mesh,
                     hnd.write(dom,mesh_path);
                 }
                 
-                // NOTE: local file handle goes out of scope here
-                // and data is committed to file for handles that write
+                // data is committed to file here for handles that write
                 // on close
+                hnd.close();
             }
 
         // Reduce to sync up (like a barrier) and solve first writer need
@@ -1316,6 +1316,7 @@ void write_mesh(const Node &mesh,
             hnd.open(output_file, open_opts);
             // write to  mesh name subpath
             hnd.write(dom, opts_mesh_name);
+            hnd.close();
         }
     }
     else // more complex case, N domains to M files
@@ -1504,7 +1505,8 @@ void write_mesh(const Node &mesh,
                                 //              << output_file << " path " << path);
 
                                 hnd.write(dom, curr_path);
-                                
+                                hnd.close();
+
                                 // update status, we are done with this doman
                                 local_domain_status[d] = 0;
                             }
diff --git a/src/libs/relay/conduit_relay_io_handle.cpp b/src/libs/relay/conduit_relay_io_handle.cpp
index f239c4e..1e5f396 100644
--- a/src/libs/relay/conduit_relay_io_handle.cpp
+++ b/src/libs/relay/conduit_relay_io_handle.cpp
@@ -26,6 +26,7 @@
 
 //-----------------------------------------------------------------------------
 // standard lib includes
+#include <memory>
 //-----------------------------------------------------------------------------
 
 //-----------------------------------------------------------------------------
@@ -580,13 +581,14 @@ BasicHandle::close()
 {
     if(m_open && !open_mode_read_only() )
     {
+        // the handle is closed, even if the save fails
+        m_open = false;
         // here is where it actually gets realized on disk
         io::save(m_node,
                  path(),
                  protocol(),
                  options());
         m_node.reset();
-        m_open = false;
     }
 }
 
@@ -831,11 +833,12 @@ HDF5Handle::has_path(const std::string &path)
 void
 HDF5Handle::close()
 {
-    if(m_h5_id >= 0)
+    hid_t h5_id = m_h5_id;
+    m_h5_id = -1;
+    if(h5_id >= 0)
     {
-        hdf5_close_file(m_h5_id);
+        hdf5_close_file(h5_id);
     }
-    m_h5_id = -1;
 }
 
 //-----------------------------------------------------------------------------
@@ -859,7 +862,15 @@ IOHandle::IOHandle()
 //-----------------------------------------------------------------------------
 IOHandle::~IOHandle()
 {
-    close();
+    try
+    {
+        close();
+    }
+    catch(conduit::Error &)
+    {
+        // a destructor can't report errors,
+        // call close() explicitly to detect a failed commit to file
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -1150,9 +1161,10 @@ IOHandle::close()
 {
     if(m_handle != NULL)
     {
-        m_handle->close();
-        delete m_handle;
+        // the interface is released, even if its close fails
+        std::unique_ptr<HandleInterface> handle(m_handle);
         m_handle = NULL;
+        handle->close();
     }
     // else, ignore ...
 }
-- 
2.43.0


From a23326641327250eca6ac92e5684a763d447eeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:22 +0000
Subject: [PATCH 093/105] fix: deriving adjacency sets accepts an interface
 where only one domain has candidate entities

---
 src/libs/blueprint/conduit_blueprint_mesh_utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index d28837f..dc9faa8 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -4138,8 +4138,9 @@ MatchQuery::execute()
         auto oppit = m_query.find(oppositeKey);
         if(oppit == m_query.end())
         {
-            CONDUIT_ERROR("MatchQuery is missing the topology for "
-                << dom << ":" << query_domain);
+            // The opposite domain has no candidates, so nothing matches.
+            it->second.results.clear();
+            continue;
         }
 
         // Get both of the topologies.
-- 
2.43.0


From 3ca3e2d6256d792321d59684820aded5a9c9c6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:22 +0000
Subject: [PATCH 094/105] fix: adjacency sets of sides, corners and centroids
 only name points the neighbor has

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 86dd297..b3224c7 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -3576,7 +3576,7 @@ mesh::generate_centroids(conduit::Node& mesh,
     const std::vector<index_t> centroid_dims = calculate_decomposed_dims(
         mesh, src_adjset_name, calculate_centroid_dims);
 
-    conduit::blueprint::mesh::utils::query::PointQueryBase query(mesh);
+    conduit::blueprint::mesh::utils::query::PointQuery query(mesh);
 
     generate_decomposed_entities(
         mesh, src_adjset_name, dst_adjset_name, dst_topo_name, dst_cset_name, s2dmap, d2smap,
@@ -3628,7 +3628,7 @@ mesh::generate_sides(conduit::Node& mesh,
     const std::vector<index_t> side_dims = calculate_decomposed_dims(
         mesh, src_adjset_name, calculate_side_dims);
 
-    conduit::blueprint::mesh::utils::query::PointQueryBase query(mesh);
+    conduit::blueprint::mesh::utils::query::PointQuery query(mesh);
 
     generate_decomposed_entities(
         mesh, src_adjset_name, dst_adjset_name, dst_topo_name, dst_cset_name, s2dmap, d2smap,
@@ -3693,9 +3693,8 @@ mesh::generate_corners(conduit::Node& mesh,
                        conduit::Node& s2dmap,
                        conduit::Node& d2smap)
 {
-    // Q: Should we use PointQuery instead so it actually checks for non-existent points?
-    //    The PointQueryBase will preserve prior behavior.
-    conduit::blueprint::mesh::utils::query::PointQueryBase query(mesh);
+    // PointQuery checks that the points exist in the neighbor domains.
+    conduit::blueprint::mesh::utils::query::PointQuery query(mesh);
     generate_corners(mesh, src_adjset_name, dst_adjset_name, dst_topo_name, dst_cset_name,
                      s2dmap, d2smap, query);
 }
-- 
2.43.0


From 53cb35aa3f8860111b9811431e76a53abae8004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:04 +0000
Subject: [PATCH 095/105] fix: adjacency sets of sides and centroids check the
 neighbor's points over MPI; one-sided match queries do not hang

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 42 ++++++++++++++++---
 src/libs/blueprint/conduit_blueprint_mesh.hpp | 20 +++++++++
 .../blueprint/conduit_blueprint_mpi_mesh.cpp  | 18 ++++++--
 .../conduit_blueprint_mpi_mesh_utils.cpp      | 22 +++++++++-
 4 files changed, 90 insertions(+), 12 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index b3224c7..b4e4d07 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -3558,7 +3558,8 @@ mesh::generate_centroids(conduit::Node& mesh,
                          const std::string& dst_topo_name,
                          const std::string& dst_cset_name,
                          conduit::Node& s2dmap,
-                         conduit::Node& d2smap)
+                         conduit::Node& d2smap,
+                         conduit::blueprint::mesh::utils::query::PointQueryBase &query)
 {
     const static auto identify_centroid = []
         (const bputils::TopologyMetadata &/*topo_data*/, const index_t ei, const index_t /*di*/)
@@ -3576,14 +3577,28 @@ mesh::generate_centroids(conduit::Node& mesh,
     const std::vector<index_t> centroid_dims = calculate_decomposed_dims(
         mesh, src_adjset_name, calculate_centroid_dims);
 
-    conduit::blueprint::mesh::utils::query::PointQuery query(mesh);
-
     generate_decomposed_entities(
         mesh, src_adjset_name, dst_adjset_name, dst_topo_name, dst_cset_name, s2dmap, d2smap,
         conduit::blueprint::mesh::topology::unstructured::generate_centroids, identify_centroid, centroid_dims,
         query);
 }
 
+//-----------------------------------------------------------------------------
+void
+mesh::generate_centroids(conduit::Node& mesh,
+                         const std::string& src_adjset_name,
+                         const std::string& dst_adjset_name,
+                         const std::string& dst_topo_name,
+                         const std::string& dst_cset_name,
+                         conduit::Node& s2dmap,
+                         conduit::Node& d2smap)
+{
+    // PointQuery checks that the points exist in the neighbor domains.
+    conduit::blueprint::mesh::utils::query::PointQuery query(mesh);
+    generate_centroids(mesh, src_adjset_name, dst_adjset_name, dst_topo_name, dst_cset_name,
+                       s2dmap, d2smap, query);
+}
+
 
 //-----------------------------------------------------------------------------
 void
@@ -3593,7 +3608,8 @@ mesh::generate_sides(conduit::Node& mesh,
                      const std::string& dst_topo_name,
                      const std::string& dst_cset_name,
                      conduit::Node& s2dmap,
-                     conduit::Node& d2smap)
+                     conduit::Node& d2smap,
+                     conduit::blueprint::mesh::utils::query::PointQueryBase &query)
 {
     const static auto identify_side = []
         (const bputils::TopologyMetadata &topo_data, const index_t ei, const index_t di)
@@ -3628,14 +3644,28 @@ mesh::generate_sides(conduit::Node& mesh,
     const std::vector<index_t> side_dims = calculate_decomposed_dims(
         mesh, src_adjset_name, calculate_side_dims);
 
-    conduit::blueprint::mesh::utils::query::PointQuery query(mesh);
-
     generate_decomposed_entities(
         mesh, src_adjset_name, dst_adjset_name, dst_topo_name, dst_cset_name, s2dmap, d2smap,
         conduit::blueprint::mesh::topology::unstructured::generate_sides, identify_side, side_dims,
         query);
 }
 
+//-----------------------------------------------------------------------------
+void
+mesh::generate_sides(conduit::Node& mesh,
+                     const std::string& src_adjset_name,
+                     const std::string& dst_adjset_name,
+                     const std::string& dst_topo_name,
+                     const std::string& dst_cset_name,
+                     conduit::Node& s2dmap,
+                     conduit::Node& d2smap)
+{
+    // PointQuery checks that the points exist in the neighbor domains.
+    conduit::blueprint::mesh::utils::query::PointQuery query(mesh);
+    generate_sides(mesh, src_adjset_name, dst_adjset_name, dst_topo_name, dst_cset_name,
+                   s2dmap, d2smap, query);
+}
+
 //-----------------------------------------------------------------------------
 void
 mesh::generate_corners(conduit::Node& mesh,
diff --git a/src/libs/blueprint/conduit_blueprint_mesh.hpp b/src/libs/blueprint/conduit_blueprint_mesh.hpp
index daa81d1..1b1ac17 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.hpp
@@ -295,6 +295,16 @@ void CONDUIT_BLUEPRINT_API generate_faces(conduit::Node &mesh,
                                           conduit::Node& s2dmap,
                                           conduit::Node& d2smap);
 
+//-------------------------------------------------------------------------
+void CONDUIT_BLUEPRINT_API generate_centroids(conduit::Node& mesh,
+                                              const std::string& src_adjset_name,
+                                              const std::string& dst_adjset_name,
+                                              const std::string& dst_topo_name,
+                                              const std::string& dst_cset_name,
+                                              conduit::Node& s2dmap,
+                                              conduit::Node& d2smap,
+                                              conduit::blueprint::mesh::utils::query::PointQueryBase &query);
+
 //-------------------------------------------------------------------------
 void CONDUIT_BLUEPRINT_API generate_centroids(conduit::Node& mesh,
                                               const std::string& src_adjset_name,
@@ -304,6 +314,16 @@ void CONDUIT_BLUEPRINT_API generate_centroids(conduit::Node& mesh,
                                               conduit::Node& s2dmap,
                                               conduit::Node& d2smap);
 
+//-------------------------------------------------------------------------
+void CONDUIT_BLUEPRINT_API generate_sides(conduit::Node& mesh,
+                                          const std::string& src_adjset_name,
+                                          const std::string& dst_adjset_name,
+                                          const std::string& dst_topo_name,
+                                          const std::string& dst_cset_name,
+                                          conduit::Node& s2dmap,
+                                          conduit::Node& d2smap,
+                                          conduit::blueprint::mesh::utils::query::PointQueryBase &query);
+
 //-------------------------------------------------------------------------
 void CONDUIT_BLUEPRINT_API generate_sides(conduit::Node& mesh,
                                           const std::string& src_adjset_name,
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
index 25a82d2..26eb7e6 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
@@ -2634,15 +2634,20 @@ generate_centroids(conduit::Node& mesh,
                    const std::string& dst_cset_name,
                    conduit::Node& s2dmap,
                    conduit::Node& d2smap,
-                   MPI_Comm /*comm*/)
+                   MPI_Comm comm)
 {
+    // Make a MPI-aware query object that will be used to determine whether
+    // points actually exist in a neighbor domain.
+    conduit::blueprint::mpi::mesh::utils::query::PointQuery Q(mesh, comm);
+
     conduit::blueprint::mesh::generate_centroids(mesh,
                                                  src_adjset_name,
                                                  dst_adjset_name,
                                                  dst_topo_name,
                                                  dst_cset_name,
                                                  s2dmap,
-                                                 d2smap);
+                                                 d2smap,
+                                                 Q);
 }
 
 
@@ -2655,15 +2660,20 @@ generate_sides(conduit::Node& mesh,
                const std::string& dst_cset_name,
                conduit::Node& s2dmap,
                conduit::Node& d2smap,
-               MPI_Comm /*comm*/)
+               MPI_Comm comm)
 {
+    // Make a MPI-aware query object that will be used to determine whether
+    // points actually exist in a neighbor domain.
+    conduit::blueprint::mpi::mesh::utils::query::PointQuery Q(mesh, comm);
+
     conduit::blueprint::mesh::generate_sides(mesh,
                                              src_adjset_name,
                                              dst_adjset_name,
                                              dst_topo_name,
                                              dst_cset_name,
                                              s2dmap,
-                                             d2smap);
+                                             d2smap,
+                                             Q);
 
 }
 
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
index 1f9f7c6..25e4885 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
@@ -399,6 +399,17 @@ MatchQuery::execute()
         return -1;
     };
 
+    // Check whether any rank made the query domain, query_domain.
+    auto was_asked = [=](const std::vector<int> &allqueries, int d, int qd) -> bool
+    {
+        for(size_t i = 0; i < allqueries.size(); i += ntuple_values)
+        {
+            if(allqueries[i + 1] == d && allqueries[i + 2] == qd)
+                return true;
+        }
+        return false;
+    };
+
 #ifdef DEBUG_PRINT
     // Print out some debugging information to files.
     conduit::Node debug;
@@ -450,7 +461,8 @@ MatchQuery::execute()
             // The query was asked by this rank. We need to prepare to
             // receive the opposite query, which is the answer.
 
-            if(m_query.find(oppositeKey) == m_query.end())
+            if(m_query.find(oppositeKey) == m_query.end() &&
+               was_asked(allqueries, query_domain, domain))
             {
                 int remote = domain_to_rank(allqueries, query_domain);
 
@@ -499,11 +511,17 @@ MatchQuery::execute()
             // Try and get the geometries.
             auto it = m_query.find(key);
             auto oppit = m_query.find(oppositeKey);
-            if(it == m_query.end() || oppit == m_query.end())
+            if(it == m_query.end())
             {
                 CONDUIT_ERROR("MatchQuery is missing the topologies for "
                     << domain << ":" << query_domain);
             }
+            if(oppit == m_query.end())
+            {
+                // The opposite domain has no candidates, so nothing matches.
+                it->second.results.clear();
+                continue;
+            }
 
             // Get both of the topologies.
             conduit::Node &mesh1 = it->second.query_mesh;
-- 
2.43.0


From 9813ff8ebc376c8cb6e22445cbb15ae28dd1b068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:56 +0000
Subject: [PATCH 096/105] fix: point queries over MPI accept any domain ids

---
 .../conduit_blueprint_mpi_mesh_utils.cpp      | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
index 25e4885..bb8367e 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
@@ -78,19 +78,21 @@ PointQuery::execute(const std::string &coordsetName)
     MPI_Comm_size(m_comm, &size);
 
     // Figure out which ranks own the domains. Get the domain ids on this rank
-    // and sum the number of domains on all ranks.
+    // and the largest domain id on all ranks (ids need not be contiguous).
     std::vector<int> localDomains = domainIds();
-    int ndoms = static_cast<int>(localDomains.size());
-    int ntotal_doms = 0;
-    MPI_Allreduce(&ndoms, &ntotal_doms, 1, MPI_INT, MPI_SUM, m_comm);
+    int local_max_dom = -1;
+    for(auto dom : localDomains)
+        local_max_dom = std::max(local_max_dom, dom);
+    int max_dom = -1;
+    MPI_Allreduce(&local_max_dom, &max_dom, 1, MPI_INT, MPI_MAX, m_comm);
 
     // Make sure each rank knows who owns which domains. This assumes that
     // the domains were set properly and only occur on one rank.
-    std::vector<int> local_domain_to_rank(ntotal_doms, 0);
-    std::vector<int> domain_to_rank(ntotal_doms, 0);
+    std::vector<int> local_domain_to_rank(max_dom + 1, -1);
+    std::vector<int> domain_to_rank(max_dom + 1, -1);
     for(auto dom : localDomains)
         local_domain_to_rank[dom] = rank;
-    MPI_Allreduce(&local_domain_to_rank[0], &domain_to_rank[0], ntotal_doms, MPI_INT, MPI_SUM, m_comm);
+    MPI_Allreduce(local_domain_to_rank.data(), domain_to_rank.data(), max_dom + 1, MPI_INT, MPI_MAX, m_comm);
 
     // Put together the queries that we need to run.
     std::vector<int> queries;
@@ -126,7 +128,7 @@ PointQuery::execute(const std::string &coordsetName)
     debug["rank"] = rank;
     debug["size"] = size;
     debug["localDomains"].set(localDomains);
-    debug["ntotal_doms"] = ntotal_doms;
+    debug["max_dom"] = max_dom;
     debug["domain_to_rank"].set(domain_to_rank);
     debug["queries"].set(queries);
     debug["nq"] = nq;
@@ -161,7 +163,8 @@ PointQuery::execute(const std::string &coordsetName)
     for(size_t i = 0; i < allqueries.size(); i += 3)
     {
         int domain = allqueries[i+1];
-        if(domain < 0 || domain >= static_cast<int>(domain_to_rank.size()))
+        if(domain < 0 || domain >= static_cast<int>(domain_to_rank.size()) ||
+           domain_to_rank[domain] < 0)
         {
             CONDUIT_ERROR("An adjacency set referenced domain " << domain
                 << ", which is not a valid domain in the input mesh.");
-- 
2.43.0


From 23c318b7bb28c319297b2e06a97febf0b9f5402a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:58 +0000
Subject: [PATCH 097/105] fix: adjacency sets of partitioned meshes: partial
 chunks, unselected neighbors, repeated neighbors, stale and empty groups
 (serial and MPI)

---
 .../conduit_blueprint_mesh_partition.cpp      | 87 ++++++++++++-------
 .../conduit_blueprint_mesh_partition.hpp      |  6 ++
 .../conduit_blueprint_mpi_mesh_partition.cpp  | 48 ++++++++--
 .../conduit_blueprint_mpi_mesh_partition.hpp  |  2 +
 4 files changed, 107 insertions(+), 36 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 1b45d7d..404e124 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -3672,10 +3672,11 @@ Partitioner::wrap(size_t idx, const conduit::Node &n_mesh) const
     conduit::Node *n_wrap = new conduit::Node;
 
     // Add the members from n_mesh into n_wrap but treat fields specially.
+    // The adjsets of n_mesh name input domains, they are built again for chunks.
     for(index_t i = 0; i < n_mesh.number_of_children(); i++)
     {
         const conduit::Node &f = n_mesh[i];
-        if(f.name() != "fields")
+        if(f.name() != "fields" && f.name() != "adjsets")
             (*n_wrap)[f.name()].set_external_node(f);
     }
     conduit::Node &n_new_fields = (*n_wrap)["fields"];
@@ -3859,6 +3860,7 @@ Partitioner::init_chunk_adjsets(const std::vector<const Node*>& chunk_assoc_adjs
         Node& new_adjset = adjset_data[icnk]->fetch(adjset_name);
         new_adjset["association"].set("vertex");
         new_adjset["topology"].set(adjset_topo);
+        new_adjset["groups"].set(DataType::object());
     }
 }
 
@@ -3898,7 +3900,10 @@ Partitioner::get_prelb_adjset_maps(const std::vector<int>& chunk_offsets,
         // Create map of old vertex ids to chunk ids
         std::vector<std::vector<index_t>> vtx_to_cnkid;
         size_t max_verts = 0;
-        if (domain_chunks.size() != 1)
+        // A single chunk without a vertex list is the whole domain.
+        const bool whole_domain = domain_chunks.size() == 1 &&
+                                  domain_chunks.begin()->second.empty();
+        if (!whole_domain)
         {
             for (const auto& cnk : domain_chunks)
             {
@@ -3915,17 +3920,11 @@ Partitioner::get_prelb_adjset_maps(const std::vector<int>& chunk_offsets,
         // loop over all adjsets in the current domain
         for (const Node& adjset : domain["adjsets"].children())
         {
-            // Make sure the input adjset is pairwise.
+            // Make sure the input adjset is pairwise, with one group per
+            // neighbor.
             std::string adjset_name(adjset.name());
             conduit::Node pwadjset;
-            if(conduit::blueprint::mesh::adjset::is_pairwise(adjset))
-            {
-                pwadjset.set_external(adjset);
-            }
-            else
-            {
-                conduit::blueprint::mesh::adjset::to_pairwise(adjset, pwadjset);
-            }
+            conduit::blueprint::mesh::adjset::to_pairwise(adjset, pwadjset);
 
             const std::string adjset_topo = pwadjset["topology"].as_string();
             const std::string adjset_assoc = pwadjset["association"].as_string();
@@ -3945,7 +3944,7 @@ Partitioner::get_prelb_adjset_maps(const std::vector<int>& chunk_offsets,
 
                 std::vector<index_t> offsets;
                 std::vector<index_t> csr_vtx_map;
-                if (vtx_to_cnkid.size() == 0)
+                if (whole_domain)
                 {
                     // single chunk comprises the whole domain
                     index_t dst_cnk = domain_chunks.begin()->first + chunk_offset;
@@ -3960,6 +3959,11 @@ Partitioner::get_prelb_adjset_maps(const std::vector<int>& chunk_offsets,
                     {
                         index_t old_vtx = adj_vals[i];
                         offsets.push_back(curr_offset);
+                        // the vertex may not be part of any chunk
+                        if (old_vtx >= static_cast<index_t>(vtx_to_cnkid.size()))
+                        {
+                            continue;
+                        }
                         curr_offset += vtx_to_cnkid[old_vtx].size();
                         csr_vtx_map.insert(csr_vtx_map.end(),
                                            vtx_to_cnkid[old_vtx].begin(),
@@ -4002,17 +4006,11 @@ Partitioner::build_interdomain_adjsets(const std::vector<int>& chunk_offsets,
         }
         for (const Node& adjset : domain["adjsets"].children())
         {
-            // Make sure the input adjset is pairwise.
+            // Make sure the input adjset is pairwise, with one group per
+            // neighbor.
             std::string adjset_name(adjset.name());
             conduit::Node pwadjset;
-            if(conduit::blueprint::mesh::adjset::is_pairwise(adjset))
-            {
-                pwadjset.set_external(adjset);
-            }
-            else
-            {
-                conduit::blueprint::mesh::adjset::to_pairwise(adjset, pwadjset);
-            }
+            conduit::blueprint::mesh::adjset::to_pairwise(adjset, pwadjset);
 
             const std::string adjset_topo = pwadjset["topology"].as_string();
             const std::string adjset_assoc = pwadjset["association"].as_string();
@@ -4043,6 +4041,13 @@ Partitioner::build_interdomain_adjsets(const std::vector<int>& chunk_offsets,
 
                 // 2. Get map of points in corresponding adjset group in other domain.
                 const std::string this_key = std::to_string(dom_idx);
+                if (nbr_idx >= static_cast<index_t>(dom_adjset_maps.size()) ||
+                    !dom_adjset_maps[nbr_idx].has_child(adjset_name) ||
+                    !dom_adjset_maps[nbr_idx][adjset_name].has_path("to_dom/" + this_key))
+                {
+                    // nothing was selected from the neighbor
+                    continue;
+                }
                 const Node& other_group_map
                     = dom_adjset_maps[nbr_idx][adjset_name]["to_dom"][this_key];
 
@@ -4058,9 +4063,9 @@ Partitioner::build_interdomain_adjsets(const std::vector<int>& chunk_offsets,
                                   "of vertices as the local adjset.");
                 }
 
-                if (local_adj_vals.number_of_elements() != src_cnk_offsets.number_of_elements())
+                if (local_adj_vals.number_of_elements() != dst_cnk_offsets.number_of_elements())
                 {
-                    CONDUIT_ERROR("Local vertex-to-chunk map does not contain the same number "
+                    CONDUIT_ERROR("Remote vertex-to-chunk map does not contain the same number "
                                   "of vertices as the local adjset.");
                 }
 
@@ -4111,9 +4116,9 @@ Partitioner::build_interdomain_adjsets(const std::vector<int>& chunk_offsets,
                 Node& new_set = adjset_groups.append();
                 new_set["neighbors"].set(chunk_nbr);
                 new_set["values"].set(adjset.second);
-                // If we are not the only chunk in the local adjset, the values
-                // are relative to the original domain - flag for remap.
-                if (dom_2_chunks.find(&domain)->second.size() > 1)
+                // If we are not the whole domain, the values are relative
+                // to the original domain - flag for remap.
+                if (!dom_2_chunks.find(&domain)->second.find(chunk_id)->second.empty())
                 {
                     remap_to_chunk_vid[&domain][chunk_id].push_back(&new_set);
                 }
@@ -4231,6 +4236,7 @@ merge_chunked_adjsets(conduit::Node& dom_adjsets, const std::vector<int>& chunks
             new_adjset_doms[dst_dom][adj_ord] = &grp;
         }
         Node& new_grps = adjset["new_groups"];
+        new_grps.set(DataType::object());
         for (const auto& domain : new_adjset_doms)
         {
             // Add a new group, with a defined name.
@@ -4329,7 +4335,7 @@ Partitioner::execute(conduit::Node &output)
                 conduit::Node *c = wrap(i, *meshes[i]);
                 chunks.push_back(Chunk(c, true, dr, dd));
                 assoc_aset = get_associated_topo_adjset(*meshes[i], selections[i]->get_topology());
-                if (assoc_aset)
+                if (assoc_aset && build_adjsets)
                 {
                     wrapped_adjset = c->fetch_ptr("adjsets");
                 }
@@ -4350,7 +4356,7 @@ Partitioner::execute(conduit::Node &output)
             const conduit::Node* assoc_aset
                 = get_associated_topo_adjset(*meshes[i], selections[i]->get_topology());
             chunk_assoc_aset.push_back(assoc_aset);
-            if (assoc_aset)
+            if (assoc_aset && build_adjsets)
             {
                 adjset_data.push_back(c->fetch_ptr("adjsets"));
             }
@@ -4362,6 +4368,21 @@ Partitioner::execute(conduit::Node &output)
         }
     }
 
+    // If there are other chunks of a domain, list the vertices of the chunks
+    // that are the whole domain too.
+    for(size_t i = 0; i < selections.size(); i++)
+    {
+        ChunkToVertsMap &domain_chunks = domain_to_chunk_map[meshes[i]];
+        std::vector<index_t> &verts = domain_chunks[i];
+        if(domain_chunks.size() > 1 && verts.empty())
+        {
+            const conduit::Node &n_topo = selections[i]->selected_topology(*meshes[i]);
+            const conduit::Node *n_cset = utils::find_reference_node(n_topo, "coordset");
+            verts.resize(utils::coordset::length(*n_cset));
+            std::iota(verts.begin(), verts.end(), 0);
+        }
+    }
+
     // Compute the destination rank and destination domain of each input
     // chunk present on this rank.
     std::vector<int> dest_rank, dest_domain, offsets;
@@ -4375,7 +4396,7 @@ Partitioner::execute(conduit::Node &output)
     size_t nullCount = 0;
     for(const auto &value : adjset_data)
         nullCount += (value == nullptr) ? 1 : 0;
-    if(build_adjsets && nullCount < adjset_data.size())
+    if(build_adjsets && any_rank(nullCount < adjset_data.size()))
     {
         init_chunk_adjsets(chunk_assoc_aset, adjset_data);
         build_interdomain_adjsets(offsets, domain_to_chunk_map, domain_id_to_node, adjset_data);
@@ -4475,6 +4496,13 @@ Partitioner::execute(conduit::Node &output)
 #endif
 }
 
+//-------------------------------------------------------------------------
+bool
+Partitioner::any_rank(bool value) const
+{
+    return value;
+}
+
 //-------------------------------------------------------------------------
 unsigned int
 Partitioner::starting_index(const std::vector<Partitioner::Chunk> &/*chunks*/)
@@ -9149,6 +9177,7 @@ map_adjset_group(const Node& adjset,
                  const std::vector<DataArray<index_t>>& pointmaps,
                  Node& out_adjset)
 {
+    out_adjset["groups"].set(DataType::object());
     // Remap the vertex ids of each intermediate chunk group
     for (const auto& group : adjset["groups"].children())
     {
diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
index 97aceb3..3c55d56 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
@@ -579,6 +579,12 @@ protected:
      */
     virtual unsigned int starting_index(const std::vector<Chunk> &chunks);
 
+    /**
+     @brief Return whether the value is true on any rank.
+     @note Reimplemented in parallel
+     */
+    virtual bool any_rank(bool value) const;
+
     /**
      @brief Assign the chunks on this rank a destination rank to which it will
             be transported as well as a destination domain that indices which
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
index 72a6d3f..dd5b89e 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
@@ -739,6 +739,16 @@ ParallelPartitioner::communicate_chunks(const std::vector<Partitioner::Chunk> &c
 #endif
 }
 
+//-----------------------------------------------------------------------------
+bool
+ParallelPartitioner::any_rank(bool value) const
+{
+    int local_value = value ? 1 : 0;
+    int global_value = 0;
+    MPI_Allreduce(&local_value, &global_value, 1, MPI_INT, MPI_MAX, comm);
+    return global_value == 1;
+}
+
 //-----------------------------------------------------------------------------
 void
 ParallelPartitioner::get_prelb_adjset_maps(const std::vector<int>& chunk_offsets,
@@ -752,6 +762,16 @@ ParallelPartitioner::get_prelb_adjset_maps(const std::vector<int>& chunk_offsets
 
     Partitioner::get_prelb_adjset_maps(chunk_offsets, chunks, domain_map, adjset_chunk_maps);
 
+    // Let all ranks know the domains that something was selected from. There
+    // are no maps for the others.
+    std::vector<int> selected(domain_to_rank_map.size(), 0);
+    for (const auto& dom_it : domain_map)
+    {
+        selected[dom_it.first] = 1;
+    }
+    MPI_Allreduce(MPI_IN_PLACE, selected.data(), static_cast<int>(selected.size()),
+                  MPI_INT, MPI_MAX, comm);
+
     // 1. Compute the ranks to send/receive data from for each domain
     std::unordered_map<index_t, std::unordered_set<int>> send_rank;
     std::unordered_map<index_t, int> recv_rank;
@@ -771,13 +791,27 @@ ParallelPartitioner::get_prelb_adjset_maps(const std::vector<int>& chunk_offsets
             for (const Node& group : adjset["groups"].children())
             {
                 index_t_accessor neighbor_vals = group["neighbors"].as_index_t_accessor();
-                index_t dst_dom = neighbor_vals[0];
-                int nbr_rank = domain_to_rank_map[dst_dom];
-
-                // For each corresponding pair of domains linked by adjsets, we
-                // need a matched pair of send/recvs
-                send_rank[dom_idx].insert(nbr_rank);
-                recv_rank[dst_dom] = nbr_rank;
+                for (index_t ni = 0; ni < neighbor_vals.number_of_elements(); ni++)
+                {
+                    index_t dst_dom = neighbor_vals[ni];
+                    if (dst_dom < 0 ||
+                        dst_dom >= static_cast<index_t>(selected.size()) ||
+                        !selected[dst_dom])
+                    {
+                        continue;
+                    }
+                    int nbr_rank = domain_to_rank_map[dst_dom];
+                    if (nbr_rank == rank)
+                    {
+                        // we have the map already
+                        continue;
+                    }
+
+                    // For each corresponding pair of domains linked by adjsets, we
+                    // need a matched pair of send/recvs
+                    send_rank[dom_idx].insert(nbr_rank);
+                    recv_rank[dst_dom] = nbr_rank;
+                }
             }
         }
     }
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.hpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.hpp
index 791c7b4..1e24871 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.hpp
@@ -112,6 +112,8 @@ protected:
                                     std::vector<int> &chunks_to_assemble_domains,
                                     std::vector<int> &chunks_to_assemble_gids) override;
 
+    virtual bool any_rank(bool value) const override;
+
     virtual void get_prelb_adjset_maps(const std::vector<int>& chunk_offsets,
                                        const DomainToChunkMap& chunks,
                                        const std::map<index_t, const Node*>& domain_map,
-- 
2.43.0


From 61d778425725e19fc8bca1ec9044e054875acc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:16 +0000
Subject: [PATCH 098/105] fix: Node::diff compares each shared child once, not
 twice per level

Each level compared every child both nodes have two times, so that
comparing trees nested 30 deep took 2^30 comparisons and did not return.
---
 src/libs/conduit/conduit_node.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index ea99101..a96043e 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -18230,19 +18230,16 @@ Node::diff(const Node &n, Node &info, const float64 epsilon, bool relaxint) cons
         child_itr = n.children();
         while(child_itr.has_next())
         {
-            const conduit::Node &n_child = child_itr.next();
+            child_itr.next();
             const std::string child_path = child_itr.name();
 
+            // children both nodes have were compared above, comparing them
+            // again at every level takes time exponential in the tree depth
             if(!has_child(child_path))
             {
                 info_children["missing"].append().set(child_path);
                 res = true;
             }
-            else
-            {
-                Node &info_child = info_children["diff"].add_child(child_path);
-                res |= child(child_path).diff(n_child, info_child, epsilon, relaxint);
-            }
         }
     }
     else if(t_dtid == DataType::LIST_ID)
-- 
2.43.0


From 09d546907cd363629643d2c5b192f1e8ce02844f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:41 +0000
Subject: [PATCH 099/105] fix: centroids of polygons with more than 8 points
 read and wrote past the end of their point lists

unique_mask compared one id past the last one, and counted a point listed
three times twice.
---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index b4e4d07..e14e6cb 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -1423,7 +1423,7 @@ unique_mask(const Container &values, index_t offset, index_t n, int *mask)
             {
                 if(values[left[i]] == values[right[i]])
                 {
-                    mask[right[i]]--;
+                    mask[right[i]] = 0;
                     needmask = true;
                 }
             }
@@ -1434,7 +1434,7 @@ unique_mask(const Container &values, index_t offset, index_t n, int *mask)
             {
                 if(values[offset + left[i]] == values[offset + right[i]])
                 {
-                    mask[right[i]]--;
+                    mask[right[i]] = 0;
                     needmask = true;
                 }
             }
@@ -1448,11 +1448,11 @@ unique_mask(const Container &values, index_t offset, index_t n, int *mask)
         {
             for(int row = 0; row < n; row++)
             {
-                for(int col = row + 1; col <= n; col++)
+                for(int col = row + 1; col < n; col++)
                 {
                     if(values[row] == values[col])
                     {
-                        mask[col]--;
+                        mask[col] = 0;
                         needmask = true;
                     }
                 }
@@ -1462,11 +1462,11 @@ unique_mask(const Container &values, index_t offset, index_t n, int *mask)
         {
             for(int row = 0; row < n; row++)
             {
-                for(int col = row + 1; col <= n; col++)
+                for(int col = row + 1; col < n; col++)
                 {
                     if(values[offset + row] == values[offset + col])
                     {
-                        mask[col]--;
+                        mask[col] = 0;
                         needmask = true;
                     }
                 }
-- 
2.43.0


From 8d8062eb6e1c6211b602c777fb8bf547775e997f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:09 +0000
Subject: [PATCH 100/105] fix: CSV reader indexed past its columns for files
 without header, rows with too many entries and clashing column names

A file whose first line holds only numbers was read with zero columns, the
bound test on the column index was off by one, and a column that is the
parent of another, or has an empty name, left pointers to freed nodes.
---
 src/libs/relay/conduit_relay_io_csv.cpp | 68 ++++++++++++++++---------
 1 file changed, 45 insertions(+), 23 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_csv.cpp b/src/libs/relay/conduit_relay_io_csv.cpp
index 79b3586..b012bda 100644
--- a/src/libs/relay/conduit_relay_io_csv.cpp
+++ b/src/libs/relay/conduit_relay_io_csv.cpp
@@ -18,6 +18,7 @@
 #include <utility>
 #include <type_traits>
 #include <limits>
+#include <set>
 
 #include "conduit_log.hpp"
 #include "conduit_blueprint_table.hpp"
@@ -250,9 +251,36 @@ add_column(const std::string &name, Node &values)
 }
 
 //-----------------------------------------------------------------------------
+// Each column needs a place of its own in the table: no part of its name
+// can be empty or "..", and it can not be the parent of another column.
 static void
-add_columns(Node &values, std::vector<std::string> &col_names,
-    index_t ncols, const DataType &dtype)
+check_column_names(const std::vector<std::string> &col_names)
+{
+    const std::set<std::string> names(col_names.begin(), col_names.end());
+    for(const std::string &name : names)
+    {
+        const std::string parts = child_sep + name + child_sep;
+        if(parts.find(std::string(2, child_sep)) != std::string::npos
+            || parts.find("/../") != std::string::npos)
+        {
+            CONDUIT_ERROR("Invalid column name " << quote(name) << ".");
+        }
+        for(std::size_t pos = name.find(child_sep); pos != std::string::npos;
+            pos = name.find(child_sep, pos + 1))
+        {
+            if(names.count(name.substr(0, pos)) > 0)
+            {
+                CONDUIT_ERROR("Column " << quote(name)
+                    << " conflicts with column " << quote(name.substr(0, pos)) << ".");
+            }
+        }
+    }
+}
+
+//-----------------------------------------------------------------------------
+static void
+add_columns(Node &values, const std::vector<std::string> &col_names,
+    index_t ncols, const DataType &dtype, std::vector<Node*> &cols)
 {
     if(col_names.empty())
     {
@@ -260,15 +288,17 @@ add_columns(Node &values, std::vector<std::string> &col_names,
         {
             Node &col = add_column("", values);
             col.set_dtype(dtype);
-            col_names.push_back(col.name());
+            cols.push_back(&col);
         }
     }
     else
     {
+        check_column_names(col_names);
         for(const std::string &name : col_names)
         {
             Node &col = add_column(name, values);
             col.set_dtype(dtype);
+            cols.push_back(&col);
         }
     }
 }
@@ -321,18 +351,19 @@ read_column_names(const std::string &line, std::vector<std::string> &col_names,
     }
 
     // If all numbers then this row should not be treated as column names
+    const index_t ncols = static_cast<index_t>(col_names.size());
     if(all_numbers)
     {
         col_names.clear();
     }
-    return static_cast<index_t>(col_names.size());
+    return ncols;
 }
 
 //-----------------------------------------------------------------------------
 template<typename FloatType>
 void
 read_csv_data(std::ifstream &fin, const std::ifstream::pos_type &offset,
-    const std::vector<std::string> &col_names, Node &values,
+    const std::vector<Node*> &cols,
     const char sep = ',')
 {
     static_assert(std::is_floating_point<FloatType>().value,
@@ -349,18 +380,13 @@ read_csv_data(std::ifstream &fin, const std::ifstream::pos_type &offset,
         while(end != std::string::npos)
         {
             const auto len = end - start;
-            if(icol > col_names.size())
+            if(icol >= cols.size())
             {
                 CONDUIT_ERROR("Error while reading file, row " << row << " contains too many column entries!");
                 return;
             }
 
-            Node *n = values.fetch_ptr(col_names[icol]);
-            if(!n)
-            {
-                CONDUIT_ERROR("The allocated output table does not contain the path " << quote(col_names[icol]) << ".");
-                return;
-            }
+            Node *n = cols[icol];
 
             std::string data = line.substr(start, len);
             try
@@ -395,18 +421,13 @@ read_csv_data(std::ifstream &fin, const std::ifstream::pos_type &offset,
             end = line.find(sep, start);
         }
         // Get the last name
-        if(icol > col_names.size())
+        if(icol >= cols.size())
         {
             CONDUIT_ERROR("Error while reading file, row " << row << " contains too many column entries!");
             return;
         }
 
-        Node *n = values.fetch_ptr(col_names[icol]);
-        if(!n)
-        {
-            CONDUIT_ERROR("The allocated output table does not contain the path " << quote(col_names[icol]) << ".");
-            return;
-        }
+        Node *n = cols[icol];
 
         std::string data = line.substr(start);
         try
@@ -482,20 +503,21 @@ read_single_table(const std::string &path, const bool use_float64, Node &table)
     const DataType dtype((use_float64) ? DataType::FLOAT64_ID : DataType::FLOAT32_ID,
         nrows);
     Node &values = table["values"];
-    add_columns(values, column_names, ncols, dtype);
+    std::vector<Node*> columns;
+    add_columns(values, column_names, ncols, dtype, columns);
 
     if(dtype.is_float())
     {
-        read_csv_data<float>(fin, data_start, column_names, values);
+        read_csv_data<float>(fin, data_start, columns);
     }
     else if(dtype.is_double())
     {
-        read_csv_data<double>(fin, data_start, column_names, values);
+        read_csv_data<double>(fin, data_start, columns);
     }
 #ifdef CONDUIT_HAS_LONG_DOUBLE
     else if(dtype.is_long_double())
     {
-        read_csv_data<long double>(fin, data_start, column_names, values);
+        read_csv_data<long double>(fin, data_start, columns);
     }
 #endif
     else
-- 
2.43.0


From bbed5ea1e5c34dde36771d331a57f0bebb60fa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:42 +0000
Subject: [PATCH 101/105] fix: partition_map_back over MPI hung when a rank has
 no repartitioned domains

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 404e124..a87f7a7 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -10184,6 +10184,10 @@ Partitioner::map_back_fields(const conduit::Node& repart_mesh,
         }
     }
 
+    // Ranks without repartitioned domains still take part in the exchange of
+    // vertex ids.
+    has_vert_fields = any_rank(has_vert_fields);
+
     // Get a field prefix. Some of the mapping fields used here may have
     // used a field_prefix when they were generated.
     std::string field_prefix;
-- 
2.43.0


From 04f1de6d3e927ba055d993bf2f2425df23dc1b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:20 +0000
Subject: [PATCH 102/105] fix: partition kept volume_dependent of fields only
 where it did not combine domains

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index a87f7a7..ea91b57 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -9118,6 +9118,10 @@ combine(const std::vector<const Node*> &in_fields,
     const std::string &assoc_topo = in_fields[0]->child("topology").as_string();
     output["topology"] = assoc_topo;
     output["association"] = assoc;
+    if(in_fields[0]->has_child("volume_dependent"))
+    {
+        output["volume_dependent"] = in_fields[0]->child("volume_dependent");
+    }
     // Determine if we are vertex or element associated
     if(assoc == utils::ASSOCIATIONS[0])
     {
-- 
2.43.0


From f94aaa441479f06711f4e7965d5807ab30141423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:53 +0000
Subject: [PATCH 103/105] fix: partition lost the logical origin of structured
 topologies

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index ea91b57..9480896 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -3278,7 +3278,7 @@ Partitioner::create_new_structured_topo(const conduit::Node &n_topo,
         "elements/origin/k0"};
     for(int i = 0; i < 3; i++)
     {
-        if(n_topo.has_child(keys[i]))
+        if(n_topo.has_path(keys[i]))
         {
             const conduit::Node &value = n_topo[keys[i]];
             n_new_topo[keys[i]].set(static_cast<conduit::int64>(value.to_uint64() + start[i]));
-- 
2.43.0


From fb5b4eeae8c44e1c0389805fa76cc9445f86e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:46 +0000
Subject: [PATCH 104/105] fix: Silo meshes with connectivity other than int
 could not be saved

---
 src/libs/relay/conduit_relay_io_silo.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_silo.cpp b/src/libs/relay/conduit_relay_io_silo.cpp
index adf06e2..e73ecbc 100644
--- a/src/libs/relay/conduit_relay_io_silo.cpp
+++ b/src/libs/relay/conduit_relay_io_silo.cpp
@@ -4278,8 +4278,16 @@ void silo_write_ucd_zonelist(DBfile *dbfile,
         CONDUIT_ERROR("Unsupported topo shape " << topo_shape);
     }
 
+    // silo wants a compact array of ints
     Node n_conn_compact;
-    detail::conditional_compact(n_conn, n_conn_compact);
+    if (n_conn.dtype().is_int())
+    {
+        detail::conditional_compact(n_conn, n_conn_compact);
+    }
+    else
+    {
+        n_conn.to_int_array(n_conn_compact);
+    }
 
     const int conn_len = n_conn_compact.dtype().number_of_elements();
     int *conn_ptr = n_conn_compact.value();
-- 
2.43.0


From a7d14a276c4f01e80975db2b7acd4208c22ebad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:25 +0000
Subject: [PATCH 105/105] Revert "fix: partition kept volume_dependent of
 fields only where it did not combine domains"

This reverts commit 04f1de6d3e927ba055d993bf2f2425df23dc1b67.
---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 9480896..37caf54 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -9118,10 +9118,6 @@ combine(const std::vector<const Node*> &in_fields,
     const std::string &assoc_topo = in_fields[0]->child("topology").as_string();
     output["topology"] = assoc_topo;
     output["association"] = assoc;
-    if(in_fields[0]->has_child("volume_dependent"))
-    {
-        output["volume_dependent"] = in_fields[0]->child("volume_dependent");
-    }
     // Determine if we are vertex or element associated
     if(assoc == utils::ASSOCIATIONS[0])
     {
-- 
2.43.0

