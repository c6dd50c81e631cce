From b856cb132aa93f4d59f97599e5eb2c786b66fbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:28 +0000
Subject: [PATCH 01/20] fix: ranks without data (and single 3-D transforms) in
 the copy step of the pipelines

The copy of the input that replaces a missing first reshape used the box size of
an executor that does not exist on ranks without data (null pointer) or that works
on a different box, and backward() with a 3-D executor before the only reshape did
not copy the input at all.
---
 src/heffte_compute_transform.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/heffte_compute_transform.cpp b/src/heffte_compute_transform.cpp
index 1f425fe..96b8e5c 100644
--- a/src/heffte_compute_transform.cpp
+++ b/src/heffte_compute_transform.cpp
@@ -58,7 +58,8 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
             shaper[0]->apply(batch_size, input, output, workspace);
         }else if (input != output){
             int valid_executor = (executor[0] != nullptr) ? 0 : ((executor[1] != nullptr) ? 1 : 2);
-            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[valid_executor]->box_size(), output);
+            if (executor[valid_executor] != nullptr) // ranks without data have no executors
+                backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[valid_executor]->box_size(), output);
         }
         for(int i=0; i<3; i++)
             apply_fft(i, output);
@@ -72,8 +73,12 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         scalar_type *effective_input = output;
         if (input != output){
             add_trace name("copy");
-            if (executor[0] != nullptr)
-                backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[0]->box_size(), temp_buffer);
+            for(int i=0; i<last; i++){ // the first valid executor before the reshape works on the input box
+                if (executor[i] != nullptr){
+                    backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[i]->box_size(), temp_buffer);
+                    break;
+                }
+            }
             effective_input = temp_buffer;
         }
         for(int i=0; i<last; i++)
@@ -95,7 +100,8 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
             shaper[0]->apply(batch_size, input, temp_buffer, workspace);
         }else{
             add_trace name("copy");
-            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[0]->box_size(), temp_buffer);
+            if (executor[0] != nullptr) // ranks without data have no executors
+                backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[0]->box_size(), temp_buffer);
         }
         active_shaper = 1;
     }else{
@@ -214,9 +220,14 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         shaper[0]->apply(batch_size, input, temp_buffer, workspace);
     }else{
         add_trace name("copy");
-        int valid_executor = (executor[0] != nullptr) ? 0 : ((executor[1] != nullptr) ? 1 : 2);
-        backend::data_manipulator<location_tag>::copy_n(stream, input,
-                                                        batch_size * executor[valid_executor]->box_size(), temp_buffer);
+        for(int i=0; i<3; i++){ // find the first executor that works on the input box, ranks without data have none
+            if (i > 0 and shaper[i]) break;
+            if (executor[i] != nullptr){
+                backend::data_manipulator<location_tag>::copy_n(stream, input,
+                                                                batch_size * executor[i]->box_size(), temp_buffer);
+                break;
+            }
+        }
     }
 
     for(int i=0; i<2; i++){ // apply the two complex-to-complex ffts
-- 
2.43.0


From 0a33a145ffb8a579d5689a68c11be678ca735220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:10 +0000
Subject: [PATCH 02/20] fix: batch stride of the second and third transform in
 the real-to-complex pipeline

Without reshapes after the first one, the complex data of batch entry j was looked for
at j times the real box size of the first executor.
---
 src/heffte_compute_transform.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/heffte_compute_transform.cpp b/src/heffte_compute_transform.cpp
index 96b8e5c..723eb0c 100644
--- a/src/heffte_compute_transform.cpp
+++ b/src/heffte_compute_transform.cpp
@@ -161,8 +161,8 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         for(int j=0; j<batch_size; j++){
             if (executor[0] != nullptr) executor[0]->forward(effective_input + j * executor[0]->box_size(),
                                                              output + j * executor[0]->complex_size(), executor_workspace);
-            if (executor[1] != nullptr) executor[1]->forward(output + j * executor[0]->box_size(), executor_workspace);
-            if (executor[2] != nullptr) executor[2]->forward(output + j * executor[0]->box_size(), executor_workspace);
+            if (executor[1] != nullptr) executor[1]->forward(output + j * executor[1]->box_size(), executor_workspace);
+            if (executor[2] != nullptr) executor[2]->forward(output + j * executor[2]->box_size(), executor_workspace);
         }
         return;
     }
-- 
2.43.0


From de708812526045faca3c011fb7883462098bc1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:31 +0000
Subject: [PATCH 03/20] fix: container overloads of backward_real and of the
 real backward transform check the input size

---
 include/heffte_fft3d.h     | 2 ++
 include/heffte_fft3d_r2c.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/heffte_fft3d.h b/include/heffte_fft3d.h
index 95d22ff..c771ba7 100644
--- a/include/heffte_fft3d.h
+++ b/include/heffte_fft3d.h
@@ -536,6 +536,8 @@ public:
     real_buffer_container<scalar_type> backward_real(buffer_container<scalar_type> const &input, scale scaling = scale::none){
         static_assert(not backend::uses_fft_types<backend_tag>::value or is_ccomplex<scalar_type>::value or is_zcomplex<scalar_type>::value,
                       "Either calling backward() with non-complex input or using an unknown complex type.");
+        if (input.size() < static_cast<size_t>(size_outbox()))
+            throw std::invalid_argument("The input vector is smaller than size_outbox(), i.e., not enough entries provided to fill the outbox.");
         auto result = make_buffer_container<typename transform_real_type<scalar_type, backend_tag>::type>(this->stream(), size_inbox());
         backward(input.data(), result.data(), scaling);
         return result;
diff --git a/include/heffte_fft3d_r2c.h b/include/heffte_fft3d_r2c.h
index e95ef47..e450e65 100644
--- a/include/heffte_fft3d_r2c.h
+++ b/include/heffte_fft3d_r2c.h
@@ -286,6 +286,8 @@ public:
     real_buffer_container<scalar_type> backward(buffer_container<scalar_type> const &input, scale scaling = scale::none){
         static_assert(is_ccomplex<scalar_type>::value or is_zcomplex<scalar_type>::value,
                       "Either calling backward() with non-complex input or using an unknown complex type.");
+        if (input.size() < static_cast<size_t>(size_outbox()))
+            throw std::invalid_argument("The input vector is smaller than size_outbox(), i.e., not enough entries provided to fill the outbox.");
         auto result = make_buffer_container<typename define_standard_type<scalar_type>::type::value_type>(this->stream(), size_inbox());
         backward(input.data(), result.data(), scaling);
         return result;
-- 
2.43.0


From e21711bb11c61660926ee57f1baca08b3c945185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 04/20] fix: use the memory order of the box in the fused 2-D
 and 3-D executors

The two and three dimensional FFTW and MKL executors (and the FFTW sine/cosine
ones) took sizes, strides and distances from box.size[], ignoring box.order, so
plans without reorder on boxes stored in another order computed wrong results
and could write outside of the arrays.
---
 include/heffte_backend_fftw.h | 28 ++++++++++++++--------------
 include/heffte_backend_mkl.h  | 14 +++++++-------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/include/heffte_backend_fftw.h b/include/heffte_backend_fftw.h
index b501e8b..df8619e 100644
--- a/include/heffte_backend_fftw.h
+++ b/include/heffte_backend_fftw.h
@@ -230,7 +230,7 @@ public:
     //! \brief Merges two FFTs into one.
     template<typename index>
     fftw_executor(void*, box3d<index> const box, int dir1, int dir2) :
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))), size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count()), embed({0, 0})
     {
         int odir1 = box.find_order(dir1);
@@ -239,22 +239,22 @@ public:
         if (std::min(odir1, odir2) == 0 and std::max(odir1, odir2) == 1){
             stride = 1;
             dist = size * size2;
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<int>(box.size[2]), static_cast<int>(box.size[1] * box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<int>(box.osize(2)), static_cast<int>(box.osize(1) * box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Merges three FFTs into one.
     template<typename index>
     fftw_executor(void*, box3d<index> const box) :
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
@@ -594,7 +594,7 @@ template<typename prepost_processor> struct real2real_executor<backend::fftw, pr
     //! \brief Construct a plan for batch 2D transforms, not implemented currently.
     template<typename index>
     real2real_executor(void*, box3d<index> const box, int dir1, int dir2) :
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))), size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count()), embed({0, 0})
     {
         int odir1 = box.find_order(dir1);
@@ -603,22 +603,22 @@ template<typename prepost_processor> struct real2real_executor<backend::fftw, pr
         if (std::min(odir1, odir2) == 0 and std::max(odir1, odir2) == 1){
             stride = 1;
             dist = size * size2;
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<int>(box.size[2]), static_cast<int>(box.size[1] * box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<int>(box.osize(2)), static_cast<int>(box.osize(1) * box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Construct a plan for a single 3D transform, not implemented currently.
     template<typename index>
     real2real_executor(void*, box3d<index> const box) :
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
diff --git a/include/heffte_backend_mkl.h b/include/heffte_backend_mkl.h
index cdbc32c..7b7495b 100644
--- a/include/heffte_backend_mkl.h
+++ b/include/heffte_backend_mkl.h
@@ -195,7 +195,7 @@ public:
     //! \brief Merges two FFTs into one.
     template<typename index>
     mkl_executor(void*, box3d<index> const box, int dir1, int dir2) :
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))), size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count())
     {
         int odir1 = box.find_order(dir1);
@@ -205,23 +205,23 @@ public:
             stride = 1;
             dist = size * size2;
             embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(size)};
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
             embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(size) * static_cast<MKL_LONG>(stride)};
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(box.size[1]) * static_cast<MKL_LONG>(box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(box.osize(1)) * static_cast<MKL_LONG>(box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Merges three FFTs into one.
     template<typename index>
     mkl_executor(void*, box3d<index> const box) :
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
-- 
2.43.0


From fe65756b8fa9938ef67632d115c66b3932a89009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:48 +0000
Subject: [PATCH 05/20] fix: create the FFTW real-to-complex plans for
 out-of-place execution

The plans were created with two null arrays, i.e., in-place, but are executed
out-of-place: transforms of length 1 failed to plan (null plan dereferenced) or
left the output untouched, and the input of the forward transform was
overwritten for some lengths (e.g., 48 or 56).
---
 include/heffte_backend_fftw.h | 38 ++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/include/heffte_backend_fftw.h b/include/heffte_backend_fftw.h
index df8619e..7c4ecb7 100644
--- a/include/heffte_backend_fftw.h
+++ b/include/heffte_backend_fftw.h
@@ -357,17 +357,20 @@ struct plan_fftw<float, dir>{
      * \param rdist is the distance between the first entries of consecutive sequences in the real sequences
      * \param cdist is the distance between the first entries of consecutive sequences in the complex sequences
      */
-    plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist) :
-        plan((dir == direction::forward) ?
-             fftwf_plan_many_dft_r2c(1, &size, howmanyffts, nullptr, nullptr, stride, rdist,
-                                                   nullptr, nullptr, stride, cdist,
+    plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist){
+        // the plan is executed out-of-place, hence it must be created with distinct arrays (not accessed by FFTW_ESTIMATE)
+        alignas(64) float rdata[2] = {0, 0};
+        alignas(64) fftwf_complex cdata[1] = {{0, 0}};
+        plan = (dir == direction::forward) ?
+             fftwf_plan_many_dft_r2c(1, &size, howmanyffts, rdata, nullptr, stride, rdist,
+                                                   cdata, nullptr, stride, cdist,
                                                    FFTW_ESTIMATE
                                    ) :
-             fftwf_plan_many_dft_c2r(1, &size, howmanyffts, nullptr, nullptr, stride, cdist,
-                                                   nullptr, nullptr, stride, rdist,
+             fftwf_plan_many_dft_c2r(1, &size, howmanyffts, cdata, nullptr, stride, cdist,
+                                                   rdata, nullptr, stride, rdist,
                                                    FFTW_ESTIMATE
-                                   ))
-        {}
+                                   );
+    }
     //! \brief Identical to the float-complex specialization.
     ~plan_fftw(){ fftwf_destroy_plan(plan); }
     //! \brief Identical to the float-complex specialization.
@@ -382,17 +385,20 @@ struct plan_fftw<float, dir>{
 template<direction dir>
 struct plan_fftw<double, dir>{
     //! \brief Identical to the float-complex specialization.
-    plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist) :
-        plan((dir == direction::forward) ?
-             fftw_plan_many_dft_r2c(1, &size, howmanyffts, nullptr, nullptr, stride, rdist,
-                                                   nullptr, nullptr, stride, cdist,
+    plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist){
+        // the plan is executed out-of-place, hence it must be created with distinct arrays (not accessed by FFTW_ESTIMATE)
+        alignas(64) double rdata[2] = {0, 0};
+        alignas(64) fftw_complex cdata[1] = {{0, 0}};
+        plan = (dir == direction::forward) ?
+             fftw_plan_many_dft_r2c(1, &size, howmanyffts, rdata, nullptr, stride, rdist,
+                                                   cdata, nullptr, stride, cdist,
                                                    FFTW_ESTIMATE
                                    ) :
-             fftw_plan_many_dft_c2r(1, &size, howmanyffts, nullptr, nullptr, stride, cdist,
-                                                   nullptr, nullptr, stride, rdist,
+             fftw_plan_many_dft_c2r(1, &size, howmanyffts, cdata, nullptr, stride, cdist,
+                                                   rdata, nullptr, stride, rdist,
                                                    FFTW_ESTIMATE
-                                   ))
-        {}
+                                   );
+    }
     //! \brief Identical to the float-complex specialization.
     ~plan_fftw(){ fftw_destroy_plan(plan); }
     //! \brief Identical to the float-complex specialization.
-- 
2.43.0


From 060321a739185fbc21e499ec627e111941648648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:17 +0000
Subject: [PATCH 06/20] fix: proc_setup_min_surface tries every divisor of the
 remaining ranks

The second dimension was taken from the divisors of its upper bound rather than
the divisors of num_procs / i. When the bound is the number of indexes, valid
grids were skipped: a sub-optimal grid was returned, or none was found at all
(world 1x3x2 with 4 ranks) and {1, 1, 1} was returned for more than one rank.
---
 include/heffte_geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index e030715..d9ff603 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -668,7 +668,7 @@ inline std::array<int, 3> proc_setup_min_surface(box3d<index> const world, int n
         if (num_procs % i == 0){
             int const j_max = std::min((index)(num_procs / i), all_indexes[1]);
             for(int j=1; j<=j_max; j++){
-                if (j_max % j == 0){
+                if ((num_procs / i) % j == 0){
                     int const k = num_procs / (i * j);
                     if (k <= all_indexes[2]){
                         if (i * j * k == num_procs) {
-- 
2.43.0


From 9f1c8a4a3048d67e868cca7df08c538dbbf909be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:58 +0000
Subject: [PATCH 07/20] fix: do not truncate the overlap of large boxes in
 maximize_overlap

The number of shared indexes was stored in an int: from 2^31 indexes on the
overlap turned negative, no box was found and an invalid entry was read.
---
 include/heffte_geometry.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index d9ff603..8889b25 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -506,10 +506,10 @@ inline std::vector<box3d<index>> maximize_overlap(std::vector<box3d<index>> cons
         }
         // for each box in the result, find the box among the new_boxes
         // that has not been taken and has the largest overlap with the corresponding old box
-        int max_overlap = -1;
+        long long max_overlap = -1;
         size_t max_index = new_boxes.size();
         for(size_t j=0; j<new_boxes.size(); j++){
-            int overlap = old_boxes[i].collide(new_boxes[j]).count();
+            long long overlap = old_boxes[i].collide(new_boxes[j]).count();
             if (not taken[j] and overlap > max_overlap){
                 max_overlap = overlap;
                 max_index = j;
-- 
2.43.0


From 86ab889a728a55f7564accb4a772318d612b3327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:50 +0000
Subject: [PATCH 08/20] fix: the factor search of the stock backend includes
 the square root

The square of a prime larger than the tabulated ones was taken for a prime, and
the search for its primitive root (Rader) never ends, e.g. length 1217 * 1217.
---
 include/stock_fft/heffte_stock_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stock_fft/heffte_stock_tree.h b/include/stock_fft/heffte_stock_tree.h
index 4ecdc59..c635eef 100644
--- a/include/stock_fft/heffte_stock_tree.h
+++ b/include/stock_fft/heffte_stock_tree.h
@@ -48,7 +48,7 @@ inline size_t factor(const size_t f) {
     }
 
     // If none of those work, turn to odd numbers that are greater than the last index
-    for(k = factors[k - 1]; k*k < f; k+=2) {
+    for(k = factors[k - 1]; k*k <= f; k+=2) {
         if( f % k == 0 ) return k;
     }
 
-- 
2.43.0


From 0db50eb3cac930f001c42b58dc515350e74b5aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:06 +0000
Subject: [PATCH 09/20] fix: heffte_set_default_options left use_gpu_aware
 uninitialized

---
 src/heffte_c.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/heffte_c.cpp b/src/heffte_c.cpp
index 75bf9e1..4a9c72c 100644
--- a/src/heffte_c.cpp
+++ b/src/heffte_c.cpp
@@ -223,6 +223,7 @@ int heffte_set_default_options(int backend, heffte_plan_options *options){
     options->use_reorder = (opts.use_reorder) ? 1 : 0;
     options->algorithm = Heffte_RESHAPE_ALGORITHM_ALLTOALLV;
     options->use_pencils = (opts.use_pencils) ? 1 : 0;
+    options->use_gpu_aware = (opts.use_gpu_aware) ? 1 : 0;
     return Heffte_SUCCESS;
 }
 
-- 
2.43.0


From 2482e6272325a34d4827cbc54f063b2f5a1ca527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:40 +0000
Subject: [PATCH 10/20] fix: heffte_plan_create let exceptions escape the C
 interface and left a dangling plan

---
 src/heffte_c.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/heffte_c.cpp b/src/heffte_c.cpp
index 4a9c72c..42ff063 100644
--- a/src/heffte_c.cpp
+++ b/src/heffte_c.cpp
@@ -244,9 +244,10 @@ int heffte_plan_create(int backend, int const inbox_low[3], int const inbox_high
         heffte_set_default_options(backend, &c_opts);
         opts = &c_opts;
     }
-    heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
 
     try{
+    heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
+
     if (backend == Heffte_BACKEND_STOCK){
         (*plan)->fft = reinterpret_cast<void*>(new heffte::fft3d<heffte::backend::stock>(inbox, outbox, comm, cpp_opts));
     }
@@ -271,9 +272,9 @@ int heffte_plan_create(int backend, int const inbox_low[3], int const inbox_high
     }
     #endif
 
-    }catch(std::runtime_error &){
+    }catch(std::exception &){
         delete *plan;
-        plan = nullptr;
+        *plan = nullptr;
         return 2;
     }
 
@@ -298,9 +299,10 @@ int heffte_plan_create_r2c(int backend, int const inbox_low[3], int const inbox_
         heffte_set_default_options(backend, &c_opts);
         opts = &c_opts;
     }
-    heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
 
     try{
+    heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
+
     if (backend == Heffte_BACKEND_STOCK){
         (*plan)->fft = reinterpret_cast<void*>(new heffte::fft3d_r2c<heffte::backend::stock>(inbox, outbox, r2c_direction, comm, cpp_opts));
     }
@@ -325,9 +327,9 @@ int heffte_plan_create_r2c(int backend, int const inbox_low[3], int const inbox_
     }
     #endif
 
-    }catch(std::runtime_error &){
+    }catch(std::exception &){
         delete *plan;
-        plan = nullptr;
+        *plan = nullptr;
         return 2;
     }
 
-- 
2.43.0


From d4938b75b836d9f20d461ad5e2d0d906bbdc9f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:37 +0000
Subject: [PATCH 11/20] fix: python plan_options matches the C structure and
 the default options

---
 python/heffte.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/heffte.py b/python/heffte.py
index 4ffa2b0..cdfb1e4 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -38,13 +38,17 @@ class heffte_plan(Structure):
 LP_plan = POINTER(heffte_plan)
 
 class plan_options(Structure):
-    _fields_ = [ ("use_reorder", c_int), ("use_alltoall", c_int), ("use_pencils", c_int) ]
+    _fields_ = [ ("use_reorder", c_int), ("algorithm", c_int), ("use_pencils", c_int), ("use_gpu_aware", c_int) ]
 
 # double-check this!
 MPI_Comm = c_int if mpi._sizeof(mpi.COMM_WORLD) == sizeof(c_int) else c_void_p
 
 libheffte = cdll.LoadLibrary(libheffte_path)
 
+# default options
+libheffte.heffte_set_default_options.argtypes = [c_int, POINTER(plan_options)]
+libheffte.heffte_set_default_options.restype = c_int
+
 # create and destroy
 libheffte.heffte_plan_create.argtypes = [c_int, ndpointer(c_int, flags="C_CONTIGUOUS"), ndpointer(c_int, flags="C_CONTIGUOUS"), \
                                          ndpointer(c_int, flags="C_CONTIGUOUS"), ndpointer(c_int, flags="C_CONTIGUOUS"), \
@@ -150,7 +154,8 @@ def fft3d(backend_tag, inbox, outbox, comm):
     # Initialize
     plan.fft_comm = comm
     plan.plan = LP_plan()
-    options = plan_options(0,1,1)
+    options = plan_options()
+    libheffte.heffte_set_default_options(backend_tag, options)
 
     herr = libheffte.heffte_plan_create(backend_tag, inbox.low, inbox.high, inbox.order,
                                         outbox.low, outbox.high, outbox.order,
@@ -182,7 +187,8 @@ def fft3d_r2c(backend_tag, inbox, outbox, r2c_direction, comm):
     # Initialize
     plan.fft_comm = comm
     plan.plan = LP_plan()
-    options = plan_options(0,1,1)
+    options = plan_options()
+    libheffte.heffte_set_default_options(backend_tag, options)
 
     herr = libheffte.heffte_plan_create_r2c(backend_tag, inbox.low, inbox.high, inbox.order,
                                             outbox.low, outbox.high, outbox.order,
-- 
2.43.0


From 6359a15661f3ee58ebc026a1996736edb369b8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:37 +0000
Subject: [PATCH 12/20] fix: python backward compares the arrays with the boxes
 they belong to

---
 python/heffte.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/heffte.py b/python/heffte.py
index cdfb1e4..8a2694e 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -322,7 +322,7 @@ class heffte_fft_plan:
         if scaling not in (0, 1, 2):
             raise heffte_input_error("backward() called with invalid scaling")
 
-        if inarray.size != self.size_inbox() or outarray.size != self.size_outbox():
+        if inarray.size != self.size_outbox() or outarray.size != self.size_inbox():
             raise heffte_input_error("backward() called with invalid array size")
 
         if self.use_r2c:
@@ -365,7 +365,7 @@ class heffte_fft_plan:
         if scaling not in (0, 1, 2):
             raise heffte_input_error("backward() called with invalid scaling")
 
-        if inarray.size != self.size_inbox() or outarray.size != self.size_outbox():
+        if inarray.size != self.size_outbox() or outarray.size != self.size_inbox():
             raise heffte_input_error("backward() called with invalid array size")
 
         if self.use_r2c:
-- 
2.43.0


From b60d81909f4722009a0815d4c7b8c38e3543a8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:37 +0000
Subject: [PATCH 13/20] fix: python real-to-complex plans reject complex arrays

---
 python/heffte.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/heffte.py b/python/heffte.py
index 8a2694e..986cb7c 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -179,7 +179,7 @@ def fft3d_r2c(backend_tag, inbox, outbox, r2c_direction, comm):
         raise heffte_input_error("fft3d_r2c() called with invalid r2c_direction, must use 0, 1, or 2")
 
     plan = heffte_fft_plan()
-    plan.use_r2c = False
+    plan.use_r2c = True
 
     # Define ctypes API for each library method
     comm_value = MPI_Comm.from_address( mpi._addressof(comm) )
-- 
2.43.0


From b3cc98901c0e85ba5fe083b0bf7ea0553ccc2c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:37 +0000
Subject: [PATCH 14/20] fix: python does not destroy plans that were not
 created

---
 python/heffte.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/heffte.py b/python/heffte.py
index 986cb7c..95015c7 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -208,7 +208,8 @@ class heffte_fft_plan:
         pass
 
     def __del__(self):
-        libheffte.heffte_plan_destroy(self.plan)
+        if self.plan: # null if the plan was not created
+            libheffte.heffte_plan_destroy(self.plan)
 
     def _get_ctypes_data(self, x, xtype):
         '''
-- 
2.43.0


From 9256482e38fd88dd09e9e25dd922ef70204f11e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:59 +0000
Subject: [PATCH 15/20] fix: python proc_setup and split_world use integer
 sizes, box3d gets size and count

---
 python/heffte.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/python/heffte.py b/python/heffte.py
index 95015c7..b23c7fc 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -134,6 +134,10 @@ class box3d:
         assert self.order.size == 3
         for i in range(3):
             assert self.order[i] in [0, 1, 2]
+        self.size = self.high - self.low + 1
+
+    def count(self):
+        return int(np.prod(self.size, dtype = np.int64)) if np.all(self.size > 0) else 0
 
 def fft3d(backend_tag, inbox, outbox, comm):
     '''
@@ -443,10 +447,10 @@ def proc_setup(world, num_procs):
 
     for i in np.arange(1, num_procs+1):
         if (num_procs % i == 0):
-            remainder = num_procs / i
+            remainder = num_procs // i
             for j in np.arange(1, remainder+1):
                 if (remainder % j == 0):
-                    candidate_grid = [i, j, remainder / j]
+                    candidate_grid = [i, j, remainder // j]
                     candidate_surface = surface(candidate_grid)
                     if (candidate_surface < best_surface):
                         best_surface = candidate_surface
@@ -457,9 +461,9 @@ def proc_setup(world, num_procs):
     return best_grid
 
 def split_world(world, proc_grid):
-    fast = lambda i : world.low[0] + i * (world.size[0] / proc_grid[0]) + min(i, (world.size[0] % proc_grid[0]))
-    mid  = lambda i : world.low[1] + i * (world.size[1] / proc_grid[1]) + min(i, (world.size[1] % proc_grid[1]))
-    slow = lambda i : world.low[2] + i * (world.size[2] / proc_grid[2]) + min(i, (world.size[2] % proc_grid[2]))
+    fast = lambda i : world.low[0] + i * (world.size[0] // proc_grid[0]) + min(i, (world.size[0] % proc_grid[0]))
+    mid  = lambda i : world.low[1] + i * (world.size[1] // proc_grid[1]) + min(i, (world.size[1] % proc_grid[1]))
+    slow = lambda i : world.low[2] + i * (world.size[2] // proc_grid[2]) + min(i, (world.size[2] % proc_grid[2]))
 
     result = []
     for k in np.arange(proc_grid[2]):
-- 
2.43.0


From df4288edda3dbbaf6581edc15083d672360bf83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:59 +0000
Subject: [PATCH 16/20] fix: python heffte_input_error.print_what prints its
 message

---
 python/heffte.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/heffte.py b/python/heffte.py
index b23c7fc..4106780 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -31,7 +31,7 @@ class heffte_input_error(Exception):
         '''
         Prints the message set by the constructor.
         '''
-        print(message)
+        print(self.message)
 
 class heffte_plan(Structure):
     _fields_ = [ ("backend_type", c_int), ("using_r2c", c_int), ("fft", c_void_p) ]
-- 
2.43.0


From 88868d1aed57cbbc55347116813e30e3096d4441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:45 +0000
Subject: [PATCH 17/20] fix: python backward_buffered rejects work space that
 is too small

---
 python/heffte.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/heffte.py b/python/heffte.py
index 4106780..88a9f9e 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -373,6 +373,9 @@ class heffte_fft_plan:
         if inarray.size != self.size_outbox() or outarray.size != self.size_inbox():
             raise heffte_input_error("backward() called with invalid array size")
 
+        if workspace.size < self.size_workspace():
+            raise heffte_input_error("backward() called with insufficient workspace size")
+
         if self.use_r2c:
             if outarray.dtype == np.complex64 or outarray.dtype == np.complex128:
                 raise heffte_input_error("backward() called with r2c can use only real outarray types")
-- 
2.43.0


From 6cf775df5f527f03502ed1cd7c9879b0c5ca85a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:15 +0000
Subject: [PATCH 18/20] fix: batch forward without work space accepts the
 complex types of the back ends

---
 include/heffte_fft3d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/heffte_fft3d.h b/include/heffte_fft3d.h
index c771ba7..42879b2 100644
--- a/include/heffte_fft3d.h
+++ b/include/heffte_fft3d.h
@@ -410,7 +410,7 @@ public:
 
         auto workspace = make_buffer_container<typename transform_output<typename define_standard_type<output_type>::type, backend_tag>::type>(this->stream(), batch_size * size_workspace());
 
-        forward(batch_size, input, output, workspace.data(), scaling);
+        forward(batch_size, convert_to_standard(input), convert_to_standard(output), workspace.data(), scaling);
     }
 
     /*!
-- 
2.43.0


From e0888ab6a26bbad909ecb975ce84cee3f44b0e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:53 +0000
Subject: [PATCH 19/20] fix: mkl transforms report the errors of DftiCompute

---
 include/heffte_backend_mkl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/heffte_backend_mkl.h b/include/heffte_backend_mkl.h
index 7b7495b..c83552b 100644
--- a/include/heffte_backend_mkl.h
+++ b/include/heffte_backend_mkl.h
@@ -233,7 +233,7 @@ public:
         make_plan(cplan);
         for(int i=0; i<blocks; i++){
             float _Complex* block_data = reinterpret_cast<float _Complex*>(data + i * block_stride);
-            DftiComputeForward(*cplan, block_data);
+            check_error( DftiComputeForward(*cplan, block_data), "mkl forward");
         }
     }
     //! \brief Backward fft, float-complex case.
@@ -241,7 +241,7 @@ public:
         make_plan(cplan);
         for(int i=0; i<blocks; i++){
             float _Complex* block_data = reinterpret_cast<float _Complex*>(data + i * block_stride);
-            DftiComputeBackward(*cplan, block_data);
+            check_error( DftiComputeBackward(*cplan, block_data), "mkl backward");
         }
     }
     //! \brief Forward fft, double-complex case.
@@ -249,7 +249,7 @@ public:
         make_plan(zplan);
         for(int i=0; i<blocks; i++){
             double _Complex* block_data = reinterpret_cast<double _Complex*>(data + i * block_stride);
-            DftiComputeForward(*zplan, block_data);
+            check_error( DftiComputeForward(*zplan, block_data), "mkl forward");
         }
     }
     //! \brief Backward fft, double-complex case.
@@ -257,7 +257,7 @@ public:
         make_plan(zplan);
         for(int i=0; i<blocks; i++){
             double _Complex* block_data = reinterpret_cast<double _Complex*>(data + i * block_stride);
-            DftiComputeBackward(*zplan, block_data);
+            check_error( DftiComputeBackward(*zplan, block_data), "mkl backward");
         }
     }
 
@@ -394,7 +394,7 @@ public:
         for(int i=0; i<blocks; i++){
             float *rdata = const_cast<float*>(indata + i * rblock_stride);
             float _Complex* cdata = reinterpret_cast<float _Complex*>(outdata + i * cblock_stride);
-            DftiComputeForward(*sforward, rdata, cdata);
+            check_error( DftiComputeForward(*sforward, rdata, cdata), "mkl forward");
         }
     }
     //! \brief Backward transform, single precision.
@@ -402,7 +402,7 @@ public:
         make_plan(sbackward);
         for(int i=0; i<blocks; i++){
             float _Complex* cdata = const_cast<float _Complex*>(reinterpret_cast<float _Complex const*>(indata + i * cblock_stride));
-            DftiComputeBackward(*sbackward, cdata, outdata + i * rblock_stride);
+            check_error( DftiComputeBackward(*sbackward, cdata, outdata + i * rblock_stride), "mkl backward");
         }
     }
     //! \brief Forward transform, double precision.
@@ -411,7 +411,7 @@ public:
         for(int i=0; i<blocks; i++){
             double *rdata = const_cast<double*>(indata + i * rblock_stride);
             double _Complex* cdata = reinterpret_cast<double _Complex*>(outdata + i * cblock_stride);
-            DftiComputeForward(*dforward, rdata, cdata);
+            check_error( DftiComputeForward(*dforward, rdata, cdata), "mkl forward");
         }
     }
     //! \brief Backward transform, double precision.
@@ -419,7 +419,7 @@ public:
         make_plan(dbackward);
         for(int i=0; i<blocks; i++){
             double _Complex* cdata = const_cast<double _Complex*>(reinterpret_cast<double _Complex const*>(indata + i * cblock_stride));
-            DftiComputeBackward(*dbackward, cdata, outdata + i * rblock_stride);
+            check_error( DftiComputeBackward(*dbackward, cdata, outdata + i * rblock_stride), "mkl backward");
         }
     }
 
-- 
2.43.0


From 5d049e7b014a217f058f9132c76c3c72df63be29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:17 +0000
Subject: [PATCH 20/20] fix: fftw transforms report plans that could not be
 created

---
 include/heffte_backend_fftw.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/heffte_backend_fftw.h b/include/heffte_backend_fftw.h
index 7c4ecb7..e029ef0 100644
--- a/include/heffte_backend_fftw.h
+++ b/include/heffte_backend_fftw.h
@@ -82,6 +82,18 @@ template<> struct is_ccomplex<fftwf_complex> : std::true_type{};
  */
 template<> struct is_zcomplex<fftw_complex> : std::true_type{};
 
+/*!
+ * \ingroup hefftefftw
+ * \brief FFTW reports an error with a null plan, discard the wrapper and throw an exception.
+ */
+template<typename wrapper_type>
+void check_plan(std::unique_ptr<wrapper_type> &wrapper){
+    if (wrapper->plan == nullptr){
+        wrapper.reset();
+        throw std::runtime_error("fftw failed to create a plan");
+    }
+}
+
 /*!
  * \ingroup hefftefftw
  * \brief Base plan for fftw, using only the specialization for float and double complex.
@@ -331,6 +343,7 @@ private:
                 plan = std::unique_ptr<plan_fftw<scalar_type, dir>>(new plan_fftw<scalar_type, dir>(size, howmanyffts, stride, dist));
             else
                 plan = std::unique_ptr<plan_fftw<scalar_type, dir>>(new plan_fftw<scalar_type, dir>(size, size2, embed, howmanyffts, stride, dist));
+            check_plan(plan);
         }
     }
 
@@ -486,7 +499,10 @@ private:
     //! \brief Helper template to initialize the plan.
     template<typename scalar_type, direction dir>
     void make_plan(std::unique_ptr<plan_fftw<scalar_type, dir>> &plan) const{
-        if (!plan) plan = std::unique_ptr<plan_fftw<scalar_type, dir>>(new plan_fftw<scalar_type, dir>(size, howmanyffts, stride, rdist, cdist));
+        if (!plan){
+            plan = std::unique_ptr<plan_fftw<scalar_type, dir>>(new plan_fftw<scalar_type, dir>(size, howmanyffts, stride, rdist, cdist));
+            check_plan(plan);
+        }
     }
 
     int size, howmanyffts, stride, blocks;
@@ -677,6 +693,7 @@ private:
                 plan = std::unique_ptr<plan_fftw_r2r<scalar_type, prepost_processor, dir>>(new plan_fftw_r2r<scalar_type, prepost_processor, dir>(size, howmanyffts, stride, dist));
             else
                 plan = std::unique_ptr<plan_fftw_r2r<scalar_type, prepost_processor, dir>>(new plan_fftw_r2r<scalar_type, prepost_processor, dir>(size, size2, embed, howmanyffts, stride, dist));
+            check_plan(plan);
         }
     }
 
-- 
2.43.0

