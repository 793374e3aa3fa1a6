From 27081ddd609cd8060c891d7eda8855af76c8d985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:57 +0000
Subject: [PATCH 01/35] fix: return the computed weight for the alpha-mask
 component of material::mixture_wavefrontobj

The pass-through component computed C = f/p = 1-alpha but returned 1, so the
product with the component-selection weight 1/(1-alpha) was not 1.
---
 src/model/model_wavefrontobj.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index 343c9a8..74b9bcb 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -471,7 +471,7 @@ public:
             const auto C = f / p;
             return DirectionSample{
                 wo,
-                Vec3(1_f)
+                C
             };
         }
     }
-- 
2.43.0


From 8bdd9d7fdfab993c07e13dedc6436f849d8cba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:47 +0000
Subject: [PATCH 02/35] fix: convert the sampling density of area lights with
 the actual change of surface area

The inverse area of light::area was divided by |det M|, which is the change of volume, so lights on
scaled meshes reported (and divided by) a wrong density.
---
 src/light/light_area.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/light/light_area.cpp b/src/light/light_area.cpp
index c2803f9..0c675c7 100644
--- a/src/light/light_area.cpp
+++ b/src/light/light_area.cpp
@@ -37,11 +37,11 @@ public:
     }
 
 private:
-    Float tranformed_invA(const Transform& transform) const {
-        // TODO: Handle degenerated axis
-        // e.g., scaling by (.2,.2,.2) leads J=1/5^3
-        // but the actual change of areae is J=1/5^2
-        return invA_ / transform.J;
+    // Inverse area in the world coordinates at the point with the geometry normal gn.
+    // The area of the surface element with the (world space) normal gn
+    // is scaled by |det(M_lin)| / |M_lin^T gn|.
+    Float tranformed_invA(Vec3 gn, const Transform& transform) const {
+        return invA_ * glm::length(glm::transpose(Mat3(transform.M)) * gn) / transform.J;
     }
 
     PointGeometry sample_position_on_triangle_mesh(Vec2 up, Float upc, const Transform& transform) const {
@@ -78,7 +78,7 @@ public:
     virtual std::optional<RaySample> sample_ray(const RaySampleU& us, const Transform& transform) const override {
         // Sample position
         const auto geomL = sample_position_on_triangle_mesh(us.up, us.upc, transform);
-        const auto pA = tranformed_invA(transform);
+        const auto pA = tranformed_invA(geomL.gn, transform);
         
         // Sample direction
         const auto wo_local = math::sample_cosine_weighted(us.ud);
@@ -132,15 +132,15 @@ public:
 
     virtual std::optional<PositionSample> sample_position(const PositionSampleU& us, const Transform& transform) const override {
         const auto geomL = sample_position_on_triangle_mesh(us.up, us.upc, transform);
-        const auto pA = tranformed_invA(transform);
+        const auto pA = tranformed_invA(geomL.gn, transform);
         return PositionSample{
             geomL,
             Vec3(1_f / pA)
         };
     }
 
-    virtual Float pdf_position(const PointGeometry&, const Transform& transform) const override {
-        return tranformed_invA(transform);
+    virtual Float pdf_position(const PointGeometry& geom, const Transform& transform) const override {
+        return tranformed_invA(geom.gn, transform);
     }
 
     // --------------------------------------------------------------------------------------------
@@ -165,7 +165,7 @@ public:
             return 0_f;
         }
         const auto G = surface::geometry_term(geom, geomL);
-        return G == 0_f ? 0_f : tranformed_invA(transform) / G;
+        return G == 0_f ? 0_f : tranformed_invA(geomL.gn, transform) / G;
     }
 
     // --------------------------------------------------------------------------------------------
-- 
2.43.0


From b510c460eb30d572f9ae46809d67827a6ca3f80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:07 +0000
Subject: [PATCH 03/35] fix: weight rows of the environment map by their own
 elevation when building the sampling distribution

---
 src/light/light_env.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/light/light_env.cpp b/src/light/light_env.cpp
index bdcefd2..ae4db75 100644
--- a/src/light/light_env.cpp
+++ b/src/light/light_env.cpp
@@ -67,7 +67,7 @@ public:
             const int x = i % w;
             const int y = i / w;
             const auto v = envmap_->eval_by_pixel_coords(x, y) * scale_;
-            ls[i] = glm::compMax(v) * std::sin(Pi * (Float(i) / w + .5_f) / h);
+            ls[i] = glm::compMax(v) * std::sin(Pi * (Float(y) + .5_f) / h);
         }
         dist_.init(ls, w, h);
     }
-- 
2.43.0


From 3476d73c4f85e8750afe467afc73a7e26df7fbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:33 +0000
Subject: [PATCH 04/35] fix: initialise the up and center vectors of a pinhole
 camera created from a matrix

---
 src/camera/camera_pinhole.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/camera/camera_pinhole.cpp b/src/camera/camera_pinhole.cpp
index 3a00e78..31d2443 100644
--- a/src/camera/camera_pinhole.cpp
+++ b/src/camera/camera_pinhole.cpp
@@ -82,6 +82,8 @@ public:
             u_ = -viewM3[0];
             v_ = viewM3[1];
             w_ = -viewM3[2];
+            center_ = position_ - w_;
+            up_ = v_;
         }
         else {
             position_ = json::value<Vec3>(prop, "position"); // Camera position
-- 
2.43.0


From 31d2c5607f7b8cb88053d56375a8cf122a43e495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:33 +0000
Subject: [PATCH 05/35] fix: divide the weight of a light position sample by
 the light selection probability

---
 include/lm/path.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lm/path.h b/include/lm/path.h
index 1a1ddaf..bdec906 100644
--- a/include/lm/path.h
+++ b/include/lm/path.h
@@ -293,7 +293,7 @@ static std::optional<PositionSample> sample_position(const PositionSampleU& u, c
                 light_primitive_index.index,
                 s->geom
             ),
-            s->weight
+            s->weight / p_sel
         };
     }
     LM_UNREACHABLE_RETURN();
-- 
2.43.0


From 127f5d8c4e7231d2fa30cea0c3f95ae0235c3bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:33 +0000
Subject: [PATCH 06/35] fix: treat a scene without medium as vacuum in
 path::sample_distance

---
 include/lm/path.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/lm/path.h b/include/lm/path.h
index bdec906..adafeb3 100644
--- a/include/lm/path.h
+++ b/include/lm/path.h
@@ -612,14 +612,15 @@ static std::optional<DistanceSample> sample_distance(Rng& rng, const Scene* scen
     const auto hit = scene->intersect({ sp.geom.p, wo }, Eps, Inf);
     const auto dist = hit && !hit->geom.infinite ? glm::length(hit->geom.p - sp.geom.p) : Inf;
 
-    // Sample a distance
-    const auto* medium = scene->node_at(scene->medium_node()).primitive.medium;
-    const auto ds = medium->sample_distance(rng, { sp.geom.p, wo }, 0_f, dist);
+    // Sample a distance. The space is vacuum if the scene contains no medium.
+    const int medium_index = scene->medium_node();
+    const auto* medium = medium_index == -1 ? nullptr : scene->node_at(medium_index).primitive.medium;
+    const auto ds = medium ? medium->sample_distance(rng, { sp.geom.p, wo }, 0_f, dist) : std::nullopt;
     if (ds && ds->medium) {
         // Medium interaction
         return DistanceSample{
             SceneInteraction::make_medium_interaction(
-                scene->medium_node(),
+                medium_index,
                 PointGeometry::make_degenerated(ds->p)
             ),
             ds->weight
-- 
2.43.0


From f6725b090b31b3d30c76829f43ba47e0ae83a749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:08 +0000
Subject: [PATCH 07/35] fix: keep probabilities of distributions without mass
 zero instead of NaN

---
 include/lm/math.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lm/math.h b/include/lm/math.h
index 3b23371..1b5002d 100644
--- a/include/lm/math.h
+++ b/include/lm/math.h
@@ -345,6 +345,10 @@ struct Dist {
     */
     void norm() {
         const auto sum = c.back();
+        if (sum == 0_f) {
+            // A distribution without mass keeps zero probabilities
+            return;
+        }
         for (auto& v : c) {
             v /= sum;
         }
-- 
2.43.0


From 492a145c3f8e2cbb9f807e2f27f168f7566875a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:09 +0000
Subject: [PATCH 08/35] fix: let the right edge belong to the last column of a
 two-dimensional distribution

---
 include/lm/math.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lm/math.h b/include/lm/math.h
index 1b5002d..e9e7349 100644
--- a/include/lm/math.h
+++ b/include/lm/math.h
@@ -420,7 +420,8 @@ struct Dist2 {
     */
     Float pdf(Float u, Float v) const {
         const int y = std::min(int(v * h), h - 1);
-        return m.pmf(y) * ds[y].pmf(int(u * w)) * w * h;
+        const int x = std::min(int(u * w), w - 1);
+        return m.pmf(y) * ds[y].pmf(x) * w * h;
     }
 
     /*!
-- 
2.43.0


From bae77f0745497ecc4a93a9202ad9d03594859046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:15 +0000
Subject: [PATCH 09/35] fix: let the bound of the gaussian volume scale with
 its standard deviation

---
 src/volume/volume_gaussian.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/volume/volume_gaussian.cpp b/src/volume/volume_gaussian.cpp
index 1fc4cee..9789f3a 100644
--- a/src/volume/volume_gaussian.cpp
+++ b/src/volume/volume_gaussian.cpp
@@ -51,7 +51,7 @@ public:
     Bound computeBound(const Vec3 &sigma) const {
         auto compAC = [&](Float s) -> Float {
             //the first 2._f is empirical: when scalar is large, Eps is not enough
-            return 2._f*sqrt(-2._f*s*std::log(Eps)); };
+            return 2._f*s*sqrt(-2._f*std::log(Eps)); };
         Float ac = std::max(std::max(compAC(sigma.x), compAC(sigma.y)), compAC(sigma.z));
         Bound b;
         b.max = pos_ + ac;
-- 
2.43.0


From d06fb14ffeaf45a8e65bf29cfaa59367a146f580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:04 +0000
Subject: [PATCH 10/35] fix: progress counter of parallel::openmp carried over
 between loops

---
 src/parallel/parallel_openmp.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parallel/parallel_openmp.cpp b/src/parallel/parallel_openmp.cpp
index a670d2c..aa832ff 100644
--- a/src/parallel/parallel_openmp.cpp
+++ b/src/parallel/parallel_openmp.cpp
@@ -45,7 +45,8 @@ public:
 
         // Execute parallel loop
         std::atomic<long long> processed = 0;
-        #pragma omp parallel for schedule(dynamic, 1)
+        long long count = 0;	// Number of samples processed by a thread but not yet added to the total
+        #pragma omp parallel for schedule(dynamic, 1) firstprivate(count)
         for (long long i = 0; i < numSamples; i++) {
             // Spin the loop if cancellation is requested
             if (done) {
@@ -74,7 +75,7 @@ public:
                 processFunc(i, thread_id);
 
                 // Update processed number of samples
-                if (thread_local long long count = 0; ++count >= progress_update_interval_) {
+                if (++count >= progress_update_interval_) {
                     processed += count;
                     count = 0;
                 }
-- 
2.43.0


From 27f365680205c428ff249c74b5968c1e6392d77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:44 +0000
Subject: [PATCH 11/35] fix: texture::bitmap read color of grayscale images
 from neighbouring pixels and past the end

---
 src/texture/texture_bitmap.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/texture/texture_bitmap.cpp b/src/texture/texture_bitmap.cpp
index a10d9f9..cceaea8 100644
--- a/src/texture/texture_bitmap.cpp
+++ b/src/texture/texture_bitmap.cpp
@@ -71,12 +71,12 @@ public:
         const int x = std::clamp(int(u * w_), 0, w_ - 1);
         const int y = std::clamp(int(v * h_), 0, h_ - 1);
         const int i = w_ * y + x;
-        return Vec3(data_[c_*i], data_[c_*i+1], data_[c_*i+2]);
+        return color_at(i);
     }
 
     virtual Vec3 eval_by_pixel_coords(int x, int y) const override {
         const int i = w_*y + x;
-        return Vec3(data_[c_*i], data_[c_*i+1], data_[c_*i+2]);
+        return color_at(i);
     }
 
     virtual Float eval_alpha(Vec2 t) const override {
@@ -95,6 +95,12 @@ public:
     virtual TextureBuffer buffer() override {
         return { w_, h_, c_, data_.data() };
     }
+
+private:
+    // Color of the i-th pixel. Grayscale images (with or without alpha) have a single color component.
+    Vec3 color_at(int i) const {
+        return c_ < 3 ? Vec3(data_[c_*i]) : Vec3(data_[c_*i], data_[c_*i+1], data_[c_*i+2]);
+    }
 };
 
 LM_COMP_REG_IMPL(Texture_Bitmap, "texture::bitmap");
-- 
2.43.0


From 662cfbdfe5ab053e84564741d2c6edc430806051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:20 +0000
Subject: [PATCH 12/35] fix: data race on the termination flag of the BVH
 construction

---
 src/accel/accel_sahbvh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/accel/accel_sahbvh.cpp b/src/accel/accel_sahbvh.cpp
index 33ab6b0..c291cbc 100644
--- a/src/accel/accel_sahbvh.cpp
+++ b/src/accel/accel_sahbvh.cpp
@@ -167,7 +167,7 @@ public:
         std::condition_variable cv;     // For concurrent queue
         std::atomic<int> pr = 0;        // Processed triangles
         std::atomic<int> nn = 1;        // Number of current nodes
-        bool done = 0;                  // True if the build process is done
+        std::atomic<bool> done = false; // True if the build process is done
 
         auto process = [&]() {
             while (!done) {
-- 
2.43.0


From 6de8cec93b0c42333af6306e3b2d4a85fa84302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:20 +0000
Subject: [PATCH 13/35] fix: building the BVH of a scene without triangles
 threw length_error

---
 src/accel/accel_sahbvh.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/accel/accel_sahbvh.cpp b/src/accel/accel_sahbvh.cpp
index c291cbc..7a7b03f 100644
--- a/src/accel/accel_sahbvh.cpp
+++ b/src/accel/accel_sahbvh.cpp
@@ -153,6 +153,12 @@ public:
         // --------------------------------------------------------------------
 
         const int nt = int(trs_.size()); // Number of triangles
+        if (nt == 0) {
+            // Nothing to build
+            nodes_.clear();
+            indices_.clear();
+            return;
+        }
         struct Entry {
             int index;
             int start;
@@ -268,6 +274,9 @@ public:
 
     virtual std::optional<Hit> intersect(Ray ray, Float tmin, Float tmax) const override {
         exception::ScopedDisableFPEx guard_;  // Disable floating point exceptions
+        if (nodes_.empty()) {
+            return {};
+        }
         std::optional<Tri::Hit> mh, h;
         int mi = -1;
         int s[99]{};
-- 
2.43.0


From c212d5d47fb6d18c1c8b06e3c9378bcf0fc369ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:05 +0000
Subject: [PATCH 14/35] fix: traversal stack of the BVH overflowed with deep
 trees

---
 src/accel/accel_sahbvh.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/accel/accel_sahbvh.cpp b/src/accel/accel_sahbvh.cpp
index 7a7b03f..a7a359e 100644
--- a/src/accel/accel_sahbvh.cpp
+++ b/src/accel/accel_sahbvh.cpp
@@ -113,6 +113,7 @@ struct Node {
 */
 class Accel_SAHBVH final : public Accel {
 private:
+    static constexpr int MaxDepth = 98;                   // Maximum depth of the tree. The traversal stack depends on it.
     std::vector<Node> nodes_;                             // Nodes
     std::vector<Tri> trs_;                                // Triangles
     std::vector<int> indices_;                            // Triangle indices
@@ -163,9 +164,10 @@ public:
             int index;
             int start;
             int end;
+            int depth;
         };
         std::queue<Entry> q;            // Queue for traversal (node index, start, end)
-        q.push({0, 0, nt});             // Initialize the queue with root node
+        q.push({0, 0, nt, 0});          // Initialize the queue with root node
         nodes_.assign(2*nt-1, {});      // Maximum number of nodes: 2*nt-1
         indices_.assign(nt, 0);
         std::iota(indices_.begin(), indices_.end(), 0);
@@ -178,7 +180,7 @@ public:
         auto process = [&]() {
             while (!done) {
                 // Each step construct a node for the triangles ranges in [s,e)
-                auto [ni, s, e] = [&]() -> Entry {
+                auto [ni, s, e, depth] = [&]() -> Entry {
                     std::unique_lock<std::mutex> lk(mu);
                     if (!done && q.empty()) {
                         cv.wait(lk, [&]() { return done || !q.empty(); });
@@ -221,8 +223,8 @@ public:
                     }
                 };
 
-                // Create a leaf node if the number of triangle is 1
-                if (e - s < 2) {
+                // Create a leaf node if the number of triangle is 1 or the tree is too deep
+                if (e - s < 2 || depth >= MaxDepth) {
                     make_leaf();
                     continue;
                 }
@@ -257,8 +259,8 @@ public:
                 st(ba);
                 int m = s + bi;
                 std::unique_lock<std::mutex> lk(mu);
-                q.push({n.c1 = nn++, s, m});
-                q.push({n.c2 = nn++, m, e});
+                q.push({n.c1 = nn++, s, m, depth + 1});
+                q.push({n.c2 = nn++, m, e, depth + 1});
                 cv.notify_one();
             }
         };
@@ -279,7 +281,7 @@ public:
         }
         std::optional<Tri::Hit> mh, h;
         int mi = -1;
-        int s[99]{};
+        int s[MaxDepth + 1]{};
         int si = 0;
         while (si >= 0) {
             auto& n = nodes_.at(s[si--]);
-- 
2.43.0


From 64a2c94df75696912e4badd7fc73cbd56070b78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:12 +0000
Subject: [PATCH 15/35] fix: Bound::isect_range lost its range for rays lying
 on a face of the bound

---
 include/lm/math.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lm/math.h b/include/lm/math.h
index e9e7349..bbdad8e 100644
--- a/include/lm/math.h
+++ b/include/lm/math.h
@@ -148,8 +148,9 @@ struct Bound {
             if (vd < 0) {
                 std::swap(t1, t2);
             }
-            tmin = glm::max(t1, tmin);
-            tmax = glm::min(t2, tmax);
+            // t1 or t2 is NaN if the ray lies on a face of the bound, where the order of arguments matters
+            tmin = glm::max(tmin, t1);
+            tmax = glm::min(tmax, t2);
             if (tmax < tmin) {
                 return false;
             }
-- 
2.43.0


From 1acfbf423c79b1bd537925fda8fc4bf6bf354997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:50 +0000
Subject: [PATCH 16/35] fix: texture::constant lost its alpha when saved and
 loaded

---
 src/texture/texture_constant.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/texture/texture_constant.cpp b/src/texture/texture_constant.cpp
index 48c0414..e58fa41 100644
--- a/src/texture/texture_constant.cpp
+++ b/src/texture/texture_constant.cpp
@@ -26,7 +26,7 @@ private:
 
 public:
 	LM_SERIALIZE_IMPL(ar) {
-		ar(color_);
+		ar(color_, alpha_);
 	}
 
 public:
-- 
2.43.0


From 92e78baa0ed7a0ad2acd83f70b1e7d87ef6ff387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:51 +0000
Subject: [PATCH 17/35] fix: volume::constant lost its color and scalar when
 saved and loaded

---
 src/volume/volume_constant.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/volume/volume_constant.cpp b/src/volume/volume_constant.cpp
index 1186288..22b60ef 100644
--- a/src/volume/volume_constant.cpp
+++ b/src/volume/volume_constant.cpp
@@ -29,7 +29,7 @@ private:
 
 public:
 	LM_SERIALIZE_IMPL(ar) {
-		ar(bound_);
+		ar(bound_, color_, scalar_);
 	}
 
 public:
-- 
2.43.0


From 5af85d30550f9634467881713fd2114f049c951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:51 +0000
Subject: [PATCH 18/35] fix: medium::homogeneous lost its albedo when saved and
 loaded

---
 src/medium/medium_homogeneous.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/medium/medium_homogeneous.cpp b/src/medium/medium_homogeneous.cpp
index 62839cb..59cbce2 100644
--- a/src/medium/medium_homogeneous.cpp
+++ b/src/medium/medium_homogeneous.cpp
@@ -34,7 +34,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(density_, muA_, muS_, phase_, bound_);
+        ar(density_, albedo_, muA_, muS_, phase_, bound_);
     }
 
 public:
-- 
2.43.0


From e82e50fc9da3f50534820ee8ade2396b63278128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:51 +0000
Subject: [PATCH 19/35] fix: light::env lost its scale when saved and loaded

---
 src/light/light_env.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/light/light_env.cpp b/src/light/light_env.cpp
index ae4db75..1f15fae 100644
--- a/src/light/light_env.cpp
+++ b/src/light/light_env.cpp
@@ -33,7 +33,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(sphere_bound_, envmap_, rot_, dist_);
+        ar(sphere_bound_, envmap_, rot_, scale_, dist_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visitor) override {
-- 
2.43.0


From a993f66cef01a397fe6f58172204615b2a0440cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:51 +0000
Subject: [PATCH 20/35] fix: scene lost its medium when saved and loaded, and
 kept a stale reference to a replaced medium

---
 src/scene.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scene.cpp b/src/scene.cpp
index a10acf8..f3d8556 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -29,7 +29,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(accel_, nodes_, camera_, lights_, light_indices_map_, env_light_);
+        ar(accel_, nodes_, camera_, lights_, light_indices_map_, env_light_, medium_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
@@ -40,6 +40,7 @@ public:
                 comp::visit(visit, node.primitive.material);
                 comp::visit(visit, node.primitive.light);
                 comp::visit(visit, node.primitive.camera);
+                comp::visit(visit, node.primitive.medium);
             }
         }
     }
-- 
2.43.0


From 7b9b61347212358c986e1206d255aa2a4b801522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:45 +0000
Subject: [PATCH 21/35] fix: media and volume::multi kept stale references to
 replaced phase and volume assets

---
 src/medium/medium_heterogeneous.cpp | 12 +++++++++---
 src/medium/medium_homogeneous.cpp   |  6 +++++-
 src/volume/volume_multi.cpp         |  9 +++++++++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/medium/medium_heterogeneous.cpp b/src/medium/medium_heterogeneous.cpp
index 4731d4d..7fabc20 100644
--- a/src/medium/medium_heterogeneous.cpp
+++ b/src/medium/medium_heterogeneous.cpp
@@ -25,15 +25,21 @@ LM_NAMESPACE_BEGIN(LM_NAMESPACE)
 */
 class Medium_Heterogeneous final : public Medium {
 private:
-    const Volume* volume_density_;  // Density volume. density := \mu_t = \mu_a + \mu_s
-    const Volume* volme_albedo_;	// Albedo volume. albedo := \mu_s / \mu_t
-    const Phase* phase_;            // Underlying phase function.
+    Volume* volume_density_;        // Density volume. density := \mu_t = \mu_a + \mu_s
+    Volume* volme_albedo_;          // Albedo volume. albedo := \mu_s / \mu_t
+    Phase* phase_;                  // Underlying phase function.
 
 public:
     LM_SERIALIZE_IMPL(ar) {
         ar(volume_density_, volme_albedo_, phase_);
     }
 
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, volume_density_);
+        comp::visit(visit, volme_albedo_);
+        comp::visit(visit, phase_);
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         volume_density_ = json::comp_ref<Volume>(prop, "volume_density");
diff --git a/src/medium/medium_homogeneous.cpp b/src/medium/medium_homogeneous.cpp
index 59cbce2..55f9678 100644
--- a/src/medium/medium_homogeneous.cpp
+++ b/src/medium/medium_homogeneous.cpp
@@ -29,7 +29,7 @@ private:
     Vec3 albedo_;           // Albedo of volume := \mu_s / \mu_t
     Vec3 muA_;              // Absorption coefficient.
     Vec3 muS_;              // Scattering coefficient.
-    const Phase* phase_;    // Underlying phase function.
+    Phase* phase_;          // Underlying phase function.
     Bound bound_;
 
 public:
@@ -37,6 +37,10 @@ public:
         ar(density_, albedo_, muA_, muS_, phase_, bound_);
     }
 
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, phase_);
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         density_ = json::value<Float>(prop, "density");
diff --git a/src/volume/volume_multi.cpp b/src/volume/volume_multi.cpp
index 03bafce..93fd841 100644
--- a/src/volume/volume_multi.cpp
+++ b/src/volume/volume_multi.cpp
@@ -32,6 +32,15 @@ public:
         ar(bound_, max_scalar_, size_, volumes_den_, volumes_alb_);
     }
 
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        for (auto& v : volumes_den_) {
+            comp::visit(visit, v);
+        }
+        for (auto& v : volumes_alb_) {
+            comp::visit(visit, v);
+        }
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         // Currently no straightforward way to use json::comp_ref<Volume>() on an array
-- 
2.43.0


From bd9587f9f2385036d3936509e73cd8f6f198d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:45 +0000
Subject: [PATCH 22/35] fix: renderers could not be saved and loaded without
 losing their scheduler or settings

---
 src/renderer/renderer_bdpt.cpp    | 18 ++++++++++++++++++
 src/renderer/renderer_bdptopt.cpp | 18 ++++++++++++++++++
 src/renderer/renderer_lt.cpp      |  7 +++++++
 src/renderer/renderer_pt.cpp      |  9 ++++++++-
 src/renderer/renderer_raycast.cpp |  2 +-
 src/renderer/renderer_volpt.cpp   |  9 ++++++++-
 6 files changed, 60 insertions(+), 3 deletions(-)

diff --git a/src/renderer/renderer_bdpt.cpp b/src/renderer/renderer_bdpt.cpp
index d3aedfa..872a0cd 100644
--- a/src/renderer/renderer_bdpt.cpp
+++ b/src/renderer/renderer_bdpt.cpp
@@ -44,6 +44,24 @@ public:
     std::optional<unsigned int> seed_;              // Random seed
     Component::Ptr<scheduler::Scheduler> sched_;    // Scheduler for parallel processing
 
+public:
+    LM_SERIALIZE_IMPL(ar) {
+        ar(scene_, film_, min_verts_, max_verts_, seed_, sched_);
+    }
+
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, scene_);
+        comp::visit(visit, film_);
+        comp::visit(visit, sched_);
+    }
+
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
diff --git a/src/renderer/renderer_bdptopt.cpp b/src/renderer/renderer_bdptopt.cpp
index c4d2435..c7a9d7a 100644
--- a/src/renderer/renderer_bdptopt.cpp
+++ b/src/renderer/renderer_bdptopt.cpp
@@ -433,6 +433,24 @@ private:
     std::unordered_map<std::string, Film*> strategy_film_name_map_;
     #endif
 
+public:
+    LM_SERIALIZE_IMPL(ar) {
+        ar(scene_, film_, min_verts_, max_verts_, seed_, sched_);
+    }
+
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, scene_);
+        comp::visit(visit, film_);
+        comp::visit(visit, sched_);
+    }
+
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
diff --git a/src/renderer/renderer_lt.cpp b/src/renderer/renderer_lt.cpp
index d22038e..ea2e9ed 100644
--- a/src/renderer/renderer_lt.cpp
+++ b/src/renderer/renderer_lt.cpp
@@ -34,6 +34,13 @@ public:
         comp::visit(visit, sched_);
     }
 
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
diff --git a/src/renderer/renderer_pt.cpp b/src/renderer/renderer_pt.cpp
index 4427681..f9dd68a 100644
--- a/src/renderer/renderer_pt.cpp
+++ b/src/renderer/renderer_pt.cpp
@@ -38,7 +38,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(scene_, film_, max_verts_, sampling_mode_, sched_);
+        ar(scene_, film_, max_verts_, seed_, sampling_mode_, primary_ray_sampling_mode_, sched_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
@@ -47,6 +47,13 @@ public:
         comp::visit(visit, sched_);
     }
 
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
diff --git a/src/renderer/renderer_raycast.cpp b/src/renderer/renderer_raycast.cpp
index ed2fbd9..5667438 100644
--- a/src/renderer/renderer_raycast.cpp
+++ b/src/renderer/renderer_raycast.cpp
@@ -28,7 +28,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(scene_, film_, bg_color_, use_constant_color_, visualize_normal_, sched_);
+        ar(scene_, film_, bg_color_, use_constant_color_, visualize_normal_, color_, sched_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
diff --git a/src/renderer/renderer_volpt.cpp b/src/renderer/renderer_volpt.cpp
index 4fc1743..e60f1c3 100644
--- a/src/renderer/renderer_volpt.cpp
+++ b/src/renderer/renderer_volpt.cpp
@@ -27,7 +27,7 @@ protected:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(scene_, film_, max_verts_, rr_prob_, sched_);
+        ar(scene_, film_, max_verts_, rr_prob_, seed_, sched_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
@@ -36,6 +36,13 @@ public:
         comp::visit(visit, sched_);
     }
 
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
-- 
2.43.0


From 02a7cbde93eda4b5976ef82cce866b72baf876ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:45 +0000
Subject: [PATCH 23/35] fix: references to assets whose name starts with the
 name of the saved asset were taken as internal

---
 include/lm/serial.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/lm/serial.h b/include/lm/serial.h
index 3fbf2ca..0284a47 100644
--- a/include/lm/serial.h
+++ b/include/lm/serial.h
@@ -21,6 +21,16 @@
 
 //! \cond
 
+LM_NAMESPACE_BEGIN(LM_NAMESPACE::serial::detail)
+
+// Check if loc refers to the component at root_loc or one of its underlying components
+inline bool in_subtree(const std::string& loc, const std::string& root_loc) {
+    return loc.rfind(root_loc, 0) == 0
+        && (loc.size() == root_loc.size() || loc[root_loc.size()] == '.');
+}
+
+LM_NAMESPACE_END(LM_NAMESPACE::serial::detail)
+
 LM_NAMESPACE_BEGIN(cereal)
 
 /*
@@ -136,7 +146,7 @@ void save_owned(Archive& ar, T* p) {
 
             // Consistency testing
             // Current locator must start with root_loc
-            if (loc.rfind(root_loc, 0) != 0) {
+            if (!lm::serial::detail::in_subtree(loc, root_loc)) {
                 LM_THROW_EXCEPTION(lm::Error::IOError,
                     "Unserializable asset. Subtree contains a reference to the outer asset. [loc='{}']", loc);
             }
@@ -252,7 +262,7 @@ serialize(lm::OutputArchive& ar, T*& p) {
 
             // Consistency testing
             // Current locator must start with root_loc
-            if (loc.rfind(root_loc, 0) != 0) {
+            if (!lm::serial::detail::in_subtree(loc, root_loc)) {
                 LM_THROW_EXCEPTION(lm::Error::IOError,
                     "Unserializable asset. Subtree contains a reference to the outer asset. [loc='{}']", loc);
             }
@@ -371,7 +381,7 @@ save_comp_owned(std::ostream& stream, T* comp, const std::string& root_loc) {
             // Check if the weak reference is referring to an asset in the subtree
             // by checking if the locator starts with root_loc.
             const auto loc = visiting_comp->loc();
-            if (loc.rfind(root_loc, 0) != 0) {
+            if (!detail::in_subtree(loc, root_loc)) {
                 LM_THROW_EXCEPTION(Error::Unsupported,
                     "Unserializable asset. Subtree contains a reference to the outer asset. [loc='{}']", loc);
             }
-- 
2.43.0


From a9d9a05e29971495510812c7f524486427827a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:45 +0000
Subject: [PATCH 24/35] fix: looking up an unknown asset in a model threw
 instead of returning nullptr

---
 src/model/model_wavefrontobj.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index 74b9bcb..ea4114d 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -68,7 +68,12 @@ public:
 
 public:
     virtual Component* underlying(const std::string& name) const override {
-        return assets_[assets_map_.at(name)].get();
+        const auto it = assets_map_.find(name);
+        if (it == assets_map_.end()) {
+            LM_ERROR("Invalid asset name [name='{}']", name);
+            return nullptr;
+        }
+        return assets_[it->second].get();
     }
 
 	virtual void construct(const Json& prop) override {
-- 
2.43.0


From 5348d3096f846d635aabb020f45599c4ec0ddf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:39 +0000
Subject: [PATCH 25/35] fix: a failed load_asset left a half-constructed asset
 registered, or destroyed the asset it was to replace

---
 src/assetgroup.cpp | 45 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/assetgroup.cpp b/src/assetgroup.cpp
index 7f33502..81b503c 100644
--- a/src/assetgroup.cpp
+++ b/src/assetgroup.cpp
@@ -41,6 +41,13 @@ private:
         return std::regex_match(name, match, regex);
     }
 
+    // Unregister the asset that could not be initialized
+    void unregister_asset(const std::string& name) {
+        const auto it = asset_index_map_.find(name);
+        assets_[it->second].reset();
+        asset_index_map_.erase(it);
+    }
+
 public:
     virtual Component* load_asset(const std::string& name, const std::string& impl_key, const Json& prop) override {
         LM_INFO("Loading asset [name='{}']", name);
@@ -74,15 +81,23 @@ public:
             // Move existing instance
             // This must not be released until the end of this scope
             // because weak references needs to find locator in the existing instance.
-            auto old = std::move(assets_[it->second]);
+            const int index = it->second;
+            auto old = std::move(assets_[index]);
 
             // Replace the existing instance
-            assets_[it->second] = std::move(p);
-            asset = assets_[it->second].get();
+            assets_[index] = std::move(p);
+            asset = assets_[index].get();
 
             // Initialize the asset
-            // This might cause an exception
-            asset->construct(prop);
+            // This might cause an exception. In this case recover the existing instance,
+            // because it can be referred by the other assets.
+            try {
+                asset->construct(prop);
+            }
+            catch (...) {
+                std::swap(assets_[index], old);
+                throw;
+            }
 
             // Notify to update the weak references in the object tree
             const Component::ComponentVisitor visitor = [&](Component*& comp, bool weak) {
@@ -109,7 +124,14 @@ public:
             asset = assets_.back().get();
 
             // Initialize the asset
-            asset->construct(prop);
+            // This might cause an exception. In this case unregister the asset.
+            try {
+                asset->construct(prop);
+            }
+            catch (...) {
+                unregister_asset(name);
+                throw;
+            }
         }
 
         return asset;
@@ -131,8 +153,15 @@ public:
         assets_.emplace_back();
      
         // Deserialize the asset
-        std::ifstream is(path, std::ios::in | std::ios::binary);
-        serial::load_comp(is, assets_.back(), make_loc(name));
+        // This might cause an exception. In this case unregister the asset.
+        try {
+            std::ifstream is(path, std::ios::in | std::ios::binary);
+            serial::load_comp(is, assets_.back(), make_loc(name));
+        }
+        catch (...) {
+            unregister_asset(name);
+            throw;
+        }
 
         return assets_.back().get();
     }
-- 
2.43.0


From f4854d346166fac67418042606fb8b2c8f45c71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:39 +0000
Subject: [PATCH 26/35] fix: comp::create leaked the instance when it doesn't
 implement the requested interface

---
 include/lm/component.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/lm/component.h b/include/lm/component.h
index 314e509..5fdadfb 100644
--- a/include/lm/component.h
+++ b/include/lm/component.h
@@ -568,8 +568,15 @@ Component::Ptr<InterfaceT> create_without_construct(const std::string& key, cons
     if (!inst) {
         return {};
     }
+    // The instance is released if it doesn't implement the requested interface
+    Component::Ptr<Component> owner(inst);
+    auto* typed = dynamic_cast<InterfaceT*>(inst);
+    if (!typed) {
+        return {};
+    }
+    owner.release();
     detail::Access::loc(inst) = loc;
-    return Component::Ptr<InterfaceT>(dynamic_cast<InterfaceT*>(inst));
+    return Component::Ptr<InterfaceT>(typed);
 }
 
 /*!
-- 
2.43.0


From 5764d35e5aa2ff82fe703499dfbb49e12c3afc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:39 +0000
Subject: [PATCH 27/35] fix: volume::multi dereferenced null for an invalid
 volume reference

---
 src/volume/volume_multi.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/volume/volume_multi.cpp b/src/volume/volume_multi.cpp
index 93fd841..42673fa 100644
--- a/src/volume/volume_multi.cpp
+++ b/src/volume/volume_multi.cpp
@@ -57,6 +57,10 @@ public:
             volumes_alb_.push_back( comp::get<Volume>(vol_ref_alb[i]) );
             volumes_den_.push_back( comp::get<Volume>(vol_ref_den[i]) );
 
+            if (!volumes_alb_.back() || !volumes_den_.back())
+                LM_THROW_EXCEPTION(Error::InvalidArgument,
+                    "Invalid reference to volume [index={}].", i);
+
             if (!volumes_alb_.back()->has_color())
                 LM_THROW_EXCEPTION(Error::InvalidArgument, "volumes_alb[{}] has no albedo/color", i);
             if (!volumes_den_.back()->has_scalar())
-- 
2.43.0


From bf523fb5dda6f8f735e1cb0367f75272a083d7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:13 +0000
Subject: [PATCH 28/35] fix: meshes read out of bounds when only some corners
 of a face have normals or texture coordinates

---
 src/mesh/mesh_wavefrontobj.cpp   | 5 +++--
 src/model/model_wavefrontobj.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mesh/mesh_wavefrontobj.cpp b/src/mesh/mesh_wavefrontobj.cpp
index ebff0dc..9c74e14 100644
--- a/src/mesh/mesh_wavefrontobj.cpp
+++ b/src/mesh/mesh_wavefrontobj.cpp
@@ -77,13 +77,14 @@ public:
             // Position
             math::mix_barycentric(p1, p2, p3, uv),
             // Normal. Use geometry normal if the attribute is missing.
-            i1.n < 0 ? math::geometry_normal(p1, p2, p3)
+            i1.n < 0 || i2.n < 0 || i3.n < 0
+                     ? math::geometry_normal(p1, p2, p3)
                      : glm::normalize(math::mix_barycentric(
                          geo_.ns[i1.n], geo_.ns[i2.n], geo_.ns[i3.n], uv)),
             // Geometry normal
             math::geometry_normal(p1, p2, p3),
             // Texture coordinates
-            i1.t < 0 ? Vec2(0) : math::mix_barycentric(
+            i1.t < 0 || i2.t < 0 || i3.t < 0 ? Vec2(0) : math::mix_barycentric(
                 geo_.ts[i1.t], geo_.ts[i2.t], geo_.ts[i3.t], uv)
         };
     }
diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index ea4114d..aae953f 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -312,13 +312,14 @@ public:
             // Position
             math::mix_barycentric(p1, p2, p3, uv),
             // Normal. Use geometry normal if the attribute is missing.
-            i1.n < 0 ? math::geometry_normal(p1, p2, p3)
+            i1.n < 0 || i2.n < 0 || i3.n < 0
+                     ? math::geometry_normal(p1, p2, p3)
                      : glm::normalize(math::mix_barycentric(
                          geo_.ns[i1.n], geo_.ns[i2.n], geo_.ns[i3.n], uv)),
             // Geometry normal
             math::geometry_normal(p1, p2, p3),
             // Texture coordinates
-            i1.t < 0 ? Vec2(0) : math::mix_barycentric(
+            i1.t < 0 || i2.t < 0 || i3.t < 0 ? Vec2(0) : math::mix_barycentric(
                 geo_.ts[i1.t], geo_.ts[i2.t], geo_.ts[i3.t], uv)
         };
     }
-- 
2.43.0


From c83e318a78e88b4f791275974342bab074ecb715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:13 +0000
Subject: [PATCH 29/35] fix: an OBJ model used the wrong texture for textures
 of the same file name in different directories

---
 src/model/model_wavefrontobj.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index aae953f..4ae90d3 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -78,6 +78,8 @@ public:
 
 	virtual void construct(const Json& prop) override {
         const std::string path = json::value<std::string>(prop, "path");
+        // Identifiers of the textures associated with the paths
+        std::unordered_map<std::string, std::string> texture_ids;
         const bool result = objloader::load(path, geo_,
             // Process mesh
             [&](const OBJMeshFace& fs, const MTLMatParams& m) -> bool {
@@ -137,11 +139,17 @@ public:
                 // Load texture
                 std::string mapKd_loc;
                 if (!m.mapKd.empty()) {
-                    // Use texture_<filename> as an identifier
-                    const auto id = "texture_" + fs::path(m.mapKd).stem().string();
+                    auto& id = texture_ids[m.mapKd];
 
                     // Check if already loaded
-                    if (auto it = assets_map_.find(id); it == assets_map_.end()) {
+                    if (id.empty()) {
+                        // Use texture_<filename> as an identifier.
+                        // Textures in different directories can share the same filename.
+                        id = "texture_" + fs::path(m.mapKd).stem().string();
+                        while (assets_map_.find(id) != assets_map_.end()) {
+                            id += "_";
+                        }
+
                         // If not loaded, load the texture
                         const auto textureAssetName = json::value<std::string>(prop, "texture", "texture::bitmap");
                         auto texture = comp::create<Texture>(textureAssetName, make_loc(id), {
-- 
2.43.0


From 17e662ee787f4ae1b6daf6283ad9e79265578ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:13 +0000
Subject: [PATCH 30/35] fix: OBJ loader overflowed its name buffer for long
 names and used an uninitialized name for an empty one

---
 src/objloader/objloader_simple.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index b643b22..437b068 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -223,9 +223,12 @@ private:
     template <int N>
     void next_string(char *&t, char (&name)[N]) {
         #if LM_COMPILER_MSVC
+        name[0] = '\0';
         sscanf_s(t, "%s", name, N);
         #else
-        sscanf(t, "%s", name);
+        static_assert(N == 256, "The width specifier must match the buffer size");
+        name[0] = '\0';
+        sscanf(t, "%255s", name);
         #endif
     };
 
-- 
2.43.0


From 6e91ff2cc258f6f77f94fbb96d683ceadcb9d0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:13 +0000
Subject: [PATCH 31/35] fix: OBJ loader silently dropped the rest of a file
 after a too long line

---
 src/objloader/objloader_simple.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index 437b068..3f6b560 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -140,6 +140,11 @@ public:
             }
         }
 
+        if (!f.eof()) {
+            LM_ERROR("Too long line in OBJ file [path='{}']", path);
+            return false;
+        }
+
         // Create a default material if MTL file is missing
         if (ms_.empty()) {
             ms_.push_back({ "default", -1, Vec3(1) });
@@ -264,6 +269,10 @@ private:
             else if (command(t, "illum", 5))  { m.illum = next_int(t += 6); }
             else if (command(t, "map_Kd", 6)) { next_string(t += 7, name); m.mapKd = name; }
         }
+        if (!f.eof()) {
+            LM_ERROR("Too long line in MTL file [path='{}']", p);
+            return false;
+        }
         return true;
     }
 };
-- 
2.43.0


From bae34dac268c228724d0a7c280528415ca078f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:13 +0000
Subject: [PATCH 32/35] fix: OBJ loader accepted faces referring to missing
 vertices, normals or texture coordinates

---
 src/objloader/objloader_simple.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index 3f6b560..9081d87 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -145,6 +145,18 @@ public:
             return false;
         }
 
+        // Check the face indices refer to existing elements
+        for (const auto& primitive : primitives) {
+            for (const auto& i : primitive.fs) {
+                if (!valid_index(i.p, geo.ps.size(), false) ||
+                    !valid_index(i.t, geo.ts.size(), true) ||
+                    !valid_index(i.n, geo.ns.size(), true)) {
+                    LM_ERROR("Invalid face index [path='{}']", path);
+                    return false;
+                }
+            }
+        }
+
         // Create a default material if MTL file is missing
         if (ms_.empty()) {
             ms_.push_back({ "default", -1, Vec3(1) });
@@ -209,7 +221,14 @@ private:
     }
 
     // Parses vertex index. See specification of obj file for detail.
-    int parse_index(int i, int vn) { return i < 0 ? vn + i : i > 0 ? i - 1 : -1; }
+    // Returns -1 if the index is not specified, and -2 if the relative index is out of range.
+    int parse_index(int i, int vn) { return i < 0 ? (vn + i < 0 ? -2 : vn + i) : i > 0 ? i - 1 : -1; }
+
+    // Checks if the parsed index refers to an existing element, or is omitted if it is optional
+    bool valid_index(int i, size_t n, bool optional) {
+        return i < 0 ? (optional && i == -1) : size_t(i) < n;
+    }
+
     OBJMeshFaceIndex parse_indices(OBJSurfaceGeometry& geo, char *&t) {
         OBJMeshFaceIndex i;
         skip_spaces(t);
-- 
2.43.0


From df076e6871577c438cccce847fdaeae64f5d4d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:06 +0000
Subject: [PATCH 33/35] fix: bdptopt: do not weight directly hit lights by the
 selection of a material component

---
 src/renderer/renderer_bdptopt.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/renderer/renderer_bdptopt.cpp b/src/renderer/renderer_bdptopt.cpp
index c7a9d7a..302f32b 100644
--- a/src/renderer/renderer_bdptopt.cpp
+++ b/src/renderer/renderer_bdptopt.cpp
@@ -25,6 +25,7 @@ struct Vert {
 
                             // Cached variables
     Vec3 alpha;             // Path throughput up to this vertex
+    Vec3 alpha_endpoint;    // Path throughput without the weight of the component selection (for endpoints)
     Vec3 w_fwd;             // Outgoing direction
     Vec3 w_rev;             // Incoming direction
     Float pdf_fwd;          // PDF p(x_i | x_{i-1},x_{i-2})
@@ -155,6 +156,7 @@ void sample_subpath(Path& path, Rng& rng, const Scene* scene, int max_verts, Tra
                 }
             }();
             v.alpha = Vec3(1_f / v.pdf_fwd);
+            v.alpha_endpoint = v.alpha;
             v.w_rev = {};
             v.w_fwd = s->wo;
 
@@ -203,6 +205,7 @@ void sample_subpath(Path& path, Rng& rng, const Scene* scene, int max_verts, Tra
 
         // Sample component
         const auto s_comp = path::sample_component(rng, scene, *hit, -v.w_fwd);
+        const auto throughput_endpoint = throughput;
         throughput *= s_comp.weight;
 
         // Create a vertex
@@ -210,6 +213,7 @@ void sample_subpath(Path& path, Rng& rng, const Scene* scene, int max_verts, Tra
         v_next.sp = *hit;
         v_next.comp = s_comp.comp;
         v_next.alpha = throughput;
+        v_next.alpha_endpoint = throughput_endpoint;
         v_next.w_rev = -v.w_fwd;
         v_next.pdf_fwd = surface::convert_pdf_to_area(pdf_fwd_next, v.sp.geom, hit->geom);
         path.vs.push_back(v_next);
@@ -269,13 +273,13 @@ std::optional<Splat> connect_and_eval_contrb(const Scene* scene, const Path& sub
         const auto& vL = subpathE.vs[t-1];
         const auto spL = vL.sp.as_type(SceneInteraction::LightEndpoint);
         const auto Le = path::eval_contrb_direction(scene, spL, {}, vL.w_rev, {}, TransDir::LE, true);
-        C = Le * vL.alpha;
+        C = Le * vL.alpha_endpoint;
     }
     else if (t == 0) {
         const auto& vE = subpathL.vs[s-1];
         const auto spE = vE.sp.as_type(SceneInteraction::CameraEndpoint);
         const auto We = path::eval_contrb_direction(scene, spE, {}, vE.w_rev, {}, TransDir::EL, true);
-        C = We * vE.alpha;
+        C = We * vE.alpha_endpoint;
     }
     else {
         const auto& vL = subpathL.vs[s-1];
-- 
2.43.0


From 6141bf425328bab2bfee70aa490149ef7851aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:19 +0000
Subject: [PATCH 34/35] fix: sample_subpath: do not exceed a maximum of one
 vertex

---
 include/lm/bidir.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/lm/bidir.h b/include/lm/bidir.h
index f3c6141..7428b73 100644
--- a/include/lm/bidir.h
+++ b/include/lm/bidir.h
@@ -521,6 +521,9 @@ static void sample_subpath_from_endpoint(Rng& rng, Path& path, const Scene* scen
                 break;;
             }
             path.vs.push_back({ s->sp, 0 });
+            if (path.num_verts() == max_verts) {
+                break;
+            }
             ray = { s->sp.geom.p, s->wo };
         }
         else {
-- 
2.43.0


From ad9e9f850a17db0d0243cc1fdce598fd208f88e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:16 +0000
Subject: [PATCH 35/35] fix: refuse an unknown progress reporter in
 progress::delay

---
 src/progress.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/progress.cpp b/src/progress.cpp
index dc9beff..1cd753e 100644
--- a/src/progress.cpp
+++ b/src/progress.cpp
@@ -65,6 +65,9 @@ public:
         delay_ = milliseconds(json::value<int>(prop, "delay"));
         auto it = prop["progress"].begin();
         ctx_ = comp::create<ProgressContext>(it.key(), "", it.value());
+        if (!ctx_) {
+            LM_THROW_EXCEPTION_DEFAULT(Error::InvalidArgument);
+        }
     }
 
     virtual void start(ProgressMode mode, long long total, double totalTime) override {
-- 
2.43.0

