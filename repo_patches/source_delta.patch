From fb90a37d77945efcffa3e6adacac80164525e691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:15 +0000
Subject: [PATCH 01/44] fix: never configure fewer than one worker thread

---
 src/parallel/parallel_openmp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parallel/parallel_openmp.cpp b/src/parallel/parallel_openmp.cpp
index a670d2c..2231aee 100644
--- a/src/parallel/parallel_openmp.cpp
+++ b/src/parallel/parallel_openmp.cpp
@@ -26,6 +26,8 @@ public:
         if (num_threads_ <= 0) {
             num_threads_ = std::thread::hardware_concurrency() + num_threads_;
         }
+        // The number of hardware threads can be unknown (zero) or smaller than the subtracted number
+        num_threads_ = std::max(1, num_threads_);
         omp_set_num_threads(num_threads_);
     }
 
-- 
2.43.0


From 55ca1e5b93ebc9819643b1ff37c1d47c83cba4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:43 +0000
Subject: [PATCH 02/44] fix: count progress per loop instead of per thread
 lifetime

---
 src/parallel/parallel_openmp.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parallel/parallel_openmp.cpp b/src/parallel/parallel_openmp.cpp
index 2231aee..fc52e12 100644
--- a/src/parallel/parallel_openmp.cpp
+++ b/src/parallel/parallel_openmp.cpp
@@ -47,7 +47,11 @@ public:
 
         // Execute parallel loop
         std::atomic<long long> processed = 0;
-        #pragma omp parallel for schedule(dynamic, 1)
+        #pragma omp parallel
+        {
+        // Number of samples processed by this thread in this loop and not yet added to the total
+        long long count = 0;
+        #pragma omp for schedule(dynamic, 1)
         for (long long i = 0; i < numSamples; i++) {
             // Spin the loop if cancellation is requested
             if (done) {
@@ -76,7 +80,7 @@ public:
                 processFunc(i, thread_id);
 
                 // Update processed number of samples
-                if (thread_local long long count = 0; ++count >= progress_update_interval_) {
+                if (++count >= progress_update_interval_) {
                     processed += count;
                     count = 0;
                 }
@@ -94,6 +98,7 @@ public:
                 done = true;
             }
         }
+        }
         
         // Rethrow exception if available
         if (exp) {
-- 
2.43.0


From b30d3a3fe258665f6233629fbd360fb773718c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:43 +0000
Subject: [PATCH 03/44] fix: measure elapsed time with a clock that wall-clock
 adjustments do not move

---
 include/lm/timer.h |  6 +++---
 src/progress.cpp   | 22 +++++++++++-----------
 src/scheduler.cpp  | 12 ++++++------
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/lm/timer.h b/include/lm/timer.h
index d1af47a..beca7a0 100644
--- a/include/lm/timer.h
+++ b/include/lm/timer.h
@@ -26,18 +26,18 @@ LM_NAMESPACE_BEGIN(timer)
 */
 class ScopedTimer : public Component {
 private:
-    std::chrono::high_resolution_clock::time_point start;
+    std::chrono::steady_clock::time_point start;
 public:
     /*!
         \brief Timer initialisation at the time of object creation
     */
-    ScopedTimer():start(std::chrono::high_resolution_clock::now()){}
+    ScopedTimer():start(std::chrono::steady_clock::now()){}
 
     /*!
         \brief elapsed time since object creation in seconds
     */
    virtual Float now() const{
-       return std::chrono::duration<Float>(std::chrono::high_resolution_clock::now()-start).count();
+       return std::chrono::duration<Float>(std::chrono::steady_clock::now()-start).count();
    }
 };
 
diff --git a/src/progress.cpp b/src/progress.cpp
index dc9beff..ae8eab0 100644
--- a/src/progress.cpp
+++ b/src/progress.cpp
@@ -57,8 +57,8 @@ class ProgressContext_Delay : public ProgressContext {
 private:
     milliseconds delay_;
     Ptr<ProgressContext> ctx_;                       // Underlying progress context
-    time_point<high_resolution_clock> start_;        // Time starting progress report
-    time_point<high_resolution_clock> last_updated_;  // Last updated time
+    time_point<steady_clock> start_;        // Time starting progress report
+    time_point<steady_clock> last_updated_;  // Last updated time
 
 public:
     virtual void construct(const Json& prop) override {
@@ -68,13 +68,13 @@ public:
     }
 
     virtual void start(ProgressMode mode, long long total, double totalTime) override {
-        start_ = high_resolution_clock::now();
+        start_ = steady_clock::now();
         last_updated_ = start_;
         ctx_->start(mode, total, totalTime);
     }
 
     virtual void update(long long processed) override {
-        const auto now = high_resolution_clock::now();
+        const auto now = steady_clock::now();
         const auto elapsed = duration_cast<milliseconds>(now - last_updated_);
         if (elapsed > delay_) {
             ctx_->update(processed);
@@ -83,7 +83,7 @@ public:
     }
 
     virtual void update_time(Float elapsed_) override {
-        const auto now = high_resolution_clock::now();
+        const auto now = steady_clock::now();
         const auto elapsed = duration_cast<milliseconds>(now - last_updated_);
         if (elapsed > delay_) {
             ctx_->update_time(elapsed_);
@@ -106,15 +106,15 @@ private:
     ProgressMode mode_;								 // Progress reporting mode
     long long total_;                                // Total number of progress updates (used in Samples mode)
     double total_time_;								 // Total duration (used in Time mode)
-    time_point<high_resolution_clock> start_;        // Time starting progress report
-    time_point<high_resolution_clock> last_updated_;  // Last updated time
+    time_point<steady_clock> start_;        // Time starting progress report
+    time_point<steady_clock> last_updated_;  // Last updated time
     
 public:
     virtual void start(ProgressMode mode, long long total, double totalTime) override {
         mode_ = mode;
         total_ = total;
         total_time_ = totalTime;
-        start_ = high_resolution_clock::now();
+        start_ = steady_clock::now();
         last_updated_ = start_;
     }
 
@@ -122,7 +122,7 @@ public:
         if (mode_ != ProgressMode::Samples) {
             return;
         }
-        const auto now = high_resolution_clock::now();
+        const auto now = steady_clock::now();
         const auto elapsed_from_last_update = duration_cast<milliseconds>(now - last_updated_);
         if (elapsed_from_last_update > .5s) {
             // Estimate ETA
@@ -147,7 +147,7 @@ public:
         if (mode_ != ProgressMode::Time) {
             return;
         }
-        const auto now = high_resolution_clock::now();
+        const auto now = steady_clock::now();
         const auto elapsed_from_last_update = duration_cast<milliseconds>(now - last_updated_);
         if (elapsed_from_last_update > .5s) {
             const auto eta = total_time_ - elapsed;
@@ -168,7 +168,7 @@ public:
 private:
     // Helper function to compute ETA
     template <typename T>
-    double estimateETA(time_point<high_resolution_clock> now, T total, T processed) const {
+    double estimateETA(time_point<steady_clock> now, T total, T processed) const {
         const auto eta = duration_cast<milliseconds>(now - start_)
             * (total - processed) / processed;
         return eta.count() / 1000.0;
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index ec70f2d..a178668 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -78,7 +78,7 @@ public:
         const auto numPixels = film_->num_pixels();
         progress::ScopedTimeReport progress_ctx_(render_time_);
         
-        const auto start = std::chrono::high_resolution_clock::now();
+        const auto start = std::chrono::steady_clock::now();
         long long spp = 0;
         while (true) {
             // Parallel loop for each pixel
@@ -86,7 +86,7 @@ public:
                 process(index, spp, threadid);
             }, [&](long long) {
                 using namespace std::chrono;
-                const auto now = high_resolution_clock::now();
+                const auto now = steady_clock::now();
                 const auto elapsed = duration_cast<milliseconds>(now - start).count() / 1000.0;
                 progress::update_time(elapsed);
             });
@@ -95,7 +95,7 @@ public:
             spp++;
 
             // Check termination
-            const auto curr = std::chrono::high_resolution_clock::now();
+            const auto curr = std::chrono::steady_clock::now();
             const double elapsed = (double)(std::chrono::duration_cast<std::chrono::milliseconds>(curr - start).count()) / 1000.0;
             if (elapsed > render_time_) {
                 break;
@@ -160,7 +160,7 @@ public:
 
     virtual long long run(const ProcessFunc& process) const override {
         progress::ScopedTimeReport progress_ctx_(render_time_);
-        const auto start = std::chrono::high_resolution_clock::now();
+        const auto start = std::chrono::steady_clock::now();
         long long processed = 0;
         while (true) {
             // Parallel loop
@@ -168,7 +168,7 @@ public:
                 process(0, processed + index, threadid);
             }, [&](long long) {
                 using namespace std::chrono;
-                const auto now = high_resolution_clock::now();
+                const auto now = steady_clock::now();
                 const auto elapsed = duration_cast<milliseconds>(now - start).count() / 1000.0;
                 progress::update_time(elapsed);
             });
@@ -177,7 +177,7 @@ public:
             processed += samples_per_iter_;
 
             // Check termination
-            const auto curr = std::chrono::high_resolution_clock::now();
+            const auto curr = std::chrono::steady_clock::now();
             const double elapsed = (double)(std::chrono::duration_cast<std::chrono::milliseconds>(curr - start).count()) / 1000.0;
             if (elapsed > render_time_) {
                 break;
-- 
2.43.0


From cba88743c21d5fd0adddb50d30938ef87454fd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:00 +0000
Subject: [PATCH 04/44] fix: report write and close errors when saving a film

---
 src/film/film_bitmap.cpp | 46 +++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/film/film_bitmap.cpp b/src/film/film_bitmap.cpp
index cf3a60a..605ac23 100644
--- a/src/film/film_bitmap.cpp
+++ b/src/film/film_bitmap.cpp
@@ -58,11 +58,12 @@ struct AtomicWrapper {
 
 // Helper functions on image manipulaion
 namespace image {
-    // Write image as .pfm file
-    bool writePfm(const std::string& outpath, int w, int h, const std::vector<float>& d) {
+    // Write a buffer to a file.
+    // This function returns false unless the whole buffer has been handed over to the system.
+    bool writeFile(const std::string& outpath, const std::vector<char>& buf) {
         FILE *f;
-        int err;
         #if LM_COMPILER_MSVC
+        int err;
         if ((err = fopen_s(&f, outpath.c_str(), "wb")) != 0) {
             LM_ERROR("Failed to open [file='{}',errorno='{}']", outpath, err);
             return false;
@@ -73,12 +74,41 @@ namespace image {
             return false;
         }
         #endif
-        fprintf(f, "PF\n%d %d\n-1\n", w, h);
-        fwrite(d.data(), 4, d.size(), f);
-        fclose(f);
+        const bool written = fwrite(buf.data(), 1, buf.size(), f) == buf.size();
+        const bool closed = fclose(f) == 0;
+        if (!written || !closed) {
+            LM_ERROR("Failed to write [file='{}']", outpath);
+            return false;
+        }
         return true;
     }
 
+    // Append data to a buffer. Used as a write function of stb_image_write
+    void appendToBuffer(void* context, void* data, int size) {
+        auto& buf = *(std::vector<char>*)context;
+        buf.insert(buf.end(), (const char*)data, (const char*)data + size);
+    }
+
+    // Write image as .pfm file
+    bool writePfm(const std::string& outpath, int w, int h, const std::vector<float>& d) {
+        const auto header = fmt::format("PF\n{} {}\n-1\n", w, h);
+        std::vector<char> buf(header.begin(), header.end());
+        buf.insert(buf.end(), (const char*)d.data(), (const char*)(d.data() + d.size()));
+        return writeFile(outpath, buf);
+    }
+
+    // Write image as .png file
+    bool writePng(const std::string& outpath, int w, int h, const std::vector<unsigned char>& d) {
+        std::vector<char> buf;
+        return stbi_write_png_to_func(appendToBuffer, &buf, w, h, 3, d.data(), w*3) && writeFile(outpath, buf);
+    }
+
+    // Write image as .hdr file
+    bool writeHdr(const std::string& outpath, int w, int h, const std::vector<float>& d) {
+        std::vector<char> buf;
+        return stbi_write_hdr_to_func(appendToBuffer, &buf, w, h, 3, d.data()) && writeFile(outpath, buf);
+    }
+
     // Sanity check of an image. If the image contains invalid values like INF or NAN,
     // this function returns false.
     bool sanityCheck(int w, int h, const std::vector<float>& d) {
@@ -175,7 +205,7 @@ public:
         const auto ext = fs::path(outpath).extension().string();
         if (ext == ".png") {
             const auto data = copy<unsigned char>(true);
-            if (!stbi_write_png(outpath.c_str(), w_, h_, 3, data.data(), w_*3)) {
+            if (!image::writePng(outpath, w_, h_, data)) {
                 return false;
             }
         }
@@ -190,7 +220,7 @@ public:
         else if (ext == ".hdr") {
             auto data = copy<float>(true);
             image::sanityCheck(w_, h_, data);
-            if (!stbi_write_hdr(outpath.c_str(), w_, h_, 3, data.data())) {
+            if (!image::writeHdr(outpath, w_, h_, data)) {
                 return false;
             }
         }
-- 
2.43.0


From 720ab856f0369b91728e650823df95e141addaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:31 +0000
Subject: [PATCH 05/44] fix: report a state that could not be written
 completely

---
 include/lm/serial.h | 6 ++++++
 src/user.cpp        | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/include/lm/serial.h b/include/lm/serial.h
index 3fbf2ca..7bcafe7 100644
--- a/include/lm/serial.h
+++ b/include/lm/serial.h
@@ -384,6 +384,12 @@ save_comp_owned(std::ostream& stream, T* comp, const std::string& root_loc) {
     // Serialize the asset
     OutputArchive ar(stream, comp->loc());
     cereal::save_owned(ar, comp);
+
+    // The data might be still in the buffer of the stream
+    stream.flush();
+    if (!stream) {
+        LM_THROW_EXCEPTION(Error::IOError, "Failed to write serialized asset [loc='{}']", comp->loc());
+    }
 }
 
 /*!
diff --git a/src/user.cpp b/src/user.cpp
index 9c46794..e4d17d9 100644
--- a/src/user.cpp
+++ b/src/user.cpp
@@ -104,6 +104,10 @@ public:
     void save_state_to_file(const std::string& path) {
         std::ofstream os(path, std::ios::out | std::ios::binary);
         serial::save_comp(os, root_assets_, root_assets_->loc());
+        os.close();
+        if (!os) {
+            LM_THROW_EXCEPTION(Error::IOError, "Failed to save state [path='{}']", path);
+        }
     }
 
     void load_state_from_file(const std::string& path) {
-- 
2.43.0


From 2e1a83ebefda7fc1b76af66459a74611a255eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:11 +0000
Subject: [PATCH 06/44] fix: keep the current assets when loading a state fails

---
 include/lm/serial.h |  6 +++++-
 src/user.cpp        | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/lm/serial.h b/include/lm/serial.h
index 7bcafe7..84216b9 100644
--- a/include/lm/serial.h
+++ b/include/lm/serial.h
@@ -205,7 +205,8 @@ void load(Archive& ar, lm::Component::Ptr<T>& p) {
         // Be careful not to call construct() function here
         p = lm::comp::create_without_construct<T>(key, loc);
         if (!p) {
-            return;
+            LM_THROW_EXCEPTION(lm::Error::IOError,
+                "Failed to create a serialized component [key='{}', loc='{}']", key, loc);
         }
 
         // Load the contents
@@ -345,6 +346,9 @@ load_comp(std::istream& stream, Component::Ptr<T>& comp, const std::string& root
     ar.foreach_weakptr([](std::uintptr_t address, const std::string& loc) {
         Component** weakptr = (Component**)address;
         *weakptr = lm::comp::get<Component>(loc);
+        if (!*weakptr) {
+            LM_THROW_EXCEPTION(Error::IOError, "Failed to recover a reference [loc='{}']", loc);
+        }
     });
 }
 
diff --git a/src/user.cpp b/src/user.cpp
index e4d17d9..9b94b8f 100644
--- a/src/user.cpp
+++ b/src/user.cpp
@@ -112,7 +112,19 @@ public:
 
     void load_state_from_file(const std::string& path) {
         std::ifstream is(path, std::ios::in | std::ios::binary);
-        serial::load_comp(is, root_assets_, root_assets_->loc());
+        // The new assets must be accessible from the root while they are being loaded.
+        // Keep the current assets so that a failure does not affect them.
+        auto current_assets = std::move(root_assets_);
+        try {
+            serial::load_comp(is, root_assets_, current_assets->loc());
+            if (!root_assets_) {
+                LM_THROW_EXCEPTION(Error::IOError, "Failed to load state [path='{}']", path);
+            }
+        }
+        catch (...) {
+            root_assets_ = std::move(current_assets);
+            throw;
+        }
     }
 };
 
-- 
2.43.0


From 088f83dac7f576f5613e1be433e8ab2497afa3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:11 +0000
Subject: [PATCH 07/44] fix: unregister a serialized asset that failed to load

---
 src/assetgroup.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/assetgroup.cpp b/src/assetgroup.cpp
index 7f33502..352a62f 100644
--- a/src/assetgroup.cpp
+++ b/src/assetgroup.cpp
@@ -131,8 +131,19 @@ public:
         assets_.emplace_back();
      
         // Deserialize the asset
-        std::ifstream is(path, std::ios::in | std::ios::binary);
-        serial::load_comp(is, assets_.back(), make_loc(name));
+        try {
+            std::ifstream is(path, std::ios::in | std::ios::binary);
+            serial::load_comp(is, assets_.back(), make_loc(name));
+            if (!assets_.back()) {
+                LM_THROW_EXCEPTION(Error::IOError, "Failed to load serialized asset [path='{}']", path);
+            }
+        }
+        catch (...) {
+            // Unregister the asset
+            asset_index_map_.erase(name);
+            assets_.pop_back();
+            throw;
+        }
 
         return assets_.back().get();
     }
-- 
2.43.0


From ea18a8769fb4148f3acb4c183baec37f55b6eb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:34 +0000
Subject: [PATCH 08/44] fix: undo the registration of an asset whose
 construction failed

---
 src/assetgroup.cpp | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/assetgroup.cpp b/src/assetgroup.cpp
index 352a62f..8621b99 100644
--- a/src/assetgroup.cpp
+++ b/src/assetgroup.cpp
@@ -74,15 +74,23 @@ public:
             // Move existing instance
             // This must not be released until the end of this scope
             // because weak references needs to find locator in the existing instance.
-            auto old = std::move(assets_[it->second]);
+            const int index = it->second;
+            auto old = std::move(assets_[index]);
 
             // Replace the existing instance
-            assets_[it->second] = std::move(p);
-            asset = assets_[it->second].get();
+            assets_[index] = std::move(p);
+            asset = assets_[index].get();
 
             // Initialize the asset
             // This might cause an exception
-            asset->construct(prop);
+            try {
+                asset->construct(prop);
+            }
+            catch (...) {
+                // Restore the existing instance
+                assets_[index] = std::move(old);
+                throw;
+            }
 
             // Notify to update the weak references in the object tree
             const Component::ComponentVisitor visitor = [&](Component*& comp, bool weak) {
@@ -104,12 +112,26 @@ public:
         }
         else {
             // Register as a new asset
-            asset_index_map_[name] = int(assets_.size());
+            const int index = int(assets_.size());
+            asset_index_map_[name] = index;
             assets_.push_back(std::move(p));
             asset = assets_.back().get();
 
             // Initialize the asset
-            asset->construct(prop);
+            // This might cause an exception
+            try {
+                asset->construct(prop);
+            }
+            catch (...) {
+                // Unregister the asset
+                // The slot is left empty if construct() registered other assets
+                asset_index_map_.erase(name);
+                assets_[index].reset();
+                if (index + 1 == int(assets_.size())) {
+                    assets_.pop_back();
+                }
+                throw;
+            }
         }
 
         return asset;
-- 
2.43.0


From c48a59a1460a43fe8af45a150290b554f06bda32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:29 +0000
Subject: [PATCH 09/44] fix: update the references of media, volumes and scene
 nodes when an asset is replaced

---
 src/medium/medium_heterogeneous.cpp | 12 +++++++++---
 src/medium/medium_homogeneous.cpp   |  6 +++++-
 src/scene.cpp                       |  1 +
 src/volume/volume_multi.cpp         |  9 +++++++++
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/medium/medium_heterogeneous.cpp b/src/medium/medium_heterogeneous.cpp
index 4731d4d..7fabc20 100644
--- a/src/medium/medium_heterogeneous.cpp
+++ b/src/medium/medium_heterogeneous.cpp
@@ -25,15 +25,21 @@ LM_NAMESPACE_BEGIN(LM_NAMESPACE)
 */
 class Medium_Heterogeneous final : public Medium {
 private:
-    const Volume* volume_density_;  // Density volume. density := \mu_t = \mu_a + \mu_s
-    const Volume* volme_albedo_;	// Albedo volume. albedo := \mu_s / \mu_t
-    const Phase* phase_;            // Underlying phase function.
+    Volume* volume_density_;        // Density volume. density := \mu_t = \mu_a + \mu_s
+    Volume* volme_albedo_;          // Albedo volume. albedo := \mu_s / \mu_t
+    Phase* phase_;                  // Underlying phase function.
 
 public:
     LM_SERIALIZE_IMPL(ar) {
         ar(volume_density_, volme_albedo_, phase_);
     }
 
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, volume_density_);
+        comp::visit(visit, volme_albedo_);
+        comp::visit(visit, phase_);
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         volume_density_ = json::comp_ref<Volume>(prop, "volume_density");
diff --git a/src/medium/medium_homogeneous.cpp b/src/medium/medium_homogeneous.cpp
index 62839cb..635f198 100644
--- a/src/medium/medium_homogeneous.cpp
+++ b/src/medium/medium_homogeneous.cpp
@@ -29,7 +29,7 @@ private:
     Vec3 albedo_;           // Albedo of volume := \mu_s / \mu_t
     Vec3 muA_;              // Absorption coefficient.
     Vec3 muS_;              // Scattering coefficient.
-    const Phase* phase_;    // Underlying phase function.
+    Phase* phase_;          // Underlying phase function.
     Bound bound_;
 
 public:
@@ -37,6 +37,10 @@ public:
         ar(density_, muA_, muS_, phase_, bound_);
     }
 
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, phase_);
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         density_ = json::value<Float>(prop, "density");
diff --git a/src/scene.cpp b/src/scene.cpp
index a10acf8..fcacca2 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -40,6 +40,7 @@ public:
                 comp::visit(visit, node.primitive.material);
                 comp::visit(visit, node.primitive.light);
                 comp::visit(visit, node.primitive.camera);
+                comp::visit(visit, node.primitive.medium);
             }
         }
     }
diff --git a/src/volume/volume_multi.cpp b/src/volume/volume_multi.cpp
index 03bafce..93fd841 100644
--- a/src/volume/volume_multi.cpp
+++ b/src/volume/volume_multi.cpp
@@ -32,6 +32,15 @@ public:
         ar(bound_, max_scalar_, size_, volumes_den_, volumes_alb_);
     }
 
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        for (auto& v : volumes_den_) {
+            comp::visit(visit, v);
+        }
+        for (auto& v : volumes_alb_) {
+            comp::visit(visit, v);
+        }
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         // Currently no straightforward way to use json::comp_ref<Volume>() on an array
-- 
2.43.0


From 54cb6bcffff255ef97f7e8bc2ce85dfa8f7f462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:29 +0000
Subject: [PATCH 10/44] fix: serialize the complete state of scenes, media,
 volumes, textures, lights and renderers

---
 src/light/light_env.cpp           |  2 +-
 src/medium/medium_homogeneous.cpp |  2 +-
 src/renderer/renderer_bdpt.cpp    | 21 ++++++++++++++++++++-
 src/renderer/renderer_bdptopt.cpp | 20 ++++++++++++++++++--
 src/renderer/renderer_lt.cpp      |  7 +++++++
 src/renderer/renderer_pt.cpp      |  9 ++++++++-
 src/renderer/renderer_raycast.cpp |  2 +-
 src/renderer/renderer_volpt.cpp   |  9 ++++++++-
 src/scene.cpp                     |  2 +-
 src/texture/texture_constant.cpp  |  2 +-
 src/volume/volume_constant.cpp    |  2 +-
 11 files changed, 67 insertions(+), 11 deletions(-)

diff --git a/src/light/light_env.cpp b/src/light/light_env.cpp
index bdcefd2..0803f91 100644
--- a/src/light/light_env.cpp
+++ b/src/light/light_env.cpp
@@ -33,7 +33,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(sphere_bound_, envmap_, rot_, dist_);
+        ar(sphere_bound_, envmap_, rot_, scale_, dist_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visitor) override {
diff --git a/src/medium/medium_homogeneous.cpp b/src/medium/medium_homogeneous.cpp
index 635f198..55f9678 100644
--- a/src/medium/medium_homogeneous.cpp
+++ b/src/medium/medium_homogeneous.cpp
@@ -34,7 +34,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(density_, muA_, muS_, phase_, bound_);
+        ar(density_, albedo_, muA_, muS_, phase_, bound_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
diff --git a/src/renderer/renderer_bdpt.cpp b/src/renderer/renderer_bdpt.cpp
index d3aedfa..2b208a0 100644
--- a/src/renderer/renderer_bdpt.cpp
+++ b/src/renderer/renderer_bdpt.cpp
@@ -44,6 +44,24 @@ public:
     std::optional<unsigned int> seed_;              // Random seed
     Component::Ptr<scheduler::Scheduler> sched_;    // Scheduler for parallel processing
 
+public:
+    LM_SERIALIZE_IMPL(ar) {
+        ar(scene_, film_, min_verts_, max_verts_, seed_, sched_);
+    }
+
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, scene_);
+        comp::visit(visit, film_);
+        comp::visit(visit, sched_);
+    }
+
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
@@ -304,7 +322,8 @@ public:
     std::unordered_map<std::string, Film*> strategy_film_name_map_;
 
     virtual Component* underlying(const std::string& name) const override {
-        return strategy_film_name_map_.at(name);
+        const auto it = strategy_film_name_map_.find(name);
+        return it != strategy_film_name_map_.end() ? it->second : Renderer_Path_Base::underlying(name);
     }
 
     virtual void construct(const Json& prop) override {
diff --git a/src/renderer/renderer_bdptopt.cpp b/src/renderer/renderer_bdptopt.cpp
index c4d2435..e5e5cad 100644
--- a/src/renderer/renderer_bdptopt.cpp
+++ b/src/renderer/renderer_bdptopt.cpp
@@ -433,6 +433,17 @@ private:
     std::unordered_map<std::string, Film*> strategy_film_name_map_;
     #endif
 
+public:
+    LM_SERIALIZE_IMPL(ar) {
+        ar(scene_, film_, min_verts_, max_verts_, seed_, sched_);
+    }
+
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, scene_);
+        comp::visit(visit, film_);
+        comp::visit(visit, sched_);
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
@@ -461,11 +472,16 @@ public:
         #endif
     }
 
-    #if BDPT_PER_STRATEGY_FILM
     virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        #if BDPT_PER_STRATEGY_FILM
         return strategy_film_name_map_.at(name);
+        #else
+        return nullptr;
+        #endif
     }
-    #endif
 
     virtual Json render() const override {
         scene_->require_renderable();
diff --git a/src/renderer/renderer_lt.cpp b/src/renderer/renderer_lt.cpp
index d22038e..ea2e9ed 100644
--- a/src/renderer/renderer_lt.cpp
+++ b/src/renderer/renderer_lt.cpp
@@ -34,6 +34,13 @@ public:
         comp::visit(visit, sched_);
     }
 
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
diff --git a/src/renderer/renderer_pt.cpp b/src/renderer/renderer_pt.cpp
index 4427681..f9dd68a 100644
--- a/src/renderer/renderer_pt.cpp
+++ b/src/renderer/renderer_pt.cpp
@@ -38,7 +38,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(scene_, film_, max_verts_, sampling_mode_, sched_);
+        ar(scene_, film_, max_verts_, seed_, sampling_mode_, primary_ray_sampling_mode_, sched_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
@@ -47,6 +47,13 @@ public:
         comp::visit(visit, sched_);
     }
 
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
diff --git a/src/renderer/renderer_raycast.cpp b/src/renderer/renderer_raycast.cpp
index ed2fbd9..5667438 100644
--- a/src/renderer/renderer_raycast.cpp
+++ b/src/renderer/renderer_raycast.cpp
@@ -28,7 +28,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(scene_, film_, bg_color_, use_constant_color_, visualize_normal_, sched_);
+        ar(scene_, film_, bg_color_, use_constant_color_, visualize_normal_, color_, sched_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
diff --git a/src/renderer/renderer_volpt.cpp b/src/renderer/renderer_volpt.cpp
index 4fc1743..e60f1c3 100644
--- a/src/renderer/renderer_volpt.cpp
+++ b/src/renderer/renderer_volpt.cpp
@@ -27,7 +27,7 @@ protected:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(scene_, film_, max_verts_, rr_prob_, sched_);
+        ar(scene_, film_, max_verts_, rr_prob_, seed_, sched_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
@@ -36,6 +36,13 @@ public:
         comp::visit(visit, sched_);
     }
 
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
diff --git a/src/scene.cpp b/src/scene.cpp
index fcacca2..f3d8556 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -29,7 +29,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(accel_, nodes_, camera_, lights_, light_indices_map_, env_light_);
+        ar(accel_, nodes_, camera_, lights_, light_indices_map_, env_light_, medium_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
diff --git a/src/texture/texture_constant.cpp b/src/texture/texture_constant.cpp
index 48c0414..e58fa41 100644
--- a/src/texture/texture_constant.cpp
+++ b/src/texture/texture_constant.cpp
@@ -26,7 +26,7 @@ private:
 
 public:
 	LM_SERIALIZE_IMPL(ar) {
-		ar(color_);
+		ar(color_, alpha_);
 	}
 
 public:
diff --git a/src/volume/volume_constant.cpp b/src/volume/volume_constant.cpp
index 1186288..22b60ef 100644
--- a/src/volume/volume_constant.cpp
+++ b/src/volume/volume_constant.cpp
@@ -29,7 +29,7 @@ private:
 
 public:
 	LM_SERIALIZE_IMPL(ar) {
-		ar(bound_);
+		ar(bound_, color_, scalar_);
 	}
 
 public:
-- 
2.43.0


From 4857049d443a5add1ac2659e668ac7973a1a00d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:25 +0000
Subject: [PATCH 11/44] fix: do not take a sibling asset with a common name
 prefix as part of the saved subtree

---
 include/lm/serial.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/lm/serial.h b/include/lm/serial.h
index 84216b9..9bb42dd 100644
--- a/include/lm/serial.h
+++ b/include/lm/serial.h
@@ -21,6 +21,20 @@
 
 //! \cond
 
+LM_NAMESPACE_BEGIN(LM_NAMESPACE)
+LM_NAMESPACE_BEGIN(serial)
+
+/*
+    Check if the locator points to the component at root_loc or one of its descendants.
+*/
+inline bool in_subtree(const std::string& loc, const std::string& root_loc) {
+    return loc.rfind(root_loc, 0) == 0
+        && (root_loc.empty() || loc.size() == root_loc.size() || loc[root_loc.size()] == '.');
+}
+
+LM_NAMESPACE_END(serial)
+LM_NAMESPACE_END(LM_NAMESPACE)
+
 LM_NAMESPACE_BEGIN(cereal)
 
 /*
@@ -136,7 +150,7 @@ void save_owned(Archive& ar, T* p) {
 
             // Consistency testing
             // Current locator must start with root_loc
-            if (loc.rfind(root_loc, 0) != 0) {
+            if (!lm::serial::in_subtree(loc, root_loc)) {
                 LM_THROW_EXCEPTION(lm::Error::IOError,
                     "Unserializable asset. Subtree contains a reference to the outer asset. [loc='{}']", loc);
             }
@@ -253,7 +267,7 @@ serialize(lm::OutputArchive& ar, T*& p) {
 
             // Consistency testing
             // Current locator must start with root_loc
-            if (loc.rfind(root_loc, 0) != 0) {
+            if (!lm::serial::in_subtree(loc, root_loc)) {
                 LM_THROW_EXCEPTION(lm::Error::IOError,
                     "Unserializable asset. Subtree contains a reference to the outer asset. [loc='{}']", loc);
             }
@@ -375,7 +389,7 @@ save_comp_owned(std::ostream& stream, T* comp, const std::string& root_loc) {
             // Check if the weak reference is referring to an asset in the subtree
             // by checking if the locator starts with root_loc.
             const auto loc = visiting_comp->loc();
-            if (loc.rfind(root_loc, 0) != 0) {
+            if (!in_subtree(loc, root_loc)) {
                 LM_THROW_EXCEPTION(Error::Unsupported,
                     "Unserializable asset. Subtree contains a reference to the outer asset. [loc='{}']", loc);
             }
-- 
2.43.0


From 0aa5ff8e8f561e5304d34a1588a9874bea7fb48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:14 +0000
Subject: [PATCH 12/44] fix: seed the random numbers of a render per render
 instead of once per thread

---
 include/lm/math.h                 | 13 +++++++++++++
 src/renderer/renderer_bdpt.cpp    | 21 +++++++++++++++++----
 src/renderer/renderer_bdptopt.cpp |  5 ++++-
 src/renderer/renderer_lt.cpp      |  6 +++++-
 src/renderer/renderer_pt.cpp      |  6 +++++-
 src/renderer/renderer_volpt.cpp   | 11 +++++++++--
 6 files changed, 53 insertions(+), 9 deletions(-)

diff --git a/include/lm/math.h b/include/lm/math.h
index 3b23371..5e9539a 100644
--- a/include/lm/math.h
+++ b/include/lm/math.h
@@ -456,6 +456,19 @@ static unsigned int rng_seed() {
     return std::random_device{}();
 }
 
+/*!
+    \brief Create random number generators for the workers of a parallel process.
+    \param seed Seed of the first worker. If it is not given, random seeds are used.
+    \param num_workers Number of workers.
+*/
+static std::vector<Rng> make_rngs(const std::optional<unsigned int>& seed, int num_workers) {
+    std::vector<Rng> rngs;
+    for (int i = 0; i < num_workers; i++) {
+        rngs.emplace_back(seed ? *seed + i : rng_seed());
+    }
+    return rngs;
+}
+
 #pragma endregion
 
 #pragma region Basic math functions
diff --git a/src/renderer/renderer_bdpt.cpp b/src/renderer/renderer_bdpt.cpp
index 2b208a0..0748f5c 100644
--- a/src/renderer/renderer_bdpt.cpp
+++ b/src/renderer/renderer_bdpt.cpp
@@ -5,6 +5,7 @@
 
 #include <pch.h>
 #include <lm/core.h>
+#include <lm/parallel.h>
 #include <lm/renderer.h>
 #include <lm/scene.h>
 #include <lm/film.h>
@@ -86,12 +87,15 @@ public:
         const auto size = film_->size();
         timer::ScopedTimer st;
 
+        // Random number generators for each worker
+        auto rngs = math::make_rngs(seed_, parallel::num_threads());
+
         // Execute parallel process
         const auto processed = sched_->run([&](long long, long long sample_index, int threadid) {
             LM_KEEP_UNUSED(sample_index);
 
             // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // Sample eye subpath
             const auto subpathE = path::sample_subpath(rng, scene_, max_verts_, TransDir::EL);
@@ -152,10 +156,13 @@ public:
         const auto size = film_->size();
         timer::ScopedTimer st;
 
+        // Random number generators for each worker
+        auto rngs = math::make_rngs(seed_, parallel::num_threads());
+
         // Execute parallel process
         const auto processed = sched_->run([&](long long, long long, int threadid) {
             // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // Sample subpaths
             const auto subpathE = path::sample_subpath(rng, scene_, max_verts_, TransDir::EL);
@@ -228,12 +235,15 @@ public:
         const auto size = film_->size();
         timer::ScopedTimer st;
 
+        // Random number generators for each worker
+        auto rngs = math::make_rngs(seed_, parallel::num_threads());
+
         // Execute parallel process
         const auto processed = sched_->run([&](long long, long long sample_index, int threadid) {
             LM_KEEP_UNUSED(sample_index);
 
             // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // Sample subpaths
             const auto subpathE = path::sample_subpath(rng, scene_, 1, TransDir::EL);
@@ -352,12 +362,15 @@ public:
         const auto size = film_->size();
         timer::ScopedTimer st;
 
+        // Random number generators for each worker
+        auto rngs = math::make_rngs(seed_, parallel::num_threads());
+
         // Execute parallel process
         const auto processed = sched_->run([&](long long, long long sample_index, int threadid) {
             LM_KEEP_UNUSED(sample_index);
 
             // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // Sample subpaths
             const auto subpathE = path::sample_subpath(rng, scene_, max_verts_, TransDir::EL);
diff --git a/src/renderer/renderer_bdptopt.cpp b/src/renderer/renderer_bdptopt.cpp
index e5e5cad..dbe650a 100644
--- a/src/renderer/renderer_bdptopt.cpp
+++ b/src/renderer/renderer_bdptopt.cpp
@@ -490,12 +490,15 @@ public:
         timer::ScopedTimer st;
 
 
+        // Random number generators for each worker
+        auto rngs = math::make_rngs(seed_, parallel::num_threads());
+
         // Execute parallel process
         const auto processed = sched_->run([&](long long, long long sample_index, int threadid) {
             LM_KEEP_UNUSED(sample_index);
 
             // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // Sample subpaths
             thread_local Path subpathE;
diff --git a/src/renderer/renderer_lt.cpp b/src/renderer/renderer_lt.cpp
index ea2e9ed..e54810b 100644
--- a/src/renderer/renderer_lt.cpp
+++ b/src/renderer/renderer_lt.cpp
@@ -5,6 +5,7 @@
 
 #include <pch.h>
 #include <lm/core.h>
+#include <lm/parallel.h>
 #include <lm/renderer.h>
 #include <lm/scene.h>
 #include <lm/film.h>
@@ -60,10 +61,13 @@ public:
         const auto size = film_->size();
         timer::ScopedTimer st;
 
+        // Random number generators for each worker
+        auto rngs = math::make_rngs(seed_, parallel::num_threads());
+
         // Execute parallel process
         const auto processed = sched_->run([&](long long, long long, int threadid) {
             // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // ------------------------------------------------------------------------------------
 
diff --git a/src/renderer/renderer_pt.cpp b/src/renderer/renderer_pt.cpp
index f9dd68a..9032288 100644
--- a/src/renderer/renderer_pt.cpp
+++ b/src/renderer/renderer_pt.cpp
@@ -5,6 +5,7 @@
 
 #include <pch.h>
 #include <lm/core.h>
+#include <lm/parallel.h>
 #include <lm/renderer.h>
 #include <lm/scene.h>
 #include <lm/film.h>
@@ -92,10 +93,13 @@ public:
         const auto size = film_->size();
         timer::ScopedTimer st;
 
+        // Random number generators for each worker
+        auto rngs = math::make_rngs(seed_, parallel::num_threads());
+
         // Execute parallel process
         const auto processed = sched_->run([&](long long pixel_index, long long, int threadid) {
             // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // ------------------------------------------------------------------------------------
 
diff --git a/src/renderer/renderer_volpt.cpp b/src/renderer/renderer_volpt.cpp
index e60f1c3..177da82 100644
--- a/src/renderer/renderer_volpt.cpp
+++ b/src/renderer/renderer_volpt.cpp
@@ -5,6 +5,7 @@
 
 #include <pch.h>
 #include <lm/core.h>
+#include <lm/parallel.h>
 #include <lm/renderer.h>
 #include <lm/scene.h>
 #include <lm/film.h>
@@ -71,11 +72,14 @@ public:
         film_->clear();
         const auto size = film_->size();
         timer::ScopedTimer st;
+        // Random number generators for each worker
+        auto rngs = math::make_rngs(seed_, parallel::num_threads());
+
         const auto processed = sched_->run([&](long long pixel_index, long long sample_index, int threadid) {
             LM_KEEP_UNUSED(sample_index);
 
             // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // ------------------------------------------------------------------------------------
 
@@ -208,11 +212,14 @@ public:
         film_->clear();
         const auto size = film_->size();
         timer::ScopedTimer st;
+        // Random number generators for each worker
+        auto rngs = math::make_rngs(seed_, parallel::num_threads());
+
         const auto processed = sched_->run([&](long long pixel_index, long long sample_index, int threadid) {
             LM_KEEP_UNUSED(sample_index);
 
             // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // ------------------------------------------------------------------------------------
 
-- 
2.43.0


From 4e76c96cc53323ad0386e4f62af48247e323fd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:14 +0000
Subject: [PATCH 13/44] fix: data race on the termination flag of the BVH build

---
 src/accel/accel_sahbvh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/accel/accel_sahbvh.cpp b/src/accel/accel_sahbvh.cpp
index 33ab6b0..c291cbc 100644
--- a/src/accel/accel_sahbvh.cpp
+++ b/src/accel/accel_sahbvh.cpp
@@ -167,7 +167,7 @@ public:
         std::condition_variable cv;     // For concurrent queue
         std::atomic<int> pr = 0;        // Processed triangles
         std::atomic<int> nn = 1;        // Number of current nodes
-        bool done = 0;                  // True if the build process is done
+        std::atomic<bool> done = false; // True if the build process is done
 
         auto process = [&]() {
             while (!done) {
-- 
2.43.0


From bf6b11d3ac5a2b2a317c3cb9d4ee446e40e0f4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:14 +0000
Subject: [PATCH 14/44] fix: build an acceleration structure for a scene
 without triangles

---
 src/accel/accel_sahbvh.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/accel/accel_sahbvh.cpp b/src/accel/accel_sahbvh.cpp
index c291cbc..7808b9b 100644
--- a/src/accel/accel_sahbvh.cpp
+++ b/src/accel/accel_sahbvh.cpp
@@ -153,6 +153,17 @@ public:
         // --------------------------------------------------------------------
 
         const int nt = int(trs_.size()); // Number of triangles
+        indices_.assign(nt, 0);
+        std::iota(indices_.begin(), indices_.end(), 0);
+
+        // Use an empty leaf node if there is no triangle in the scene
+        if (nt == 0) {
+            nodes_.assign(1, {});
+            nodes_[0].leaf = true;
+            nodes_[0].s = nodes_[0].e = 0;
+            return;
+        }
+
         struct Entry {
             int index;
             int start;
@@ -161,8 +172,6 @@ public:
         std::queue<Entry> q;            // Queue for traversal (node index, start, end)
         q.push({0, 0, nt});             // Initialize the queue with root node
         nodes_.assign(2*nt-1, {});      // Maximum number of nodes: 2*nt-1
-        indices_.assign(nt, 0);
-        std::iota(indices_.begin(), indices_.end(), 0);
         std::mutex mu;                  // For concurrent queue
         std::condition_variable cv;     // For concurrent queue
         std::atomic<int> pr = 0;        // Processed triangles
-- 
2.43.0


From ab15a10e9f50c4bb9c44cb615f4e28a7f72cdc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:14 +0000
Subject: [PATCH 15/44] fix: build the BVH when some or all threads cannot be
 started

---
 src/accel/accel_sahbvh.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/accel/accel_sahbvh.cpp b/src/accel/accel_sahbvh.cpp
index 7808b9b..9385c4d 100644
--- a/src/accel/accel_sahbvh.cpp
+++ b/src/accel/accel_sahbvh.cpp
@@ -179,6 +179,7 @@ public:
         std::atomic<bool> done = false; // True if the build process is done
 
         auto process = [&]() {
+            std::vector<Float> l(nt+1), r(nt+1);
             while (!done) {
                 // Each step construct a node for the triangles ranges in [s,e)
                 auto [ni, s, e] = [&]() -> Entry {
@@ -234,7 +235,6 @@ public:
                 Float b = Inf;
                 int bi = -1, ba = -1;
                 for (int a = 0; a < 3; a++) {
-                    thread_local std::vector<Float> l(nt+1), r(nt+1);
                     st(a);
                     Bound bl, br;
                     for (int i = 0; i <= e - s; i++) {
@@ -266,9 +266,21 @@ public:
             }
         };
         LM_INFO("Building");
-        std::vector<std::thread> ths(std::thread::hardware_concurrency());
-        for (auto& th : ths) {
-            th = std::thread(process);
+        // The number of hardware threads can be unknown (zero) and the system can refuse to create threads.
+        // Build with the threads that could be started, or with the current thread if there is none.
+        const int num_threads = int(std::thread::hardware_concurrency());
+        std::vector<std::thread> ths;
+        ths.reserve(num_threads);
+        try {
+            for (int i = 0; i < num_threads; i++) {
+                ths.emplace_back(process);
+            }
+        }
+        catch (const std::system_error& e) {
+            LM_WARN("Failed to create a thread [message='{}']", e.what());
+        }
+        if (ths.empty()) {
+            process();
         }
         for (auto& th : ths) {
             th.join();
-- 
2.43.0


From 075d25bda9fd88b9ec48be5122adc76cc1535e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:14 +0000
Subject: [PATCH 16/44] fix: limit the depth of the BVH to what the traversal
 stack can hold

---
 src/accel/accel_sahbvh.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/accel/accel_sahbvh.cpp b/src/accel/accel_sahbvh.cpp
index 9385c4d..928dd7f 100644
--- a/src/accel/accel_sahbvh.cpp
+++ b/src/accel/accel_sahbvh.cpp
@@ -117,6 +117,7 @@ private:
     std::vector<Tri> trs_;                                // Triangles
     std::vector<int> indices_;                            // Triangle indices
     std::vector<FlattenedPrimitiveNode> flattened_nodes_; // Flattened scene graph
+    static constexpr int MaxStackSize = 99;               // Maximum number of pending nodes in a traversal
     
 public:
     LM_SERIALIZE_IMPL(ar) {
@@ -168,9 +169,10 @@ public:
             int index;
             int start;
             int end;
+            int depth;
         };
         std::queue<Entry> q;            // Queue for traversal (node index, start, end)
-        q.push({0, 0, nt});             // Initialize the queue with root node
+        q.push({0, 0, nt, 0});          // Initialize the queue with root node
         nodes_.assign(2*nt-1, {});      // Maximum number of nodes: 2*nt-1
         std::mutex mu;                  // For concurrent queue
         std::condition_variable cv;     // For concurrent queue
@@ -182,7 +184,7 @@ public:
             std::vector<Float> l(nt+1), r(nt+1);
             while (!done) {
                 // Each step construct a node for the triangles ranges in [s,e)
-                auto [ni, s, e] = [&]() -> Entry {
+                auto [ni, s, e, depth] = [&]() -> Entry {
                     std::unique_lock<std::mutex> lk(mu);
                     if (!done && q.empty()) {
                         cv.wait(lk, [&]() { return done || !q.empty(); });
@@ -226,7 +228,8 @@ public:
                 };
 
                 // Create a leaf node if the number of triangle is 1
-                if (e - s < 2) {
+                // or the traversal stack has no room for the child nodes
+                if (e - s < 2 || depth + 2 > MaxStackSize) {
                     make_leaf();
                     continue;
                 }
@@ -260,8 +263,8 @@ public:
                 st(ba);
                 int m = s + bi;
                 std::unique_lock<std::mutex> lk(mu);
-                q.push({n.c1 = nn++, s, m});
-                q.push({n.c2 = nn++, m, e});
+                q.push({n.c1 = nn++, s, m, depth + 1});
+                q.push({n.c2 = nn++, m, e, depth + 1});
                 cv.notify_one();
             }
         };
@@ -291,7 +294,7 @@ public:
         exception::ScopedDisableFPEx guard_;  // Disable floating point exceptions
         std::optional<Tri::Hit> mh, h;
         int mi = -1;
-        int s[99]{};
+        int s[MaxStackSize]{};
         int si = 0;
         while (si >= 0) {
             auto& n = nodes_.at(s[si--]);
-- 
2.43.0


From e927696da0789f1f5e331b1500ce1c0d06455c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:56 +0000
Subject: [PATCH 17/44] fix: data race on the severity threshold of the logger

---
 src/logger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logger.cpp b/src/logger.cpp
index cba1e45..2214af4 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -15,9 +15,9 @@ LM_NAMESPACE_BEGIN(LM_NAMESPACE::log)
 class LoggerContext_Default : public LoggerContext {
 private:
     #if LM_DEBUG_MODE
-    int severity_ = -100;
+    std::atomic<int> severity_ = -100;
     #else
-    int severity_ = 0;
+    std::atomic<int> severity_ = 0;
     #endif
     int indentation_ = 0;
     std::string indentation_string_;
-- 
2.43.0


From 1858770fbbe3ff00265d4b6ff109775ce4f17284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:57 +0000
Subject: [PATCH 18/44] fix: do not pad a progress message with the white
 spaces of an earlier one

---
 src/logger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/logger.cpp b/src/logger.cpp
index 2214af4..8be6f7b 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -106,6 +106,7 @@ public:
                 }
                 else {
                     max_progress_message_len = messageLen;
+                    whitespaces.clear();
                 }
             }
 
-- 
2.43.0


From 11b77f2c245d67a45f047f1782f629b9e2e18f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:22 +0000
Subject: [PATCH 19/44] fix: load the plugins of a directory from that
 directory and skip the broken ones

---
 src/component.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/component.cpp b/src/component.cpp
index 999aa57..e35b721 100644
--- a/src/component.cpp
+++ b/src/component.cpp
@@ -295,7 +295,14 @@ public:
             if (!std::regex_match(filename.c_str(), match, pluginNameExp)) {
                 continue;
             }
-            load_plugin(it->path().stem().string().c_str());
+            // A plugin is specified by the path without extension.
+            // A plugin failed to load does not prevent the other plugins from being loaded.
+            try {
+                load_plugin(it->path().parent_path().append(it->path().stem().string()).string());
+            }
+            catch (const std::exception&) {
+                LM_WARN("Failed to load plugin [name='{}']. Skipping.", filename);
+            }
         }
     }
 
-- 
2.43.0


From 334b197fd38c09dcd76442502ab06672654759cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:19 +0000
Subject: [PATCH 20/44] fix: report read errors and too long lines in OBJ and
 MTL files

---
 src/objloader/objloader_simple.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index b643b22..0c4a512 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -140,6 +140,12 @@ public:
             }
         }
 
+        if (!f.eof()) {
+            // Read error, or a line that does not fit in the buffer
+            LM_ERROR("Failed to read OBJ file [path='{}']", path);
+            return false;
+        }
+
         // Create a default material if MTL file is missing
         if (ms_.empty()) {
             ms_.push_back({ "default", -1, Vec3(1) });
@@ -261,6 +267,11 @@ private:
             else if (command(t, "illum", 5))  { m.illum = next_int(t += 6); }
             else if (command(t, "map_Kd", 6)) { next_string(t += 7, name); m.mapKd = name; }
         }
+        if (!f.eof()) {
+            // Read error, or a line that does not fit in the buffer
+            LM_ERROR("Failed to read MTL file [path='{}']", p);
+            return false;
+        }
         return true;
     }
 };
-- 
2.43.0


From 43fbb82cfe41e028a2d73828c8ad6c7efc35362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:19 +0000
Subject: [PATCH 21/44] fix: buffer overflow by a long name in OBJ and MTL
 files

---
 src/objloader/objloader_simple.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index 0c4a512..813c198 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -27,7 +27,8 @@ public:
         msmap_.clear();
 
         LM_INFO("Loading OBJ file [path='{}']", fs::path(path).filename().string());
-        char l[4096], name[256];
+        char l[4096];
+        std::string name;
         std::ifstream f(path);
         if (!f) {
             LM_ERROR("Missing OBJ file [path='{}']", path);
@@ -226,13 +227,9 @@ private:
     }
 
     // Parses a string
-    template <int N>
-    void next_string(char *&t, char (&name)[N]) {
-        #if LM_COMPILER_MSVC
-        sscanf_s(t, "%s", name, N);
-        #else
-        sscanf(t, "%s", name);
-        #endif
+    void next_string(char *&t, std::string& name) {
+        t += strspn(t, " \t\r\n\v\f");
+        name.assign(t, strcspn(t, " \t\r\n\v\f"));
     };
 
     // Parses .mtl file
@@ -243,7 +240,8 @@ private:
             LM_ERROR("Missing MLT file [path='{}']", p);
             return false;
         }
-        char l[4096], name[256];
+        char l[4096];
+        std::string name;
         while (f.getline(l, 4096)) {
             auto *t = l;
             skip_spaces(t);
-- 
2.43.0


From eec11e3109b519ba5cf6c4099f0c23fe86f1b16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:19 +0000
Subject: [PATCH 22/44] fix: reject OBJ faces that refer to missing vertices

---
 src/objloader/objloader_simple.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index 813c198..a5654e6 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -147,6 +147,18 @@ public:
             return false;
         }
 
+        // Check if all faces refer to existing vertices
+        for (const auto& primitive : primitives) {
+            for (const auto& i : primitive.fs) {
+                if (i.p < 0 || i.p >= int(geo.ps.size()) ||
+                    i.t < -1 || i.t >= int(geo.ts.size()) ||
+                    i.n < -1 || i.n >= int(geo.ns.size())) {
+                    LM_ERROR("Invalid face index in OBJ file [path='{}']", path);
+                    return false;
+                }
+            }
+        }
+
         // Create a default material if MTL file is missing
         if (ms_.empty()) {
             ms_.push_back({ "default", -1, Vec3(1) });
-- 
2.43.0


From ca887e79f24078daac0fdf3c65baeaddb9e78712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:19 +0000
Subject: [PATCH 23/44] fix: report read errors of a texture file

---
 src/texture/texture_bitmap.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/texture/texture_bitmap.cpp b/src/texture/texture_bitmap.cpp
index a10d9f9..320b48e 100644
--- a/src/texture/texture_bitmap.cpp
+++ b/src/texture/texture_bitmap.cpp
@@ -51,11 +51,25 @@ public:
         const std::string path = sanitize_directory_separator(json::value<std::string>(prop, "path"));
         LM_INFO("Loading texture [path='{}']", fs::path(path).filename().string());
 
+        // Read the file
+        std::vector<unsigned char> buf;
+        {
+            std::ifstream f(path, std::ios::in | std::ios::binary);
+            char chunk[4096];
+            while (f.read(chunk, sizeof(chunk)) || f.gcount() > 0) {
+                buf.insert(buf.end(), chunk, chunk + f.gcount());
+            }
+            if (!f.eof()) {
+                LM_ERROR("Failed to read image [path='{}']", path);
+                LM_THROW_EXCEPTION_DEFAULT(Error::IOError);
+            }
+        }
+
         // Load as HDR image
         // LDR image is internally converted to HDR
         const bool flip = json::value<bool>(prop, "flip", true);
         stbi_set_flip_vertically_on_load(flip);
-        float* data = stbi_loadf(path.c_str(), &w_, &h_, &c_, 0);
+        float* data = stbi_loadf_from_memory(buf.data(), int(buf.size()), &w_, &h_, &c_, 0);
         if (data == nullptr) {
             LM_ERROR("Failed to load image: {} [path='{}']", stbi_failure_reason(), path);
             LM_THROW_EXCEPTION_DEFAULT(Error::IOError);
-- 
2.43.0


From 36911b4799a3c2c26f4435967587f70a97089b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:19 +0000
Subject: [PATCH 24/44] fix: report use of the assets and the state before
 initialization

---
 src/user.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/user.cpp b/src/user.cpp
index 9b94b8f..90a949d 100644
--- a/src/user.cpp
+++ b/src/user.cpp
@@ -93,6 +93,7 @@ public:
     }
 
     AssetGroup* assets() {
+        check_initialized();
         return root_assets_.get();
     }
 
@@ -102,6 +103,7 @@ public:
     }
 
     void save_state_to_file(const std::string& path) {
+        check_initialized();
         std::ofstream os(path, std::ios::out | std::ios::binary);
         serial::save_comp(os, root_assets_, root_assets_->loc());
         os.close();
@@ -111,6 +113,7 @@ public:
     }
 
     void load_state_from_file(const std::string& path) {
+        check_initialized();
         std::ifstream is(path, std::ios::in | std::ios::binary);
         // The new assets must be accessible from the root while they are being loaded.
         // Keep the current assets so that a failure does not affect them.
-- 
2.43.0


From 6083c4080c8cae55d84e446e76c4abf502011617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:29 +0000
Subject: [PATCH 25/44] fix: evaluate grayscale textures without reading
 neighboring pixels

---
 src/texture/texture_bitmap.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/texture/texture_bitmap.cpp b/src/texture/texture_bitmap.cpp
index 320b48e..9dab356 100644
--- a/src/texture/texture_bitmap.cpp
+++ b/src/texture/texture_bitmap.cpp
@@ -69,11 +69,18 @@ public:
         // LDR image is internally converted to HDR
         const bool flip = json::value<bool>(prop, "flip", true);
         stbi_set_flip_vertically_on_load(flip);
-        float* data = stbi_loadf_from_memory(buf.data(), int(buf.size()), &w_, &h_, &c_, 0);
+        // Grayscale image is expanded to RGB as the evaluation needs three components
+        int c = 0;
+        stbi_info_from_memory(buf.data(), int(buf.size()), &w_, &h_, &c);
+        const int req = c == 1 ? 3 : c == 2 ? 4 : 0;
+        float* data = stbi_loadf_from_memory(buf.data(), int(buf.size()), &w_, &h_, &c_, req);
         if (data == nullptr) {
             LM_ERROR("Failed to load image: {} [path='{}']", stbi_failure_reason(), path);
             LM_THROW_EXCEPTION_DEFAULT(Error::IOError);
         }
+        if (req != 0) {
+            c_ = req;
+        }
         // Allocate and copy the data
         data_.assign(data, data + (w_*h_*c_));
         stbi_image_free(data);
-- 
2.43.0


From 973d304d60f3cb949404e2cf978277e8c9079320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:29 +0000
Subject: [PATCH 26/44] fix: return null for an unknown name in a model as
 other components do

---
 src/model/model_wavefrontobj.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index 343c9a8..c787fec 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -68,7 +68,8 @@ public:
 
 public:
     virtual Component* underlying(const std::string& name) const override {
-        return assets_[assets_map_.at(name)].get();
+        const auto it = assets_map_.find(name);
+        return it != assets_map_.end() ? assets_[it->second].get() : nullptr;
     }
 
 	virtual void construct(const Json& prop) override {
-- 
2.43.0


From c7ecd92cd8598cfeb93f2433ec9701892ac80575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:19 +0000
Subject: [PATCH 27/44] fix: save whole pixels of a film that is being updated

---
 src/film/film_bitmap.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/film/film_bitmap.cpp b/src/film/film_bitmap.cpp
index 605ac23..78f3280 100644
--- a/src/film/film_bitmap.cpp
+++ b/src/film/film_bitmap.cpp
@@ -288,8 +288,9 @@ private:
         for (int y = 0; y < h_; y++) {
             const int yy = !flip ? y : h_-y-1;
             for (int x = 0; x < w_; x++) {
+                const auto pixel = data_[y*w_+x].v_.load();
                 for (int i = 0; i < 3; i++) {
-                    const Float t = data_[y*w_+x].v_.load()[i];
+                    const Float t = pixel[i];
                     if constexpr (std::is_same_v<T, float>) {
                         v[3*(yy*w_+x)+i] = T(t);
                     }
-- 
2.43.0


From f7313acb350820a48984d981803cb8255c8b2cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:00 +0000
Subject: [PATCH 28/44] fix: do not visualize the undefined normal of an
 environment light

---
 src/renderer/renderer_raycast.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/renderer/renderer_raycast.cpp b/src/renderer/renderer_raycast.cpp
index 5667438..9aaa335 100644
--- a/src/renderer/renderer_raycast.cpp
+++ b/src/renderer/renderer_raycast.cpp
@@ -72,7 +72,8 @@ public:
             const int y = int(index / size.w);
             const auto ray = path::primary_ray(scene_, {(x+.5_f)/size.w, (y+.5_f)/size.h});
             const auto sp = scene_->intersect(ray);
-            if (!sp) {
+            if (!sp || (visualize_normal_ && sp->geom.infinite)) {
+                // No surface, thus no normal
                 film_->set_pixel(x, y, bg_color_);
                 return;
             }
-- 
2.43.0


From c4e87143512af3b2e7539f4dee636c0e51d67f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:41 +0000
Subject: [PATCH 29/44] fix: release an instance that does not implement the
 requested interface

---
 include/lm/component.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/lm/component.h b/include/lm/component.h
index 314e509..42a6d56 100644
--- a/include/lm/component.h
+++ b/include/lm/component.h
@@ -569,7 +569,13 @@ Component::Ptr<InterfaceT> create_without_construct(const std::string& key, cons
         return {};
     }
     detail::Access::loc(inst) = loc;
-    return Component::Ptr<InterfaceT>(dynamic_cast<InterfaceT*>(inst));
+    // Ownership of the instance, also if it does not implement the interface
+    Component::Ptr<Component> owned(inst);
+    auto* p = dynamic_cast<InterfaceT*>(inst);
+    if (p) {
+        owned.release();
+    }
+    return Component::Ptr<InterfaceT>(p);
 }
 
 /*!
-- 
2.43.0


From 1ab805edee98919810b5aef45bb1eebc00ba55fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:41 +0000
Subject: [PATCH 30/44] fix: unload the plugins of a scope whose loading or
 unloading failed

---
 include/lm/component.h | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/lm/component.h b/include/lm/component.h
index 42a6d56..e076b81 100644
--- a/include/lm/component.h
+++ b/include/lm/component.h
@@ -705,17 +705,34 @@ public:
         : ScopedLoadPlugin({ path })
     {}
     ScopedLoadPlugin(std::initializer_list<std::string> paths) {
-        for (const auto& path : paths) {
-            load_plugin(path);
-            paths_.push_back(path);
+        try {
+            for (const auto& path : paths) {
+                load_plugin(path);
+                paths_.push_back(path);
+            }
+        }
+        catch (...) {
+            // The destructor is not called for a partially loaded list
+            unload();
+            throw;
         }
     }
     ~ScopedLoadPlugin() {
+        unload();
+    }
+    LM_DISABLE_COPY_AND_MOVE(ScopedLoadPlugin)
+
+private:
+    void unload() noexcept {
         for (const auto& path : paths_) {
-            unload_plugin(path);
+            try {
+                unload_plugin(path);
+            }
+            catch (const std::exception&) {
+                // Already reported. An exception must not leave the destructor.
+            }
         }
     }
-    LM_DISABLE_COPY_AND_MOVE(ScopedLoadPlugin)
 };
 
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From cfbae6c2dfda454472a37d1aa8450f6093748d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:16 +0000
Subject: [PATCH 31/44] fix: report an error when the asset tree is printed
 before initialization

---
 src/debug.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/debug.cpp b/src/debug.cpp
index 43faa57..4a263d7 100644
--- a/src/debug.cpp
+++ b/src/debug.cpp
@@ -112,9 +112,13 @@ LM_PUBLIC_API void print_asset_tree(bool visualize_weak_refs) {
         }
     };
         
+    auto* assets = lm::comp::get<Component>("$.assets");
+    if (!assets) {
+        LM_THROW_EXCEPTION(Error::Uninitialized,
+            "Assets are not initialized. Possible failure to call lm::init() function.");
+    }
     LM_INFO("$.assets");
     LM_INDENT();
-    auto* assets = lm::comp::get<Component>("$.assets");
     assets->foreach_underlying(std::bind(visitor, _1, _2, "$.assets"));
 }
 
-- 
2.43.0


From cb906419820f05129a266280ac1345633245ca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:57 +0000
Subject: [PATCH 32/44] fix: reject an invalid name for a serialized asset

---
 src/assetgroup.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/assetgroup.cpp b/src/assetgroup.cpp
index 8621b99..bcd68e4 100644
--- a/src/assetgroup.cpp
+++ b/src/assetgroup.cpp
@@ -141,6 +141,12 @@ public:
         LM_INFO("Loading serialized asset [name='{}']", name);
         LM_INDENT();
 
+        // Check if asset name is valid
+        if (!valid_asset_name(name)) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument,
+                "Invalid asset name [name='{}']", name);
+        }
+
         if (asset_index_map_.find(name) != asset_index_map_.end()) {
             LM_THROW_EXCEPTION(Error::InvalidArgument,
                 "Asset [name='{}'] has been already loaded.", name);
-- 
2.43.0


From 6fd69cbfff8cd96adbe2684058a51425bd45cbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:34 +0000
Subject: [PATCH 33/44] fix: run parallel loops with the configured number of
 threads from any thread

---
 src/parallel/parallel_openmp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parallel/parallel_openmp.cpp b/src/parallel/parallel_openmp.cpp
index fc52e12..e21b2aa 100644
--- a/src/parallel/parallel_openmp.cpp
+++ b/src/parallel/parallel_openmp.cpp
@@ -47,7 +47,7 @@ public:
 
         // Execute parallel loop
         std::atomic<long long> processed = 0;
-        #pragma omp parallel
+        #pragma omp parallel num_threads(num_threads_)
         {
         // Number of samples processed by this thread in this loop and not yet added to the total
         long long count = 0;
-- 
2.43.0


From 67f26915fc362214900d6c7449f51d5e3df2b720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:34 +0000
Subject: [PATCH 34/44] fix: distinguish the end of progress messages and
 finish its line

---
 include/lm/logger.h | 2 +-
 src/logger.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lm/logger.h b/include/lm/logger.h
index 85e544c..32ebc0f 100644
--- a/include/lm/logger.h
+++ b/include/lm/logger.h
@@ -84,7 +84,7 @@ enum class LogLevel : int {
         used in the end of the progress message.
         \endrst
     */
-    ProgressEnd = 100,
+    ProgressEnd = 101,
 };
 
 /*!
diff --git a/src/logger.cpp b/src/logger.cpp
index 8be6f7b..be4affc 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -117,7 +117,7 @@ public:
             else {
                 std::cout << header;
             }
-            std::cout << body << whitespaces << "\r" << std::flush;
+            std::cout << body << whitespaces << (level == LogLevel::ProgressEnd ? "\n" : "\r") << std::flush;
 
             // ProgressEnd incurs newline so reset the cached values
             if (level == LogLevel::ProgressEnd) {
-- 
2.43.0


From 6776312dfb25a3e27793c6378f0cedfb43aec122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:57 +0000
Subject: [PATCH 35/44] fix: keep the first face after a material change when
 loading with tinyobjloader

---
 .../objloader_tinyobjloader.cpp                    | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
index 9483371..ffcc60a 100644
--- a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
+++ b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
@@ -126,14 +126,12 @@ public:
                     fs.clear();
                     prev_material_id = curr_material_id;
                 }
-                else {
-                    const auto& i1 = shape.mesh.indices[fi*3];
-                    const auto& i2 = shape.mesh.indices[fi*3+1];
-                    const auto& i3 = shape.mesh.indices[fi*3+2];
-                    fs.push_back({ i1.vertex_index, i1.texcoord_index, i1.normal_index });
-                    fs.push_back({ i2.vertex_index, i2.texcoord_index, i2.normal_index });
-                    fs.push_back({ i3.vertex_index, i3.texcoord_index, i3.normal_index });
-                }
+                const auto& i1 = shape.mesh.indices[fi*3];
+                const auto& i2 = shape.mesh.indices[fi*3+1];
+                const auto& i3 = shape.mesh.indices[fi*3+2];
+                fs.push_back({ i1.vertex_index, i1.texcoord_index, i1.normal_index });
+                fs.push_back({ i2.vertex_index, i2.texcoord_index, i2.normal_index });
+                fs.push_back({ i3.vertex_index, i3.texcoord_index, i3.normal_index });
             }
             if (!fs.empty()) {
                 if (!process_mesh(fs, our_mat_params[prev_material_id < 0 ? 0 : prev_material_id])) {
-- 
2.43.0


From cfc3e7871b31c454a7fc97fedb7f4197450c0e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:49 +0000
Subject: [PATCH 36/44] fix: report OBJ and MTL files that cannot be read with
 tinyobjloader

---
 .../objloader_tinyobjloader.cpp               | 48 ++++++++++++++++++-
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
index ffcc60a..d00dfc7 100644
--- a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
+++ b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
@@ -17,6 +17,40 @@ namespace fs = std::filesystem;
 
 LM_NAMESPACE_BEGIN(LM_NAMESPACE::objloader)
 
+// Reads material libraries and remembers if one of them could not be read
+class MTLFileReader final : public tinyobj::MaterialReader {
+private:
+    std::string basedir_;
+    bool failed_ = false;
+
+public:
+    MTLFileReader(const std::string& basedir) : basedir_(basedir) {}
+
+    bool failed() const {
+        return failed_;
+    }
+
+    virtual bool operator()(
+        const std::string& name,
+        std::vector<tinyobj::material_t>* materials,
+        std::map<std::string, int>* material_map,
+        std::string* warn,
+        std::string* err) override
+    {
+        const auto path = (fs::path(basedir_) / name).string();
+        std::ifstream is(path);
+        if (is) {
+            tinyobj::LoadMtl(material_map, materials, &is, warn, err);
+            if (!is.bad()) {
+                return true;
+            }
+        }
+        failed_ = true;
+        *err += "Failed to read material file [path='" + path + "']\n";
+        return false;
+    }
+};
+
 class OBJLoaderContext_TinyOBJLoader : public OBJLoaderContext {
 public:
     virtual bool load(
@@ -35,14 +69,24 @@ public:
 
         // Load OBJ file
         const auto basedir = fs::path(path).parent_path().string();
-        const bool ret = tinyobj::LoadObj(&attrib, &shapes, &materials, &warn, &err, path.c_str(), basedir.c_str(), true);
+        MTLFileReader mtl_reader(basedir);
+        std::ifstream is(path);
+        if (!is) {
+            LM_ERROR("Missing OBJ file [path='{}']", path);
+            return false;
+        }
+        const bool ret = tinyobj::LoadObj(&attrib, &shapes, &materials, &warn, &err, &is, &mtl_reader, true);
         if (!err.empty()) {
             LM_ERROR(err);
         }
         if (!warn.empty()) {
             LM_WARN(warn);
         }
-        if (!ret) {
+        if (!ret || mtl_reader.failed()) {
+            return false;
+        }
+        if (is.bad()) {
+            LM_ERROR("Failed to read OBJ file [path='{}']", path);
             return false;
         }
 
-- 
2.43.0


From 26335488f2ef88814771e66328e6104ff7d72147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:00 +0000
Subject: [PATCH 37/44] fix: reject faces with indices out of range with
 tinyobjloader

---
 .../objloader_tinyobjloader.cpp                    | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
index d00dfc7..fd2765b 100644
--- a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
+++ b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
@@ -145,6 +145,13 @@ public:
             our_mat_params.push_back(std::move(p));
         }
 
+        // Checks if the indices refer to the existing elements
+        const auto valid_index = [&](const tinyobj::index_t& i) {
+            return i.vertex_index >= 0 && i.vertex_index < int(geo.ps.size())
+                && i.texcoord_index >= -1 && i.texcoord_index < int(geo.ts.size())
+                && i.normal_index >= -1 && i.normal_index < int(geo.ns.size());
+        };
+
         // Process shapes
         OBJMeshFace fs;
         for (const auto& shape : shapes) {
@@ -152,6 +159,9 @@ public:
             // because our framework doesn't support per-face material.
             fs.clear();
             const int num_faces = int(shape.mesh.num_face_vertices.size());
+            if (num_faces == 0) {
+                continue;
+            }
             int prev_material_id = shape.mesh.material_ids[0];
             for (int fi = 0; fi < num_faces; fi++) {
                 // Assume the mesh is triangulated
@@ -173,6 +183,10 @@ public:
                 const auto& i1 = shape.mesh.indices[fi*3];
                 const auto& i2 = shape.mesh.indices[fi*3+1];
                 const auto& i3 = shape.mesh.indices[fi*3+2];
+                if (!valid_index(i1) || !valid_index(i2) || !valid_index(i3)) {
+                    LM_ERROR("Face index out of range [path='{}']", path);
+                    return false;
+                }
                 fs.push_back({ i1.vertex_index, i1.texcoord_index, i1.normal_index });
                 fs.push_back({ i2.vertex_index, i2.texcoord_index, i2.normal_index });
                 fs.push_back({ i3.vertex_index, i3.texcoord_index, i3.normal_index });
-- 
2.43.0


From 1af8a5853ea3be920f4f2f3ca5ce56ba44ced28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:33 +0000
Subject: [PATCH 38/44] fix: report an unknown acceleration structure passed to
 set_accel

---
 src/scene.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scene.cpp b/src/scene.cpp
index f3d8556..bd58343 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -269,7 +269,11 @@ public:
     }
 
     virtual void set_accel(const std::string& accel_loc) override {
-        accel_ = comp::get<Accel>(accel_loc);
+        auto* accel = comp::get<Accel>(accel_loc);
+        if (!accel) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid acceleration structure [loc='{}']", accel_loc);
+        }
+        accel_ = accel;
     }
 
     virtual void build() override {
-- 
2.43.0


From 95ece058189a97919898b6cf44bbf3c1e992bda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:33 +0000
Subject: [PATCH 39/44] fix: report unresolved references of a primitive

---
 src/scene.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/scene.cpp b/src/scene.cpp
index bd58343..eb6d710 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -90,6 +90,16 @@ public:
         auto* camera = dynamic_cast<Camera*>(get_asset_ref_by("camera"));
         auto* medium = dynamic_cast<Medium*>(get_asset_ref_by("medium"));
 
+        // A reference that is given must resolve to an asset of the expected type
+        const std::pair<const char*, const Component*> refs[] = {
+            { "mesh", mesh }, { "material", material }, { "light", light }, { "camera", camera }, { "medium", medium }
+        };
+        for (const auto& [prop_name, ref] : refs) {
+            if (!ref && prop.find(prop_name) != prop.end()) {
+                LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid asset reference [name='{}']", prop_name);
+            }
+        }
+
         // Check validity
         if (!mesh && !material && !light && !camera && !medium) {
             LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid primitive node. Given assets are invalid.");
-- 
2.43.0


From 022c117fd32ccb90199dff5f12617d6d2c69e4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:33 +0000
Subject: [PATCH 40/44] fix: report a scene built without an acceleration
 structure

---
 src/scene.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scene.cpp b/src/scene.cpp
index eb6d710..3285bc7 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -287,6 +287,8 @@ public:
     }
 
     virtual void build() override {
+        require_accel();
+
         // Update light indices
         // We keep the global transformation of the light primitive as well as the references.
         // We need to recompute the indices when an update of the scene happens,
-- 
2.43.0


From f546b573f7243592f358ac0a2571bfeb8a6a2057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:33 +0000
Subject: [PATCH 41/44] fix: report missing children of progress reporters

---
 src/progress.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/progress.cpp b/src/progress.cpp
index ae8eab0..960c520 100644
--- a/src/progress.cpp
+++ b/src/progress.cpp
@@ -22,6 +22,9 @@ private:
 public:
     virtual void construct(const Json& prop) override {
         for (const auto& entry : prop) {
+            if (!entry.is_object() || entry.empty()) {
+                LM_THROW_EXCEPTION(Error::InvalidArgument, "Missing underlying progress reporter");
+            }
             auto it = entry.begin();
             auto ctx = comp::create<ProgressContext>(it.key(), "", it.value());
             if (!ctx) {
@@ -63,8 +66,15 @@ private:
 public:
     virtual void construct(const Json& prop) override {
         delay_ = milliseconds(json::value<int>(prop, "delay"));
-        auto it = prop["progress"].begin();
+        const auto progress = prop.find("progress");
+        if (progress == prop.end() || !progress->is_object() || progress->empty()) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Missing underlying progress reporter");
+        }
+        auto it = progress->begin();
         ctx_ = comp::create<ProgressContext>(it.key(), "", it.value());
+        if (!ctx_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid progress reporter [key='{}']", it.key());
+        }
     }
 
     virtual void start(ProgressMode mode, long long total, double totalTime) override {
-- 
2.43.0


From e0c931df0b4ce00c151501b2a12e8d2689c4f1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:33 +0000
Subject: [PATCH 42/44] fix: report unknown schedulers of renderers

---
 src/renderer/renderer_bdpt.cpp    | 3 +++
 src/renderer/renderer_bdptopt.cpp | 3 +++
 src/renderer/renderer_lt.cpp      | 3 +++
 src/renderer/renderer_pt.cpp      | 4 ++++
 src/renderer/renderer_volpt.cpp   | 3 +++
 5 files changed, 16 insertions(+)

diff --git a/src/renderer/renderer_bdpt.cpp b/src/renderer/renderer_bdpt.cpp
index 0748f5c..4d3af12 100644
--- a/src/renderer/renderer_bdpt.cpp
+++ b/src/renderer/renderer_bdpt.cpp
@@ -73,6 +73,9 @@ public:
         const auto sched_name = json::value<std::string>(prop, "scheduler");
         sched_ = comp::create<scheduler::Scheduler>(
             "scheduler::spi::" + sched_name, make_loc("scheduler"), prop);
+        if (!sched_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid scheduler [name='{}']", sched_name);
+        }
     }
 };
 
diff --git a/src/renderer/renderer_bdptopt.cpp b/src/renderer/renderer_bdptopt.cpp
index dbe650a..19befe0 100644
--- a/src/renderer/renderer_bdptopt.cpp
+++ b/src/renderer/renderer_bdptopt.cpp
@@ -454,6 +454,9 @@ public:
         const auto sched_name = json::value<std::string>(prop, "scheduler");
         sched_ = comp::create<scheduler::Scheduler>(
             "scheduler::spi::" + sched_name, make_loc("scheduler"), prop);
+        if (!sched_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid scheduler [name='{}']", sched_name);
+        }
         #if BDPT_PER_STRATEGY_FILM
         const auto size = film_->size();
         for (int k = 2; k <= max_verts_; k++) {
diff --git a/src/renderer/renderer_lt.cpp b/src/renderer/renderer_lt.cpp
index e54810b..4d770dc 100644
--- a/src/renderer/renderer_lt.cpp
+++ b/src/renderer/renderer_lt.cpp
@@ -53,6 +53,9 @@ public:
         const auto sched_name = json::value<std::string>(prop, "scheduler");
         sched_ = comp::create<scheduler::Scheduler>(
             "scheduler::spi::" + sched_name, make_loc("scheduler"), prop);
+        if (!sched_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid scheduler [name='{}']", sched_name);
+        }
     }
 
     virtual Json render() const override {
diff --git a/src/renderer/renderer_pt.cpp b/src/renderer/renderer_pt.cpp
index 9032288..3464529 100644
--- a/src/renderer/renderer_pt.cpp
+++ b/src/renderer/renderer_pt.cpp
@@ -81,6 +81,10 @@ public:
                 sched_ = comp::create<scheduler::Scheduler>(
                     "scheduler::spi::" + name, make_loc("scheduler"), prop);
             }
+            if (!sched_) {
+                LM_THROW_EXCEPTION(Error::InvalidArgument,
+                    "Invalid scheduler [name='{}', primary_ray_sampling_mode='{}']", name, s);
+            }
         }
     }
 
diff --git a/src/renderer/renderer_volpt.cpp b/src/renderer/renderer_volpt.cpp
index 177da82..2003d5f 100644
--- a/src/renderer/renderer_volpt.cpp
+++ b/src/renderer/renderer_volpt.cpp
@@ -59,6 +59,9 @@ public:
         sched_ = comp::create<scheduler::Scheduler>(
             "scheduler::spp::" + sched_name, make_loc("scheduler"), prop);
         #endif
+        if (!sched_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid scheduler [name='{}']", sched_name);
+        }
     }
 };
 
-- 
2.43.0


From fe74f0531a84722c04a5ab401b3aa972058f403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:33 +0000
Subject: [PATCH 43/44] fix: triangulate polygons with more than four vertices

---
 src/objloader/objloader_simple.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index a5654e6..2556bdf 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -103,6 +103,15 @@ public:
                 if (is[3].p != -1) {
                     // Triangulate quad
                     primitive.fs.insert(primitive.fs.end(), {is[0], is[2], is[3]});
+
+                    // Triangulate the rest of the polygon with more than four vertices
+                    while (!eol(t[0])) {
+                        const auto i = parse_indices(geo, t);
+                        if (i.p == -1) {
+                            break;
+                        }
+                        primitive.fs.insert(primitive.fs.end(), {is[0], primitive.fs.back(), i});
+                    }
                 }
             }
             
-- 
2.43.0


From 5c516460d38469e5c9fd0946b437016a1a5e0213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:33 +0000
Subject: [PATCH 44/44] fix: keep textures of different files with equal stems
 apart

---
 src/model/model_wavefrontobj.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index c787fec..2cd072d 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -74,6 +74,7 @@ public:
 
 	virtual void construct(const Json& prop) override {
         const std::string path = json::value<std::string>(prop, "path");
+        std::unordered_map<std::string, std::string> texture_ids;  // Identifiers of the loaded textures by filename
         const bool result = objloader::load(path, geo_,
             // Process mesh
             [&](const OBJMeshFace& fs, const MTLMatParams& m) -> bool {
@@ -133,11 +134,17 @@ public:
                 // Load texture
                 std::string mapKd_loc;
                 if (!m.mapKd.empty()) {
-                    // Use texture_<filename> as an identifier
-                    const auto id = "texture_" + fs::path(m.mapKd).stem().string();
-
                     // Check if already loaded
-                    if (auto it = assets_map_.find(id); it == assets_map_.end()) {
+                    auto& id = texture_ids[m.mapKd];
+                    if (id.empty()) {
+                        // Use texture_<filename> as an identifier.
+                        // Append a number if the identifier is already used by a different file.
+                        const auto base_id = "texture_" + fs::path(m.mapKd).stem().string();
+                        id = base_id;
+                        for (int i = 1; assets_map_.find(id) != assets_map_.end(); i++) {
+                            id = fmt::format("{}_{}", base_id, i);
+                        }
+
                         // If not loaded, load the texture
                         const auto textureAssetName = json::value<std::string>(prop, "texture", "texture::bitmap");
                         auto texture = comp::create<Texture>(textureAssetName, make_loc(id), {
-- 
2.43.0

