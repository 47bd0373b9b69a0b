From 6f45c5b9ab3bb82c47d14a93c32e0c4041983045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 01/43] fix: assignment and reCount of a Serie keep it
 consistent

Assignment forgot the dimension, and both changed the count before the
allocation that may fail, leaving a count that did not match the values.
---
 src/Serie.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 86c32f2..bc3ea77 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -52,14 +52,15 @@ Serie::Serie(int itemSize, const std::initializer_list<double> &values,
 bool Serie::isValid() const { return itemSize_ > 0; }
 
 void Serie::reCount(uint32_t c) {
-    count_ = c;
     s_ = Array(c * itemSize_);
+    count_ = c;
 }
 
 Serie &Serie::operator=(const Serie &s) {
+    s_ = Array(s.s_.cbegin(), s.s_.cend());
     count_ = s.count_;
     itemSize_ = s.itemSize_;
-    s_ = Array(s.s_.cbegin(), s.s_.cend());
+    dimension_ = s.dimension_;
     return *this;
 }
 
-- 
2.43.0


From dd0e8eb43c5e9eb41f272507868852c5ffd7e50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 02/43] fix: clone and toSerie keep the dimension

A clone of a default-constructed Serie also divided by its item size 0.
---
 src/Serie.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index bc3ea77..6795bca 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -64,7 +64,7 @@ Serie &Serie::operator=(const Serie &s) {
     return *this;
 }
 
-Serie Serie::clone() const { return Serie(itemSize_, s_); }
+Serie Serie::clone() const { return Serie(*this); }
 
 uint32_t Serie::size() const { return count_ * itemSize_; }
 
@@ -143,7 +143,7 @@ void print(const Array &v) {
 }
 
 Serie toSerie(uint32_t itemSize, const Array &a, uint dim) {
-    return Serie(itemSize, a, 3);
+    return Serie(itemSize, a, dim);
 }
 
 } // namespace df
-- 
2.43.0


From e23383c5a80c33a6516a9ad2b701ffc080a72219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 03/43] fix: Serie::scalar refuses an index equal to the size

---
 src/Serie.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 6795bca..6568e23 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -96,7 +96,7 @@ Array Serie::value(uint32_t i) const {
 }
 
 double Serie::scalar(uint32_t i) const {
-    if (i > size()) {
+    if (i >= size()) {
         throw std::invalid_argument("index out of bounds (" +
                                     std::to_string(i) +
                                     ">=" + std::to_string(size()));
-- 
2.43.0


From 43682c46d4ddd6dfec0d06bddbf17bfb3605ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 04/43] fix: partition_n and concat keep the dimension

---
 include/dataframe/functional/utils/concat.h      | 2 +-
 include/dataframe/functional/utils/partition_n.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dataframe/functional/utils/concat.h b/include/dataframe/functional/utils/concat.h
index 94d5a01..ffc215e 100644
--- a/include/dataframe/functional/utils/concat.h
+++ b/include/dataframe/functional/utils/concat.h
@@ -50,7 +50,7 @@ Serie concat(const std::vector<Serie> &series) {
         totalCount += s.count();
     }
 
-    Serie result(itemSize, totalCount);
+    Serie result(itemSize, totalCount, series[0].dimension());
     uint32_t currentIndex = 0;
 
     for (const auto &s : series) {
diff --git a/include/dataframe/functional/utils/partition_n.h b/include/dataframe/functional/utils/partition_n.h
index 57ceb1b..4db41eb 100644
--- a/include/dataframe/functional/utils/partition_n.h
+++ b/include/dataframe/functional/utils/partition_n.h
@@ -52,7 +52,7 @@ Series partition_n(uint32_t n, const Serie &serie) {
     uint32_t start = 0;
     for (uint32_t i = 0; i < n; ++i) {
         uint32_t size = base_size + (i < remainder ? 1 : 0);
-        Serie part(serie.itemSize(), size);
+        Serie part(serie.itemSize(), size, serie.dimension());
         for (uint32_t j = 0; j < size; ++j) {
             part.set(j, serie.get<Array>(start + j));
         }
@@ -99,7 +99,7 @@ auto partition_n(uint32_t n, const Series &...series) {
         uint32_t start = 0;
         for (uint32_t i = 0; i < n; ++i) {
             uint32_t size = base_size + (i < remainder ? 1 : 0);
-            Serie part(s.itemSize(), size);
+            Serie part(s.itemSize(), size, s.dimension());
             for (uint32_t j = 0; j < size; ++j) {
                 part.set(j, s.get<Array>(start + j));
             }
-- 
2.43.0


From 15eb5465d323223d830c82ba5abbfbc99d1dc242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 05/43] fix: partition_n of one Serie refuses n == 0 instead of
 dividing by it

---
 include/dataframe/functional/utils/partition_n.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dataframe/functional/utils/partition_n.h b/include/dataframe/functional/utils/partition_n.h
index 4db41eb..9ec7008 100644
--- a/include/dataframe/functional/utils/partition_n.h
+++ b/include/dataframe/functional/utils/partition_n.h
@@ -42,6 +42,10 @@ namespace utils {
  * ```
  */
 Series partition_n(uint32_t n, const Serie &serie) {
+    if (n == 0) {
+        throw std::invalid_argument("n must be > 0");
+    }
+
     uint32_t total = serie.count();
     uint32_t base_size = total / n;
     uint32_t remainder = total % n;
-- 
2.43.0


From 6d8300fd1699085f9f8c7a0e416ffde8c7082ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 06/43] fix: parallel_execute.h includes concat.h, which it
 uses

---
 include/dataframe/functional/utils/parallel_execute.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dataframe/functional/utils/parallel_execute.h b/include/dataframe/functional/utils/parallel_execute.h
index 79bad06..9721bd5 100644
--- a/include/dataframe/functional/utils/parallel_execute.h
+++ b/include/dataframe/functional/utils/parallel_execute.h
@@ -23,6 +23,7 @@
 
 #pragma once
 #include <dataframe/Serie.h>
+#include <dataframe/functional/utils/concat.h>
 #include <dataframe/functional/utils/partition_n.h>
 #include <dataframe/utils.h>
 #include <future>
-- 
2.43.0


From d2e76b57762cb52353c8f89719bac6ebc2c6778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 07/43] fix: parallel_execute of an empty Serie gives what the
 job gives

With several cores the result of an invalid (default-constructed) Serie was
refused by concat, while with one core it was returned.
---
 include/dataframe/functional/utils/parallel_execute.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/functional/utils/parallel_execute.h b/include/dataframe/functional/utils/parallel_execute.h
index 9721bd5..ba373cf 100644
--- a/include/dataframe/functional/utils/parallel_execute.h
+++ b/include/dataframe/functional/utils/parallel_execute.h
@@ -70,7 +70,7 @@ Serie parallel_execute(Functor &&fct, const Serie &serie, uint nbCores) {
         throw std::invalid_argument("NnCores must be >= 1");
     }
 
-    if (nbCores == 1) {
+    if (nbCores == 1 || serie.count() == 0) {
         return fct(serie);
     }
 
-- 
2.43.0


From 714cbbe30fef3473352f4f15f39c20d4e7148209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 08/43] fix: Dataframe::add leaves the dataframe alone when
 memory runs out

It left an empty serie under the new name and the new count behind.
---
 src/Dataframe.cxx | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/Dataframe.cxx b/src/Dataframe.cxx
index f1385f0..0a4cec7 100644
--- a/src/Dataframe.cxx
+++ b/src/Dataframe.cxx
@@ -62,16 +62,15 @@ namespace df
      */
     void Dataframe::add(const std::string &name, const Serie &serie)
     {
-        if (count_ == 0)
+        if (count_ != 0 && count_ != serie.count())
         {
-            count_ = serie.count();
+            // throw std::invalid_argument("Cannot add a Serie in a Dataframe when its count (" + std::to_string(serie.count()) + ") is different from the Dataframe count (" + std::to_string(count_) + ")");
         }
-
-        if (count_ != serie.count())
+        series_.insert_or_assign(name, serie);
+        if (count_ == 0)
         {
-            // throw std::invalid_argument("Cannot add a Serie in a Dataframe when its count (" + std::to_string(serie.count()) + ") is different from the Dataframe count (" + std::to_string(count_) + ")");
+            count_ = serie.count();
         }
-        series_[name] = serie;
     }
 
     /**
-- 
2.43.0


From ea971f6f36e94e5f0c794283660d2ab00cca4c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 09/43] fix: Dataframe::setCount changes all series or none
 when memory runs out

---
 src/Dataframe.cxx | 5 +++++
 src/Serie.cxx     | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Dataframe.cxx b/src/Dataframe.cxx
index 0a4cec7..f8d0fbc 100644
--- a/src/Dataframe.cxx
+++ b/src/Dataframe.cxx
@@ -45,6 +45,11 @@ namespace df
     {
         if (count_ != count && count > 0)
         {
+            // Get all the memory first, so that either all series change or none
+            for (auto it = series_.begin(); it != series_.end(); ++it)
+            {
+                it->second.asArray().reserve(size_t(count) * it->second.itemSize());
+            }
             count_ = count;
             if (series_.size())
             {
diff --git a/src/Serie.cxx b/src/Serie.cxx
index 6568e23..6c6c303 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -52,7 +52,7 @@ Serie::Serie(int itemSize, const std::initializer_list<double> &values,
 bool Serie::isValid() const { return itemSize_ > 0; }
 
 void Serie::reCount(uint32_t c) {
-    s_ = Array(c * itemSize_);
+    s_.assign(c * itemSize_, 0.0); // does not allocate within the capacity
     count_ = c;
 }
 
-- 
2.43.0


From 60963e465254db9b7a2ac48e351bcc599ee2ee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 10/43] fix: memoized functions tell all different series apart
 and can be shared by threads

The key ignored item size, count and dimension, was not ordered with NaNs
and took 0 and -0 for the same; the cache was not protected, and an
allocation failure while storing a result left an empty result behind.
---
 include/dataframe/functional/utils/memoize.h | 62 +++++++++++++++-----
 1 file changed, 46 insertions(+), 16 deletions(-)

diff --git a/include/dataframe/functional/utils/memoize.h b/include/dataframe/functional/utils/memoize.h
index d514261..95c3de8 100644
--- a/include/dataframe/functional/utils/memoize.h
+++ b/include/dataframe/functional/utils/memoize.h
@@ -21,8 +21,12 @@
  *
  */
 #pragma once
+#include <cstdint>
+#include <cstring>
 #include <dataframe/Serie.h>
 #include <map>
+#include <mutex>
+#include <tuple>
 #include <utility>
 #include <vector>
 
@@ -35,33 +39,59 @@ template <typename F> class Memoized {
 
     Serie operator()(const Serie &s) const {
         auto key = make_key(s);
-        auto it = cache.find(key);
-        if (it != cache.end()) {
-            return it->second;
+        {
+            std::lock_guard<std::mutex> lock(cache.mutex);
+            auto it = cache.results.find(key);
+            if (it != cache.results.end()) {
+                return it->second;
+            }
         }
+        // Not under the lock: the function may be slow or call us again
         auto result = func(s);
-        cache[key] = result;
+        std::lock_guard<std::mutex> lock(cache.mutex);
+        cache.results.emplace(std::move(key), result);
         return result;
     }
 
-    void clear_cache() { cache.clear(); }
+    void clear_cache() {
+        std::lock_guard<std::mutex> lock(cache.mutex);
+        cache.results.clear();
+    }
 
   private:
+    // Shape of the Serie, and its values bit for bit
+    using Key = std::tuple<uint32_t, uint32_t, uint, std::vector<uint64_t>>;
+    using Results = std::map<Key, Serie>;
+
+    struct Cache {
+        mutable std::mutex mutex;
+        Results results;
+
+        Cache() = default;
+        Cache(const Cache &c) : results(c.copy()) {}
+        Cache &operator=(const Cache &c) {
+            Results r = c.copy();
+            std::lock_guard<std::mutex> lock(mutex);
+            results.swap(r);
+            return *this;
+        }
+        Results copy() const {
+            std::lock_guard<std::mutex> lock(mutex);
+            return results;
+        }
+    };
+
     F func;
-    mutable std::map<std::vector<double>, Serie> cache;
+    mutable Cache cache;
 
     // Helper to create cache key from Series
-    std::vector<double> make_key(const Serie &s) const {
-        std::vector<double> key;
-        for (uint32_t i = 0; i < s.count(); ++i) {
-            if (s.itemSize() == 1) {
-                key.push_back(s.template get<double>(i));
-            } else {
-                const auto &v = s.template get<Array>(i);
-                key.insert(key.end(), v.begin(), v.end());
-            }
+    Key make_key(const Serie &s) const {
+        const Array &a = s.asArray();
+        std::vector<uint64_t> bits(a.size());
+        if (!a.empty()) {
+            std::memcpy(bits.data(), a.data(), a.size() * sizeof(double));
         }
-        return key;
+        return Key(s.itemSize(), s.count(), s.dimension(), std::move(bits));
     }
 };
 
-- 
2.43.0


From 6f1438b2deb06d6ff1ddf92c7459721afc436c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 11/43] fix: symmetricEigen leaks nothing when memory runs out

---
 src/functional/algebra/eigen.cxx | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/functional/algebra/eigen.cxx b/src/functional/algebra/eigen.cxx
index e0e85b1..7922abd 100644
--- a/src/functional/algebra/eigen.cxx
+++ b/src/functional/algebra/eigen.cxx
@@ -22,6 +22,7 @@
  */
 #include <cmath>
 #include <dataframe/functional/algebra/eigen.h>
+#include <vector>
 
 namespace df {
 namespace algebra {
@@ -210,9 +211,11 @@ void symmetricEigen(const double *mat, int n, double *eigen_vec,
 
     int nb_iter = 0;
     int nn = (n * (n + 1)) / 2;
-    double *a = new double[nn];
-    double *v = new double[n * n];
-    int *index = new int[n];
+    std::vector<double> a_values(nn);
+    std::vector<double> v_values(n * n);
+    std::vector<int> index(n);
+    double *a = a_values.data();
+    double *v = v_values.data();
 
     for (int ij = 0; ij < nn; ++ij) {
         a[ij] = mat[ij];
@@ -332,8 +335,6 @@ void symmetricEigen(const double *mat, int n, double *eigen_vec,
         eigen_val[i] = a[k];
     }
 
-    delete[] a;
-
     for (int i = 0; i < n; ++i) {
         index[i] = i;
     }
@@ -367,8 +368,6 @@ void symmetricEigen(const double *mat, int n, double *eigen_vec,
         }
     }
 
-    delete[] v;
-    delete[] index;
 }
 
 } // namespace algebra
-- 
2.43.0


From 3db63611227d282df153fc4130050c3314f4cd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 12/43] fix: norm2 wrote past the end of a one-element array

The arguments of createArray(size, value) were swapped.
---
 src/functional/algebra/norm.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/algebra/norm.cxx b/src/functional/algebra/norm.cxx
index c15085b..7a86a17 100644
--- a/src/functional/algebra/norm.cxx
+++ b/src/functional/algebra/norm.cxx
@@ -42,7 +42,7 @@ Serie norm2(const Serie &s) {
         return s.clone();
     }
 
-    Array data = createArray(1, s.count());
+    Array data = createArray(s.count(), 0);
 
     for (uint32_t i = 0; i < s.count(); ++i) {
         Array v = s.value(i);
-- 
2.43.0


From b0307f37be1df83aa085ac6a106c6281f8af06db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:27 +0000
Subject: [PATCH 13/43] fix: areas divides the norms by 2, not 2 by the norms

---
 src/functional/geo/areas.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/geo/areas.cxx b/src/functional/geo/areas.cxx
index 9608050..d4a5c7b 100644
--- a/src/functional/geo/areas.cxx
+++ b/src/functional/geo/areas.cxx
@@ -33,7 +33,7 @@ Serie areas(const Serie &positions, const Serie &indices) {
     if (!positions.isValid() || !indices.isValid()) {
         return Serie();
     }
-    return math::div(algebra::norm(geo::normals(positions, indices)), 2);
+    return math::div(2, algebra::norm(geo::normals(positions, indices)));
 }
 
 } // namespace geo
-- 
2.43.0


From 4578c53e03f5cc123fed2c7d8ad569dc749af0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:27 +0000
Subject: [PATCH 14/43] fix: Matrix owns its values

transpose, multMat and symSquaredMatrix returned a Matrix that referred to
a destroyed local array.
---
 include/dataframe/view/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/view/Matrix.h b/include/dataframe/view/Matrix.h
index 9bbbc29..960daf7 100644
--- a/include/dataframe/view/Matrix.h
+++ b/include/dataframe/view/Matrix.h
@@ -45,7 +45,7 @@ namespace df
         Matrix multMat(const Matrix &m) const;
 
     private:
-        const Array &v_;
+        Array v_;
         uint m_;
     };
 
-- 
2.43.0


From 9b3ff9c29acdf164a224e75dbbd984ab69d3f259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:43 +0000
Subject: [PATCH 15/43] fix: map over several empty series does not call the
 callback

It called it for item 0, which does not exist, and returned one item.
---
 include/dataframe/functional/map.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/dataframe/functional/map.h b/include/dataframe/functional/map.h
index e1e90a5..a333cdd 100644
--- a/include/dataframe/functional/map.h
+++ b/include/dataframe/functional/map.h
@@ -120,6 +120,13 @@ auto map(F &&callback, const Args &...args) {
 
         auto counts = utils::countAndCheck(args...);
 
+        if (counts[0] == 0) {
+            // No item to call the callback with (same result as with one Serie)
+            using Result =
+                std::decay_t<decltype(callback(args.template get<Array>(0)..., 0))>;
+            return Serie(std::is_arithmetic_v<Result> ? 1 : 0, 0);
+        }
+
         // Get first result to determine output Serie properties
         auto first_result = callback(args.template get<Array>(0)..., 0);
         Serie result;
-- 
2.43.0


From 8f2830fe0ab19f18adf30af6555e45425a921485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:43 +0000
Subject: [PATCH 16/43] fix: operator<< of Serie, Array and Strings writes to
 the stream it is given

They wrote to std::cerr or std::cout.
---
 include/dataframe/inline/Serie.hxx | 16 ++++++++--------
 include/dataframe/types.h          | 12 ++++++------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index 1b7a6ec..eaa7b24 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -67,19 +67,19 @@ inline const Array &Serie::asArray() const { return s_; }
 inline Array &Serie::asArray() { return s_; }
 
 inline std::ostream &operator<<(std::ostream &o, const Serie &s) {
-    std::cerr << "Serie:" << std::endl;
-    std::cerr << "  itemSize : " << s.itemSize() << std::endl;
-    std::cerr << "  count    : " << s.count() << std::endl;
-    std::cerr << "  dimension: " << s.dimension() << std::endl;
+    o << "Serie:" << std::endl;
+    o << "  itemSize : " << s.itemSize() << std::endl;
+    o << "  count    : " << s.count() << std::endl;
+    o << "  dimension: " << s.dimension() << std::endl;
     if (s.count() > 0) {
-        std::cerr << "  values   : [";
+        o << "  values   : [";
         Array v = s.asArray();
         for (uint32_t i = 0; i < v.size() - 1; ++i) {
-            std::cerr << v[i] << ", ";
+            o << v[i] << ", ";
         }
-        std::cerr << v[v.size() - 1] << "]";
+        o << v[v.size() - 1] << "]";
     } else {
-        std::cerr << "  values   : []";
+        o << "  values   : []";
     }
     return o;
 }
diff --git a/include/dataframe/types.h b/include/dataframe/types.h
index 5899a1f..fe097c7 100644
--- a/include/dataframe/types.h
+++ b/include/dataframe/types.h
@@ -51,15 +51,15 @@ inline Array createArray(uint32_t size, double initValue) {
 
 inline std::ostream &operator<<(std::ostream &o, const Array &a) {
 
-    std::cout << "[";
+    o << "[";
     if (a.size() > 0) {
         for (size_t j = 0; j < a.size() - 1; ++j) {
-            std::cout << a[j] << ", ";
+            o << a[j] << ", ";
         }
-        std::cout << a.back() << "]";
+        o << a.back() << "]";
     }
     else {
-        std::cout << "[]";
+        o << "[]";
     }
 
     return o;
@@ -67,8 +67,8 @@ inline std::ostream &operator<<(std::ostream &o, const Array &a) {
 
 inline std::ostream &operator<<(std::ostream &o, const Strings &a) {
     for (const String &v : a) {
-        std::cerr << "  " << v << std::endl;
+        o << "  " << v << std::endl;
     }
-    std::cerr << std::endl;
+    o << std::endl;
     return o;
 }
-- 
2.43.0


From ab0dd98b9be310b5d443e532de3cb578fee5016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 17/43] fix: a Manager destroys its decomposers completely,
 also when cleared

Decomposer had no virtual destructor, and clear() leaked them all.
---
 include/dataframe/attributes/Decomposer.h | 2 ++
 src/attributes/Manager.cxx                | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/dataframe/attributes/Decomposer.h b/include/dataframe/attributes/Decomposer.h
index 58956bb..22ca0c1 100644
--- a/include/dataframe/attributes/Decomposer.h
+++ b/include/dataframe/attributes/Decomposer.h
@@ -36,6 +36,8 @@ namespace df
     class Decomposer
     {
     public:
+        virtual ~Decomposer() = default;
+
         virtual Strings names(const Dataframe &dataframe, uint32_t itemSize, const Serie &serie, const String &name) const ;
         virtual Serie serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const ;
     };
diff --git a/src/attributes/Manager.cxx b/src/attributes/Manager.cxx
index 6786242..7c04451 100644
--- a/src/attributes/Manager.cxx
+++ b/src/attributes/Manager.cxx
@@ -53,6 +53,9 @@ namespace df
 
     void Manager::clear()
     {
+        for (auto d : ds_) {
+            delete d;
+        }
         ds_.clear();
     }
 
-- 
2.43.0


From 1db0b807f197e4552a7784b352048d0faa2cff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 18/43] fix: UserDefinedDecomposer keeps its callback

It kept a reference to a callback that no longer exists after construction.
---
 include/dataframe/attributes/UserDefinedDecomposer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/attributes/UserDefinedDecomposer.h b/include/dataframe/attributes/UserDefinedDecomposer.h
index dc597dc..72f8c36 100644
--- a/include/dataframe/attributes/UserDefinedDecomposer.h
+++ b/include/dataframe/attributes/UserDefinedDecomposer.h
@@ -41,7 +41,7 @@ namespace df
     private:
         uint itemSize_{0};
         String name_;
-        F &&cb_;
+        mutable F cb_;
     };
 
     // ------------------------------------------------------------
-- 
2.43.0


From 99d483d437d81ef7e71c9cf14ba9f7cc5ce763f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 19/43] fix: areas, normals and valences are listed only if
 they can be computed

They need the positions and the indices.
---
 src/attributes/Areas.cxx   | 2 +-
 src/attributes/Normals.cxx | 2 +-
 src/attributes/Valence.cxx | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/attributes/Areas.cxx b/src/attributes/Areas.cxx
index 1a14cf6..50010e0 100644
--- a/src/attributes/Areas.cxx
+++ b/src/attributes/Areas.cxx
@@ -41,7 +41,7 @@ namespace df
         if (itemSize != 1) {
             return Strings();
         }
-        if (!dataframe.contains("positions") && !dataframe.contains("indices")) {
+        if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
 
diff --git a/src/attributes/Normals.cxx b/src/attributes/Normals.cxx
index ac93d57..2e9ad69 100644
--- a/src/attributes/Normals.cxx
+++ b/src/attributes/Normals.cxx
@@ -39,7 +39,7 @@ namespace df
         if (itemSize != 3) {
             return Strings();
         }
-        if (!dataframe.contains("positions") && !dataframe.contains("indices")) {
+        if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
 
diff --git a/src/attributes/Valence.cxx b/src/attributes/Valence.cxx
index b0ebfa4..2334007 100644
--- a/src/attributes/Valence.cxx
+++ b/src/attributes/Valence.cxx
@@ -38,7 +38,7 @@ namespace df
         if (itemSize != 1) {
             return Strings();
         }
-        if (!dataframe.contains("positions") && !dataframe.contains("indices")) {
+        if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
 
-- 
2.43.0


From b1dc25d7ed3ef2022ff102e71d45e838b3112c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 20/43] fix: normals, areas and valences are not listed for
 cells they cannot handle

For points that are not 3D or cells that are not triangles they were listed
but not retrievable, and the valence read past the end of the cells.
---
 src/attributes/Areas.cxx   | 3 +++
 src/attributes/Normals.cxx | 3 +++
 src/attributes/Valence.cxx | 5 ++++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/attributes/Areas.cxx b/src/attributes/Areas.cxx
index 50010e0..bb8036a 100644
--- a/src/attributes/Areas.cxx
+++ b/src/attributes/Areas.cxx
@@ -44,6 +44,9 @@ namespace df
         if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
+        if (dataframe["positions"].itemSize() != 3 || dataframe["indices"].itemSize() != 3) {
+            return Strings();
+        }
 
         return Strings{name_};
     }
diff --git a/src/attributes/Normals.cxx b/src/attributes/Normals.cxx
index 2e9ad69..93a0f48 100644
--- a/src/attributes/Normals.cxx
+++ b/src/attributes/Normals.cxx
@@ -42,6 +42,9 @@ namespace df
         if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
+        if (dataframe["positions"].itemSize() != 3 || dataframe["indices"].itemSize() != 3) {
+            return Strings();
+        }
 
         return Strings{name_};
     }
diff --git a/src/attributes/Valence.cxx b/src/attributes/Valence.cxx
index 2334007..aad8a8d 100644
--- a/src/attributes/Valence.cxx
+++ b/src/attributes/Valence.cxx
@@ -41,6 +41,9 @@ namespace df
         if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
+        if (!dataframe["positions"].isValid() || dataframe["indices"].itemSize() != 3) {
+            return Strings();
+        }
 
         return Strings{name_};
     }
@@ -54,7 +57,7 @@ namespace df
 
         const Serie& positions = dataframe["positions"];
         const Serie& indices = dataframe["indices"];
-        if (!positions.isValid() || !indices.isValid()) {
+        if (!positions.isValid() || indices.itemSize() != 3) {
             return Serie();
         }
 
-- 
2.43.0


From da6dfe1cc506db8146e7fb15541aed83ed318df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 21/43] fix: Coordinates handles 2D positions and any number of
 names

It read past the end of the names or of the positions.
---
 src/attributes/Coordinates.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/attributes/Coordinates.cxx b/src/attributes/Coordinates.cxx
index c0f479d..dacdb74 100644
--- a/src/attributes/Coordinates.cxx
+++ b/src/attributes/Coordinates.cxx
@@ -38,7 +38,9 @@ namespace df
         if (itemSize != 1 || name != "positions") {
             return Strings();
         }
-        return names_;
+        // One name per component
+        auto n = std::min<size_t>(names_.size(), serie.itemSize());
+        return Strings(names_.begin(), names_.begin() + n);
     }
 
     Serie Coordinates::serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const
@@ -46,7 +48,7 @@ namespace df
 
         if (itemSize == 1) {
             const Serie& serie = dataframe["positions"];
-            for (uint i=0; i<3; ++i) {
+            for (uint i=0; i<names_.size() && i<serie.itemSize(); ++i) {
                 if (name == names_[i]) {
                     return serie.map( [i](const Array& item, uint32_t) {
                         return Array{item[i]};
-- 
2.43.0


From f576803e16223b79e550d7e0c6a87d0b73e7913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 22/43] fix: eigen values and vectors of an attribute can be
 retrieved

The character code of the digit was taken for the number, so that nothing
was ever found; an empty name was indexed; an eigen vector was returned as
one number.
---
 src/attributes/EigenValues.cxx  |  7 +++++--
 src/attributes/EigenVectors.cxx | 15 ++++++++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/attributes/EigenValues.cxx b/src/attributes/EigenValues.cxx
index 57a88df..da929b1 100644
--- a/src/attributes/EigenValues.cxx
+++ b/src/attributes/EigenValues.cxx
@@ -38,7 +38,7 @@ namespace df
         if (serie.dimension() == 2 && (serie.itemSize() != 3 || itemSize != 1)) {
             return Strings();
         }
-        if (serie.dimension() == 3 && (serie.itemSize() != 6 || itemSize != 1)) {
+        if (serie.dimension() != 2 && (serie.itemSize() != 6 || itemSize != 1)) {
             return Strings();
         }
 
@@ -53,9 +53,12 @@ namespace df
         if (itemSize != 1) {
             return Serie();
         }
+        if (name.empty()) {
+            return Serie();
+        }
         String newName = name.substr(0, name.size() - 1);
         const Serie& serie = dataframe[newName];
-        uint id = name[name.size() - 1];
+        uint id = name[name.size() - 1] - '0';
 
         if (serie.isValid() == false) {
             return Serie();
diff --git a/src/attributes/EigenVectors.cxx b/src/attributes/EigenVectors.cxx
index 6331f71..72e8ecf 100644
--- a/src/attributes/EigenVectors.cxx
+++ b/src/attributes/EigenVectors.cxx
@@ -38,7 +38,7 @@ namespace df
         if (serie.dimension() == 2 && (serie.itemSize() != 3 || itemSize != 2)) {
             return Strings();
         }
-        if (serie.dimension() == 3 && (serie.itemSize() != 6 || itemSize != 3)) {
+        if (serie.dimension() != 2 && (serie.itemSize() != 6 || itemSize != 3)) {
             return Strings();
         }
 
@@ -50,17 +50,22 @@ namespace df
 
     Serie EigenVectors::serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const
     {
-        if (itemSize != 3) {
+        if (name.empty()) {
             return Serie();
         }
         String newName = name.substr(0, name.size() - 1);
         const Serie& serie = dataframe[newName];
-        uint id = name[name.size() - 1];
+        uint id = name[name.size() - 1] - '0';
 
         if (serie.isValid() == false) {
             return Serie();
         }
 
+        const uint n = serie.dimension() == 2 ? 2 : 3;
+        if (itemSize != n) {
+            return Serie();
+        }
+
         if (serie.dimension() == 2) {
             if (serie.itemSize() != 3) {
                 return Serie();
@@ -77,8 +82,8 @@ namespace df
             }
         }
 
-        return algebra::eigenVectors(serie).map( [id](const Array& item, uint32_t) {
-            return Array{item[id-1]};
+        return algebra::eigenVectors(serie).map( [id, n](const Array& item, uint32_t) {
+            return Array(item.begin() + (id-1) * n, item.begin() + id * n);
         });
     }
 
-- 
2.43.0


From c82f2fa7345bb6a643c6c54b1f047afc700b5f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 23/43] fix: Components retrieves what it lists, and only that

Components of 2D series and those with a number were listed but not found
or the other way round, a name shorter than the suffix threw, and items
were read past their end.
---
 src/attributes/Components.cxx | 120 +++++++++-------------------------
 1 file changed, 32 insertions(+), 88 deletions(-)

diff --git a/src/attributes/Components.cxx b/src/attributes/Components.cxx
index 6ae4734..a33ecfa 100644
--- a/src/attributes/Components.cxx
+++ b/src/attributes/Components.cxx
@@ -22,7 +22,6 @@
  */
 
 #include <dataframe/attributes/Components.h>
-#include <dataframe/utils/nameOfSerie.h>
 // #include <dataframe/functional/apply.h>
 #include <algorithm>
 #include <dataframe/utils/utils.h>
@@ -50,22 +49,8 @@ static Strings smatrix3Names{"xx", "xy", "xz", "yy", "yz", "zz"};
 static Strings matrix3Names{"xx", "xy", "xz", "yx", "yy",
                             "yz", "zx", "zy", "zz"};
 
-Strings Components::names(const Dataframe &dataframe, uint32_t itemSize,
-                          const Serie &serie, const String &name) const {
-    if (name == "positions" || name == "indices") {
-        return Strings();
-    }
-
-    // Passed name is, e.g., 'U' && itemSize=3 && dimension=3
-    String sname = nameOfSerie(dataframe, serie);
-    if (name == sname && serie.itemSize() == 1) {
-        return Strings();
-    }
-
-    if (itemSize > 1) {
-        return Strings();
-    }
-
+// The names of all components of a serie
+static Strings componentsOf(const Serie &serie, const String &name) {
     if (serie.dimension() == 2) {
         switch (serie.itemSize()) {
         case 2:
@@ -94,90 +79,49 @@ Strings Components::names(const Dataframe &dataframe, uint32_t itemSize,
     }
 
     Strings names;
-    for (uint32_t i = 0; i < itemSize; ++i) {
+    for (uint32_t i = 0; i < serie.itemSize(); ++i) {
         names.push_back(name + std::to_string(i));
     }
 
     return names;
 }
 
+Strings Components::names(const Dataframe &dataframe, uint32_t itemSize,
+                          const Serie &serie, const String &name) const {
+    if (name == "positions" || name == "indices") {
+        return Strings();
+    }
+
+    // Passed name is, e.g., 'U' && itemSize=3 && dimension=3
+    if (serie.itemSize() == 1) {
+        return Strings();
+    }
+
+    if (itemSize != 1) {
+        return Strings();
+    }
+
+    return componentsOf(serie, name);
+}
+
 Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
                         const String &name) const {
     if (itemSize > 1) {
         return Serie();
     }
 
-    // vector2 / vector3
-    auto newName = name.substr(0, name.size() - 1);
-    auto serie = dataframe[newName];
-
-    if (serie.isValid()) {
-        if (serie.dimension() == 2) {
-            for (uint32_t i = 0; i < vector2Names.size(); ++i) {
-                if (name == newName + vector2Names[i]) {
-                    return serie.map([i](const Array &item, uint32_t index) {
-                        return Array{item[i]};
-                    });
-                }
-            }
-        } else {
-            for (uint32_t i = 0; i < vector3Names.size(); ++i) {
-                if (name == newName + vector3Names[i]) {
-                    return serie.map([i](const Array &item, uint32_t index) {
-                        return Array{item[i]};
-                    });
-                }
-            }
-        }
-    }
-
-    // (smatrix2 and matrix2) / (smatrix3 and matrix3)
-    newName = name.substr(0, name.size() - 2);
-    serie = dataframe[newName];
-    if (serie.isValid()) {
-        if (serie.dimension() == 2) {
-            for (uint32_t i = 0; i < smatrix2Names.size(); ++i) {
-                if (name == newName + smatrix2Names[i]) {
-                    return serie.map([i](const Array &item, uint32_t index) {
-                        return Array{item[i]};
-                    });
-                }
-            }
-            for (uint32_t i = 0; i < matrix2Names.size(); ++i) {
-                if (name == newName + matrix2Names[i]) {
-                    return serie.map([i](const Array &item, uint32_t index) {
-                        return Array{item[i]};
-                    });
-                }
-            }
-        } else {
-            for (uint32_t i = 0; i < smatrix3Names.size(); ++i) {
-                if (name == newName + smatrix3Names[i]) {
-                    return serie.map([i](const Array &item, uint32_t index) {
-                        return Array{item[i]};
-                    });
-                }
-            }
-            for (uint32_t i = 0; i < matrix3Names.size(); ++i) {
-                if (name == newName + matrix3Names[i]) {
-                    return serie.map([i](const Array &item, uint32_t index) {
-                        return Array{item[i]};
-                    });
-                }
-            }
+    // The component's name begins with the name of its serie
+    for (const auto &[sname, serie] : dataframe.series()) {
+        if (serie.itemSize() == 1 || name.compare(0, sname.size(), sname) != 0) {
+            continue;
         }
-    }
-
-    // Others: use integer
-    newName = name.substr(0, name.size() - 1);
-    serie = dataframe[newName];
-    if (serie.isValid()) {
-        for (uint32_t i = 0; i < itemSize; ++i) {
-            if (name == newName + std::to_string(i)) {
-                return serie.map([i](const Array &item, uint32_t index) {
-                    return Array{item[i]};
-                });
-            }
+        Strings components = componentsOf(serie, sname);
+        auto it = std::find(components.begin(), components.end(), name);
+        if (it != components.end()) {
+            auto i = it - components.begin();
+            return serie.map([i](const Array &item, uint32_t index) {
+                return Array{item[i]};
+            });
         }
     }
 
-- 
2.43.0


From be70094d6c05129a1bdd3c15bd35fbf820b7a47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 24/43] fix: the number of values of a Serie does not wrap
 around for large counts

---
 src/Serie.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 6c6c303..6c56a6a 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -28,7 +28,7 @@ namespace df {
 
 Serie::Serie(int itemSize, uint32_t count, uint dimension)
     : itemSize_(itemSize), count_(count), dimension_(dimension) {
-    s_ = Array(count * itemSize);
+    s_ = Array(size_t(count) * itemSize);
 }
 
 Serie::Serie(const Serie &s)
@@ -52,7 +52,7 @@ Serie::Serie(int itemSize, const std::initializer_list<double> &values,
 bool Serie::isValid() const { return itemSize_ > 0; }
 
 void Serie::reCount(uint32_t c) {
-    s_.assign(c * itemSize_, 0.0); // does not allocate within the capacity
+    s_.assign(size_t(c) * itemSize_, 0.0); // does not allocate within the capacity
     count_ = c;
 }
 
-- 
2.43.0


From 431525eb3218ed98bb303053bfb22a03efa7fc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:04 +0000
Subject: [PATCH 25/43] fix: normals and valences are only given for the item
 size they are listed for

---
 src/attributes/Normals.cxx | 2 +-
 src/attributes/Valence.cxx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/attributes/Normals.cxx b/src/attributes/Normals.cxx
index 93a0f48..5c5e6a0 100644
--- a/src/attributes/Normals.cxx
+++ b/src/attributes/Normals.cxx
@@ -52,7 +52,7 @@ namespace df
     Serie Normals::serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const
     {
 
-        if (name != name_) {
+        if (itemSize != 3 || name != name_) {
             return Serie();
         }
 
diff --git a/src/attributes/Valence.cxx b/src/attributes/Valence.cxx
index aad8a8d..e349ac0 100644
--- a/src/attributes/Valence.cxx
+++ b/src/attributes/Valence.cxx
@@ -51,7 +51,7 @@ namespace df
     Serie Valence::serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const
     {
 
-        if (name != name_) {
+        if (itemSize != 1 || name != name_) {
             return Serie();
         }
 
-- 
2.43.0


From 8430d64517a44e166823f98841261d8271d21b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:05 +0000
Subject: [PATCH 26/43] fix: a Manager, which owns its decomposers, cannot be
 copied

---
 include/dataframe/attributes/Manager.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dataframe/attributes/Manager.h b/include/dataframe/attributes/Manager.h
index bd5e7d9..92bde33 100644
--- a/include/dataframe/attributes/Manager.h
+++ b/include/dataframe/attributes/Manager.h
@@ -44,6 +44,10 @@ namespace df
         Manager(const Dataframe &dataframe, const std::vector<Decomposer*> &decomposers = {}, uint dimension=3);
         ~Manager();
 
+        // Owns its decomposers
+        Manager(const Manager &) = delete;
+        Manager &operator=(const Manager &) = delete;
+
         void add(Decomposer* decomposer);
         void clear();
 
-- 
2.43.0


From 2adf2cdb4f3e3736e42bac8485c56655b6808255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:45 +0000
Subject: [PATCH 27/43] fix: Serie::pipe of a single operation applies it to
 the Serie

---
 include/dataframe/inline/Serie.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index eaa7b24..ec963a4 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -54,7 +54,7 @@ template <typename F> auto Serie::filter(F &&predicate) const {
 }
 
 template <typename F> auto Serie::pipe(F &&op) const {
-    return df::pipe(op, *this);
+    return df::pipe(*this, op);
 }
 
 template <typename F, typename... Fs>
-- 
2.43.0


From fb4ed18a932ddfca43db7d29b9c13db46ba999e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:45 +0000
Subject: [PATCH 28/43] fix: make_check passes the arguments of check in their
 order

---
 include/dataframe/functional/conditional/check.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dataframe/functional/conditional/check.h b/include/dataframe/functional/conditional/check.h
index 2057325..01bddaa 100644
--- a/include/dataframe/functional/conditional/check.h
+++ b/include/dataframe/functional/conditional/check.h
@@ -53,7 +53,11 @@ template <typename F> auto check(const Serie &serie, F &&cb) {
 /**
  * @brief Creates a reusable check function
  */
-MAKE_OP(check);
+template <typename F> auto make_check(F &&cb) {
+    return [cb = std::forward<F>(cb)](const auto &serie) {
+        return check(serie, cb);
+    };
+}
 
 } // namespace cond
 } // namespace df
-- 
2.43.0


From a4a5383b695f37cf9b372e735995619fb2dcbaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:45 +0000
Subject: [PATCH 29/43] fix: dot.h declares make_dot, not a second make_det

---
 include/dataframe/functional/algebra/dot.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/functional/algebra/dot.h b/include/dataframe/functional/algebra/dot.h
index f472899..767d888 100644
--- a/include/dataframe/functional/algebra/dot.h
+++ b/include/dataframe/functional/algebra/dot.h
@@ -30,7 +30,7 @@ namespace algebra {
 Serie dot(const Serie &a, const Serie &b);
 Serie dot(const Serie &a, const Array &b);
 
-MAKE_OP(det);
+MAKE_OP(dot);
 
 } // namespace algebra
 } // namespace df
-- 
2.43.0


From 2a4fca81cd305897e171eea09e305b659235289c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 30/43] fix: types.h includes cstdint, which it uses

---
 include/dataframe/types.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dataframe/types.h b/include/dataframe/types.h
index fe097c7..3947687 100644
--- a/include/dataframe/types.h
+++ b/include/dataframe/types.h
@@ -24,6 +24,7 @@
 #pragma once
 #include <iostream>
 #include <string>
+#include <cstdint>
 #include <vector>
 
 using Array = std::vector<double>;
-- 
2.43.0


From 48d22a96efeffb2b69339a3683145f25c48dad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:44 +0000
Subject: [PATCH 31/43] fix: Vector::norm sums up in a double instead of an int

---
 src/view/Vector.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/Vector.cxx b/src/view/Vector.cxx
index baa50ac..dbdeb05 100644
--- a/src/view/Vector.cxx
+++ b/src/view/Vector.cxx
@@ -68,7 +68,7 @@ namespace df
     {
         auto op = [](double acc, double v)
         { return acc + v * v; };
-        return std::sqrt(std::accumulate(v_.begin(), v_.end(), 0, op));
+        return std::sqrt(std::accumulate(v_.begin(), v_.end(), 0.0, op));
     }
 
     Vector &Vector::mult(double s)
-- 
2.43.0


From c78829f1f9f7f02443cdc4cd9ea93f79d794cea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:40 +0000
Subject: [PATCH 32/43] fix: writing a Serie whose items hold no numbers to a
 stream read past its end

---
 include/dataframe/inline/Serie.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index ec963a4..e68ff40 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -71,7 +71,7 @@ inline std::ostream &operator<<(std::ostream &o, const Serie &s) {
     o << "  itemSize : " << s.itemSize() << std::endl;
     o << "  count    : " << s.count() << std::endl;
     o << "  dimension: " << s.dimension() << std::endl;
-    if (s.count() > 0) {
+    if (s.size() > 0) {
         o << "  values   : [";
         Array v = s.asArray();
         for (uint32_t i = 0; i < v.size() - 1; ++i) {
-- 
2.43.0


From 597360a41bfa353ce927c958de37213fc5477be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:31 +0000
Subject: [PATCH 33/43] fix: quantile of an empty Serie read past its end

---
 src/functional/stats/quantile.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/functional/stats/quantile.cxx b/src/functional/stats/quantile.cxx
index fb39c65..f4e5d58 100644
--- a/src/functional/stats/quantile.cxx
+++ b/src/functional/stats/quantile.cxx
@@ -42,6 +42,9 @@ double quantile(const Serie &s, double q) {
     if (q < 0 || q > 1) {
         throw std::invalid_argument("quantile must be in [0,1]");
     }
+    if (s.count() == 0) {
+        throw std::invalid_argument("quantile algorithm: series is empty");
+    }
 
     auto newSerie = df::utils::sort(s);
     const Array &sorted = newSerie.asArray();
-- 
2.43.0


From e0d464238a8bbbca2ef69ccd0a388107a4c76bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:31 +0000
Subject: [PATCH 34/43] fix: normalize of an empty Serie read past the end of
 its bounds

---
 src/functional/math/normalize.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/functional/math/normalize.cxx b/src/functional/math/normalize.cxx
index ab5ee9f..8c96f47 100644
--- a/src/functional/math/normalize.cxx
+++ b/src/functional/math/normalize.cxx
@@ -38,6 +38,9 @@ Serie normalize(const Serie &serie) {
     }
 
     if (serie.itemSize() == 1) {
+        if (serie.count() == 0) {
+            return serie;
+        }
         // auto minmax = df::minMax(serie);
         auto [min, max] = minMax(serie);
 
-- 
2.43.0


From ee1ec3ce4ca4cdb8bf57e9b6e62b68ba3ba4d1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:31 +0000
Subject: [PATCH 35/43] fix: bins of an empty Serie read past the end of its
 bounds

---
 src/functional/stats/bins.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/functional/stats/bins.cxx b/src/functional/stats/bins.cxx
index 26c9674..70e726a 100644
--- a/src/functional/stats/bins.cxx
+++ b/src/functional/stats/bins.cxx
@@ -31,6 +31,9 @@ namespace stats {
 
 Serie bins(const Serie &serie, uint nb) {
     auto [min, max] = math::minMax(serie);
+    if (min.empty()) { // no items, no range
+        return bins(serie, nb, 0, 1);
+    }
     return bins(serie, nb, min[0], max[0]);
 }
 
-- 
2.43.0


From c4551efe2bcb30bc51b56ffccfe7856a1dfb8a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:31 +0000
Subject: [PATCH 36/43] fix: weigthedSum of no series read past the end of the
 list

---
 src/functional/math/weightedSum.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/functional/math/weightedSum.cxx b/src/functional/math/weightedSum.cxx
index 80ad145..c07932c 100644
--- a/src/functional/math/weightedSum.cxx
+++ b/src/functional/math/weightedSum.cxx
@@ -37,6 +37,10 @@ Serie weigthedSum(const std::initializer_list<Serie> &list,
                                     std::to_string(weights.size()) + ")");
     }
 
+    if (series.empty()) {
+        throw std::invalid_argument("(weightedSum) No Serie to sum");
+    }
+
     uint32_t count = series[0].count();
     uint32_t itemSize = series[0].itemSize();
     uint32_t index = -1;
-- 
2.43.0


From b74d1337fa7314d605b4107f840e22dcc35f2dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:34 +0000
Subject: [PATCH 37/43] fix: reading an item out of range read past the end of
 the Serie

---
 include/dataframe/inline/Serie.hxx | 5 +++++
 src/Serie.cxx                      | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index e68ff40..a10b441 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -115,6 +115,11 @@ template <typename T>
 inline auto Serie::get(uint32_t i) const
     -> std::conditional_t<details::is_array_v<T>, Array, double> {
     if constexpr (details::is_array_v<T>) {
+        if (i >= count_) {
+            throw std::invalid_argument("index out of range (" +
+                                        std::to_string(i) +
+                                        ">=" + std::to_string(count_) + ")");
+        }
         if (itemSize_ == 1) {
             return Array{s_[i]};
         }
diff --git a/src/Serie.cxx b/src/Serie.cxx
index 6c56a6a..b59d9d3 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -87,6 +87,10 @@ void Serie::dump() const {
 }
 
 Array Serie::value(uint32_t i) const {
+    if (i >= count_) {
+        throw std::invalid_argument("index out of range (" + std::to_string(i) +
+                                    ">=" + std::to_string(count_) + ")");
+    }
     auto start = i * itemSize_;
     Array r(itemSize_);
     for (uint32_t j = 0; j < itemSize_; ++j) {
-- 
2.43.0


From c8f4c2b61dd784feda686e527034b570cf3f33d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:34 +0000
Subject: [PATCH 38/43] fix: dot of an empty Serie and a vector read past its
 end

---
 src/functional/algebra/dot.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/algebra/dot.cxx b/src/functional/algebra/dot.cxx
index d65a829..d5958ef 100644
--- a/src/functional/algebra/dot.cxx
+++ b/src/functional/algebra/dot.cxx
@@ -39,7 +39,7 @@ Serie dot(const Serie &a, const Serie &b) {
 }
 
 Serie dot(const Serie &a, const Array &b) {
-    if (a.value(0).size() != b.size()) {
+    if (a.itemSize() != b.size()) {
         return Serie();
     }
 
-- 
2.43.0


From 7cfd35467bab7b28c9ada8e9cc73df608258f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:17 +0000
Subject: [PATCH 39/43] fix: Valence wrote past its array when an index has no
 position

---
 src/attributes/Valence.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/attributes/Valence.cxx b/src/attributes/Valence.cxx
index e349ac0..0a35ca1 100644
--- a/src/attributes/Valence.cxx
+++ b/src/attributes/Valence.cxx
@@ -25,6 +25,7 @@
 #include <dataframe/utils/utils.h>
 #include <dataframe/types.h>
 #include <algorithm>
+#include <stdexcept>
 
 namespace df
 {
@@ -64,6 +65,11 @@ namespace df
         Array ids = createArray(positions.count(), 0);
 
         indices.forEach( [&](const Array& t, uint32_t) {
+            for (double i : t) {
+                if (!(i >= 0 && i < ids.size())) {
+                    throw std::invalid_argument("index out of range (" + std::to_string(i) + ")");
+                }
+            }
             ids[t[0]]++;
             ids[t[1]]++;
             ids[t[2]]++;
-- 
2.43.0


From 86f7e8f625294f53fb4c35506e1c23a745f0d814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:53 +0000
Subject: [PATCH 40/43] fix: dot product read past an item when item sizes
 differ

---
 src/functional/algebra/dot.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/functional/algebra/dot.cxx b/src/functional/algebra/dot.cxx
index d5958ef..d4204bc 100644
--- a/src/functional/algebra/dot.cxx
+++ b/src/functional/algebra/dot.cxx
@@ -28,6 +28,12 @@ namespace algebra {
 
 Serie dot(const Serie &a, const Serie &b) {
     uint32_t itemSize = a.itemSize();
+    if (b.itemSize() != itemSize) {
+        throw std::invalid_argument(
+            "dot: series must have the same itemSize (got " +
+            std::to_string(itemSize) + " and " + std::to_string(b.itemSize()) +
+            ")");
+    }
     return a.map([itemSize, b](const Array &arr, uint32_t i) { // ieme item
         Array r = createArray(1, 0);
         const Array &bb = b.value(i);
-- 
2.43.0


From adca02618688d2ec9568ae5a131b3971299b0fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:53 +0000
Subject: [PATCH 41/43] fix: eigen values and vectors read past an item when
 the dimension is neither 2 nor 3

---
 src/functional/algebra/eigen.cxx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/functional/algebra/eigen.cxx b/src/functional/algebra/eigen.cxx
index 7922abd..c1954e4 100644
--- a/src/functional/algebra/eigen.cxx
+++ b/src/functional/algebra/eigen.cxx
@@ -34,9 +34,11 @@ Serie eigenValues(const Serie &serie) {
         throw std::runtime_error(
             "Inconsistent serie dimension (should be 2 or 3)");
     }
-    if (serie.dimension() == 3 && serie.itemSize() != 6) {
+    if (serie.dimension() != 2 && serie.itemSize() != 6) {
         throw std::runtime_error("Inconsistent symmetric matrix dimension. "
-                                 "Since dim=3, itemSize must be 6 (got " +
+                                 "Since dim=" +
+                                 std::to_string(serie.dimension()) +
+                                 ", itemSize must be 6 (got " +
                                  std::to_string(serie.itemSize()) + ")");
     }
 
@@ -73,9 +75,11 @@ Serie eigenVectors(const Serie &serie) {
         throw std::runtime_error(
             "Inconsistent serie dimension (should be 2 or 3)");
     }
-    if (serie.dimension() == 3 && serie.itemSize() != 6) {
+    if (serie.dimension() != 2 && serie.itemSize() != 6) {
         throw std::runtime_error("Inconsistent symmetric matrix dimension. "
-                                 "Since dim=3, itemSize must be 6 (got " +
+                                 "Since dim=" +
+                                 std::to_string(serie.dimension()) +
+                                 ", itemSize must be 6 (got " +
                                  std::to_string(serie.itemSize()) + ")");
     }
 
-- 
2.43.0


From c35c5ee62e4ac642ec57e02c138736626c6f45ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:53 +0000
Subject: [PATCH 42/43] fix: dump of a scalar series threw instead of writing
 it

---
 src/Serie.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index b59d9d3..28d384d 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -75,13 +75,13 @@ uint32_t Serie::itemSize() const { return itemSize_; }
 uint Serie::dimension() const { return dimension_; }
 
 void Serie::dump() const {
-    forEach([](const Array &t, uint32_t i) {
+    for (uint32_t i = 0; i < count_; ++i) {
         std::cerr << i << ": ";
-        for (auto tt : t) {
+        for (auto tt : value(i)) {
             std::cerr << tt << " ";
         }
         std::cerr << std::endl;
-    });
+    }
 
     std::cerr << std::endl;
 }
-- 
2.43.0


From 7666fe689bfa85fafbb34d0f27fc63926fc61300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:53 +0000
Subject: [PATCH 43/43] fix: print of items without numbers read out of bounds

---
 include/dataframe/functional/utils/print.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/dataframe/functional/utils/print.h b/include/dataframe/functional/utils/print.h
index 7779312..fc668dd 100644
--- a/include/dataframe/functional/utils/print.h
+++ b/include/dataframe/functional/utils/print.h
@@ -42,10 +42,13 @@ inline void print(const Serie &serie) {
             } else {
                 const auto &v = serie.get<Array>(i);
                 std::cout << "(";
-                for (size_t j = 0; j < v.size() - 1; ++j) {
+                for (size_t j = 0; j + 1 < v.size(); ++j) {
                     std::cout << v[j] << ",";
                 }
-                std::cout << v.back() << "), ";
+                if (!v.empty()) {
+                    std::cout << v.back();
+                }
+                std::cout << "), ";
             }
         }
         // Last item
@@ -54,10 +57,13 @@ inline void print(const Serie &serie) {
         } else {
             const auto &v = serie.get<Array>(serie.count() - 1);
             std::cout << "(";
-            for (size_t j = 0; j < v.size() - 1; ++j) {
+            for (size_t j = 0; j + 1 < v.size(); ++j) {
                 std::cout << v[j] << ",";
             }
-            std::cout << v.back() << ")";
+            if (!v.empty()) {
+                std::cout << v.back();
+            }
+            std::cout << ")";
         }
     }
     std::cout << "]" << std::endl;
-- 
2.43.0

