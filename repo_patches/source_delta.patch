From 467bcf4dcd042003944280501adf55cc6653998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:49 +0000
Subject: [PATCH 01/50] fix: PointPattern.unique passes the pattern's window,
 not the bound set_window method

---
 pointpats/pointpattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 4eb6832..536c8a3 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -471,7 +471,7 @@ class PointPattern:
         """
         names = self.df.columns.values.tolist()
         coord_names = self.coord_names
-        window = self.set_window
+        window = self.window
         unique_df = self.df.drop_duplicates()
         return PointPattern(
             unique_df, names=names, coord_names=coord_names, window=window
-- 
2.43.0


From b42b6c6ad60f8b871ac7979b46bd8b3b99f51113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 02/50] fix: PointPattern.lambda_window follows set_window
 instead of a stale cached value

---
 pointpats/pointpattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 536c8a3..5380623 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -291,7 +291,8 @@ class PointPattern:
         """
         return self.n / self.window.area
 
-    lambda_window = cached_property(_lambda_window)
+    # not memoized: the window can be replaced (see set_window)
+    lambda_window = property(_lambda_window)
 
     def _hull_area(self):
         """
-- 
2.43.0


From 0b678fdf8a3501ca49ea68d5d71f6c9b9e10dfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 03/50] fix: PointPattern does not append mark names to the
 caller's coord_names list

---
 pointpats/pointpattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 5380623..5334480 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -72,7 +72,7 @@ class PointPattern:
         if coord_names is None:
             coord_names = names[:2] if names is not None else ["x", "y"]
         if names is None:
-            col_names = coord_names
+            col_names = list(coord_names)
             if p > 2:
                 for m in range(2, p):
                     col_names.append(f"mark_{m - 2}")
-- 
2.43.0


From c050b412ca4aee3def5bcef4fd87c9768f0b8da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 04/50] fix: 'in' on a PointPattern looks at the coordinate
 columns, not the first two columns

---
 pointpats/pointpattern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 5334480..16f258d 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -123,8 +123,9 @@ class PointPattern:
         >>> [1, 3] in pp
         True
         """
-        name = self.df.columns.values.tolist()
-        return ((self.df[name[0]] == n[0]) & (self.df[name[1]] == n[1])).any()
+        return (
+            (self.points.iloc[:, 0] == n[0]) & (self.points.iloc[:, 1] == n[1])
+        ).any()
 
     def set_window(self, window):
         try:
-- 
2.43.0


From eaf2c4eb8b5918adaad75d745c1bc65224a95a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 05/50] fix: PointPattern.knn never returns a point as its own
 neighbour when points coincide

---
 pointpats/pointpattern.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 16f258d..f1c1804 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -341,8 +341,13 @@ class PointPattern:
         """
         if k < 1:
             raise ValueError("k must be at least 1")
-        nn = self.tree.query(self.tree.data, k=k + 1)
-        return nn[1][:, 1:], nn[0][:, 1:]
+        nnd, nn = self.tree.query(self.tree.data, k=k + 1)
+        # each row holds the focal point itself, but not necessarily first when
+        # other points coincide with it (nor at all when more than k do): drop it,
+        # or else the farthest hit
+        keep = nn != np.arange(self.n)[:, None]
+        keep[keep.all(axis=1), -1] = False
+        return nn[keep].reshape(-1, k), nnd[keep].reshape(-1, k)
 
     def _nn_sum(self):
         """
-- 
2.43.0


From ad41b33516b38f720f6723f61001ebab7c1fa22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 06/50] fix: minimum_bounding_circle clips the cosine so
 collinear triples do not give NaN angles

---
 pointpats/centrography.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 89d6f09..632772b 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -1109,7 +1109,9 @@ def _angle(p, q, r):
     pq = p - q
     rq = r - q
     magnitudes = np.linalg.norm(pq) * np.linalg.norm(rq)
-    return np.abs(np.arccos(np.dot(pq, rq) / magnitudes))
+    # rounding can push the cosine of (anti)parallel sides outside [-1, 1]
+    cosine = min(max(np.dot(pq, rq) / magnitudes, -1.0), 1.0)
+    return np.abs(np.arccos(cosine))
 
 
 def _prec(p, _l):
-- 
2.43.0


From 9a1d7dc0bea7bed9fe3397ad36a7994d969ce1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:06 +0000
Subject: [PATCH 07/50] fix: minimum_bounding_circle treats radii equal up to
 rounding as ties decided by the angle

---
 pointpats/centrography.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 632772b..ec42947 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -1034,7 +1034,10 @@ def _skyum_lists(points):
             for p in points
         ]
         radii = [c[0] for c in circles]
-        lexord = np.lexsort((angles, radii))
+        # radii that differ only by rounding (all circles through the same three
+        # points do) are ties, to be decided by the angle
+        radius_max = max(radii) * (1 - 1e-8)
+        lexord = np.lexsort((angles, np.minimum(radii, radius_max)))
         lexmax = lexord[-1]
         candidate = (
             _prec(points[lexmax], points),
@@ -1082,9 +1085,11 @@ try:
         radii = circles[:, 0]
         # workaround for no lexsort in numba
         radius_argmax = radii.argmax()
-        radius_max = radii[radius_argmax]
+        # radii that differ only by rounding (all circles through the same three
+        # points do) are ties, to be decided by the angle
+        radius_max = radii[radius_argmax] * (1 - 1e-8)
         # the maximum angle for the largest radius
-        lexmax = (angles * (radii == radius_max)).argmax()
+        lexmax = (angles * (radii >= radius_max)).argmax()
 
         if angles[lexmax] <= (np.pi / 2.0):
             return True, points, lexmax, circles[lexmax]
-- 
2.43.0


From 35bbbc779d36f7117ae037a63a828c3885461cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:06 +0000
Subject: [PATCH 08/50] fix: std_distance does not lose precision (or give NaN)
 far from the origin

---
 pointpats/centrography.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index ec42947..1407c70 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -581,8 +581,9 @@ def std_distance(points) -> np.float64:
 @std_distance.register
 def _(points: np.ndarray) -> np.float64:
     n, _ = points.shape
-    m = points.mean(axis=0)
-    return np.sqrt(((points * points).sum(axis=0) / n - m * m).sum())
+    # centred first: the difference of raw second moments cancels far from zero
+    d = points - points.mean(axis=0)
+    return np.sqrt((d * d).sum() / n)
 
 
 @std_distance.register
-- 
2.43.0


From 875d911d3663ca40ee6600eca682461fb8ae01ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:55 +0000
Subject: [PATCH 09/50] fix: euclidean_median does not return a stalled,
 suboptimal BFGS point

---
 pointpats/centrography.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 1407c70..72d4d68 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -908,6 +908,10 @@ def euclidean_median(points):
 def _(points: np.ndarray) -> NDArray[np.float64]:
     start = mean_center(points)
     res = minimize(dtot, start, args=(points,))
+    if not res.success:
+        # the gradient does not exist at the points themselves, where BFGS can stall
+        alt = minimize(dtot, res.x, args=(points,), method="Nelder-Mead")
+        res = min(res, alt, key=lambda r: r.fun)
     return res["x"]
 
 
-- 
2.43.0


From e2dd7213e13c2fb76bb02d9c47bc8c35166a5ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 10/50] fix: j_test returns its result when nothing is
 truncated, and truncates simulations along the support

---
 pointpats/distance_statistics.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index fde0cd6..a5a0e5b 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -369,8 +369,9 @@ def j(
         if len(result[1]) != len(hazard_ratio):
             warnings.warn(
                 f"requested {support} bins to evaluate the J function, but"
-                f" it reaches infinity at d={result[0][-1]:.4f}, meaning only"
-                f" {len(result[0])} bins will be used to characterize the J function.",
+                f" it reaches infinity at d={gsupport[len(result[0])]:.4f}, meaning"
+                f" only {len(result[0])} bins will be used to characterize the J"
+                " function.",
                 stacklevel=2,
             )
         return result
@@ -865,12 +866,12 @@ def j_test(
         if len(result_trunc.statistic) != len(result.statistic):
             warnings.warn(
                 f"requested {support} bins to evaluate the J function, but"
-                f" it reaches infinity at d={result[0][-1]:.4f}, meaning only"
-                f" {len(result[0])} bins will be used to characterize the J function.",
+                f" it reaches infinity at d={result[0][len(result_trunc[0])]:.4f},"
+                f" meaning only {len(result_trunc[0])} bins will be used to"
+                " characterize the J function.",
                 stacklevel=2,
             )
-            return result_trunc
-
+        return result_trunc
     else:
         return result
 
@@ -1075,5 +1076,5 @@ def _truncate(support, realizations, *rest):
         return (
             support[:first_inv],
             realizations[:first_inv],
-            *[r[:first_inv] if r is not None else None for r in rest],
+            *[r[..., :first_inv] if r is not None else None for r in rest],
         )
-- 
2.43.0


From 6f5cc3c49aa7c00d5cd965dabe742d6c65f1bbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 11/50] fix: Ripley test p-values count the observed pattern in
 both tails and are never zero

---
 pointpats/distance_statistics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index a5a0e5b..85f7f48 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -618,11 +618,14 @@ def _ripley_test(
         pvalues = numpy.nan * numpy.ones_like(observed_support)
     else:
         # Calculate how many simulations are as extreme as the observed statistic
-        pvalues_count = (simulations_array >= observed_statistic).sum(axis=0)
+        # in the direction where fewer of them are
+        pvalues_count = numpy.minimum(
+            (simulations_array >= observed_statistic).sum(axis=0),
+            (simulations_array <= observed_statistic).sum(axis=0),
+        )
 
         # Conservative p-value calculation
         pvalues = (pvalues_count + 1) / (n_simulations + 1)
-        pvalues = numpy.minimum(pvalues, 1 - pvalues)
     # --- END P-VALUE CALCULATION ---
 
     return result_container(
-- 
2.43.0


From 49ed7bee2962a122d4d4d3f81b74ad646ad48d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 12/50] fix: f_test/j_test use every pattern point for
 empty-space distances, over the hull given

---
 pointpats/distance_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 85f7f48..96edbfb 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -563,12 +563,12 @@ def _ripley_test(
     if calltype in ("F", "J"):  # these require simulations
         core_kwargs["hull"] = hull
         # amortize to avoid doing this every time
-        empty_space_points = poisson(coordinates, size=(1000, 1))
+        empty_space_points = poisson(hull, size=(1000, 1))
 
         if distances is None:
             # Note: We now use the original coordinates' tree to calculate the observed
             # distance for the first time, as per the original logic flow.
-            empty_space_distances, _ = _k_neighbors(tree, empty_space_points, k=1)
+            empty_space_distances, _ = tree.query(empty_space_points, k=1)
 
             if calltype == "F":
                 distances = empty_space_distances.squeeze()
-- 
2.43.0


From 109dc20bf18370deff6a7e400508484cac96db7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 13/50] fix: g ignores the zero diagonal of a full distance
 matrix

---
 pointpats/distance_statistics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 96edbfb..7fa6d1c 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -245,7 +245,10 @@ def g(
                     " Computing this and discarding the rest.",
                     stacklevel=2,
                 )
-                distances = distances.min(axis=1)
+                # the diagonal holds each point's distance to itself
+                distances = numpy.where(
+                    numpy.eye(len(distances), dtype=bool), numpy.inf, distances
+                ).min(axis=1)
             else:
                 k, p = distances.shape
                 n = coordinates.shape[0]
-- 
2.43.0


From 17fa45633cfb9050f009ae96c983eafcdfadedfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:57 +0000
Subject: [PATCH 14/50] fix: f and g are fractions of all distances, not only
 of those within the support

---
 pointpats/distance_statistics.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 7fa6d1c..dbee25d 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -111,6 +111,14 @@ def _prepare(coordinates, support, distances, metric, hull, edge_correction):
     return coordinates, support, distances, metric, hull, edge_correction
 
 
+def _cumulative_fraction(distances, support):
+    """fraction of all the distances up to each value of the support"""
+    distances = numpy.ravel(distances)
+    counts, _ = numpy.histogram(distances, bins=support)
+    n_below = (distances < support[0]).sum()
+    return (n_below + numpy.asarray([0, *numpy.cumsum(counts)])) / distances.size
+
+
 # ------------------------------------------------------------#
 # Statistical Functions                                       #
 # ------------------------------------------------------------#
@@ -194,10 +202,7 @@ def f(
             distances, _ = tree.query(randoms, k=1)
             distances = distances.squeeze()
 
-    counts, bins = numpy.histogram(distances, bins=support)
-    fracs = numpy.cumsum(counts) / counts.sum()
-
-    return bins, numpy.asarray([0, *fracs])
+    return support, _cumulative_fraction(distances, support)
 
 
 def g(
@@ -284,10 +289,7 @@ def g(
         finally:
             distances, indices = _k_neighbors(tree, coordinates, k=1)
 
-    counts, bins = numpy.histogram(distances.squeeze(), bins=support)
-    fracs = numpy.cumsum(counts) / counts.sum()
-
-    return bins, numpy.asarray([0, *fracs])
+    return support, _cumulative_fraction(distances, support)
 
 
 def j(
-- 
2.43.0


From ec779f27383f42ae1a0237a2e1acdb8c4896519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 15/50] fix: simulators keep the observation axis when one
 point is simulated

---
 pointpats/random.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 7ff0105..920a695 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -185,7 +185,7 @@ def poisson(hull, intensity=None, size=None, rng=None):
             if _contains(hull, x, y):
                 result[i_replication, i_observation] = (x, y)
                 i_observation += 1
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def normal(hull, center=None, cov=None, size=None, rng=None):
@@ -281,7 +281,7 @@ def normal(hull, center=None, cov=None, size=None, rng=None):
             if _contains(hull, x, y):
                 result[i_replication, i_observation] = (x, y)
                 i_observation += 1
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def cluster_poisson(
@@ -384,7 +384,7 @@ def cluster_poisson(
             )
             clusters[i_cluster] = numpy.vstack((seed, candidates))
         result[i_replication] = numpy.vstack(clusters)
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
@@ -465,7 +465,7 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
             )
             clusters[i_cluster] = numpy.vstack((center, candidates))
         result[i_replication] = numpy.vstack(clusters)
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def _uniform_circle(
@@ -699,4 +699,4 @@ def strauss(
                 "`gamma`, `radius`, or `max_iter`."
             )
 
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
-- 
2.43.0


From 23cef7d60d2503ddfd7af92157a92ff2cc32b405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 16/50] fix: cluster_poisson accepts any iterable or number as
 cluster_radius, as documented

---
 pointpats/random.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 920a695..d7cd41d 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -338,14 +338,14 @@ def cluster_poisson(
     if isinstance(hull, numpy.ndarray):
         hull = hull if hull.shape == (4,) else _prepare_hull(hull)
 
-    if isinstance(cluster_radius, numpy.ndarray):
-        cluster_radii = cluster_radius.flatten()
+    if numpy.ndim(cluster_radius) > 0:
+        cluster_radii = numpy.ravel(cluster_radius)
         assert len(cluster_radii) == n_seeds, (
             f"number of radii provided ({len(cluster_radii)})"
             f"does not match number of clusters requested"
             f" ({n_seeds})."
         )
-    elif isinstance(cluster_radius, (int, float)):
+    elif cluster_radius is not None:
         cluster_radii = [cluster_radius] * n_seeds
 
     n_observations, n_simulations, intensity = parse_size_and_intensity(
-- 
2.43.0


From d57e7c139083ed77e7a5fb3367ef9d654a986cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 17/50] fix: cluster_normal's default covariance is computed
 for each replication

---
 pointpats/random.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index d7cd41d..180efc1 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -440,8 +440,9 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
     seeds = rng.integers(100_000, size=n_simulations)
     for i_replication in range(n_simulations):
         centers = poisson(hull, size=n_seeds, rng=seeds[i_replication])
+        replication_cov = cov
         if cov is None:
-            cov = spatial.distance.pdist(centers).mean() ** 2
+            replication_cov = spatial.distance.pdist(centers).mean() ** 2
         clusters = numpy.array_split(result[i_replication], n_seeds)
         candidate_seeds = rng.integers(100_000, size=n_seeds)
         for i_cluster, center in enumerate(centers):
@@ -459,7 +460,7 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
             candidates = normal(
                 hull,
                 center=center,
-                cov=cov,
+                cov=replication_cov,
                 size=n_in_cluster - 1,
                 rng=candidate_seeds[i_cluster],
             )
-- 
2.43.0


From c998ae589ef9841110d015c8114d41851cb824c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 18/50] fix: strauss simulates counts of points whatever the
 area of the hull

---
 pointpats/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 180efc1..8206ff2 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -656,11 +656,11 @@ def strauss(
         while not found and gen_iter < max_iter:
             # Over-sample initially to improve convergence
             initial_n = int(n_observations * 1.5)
-            points = poisson(hull, intensity=initial_n, rng=rng)
+            points = poisson(hull, size=initial_n, rng=rng)
 
             for _ in range(n_iter):
                 if len(points) < n_observations or rng.random() < 0.5:
-                    new_point = poisson(hull, 1, rng=rng)
+                    new_point = poisson(hull, size=1, rng=rng)
                     trial_points = numpy.vstack([points, new_point])
                     k_old = _pairwise_count_kdtree(points, r)
                     k_new = _pairwise_count_kdtree(trial_points, r)
-- 
2.43.0


From 22bdae82bf9d3ee2be8570052f62ad1de5bfa3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 19/50] fix: an intensity that is n/area gives n points even
 when the product rounds below n

---
 pointpats/random.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 8206ff2..52fbb04 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -72,7 +72,7 @@ def parse_size_and_intensity(hull, intensity=None, size=None):
         if intensity is not None:
             # if intensity is provided, assume
             # n_observations
-            n_observations = int(_area(hull) * intensity)
+            n_observations = _n_expected(_area(hull) * intensity)
         else:
             # default to 100 points
             n_observations = 100
@@ -103,7 +103,7 @@ def parse_size_and_intensity(hull, intensity=None, size=None):
     elif isinstance(size, int):
         # assume int size with specified intensity means n_simulations at x intensity
         if intensity is not None:
-            n_observations = int(intensity * _area(hull))
+            n_observations = _n_expected(intensity * _area(hull))
             n_simulations = size
         else:  # assume we have one replication at the specified number of points
             n_simulations = 1
@@ -120,6 +120,13 @@ def parse_size_and_intensity(hull, intensity=None, size=None):
     return (n_observations, n_simulations, intensity)
 
 
+def _n_expected(expected):
+    """Floor the expected number of points, unless it is a rounding error away
+    from a whole number (as when the intensity is itself a count per area)"""
+    nearest = round(expected)
+    return nearest if numpy.isclose(expected, nearest, rtol=1e-9) else int(expected)
+
+
 # ------------------------------------------------------------ #
 # Distributions                                                #
 # ------------------------------------------------------------ #
-- 
2.43.0


From d30f40f78ff3ef93922633430269fe1de355bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 20/50] fix: HexagonM counts points on the right and top edges
 of the grid in an edge cell

---
 pointpats/quadrat_statistics.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index 44f4ff3..207a625 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -364,7 +364,6 @@ class HexagonM:
                 center_index_y = possible_y_index_odd
                 if center_index_x % 2 == 0:
                     center_index_y = possible_y_index_even
-                dict_id_count[center_index_x + center_index_y * self.count_column] += 1
             else:
                 center_index_x = int(intercept_degree_x // 3)
                 center_x = center_index_x * semi_cell_length * 3.0 + x_min
@@ -394,13 +393,17 @@ class HexagonM:
                         + (x0 * y1 - x1 * y0) / (x0 - x1)
                     )
 
-                if indicator <= 0:
+                # on the right edge of the grid there is no next column
+                if indicator <= 0 and center_index_x + 1 < self.count_column:
                     center_index_x += 1
                     center_index_y = possible_y_index_odd
                     if center_index_x % 2 == 0:
                         center_index_y = possible_y_index_even
 
-                dict_id_count[center_index_x + center_index_y * self.count_column] += 1
+            # points on the top edge of the grid belong to the last row
+            rows = self.count_row_odd if center_index_x % 2 else self.count_row_even
+            center_index_y = min(center_index_y, rows - 1)
+            dict_id_count[center_index_x + center_index_y * self.count_column] += 1
 
         return dict_id_count
 
-- 
2.43.0


From 2c06f700dc448a11cebf507904571b24b1482d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 21/50] fix: HexagonM.num is the number of cells of the grid

---
 pointpats/quadrat_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index 207a625..92a5cf6 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -330,9 +330,9 @@ class HexagonM:
 
         self.count_row_odd = int(math.ceil(range_y / (2.0 * self.semi_height)))
 
-        self.num = self.count_row_odd * (
+        self.num = self.count_row_even * (
             (self.count_column // 2) + (self.count_column % 2)
-        ) + self.count_row_even * (self.count_column // 2)
+        ) + self.count_row_odd * (self.count_column // 2)
 
     def point_location_sta(self):
         semi_cell_length = self.h_length / 2.0
-- 
2.43.0


From fbcd88f9594ccc380f8d728e0eace13033e6f26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 22/50] fix: QStatistic works with a single realization

---
 pointpats/quadrat_statistics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index 92a5cf6..64ef4c1 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -659,6 +659,8 @@ class QStatistic:
             intensity = n / float(self.window.area)
 
             reals = poisson(self.window, intensity, realizations, rng=self.rng)
+            if realizations == 1:
+                reals = [reals]
 
             chi2_realizations = []
             for i in range(realizations):
-- 
2.43.0


From 98a19309a9c49f8264ec7a853b951d3cc04a3d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 23/50] fix: an empty realization of a point process is a (0,
 2) array that makes a PointPattern

---
 pointpats/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/process.py b/pointpats/process.py
index 5a65363..9690a02 100644
--- a/pointpats/process.py
+++ b/pointpats/process.py
@@ -148,7 +148,7 @@ class PointProcess:
             pins = self.window.filter_contained(pnts)
             sample.extend(pins)
             c = len(sample)
-        return np.array([np.asarray(p) for p in sample[:n]])
+        return np.array([np.asarray(p) for p in sample[:n]]).reshape(-1, 2)
 
     def realize(self):
         pass
-- 
2.43.0


From 4a2f96b1dba5af95ab60634298aca704f4eb94b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 24/50] fix: PoissonClusterPointProcess draws no longer index
 into scalar coordinates

---
 pointpats/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/process.py b/pointpats/process.py
index 9690a02..2d0b3be 100644
--- a/pointpats/process.py
+++ b/pointpats/process.py
@@ -144,7 +144,7 @@ class PointProcess:
         n = parameter["n"]
         while c < n:
             pnts = self.realize(n)
-            pnts = [ps.cg.shapes.Point((x[0], y[0])) for x, y in pnts]
+            pnts = [ps.cg.shapes.Point(np.ravel(pnt)) for pnt in pnts]
             pins = self.window.filter_contained(pnts)
             sample.extend(pins)
             c = len(sample)
-- 
2.43.0


From 6e53368a94eb84b928f3b70e517efb8ac4052c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 25/50] fix: SpaceTimeEvents reads the attribute table that
 belongs to the given path

---
 pointpats/spacetime.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 69fb576..ad76033 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -140,9 +140,7 @@ class SpaceTimeEvents:
 
     def __init__(self, path, time_col, infer_timestamp=False):
         shp = lps.io.open(path)
-        head, tail = os.path.split(path)
-        dbf_tail = tail.split(".")[0] + ".dbf"
-        dbf = lps.io.open(lps.examples.get_path(dbf_tail))
+        dbf = lps.io.open(os.path.splitext(path)[0] + ".dbf")
 
         # extract the spatial coordinates from the shapefile
         x = [coords[0] for coords in shp]
-- 
2.43.0


From 5b30d8aa572d2aa4298f17c46ff6bc12e9a4ed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 26/50] fix: knox works when no events are close in space

---
 pointpats/spacetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index ad76033..93f3d63 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -256,13 +256,13 @@ def knox(s_coords, t_coords, delta, tau, permutations=99, debug=False):  # noqa:
     kd_s = cg.KDTree(s_coords)
     neigh_s = kd_s.query_pairs(delta)
     tau2 = tau * tau
-    ids = np.array(list(neigh_s))
+    ids = np.array(list(neigh_s), dtype=int).reshape(-1, 2)
 
     # For the neighboring pairs in space, determine which are also time
     # neighbors
 
     d_t = (t_coords[ids[:, 0]] - t_coords[ids[:, 1]]) ** 2
-    n_st = sum(d_t <= tau2)
+    n_st = (d_t <= tau2).sum(axis=0)
 
     knox_result = {"stat": n_st[0]}
 
-- 
2.43.0


From be9831ed4c501d9c82bffdf47e4a1659321004c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 27/50] fix: knox does not shuffle the caller's temporal
 coordinates

---
 pointpats/spacetime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 93f3d63..5a25f31 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -268,6 +268,7 @@ def knox(s_coords, t_coords, delta, tau, permutations=99, debug=False):  # noqa:
 
     if permutations:
         joint = np.zeros((permutations, 1), int)
+        t_coords = t_coords.copy()  # shuffled below
         for p in range(permutations):
             np.random.shuffle(t_coords)
             d_t = (t_coords[ids[:, 0]] - t_coords[ids[:, 1]]) ** 2
-- 
2.43.0


From a4da3fb5d364d0bcaba281b809c77524a61d03e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 28/50] fix: KnoxLocal.sim holds the global statistics from the
 permutations, as documented

---
 pointpats/spacetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 5a25f31..cef4cc6 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1021,7 +1021,7 @@ def _knox_local(s_coords, t_coords, delta, tau, permutations=99, keep=False):
     """
     # think about passing in the global object
     # as an option to avoid recomputing the trees
-    res = _knox(s_coords, t_coords, delta, tau, permutations=permutations)
+    res = _knox(s_coords, t_coords, delta, tau, permutations=permutations, keep=keep)
     sneighbors = {i: tuple(ns) for i, ns in enumerate(res["sneighbors"])}
     tneighbors = {i: tuple(nt) for i, nt in enumerate(res["tneighbors"])}
 
@@ -1268,7 +1268,7 @@ class KnoxLocal:
         if permutations > 0:
             self.p_sim = results["p_value_sim"]
             if keep:
-                self.sim = results["sti_perm"]
+                self.sim = results["st_perm"]
 
         self.p_poisson = results["p_value_poisson"]
         self.observed = results["observed"]
-- 
2.43.0


From 4b33af0796683817d7e531799b5387f318b97af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 29/50] fix: KnoxLocal.hotspots clusters connect all space-time
 neighbors and allow events without any

---
 pointpats/spacetime.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index cef4cc6..d005674 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1418,8 +1418,18 @@ class KnoxLocal:
         ).reset_index(drop=True)
         # significant focals can be neighbors of others (dupes)
         pdf_sig = pdf_sig.groupby("focal").first().reset_index()
-        graph = Graph.from_adjacency(pdf_sig.assign(weight=1))
-        pdf_sig["cluster"] = graph.component_labels.values
+        # clusters are connected through all neighbor pairs, not only the first of
+        # each focal kept above; a focal without neighbors is its own cluster
+        isolates = pdf_sig.loc[pdf_sig.neighbor.isna(), ["focal"]]
+        graph = Graph.from_adjacency(
+            pd.concat(
+                [
+                    temp_neighbors[["focal", "neighbor"]].assign(weight=1),
+                    isolates.assign(neighbor=isolates.focal, weight=0),
+                ]
+            )
+        )
+        pdf_sig["cluster"] = pdf_sig.focal.map(graph.component_labels)
         if not keep_neighbors:
             pdf_sig = pdf_sig[pdf_sig.pvalue <= crit]
 
-- 
2.43.0


From cba06422883f2aa1707d9215f51b4bd4d489e717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 30/50] fix: plot_density with a kernel accepts a (x, y)
 resolution or none

---
 pointpats/kde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/kde.py b/pointpats/kde.py
index 5657375..e617ca6 100644
--- a/pointpats/kde.py
+++ b/pointpats/kde.py
@@ -158,7 +158,7 @@ def plot_density(
         kde = FFTKDE(bw=bandwidth, kernel=kernel)
         grid, points = kde.fit(data).evaluate(resolution)
         x_mesh, y_mesh = np.unique(grid[:, 0]), np.unique(grid[:, 1])
-        z = points.reshape(resolution, resolution).T
+        z = points.reshape(len(x_mesh), len(y_mesh)).T
 
     if fill:
         cs = ax.contourf(x_mesh, y_mesh, z, levels=levels, **kwargs)
-- 
2.43.0


From 9b60f2003888b65cbcea185b2a7e3b2cefb6b715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:21 +0000
Subject: [PATCH 31/50] fix: to_ccf does not append to the ring it is given

---
 pointpats/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/window.py b/pointpats/window.py
index 09c90ec..35a42ce 100644
--- a/pointpats/window.py
+++ b/pointpats/window.py
@@ -25,7 +25,7 @@ def poly_from_bbox(bbox):
 
 def to_ccf(poly):
     if poly[-1] != poly[0]:
-        poly.append(poly[0])
+        poly = [*poly, poly[0]]
     return poly
 
 
-- 
2.43.0


From cd191e5617ccbedea3fac54cbe8d7756dd90cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:18 +0000
Subject: [PATCH 32/50] fix: minimum_bounding_circle does not lose precision
 far from the origin

---
 pointpats/centrography.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 72d4d68..085fa0b 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -1003,11 +1003,14 @@ def _(points: np.ndarray, **buffer_kw) -> tuple[tuple[float, float], float]:
         if not_clockwise(points):
             raise Exception("Points are neither clockwise nor counterclockwise")
     _points = copy.deepcopy(points).astype(float)
+    # relative to one of the points: squared coordinates cancel far from zero
+    origin = _points[0].copy()
+    _points -= origin
     if has_numba:  # noqa: SIM108
         circ = _skyum_numba(_points)[0]
     else:
         circ = _skyum_lists(_points)[0]
-    return (circ[1], circ[2]), circ[0]
+    return (circ[1] + origin[0], circ[2] + origin[1]), circ[0]
 
 
 @minimum_bounding_circle.register
-- 
2.43.0


From e59e85397a198cde7dc5603a32e786870861117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:23 +0000
Subject: [PATCH 33/50] fix: euclidean_median is accurate at any scale of the
 coordinates and with coincident points

---
 pointpats/centrography.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 085fa0b..8907b0f 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -847,6 +847,14 @@ def _(coord: shapely.Point, points: GeoPandasBase) -> float:
     return dtot(coord, points)
 
 
+def _dtot_gradient(coord, points):
+    """Gradient of dtot at coord: the sum of the unit vectors from the points."""
+    diff = coord - points
+    dist = np.hypot(diff[:, 0], diff[:, 1])
+    apart = dist > 0
+    return (diff[apart] / dist[apart, None]).sum(axis=0)
+
+
 @singledispatch
 def euclidean_median(points):
     """
@@ -888,7 +896,7 @@ def euclidean_median(points):
     Passing an array of coordinates returns an array capturing the median.
 
     >>> euclidean_median(coords)
-    array([53.51770575, 49.6572671 ])
+    array([53.51780808, 49.65728129])
 
     Passing a GeoPandas object returns a shapely geometry.
 
@@ -907,12 +915,24 @@ def euclidean_median(points):
 @euclidean_median.register
 def _(points: np.ndarray) -> NDArray[np.float64]:
     start = mean_center(points)
-    res = minimize(dtot, start, args=(points,))
+    res = minimize(dtot, start, args=(points,), jac=_dtot_gradient)
+    median = res["x"]
     if not res.success:
-        # the gradient does not exist at the points themselves, where BFGS can stall
-        alt = minimize(dtot, res.x, args=(points,), method="Nelder-Mead")
-        res = min(res, alt, key=lambda r: r.fun)
-    return res["x"]
+        # BFGS can stall at the points themselves, where the gradient does not exist:
+        # start again from the best of them, and without derivatives
+        median = min([median, *points], key=lambda c: dtot(c, points))
+        # rescaled, as the tolerances of Nelder-Mead are absolute
+        scale = std_distance(points) or 1.0
+        simplex = (median - start) / scale + 0.1 * np.array([[0, 0], [1, 0], [0, 1]])
+        alt = minimize(
+            dtot,
+            simplex[0],
+            args=((points - start) / scale,),
+            method="Nelder-Mead",
+            options={"initial_simplex": simplex},
+        )
+        median = min(median, start + scale * alt["x"], key=lambda c: dtot(c, points))
+    return median.astype(float)
 
 
 @euclidean_median.register
-- 
2.43.0


From dd66609069f73c384f0c1ee089e3feb9b0ea1357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 34/50] fix: HexagonM tells neighbouring cells apart far from
 the origin

---
 pointpats/quadrat_statistics.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index 64ef4c1..94ed80f 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -379,18 +379,13 @@ class HexagonM:
                     x0, y0 = center_x + self.h_length, center_y
                     x1, y1 = center_x + semi_cell_length, center_y + self.semi_height
                     indicator = -(
-                        point[1]
-                        - (
-                            (y0 - y1) / (x0 - x1) * point[0]
-                            + (x0 * y1 - x1 * y0) / (x0 - x1)
-                        )
+                        point[1] - y0 - (y0 - y1) / (x0 - x1) * (point[0] - x0)
                     )
                 else:
                     x0, y0 = center_x + semi_cell_length, center_y - self.semi_height
                     x1, y1 = center_x + self.h_length, center_y
-                    indicator = point[1] - (
-                        (y0 - y1) / (x0 - x1) * point[0]
-                        + (x0 * y1 - x1 * y0) / (x0 - x1)
+                    indicator = (
+                        point[1] - y0 - (y0 - y1) / (x0 - x1) * (point[0] - x0)
                     )
 
                 # on the right edge of the grid there is no next column
-- 
2.43.0


From 9a5ec2e7809b22f6a5320f612ae297c4a5c2a21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 35/50] fix: knox does not overflow integer times when squaring
 their differences

---
 pointpats/spacetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index d005674..95ba737 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -259,8 +259,9 @@ def knox(s_coords, t_coords, delta, tau, permutations=99, debug=False):  # noqa:
     ids = np.array(list(neigh_s), dtype=int).reshape(-1, 2)
 
     # For the neighboring pairs in space, determine which are also time
-    # neighbors
+    # neighbors (squared as floats: integers could overflow)
 
+    t_coords = np.asarray(t_coords, dtype=float)
     d_t = (t_coords[ids[:, 0]] - t_coords[ids[:, 1]]) ** 2
     n_st = (d_t <= tau2).sum(axis=0)
 
-- 
2.43.0


From c41304798b0533ad7698f34eec4227e30f3f3f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 36/50] fix: KnoxLocal.adjlist keeps the type of the ids, so
 hotspots work with dates and other index types

---
 pointpats/spacetime.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 95ba737..0368567 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1284,8 +1284,10 @@ class KnoxLocal:
         self._crs = crs
         self.statistic_ = self.nsti
         self._id_map = dict(zip(rangeids, self._ids, strict=True))
-        self.adjlist["focal"] = self.adjlist["focal"].replace(self._id_map)
-        self.adjlist["neighbor"] = self.adjlist["neighbor"].replace(self._id_map)
+        id_index = pd.Index(self._ids, tupleize_cols=False)
+        for col in ("focal", "neighbor"):
+            # has the dtype of the ids also when there are no neighbors
+            self.adjlist[col] = id_index.take(self.adjlist[col].astype(int))
         # reconstruct df
         geom = gpd.points_from_xy(self.s_coords[:, 0], self.s_coords[:, 1])
         _gdf = gpd.GeoDataFrame(geometry=geom, crs=self._crs, index=self._ids)
-- 
2.43.0


From f581d89486995328a718928b370c9c821b4a335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 37/50] fix: minimum_bounding_circle accepts arrays of unsigned
 and narrow integers

---
 pointpats/centrography.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 8907b0f..f13455b 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -1017,7 +1017,8 @@ def _(points: np.ndarray, **buffer_kw) -> tuple[tuple[float, float], float]:
         has_numba = True
     except ImportError:
         has_numba = False
-    points = hull(points)
+    # the orientation below cannot be computed with unsigned or narrow integers
+    points = hull(points.astype(float))
     if not_clockwise(points):
         points = points[::-1]
         if not_clockwise(points):
-- 
2.43.0


From 747592d8c7378e87f7b1a3e8abb2ec8222fe8b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 38/50] fix: dtot accepts any array-like points when the
 coordinate is an array

---
 pointpats/centrography.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index f13455b..3b8dc61 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -834,6 +834,7 @@ def dtot(coord, points) -> float:
 
 @dtot.register
 def _(coord: np.ndarray, points: np.ndarray) -> float:
+    points = np.asarray(points)
     xd = points[:, 0] - coord[0]
     yd = points[:, 1] - coord[1]
     d = np.sqrt(xd * xd + yd * yd).sum()
-- 
2.43.0


From 90ac47d89af7abeeab470f0785f698748f6bbe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 39/50] fix: Knox accepts array-like locations, as documented

---
 pointpats/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 0368567..820ba92 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -744,7 +744,7 @@ def _knox(s_coords, t_coords, delta, tau, permutations=99, keep=False):
 
     """
 
-    n = s_coords.shape[0]
+    n = len(s_coords)
 
     stree = KDTree(s_coords)
     ttree = KDTree(t_coords)
-- 
2.43.0


From 782ebfe826d5737ad936c255a147a03d29cde523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 40/50] fix: areas of a PointPattern do not overflow with
 narrow integer coordinates

---
 pointpats/pointpattern.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index f1c1804..54e13a3 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -86,7 +86,7 @@ class PointPattern:
         self.points = self.df.loc[:, [self._x, self._y]]
         self._n, self._p = self.points.shape
         if window is None:
-            self.set_window(as_window(poly_from_bbox(self.mbb)))
+            self.set_window(as_window(poly_from_bbox(self.mbb.astype(float))))
         else:
             self.set_window(window)
 
@@ -141,7 +141,7 @@ class PointPattern:
         """
         if not hasattr(self, "_window") or self._window is None:
             # use bbox as window
-            self.set_window(as_window(poly_from_bbox(self.mbb)))
+            self.set_window(as_window(poly_from_bbox(self.mbb.astype(float))))
         return self._window
 
     window = property(get_window, set_window)
@@ -229,7 +229,9 @@ class PointPattern:
         Area of minimum bounding box
         """
 
-        return np.prod(self.mbb[[2, 3]] - self.mbb[[0, 1]])
+        # in floats: products of coordinates overflow narrow integers
+        mbb = self.mbb.astype(float)
+        return np.prod(mbb[[2, 3]] - mbb[[0, 1]])
 
     mbb_area = cached_property(_mbb_area)
 
@@ -299,7 +301,8 @@ class PointPattern:
         """
         Area of convex hull
         """
-        h = self.hull
+        # in floats: products of coordinates overflow narrow integers
+        h = self.hull.astype(float)
         if not np.all(h[0] == h[-1]):
             # not in closed cartographic form
             h = np.vstack((h, h[0]))
-- 
2.43.0


From cdbec3f0df8323010a064681b820899946098676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 41/50] fix: dtot, and the Euclidean median with it, do not
 overflow narrow integers

---
 pointpats/centrography.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 3b8dc61..3d93068 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -834,7 +834,8 @@ def dtot(coord, points) -> float:
 
 @dtot.register
 def _(coord: np.ndarray, points: np.ndarray) -> float:
-    points = np.asarray(points)
+    # in floats: differences and squares overflow narrow integers
+    points = np.asarray(points, dtype=float)
     xd = points[:, 0] - coord[0]
     yd = points[:, 1] - coord[1]
     d = np.sqrt(xd * xd + yd * yd).sum()
-- 
2.43.0


From 5b4dcc40ba2e65841bdaca4844816db35ddc6a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 42/50] fix: the area of a bounding box of narrow integers does
 not overflow

---
 pointpats/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pointpats/geometry.py b/pointpats/geometry.py
index 154441a..a4cbe78 100644
--- a/pointpats/geometry.py
+++ b/pointpats/geometry.py
@@ -61,6 +61,8 @@ def _(shape: numpy.ndarray):
     If a shape describes a bounding box, compute length times width
     """
     assert len(shape) == 4, "shape is not a bounding box!"
+    # in floats: narrow integers overflow
+    shape = shape.astype(float)
     width, height = shape[2] - shape[0], shape[3] - shape[1]
     return numpy.abs(width * height)
 
-- 
2.43.0


From 6487e4c8af7b66e0870cf502e112143fe10d825a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 43/50] fix: KnoxLocal.explore draws other events in the colour
 given for nonsig

---
 pointpats/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 820ba92..b6a01db 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1608,7 +1608,7 @@ class KnoxLocal:
         g = g.reset_index().merge(nbs, left_on="index", right_index=True, how="left")
 
         m = g[g.color == colors["nonsig"]].explore(
-            color="grey", style_kwds=style_kwds, tiles=tiles
+            color=colors["nonsig"], style_kwds=style_kwds, tiles=tiles
         )
         blues = g[g.color == colors["neighbor"]]
         if blues.shape[0] == 0:
-- 
2.43.0


From ae6a35c6bcaa262407289af7856525a0381e7808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 44/50] fix: KnoxLocal maps draw an edge for each neighbour of
 a hotspot, not only its first

---
 pointpats/spacetime.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index b6a01db..b8a25fe 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1519,10 +1519,11 @@ class KnoxLocal:
 
         if plot_edges:
             # edges between hotspot and st-neighbors
-            ghs = self.hotspots(crit=crit, inference=inference)
-            ghs = ghs.dropna()
-            origins = g.loc[ghs.focal].geometry
-            destinations = g.loc[ghs.neighbor].geometry
+            edges = self.adjlist[
+                self.adjlist.focal.isin(mask) | self.adjlist.neighbor.isin(mask)
+            ]
+            origins = g.loc[edges.focal].geometry
+            destinations = g.loc[edges.neighbor].geometry
             ods = zip(origins, destinations, strict=True)
             lines = gpd.GeoSeries([LineString(od) for od in ods], crs=g.crs)
             lines.plot(ax=m, color=edge_color, **edge_kwargs)
@@ -1622,10 +1623,11 @@ class KnoxLocal:
         if plot_edges:
             # edges between hotspot and st-neighbors
             g = g.set_index("index")
-            ghs = self.hotspots(crit=crit, inference=inference)
-            ghs = ghs.dropna()
-            origins = g.loc[ghs.focal].geometry
-            destinations = g.loc[ghs.neighbor].geometry
+            edges = self.adjlist[
+                self.adjlist.focal.isin(mask) | self.adjlist.neighbor.isin(mask)
+            ]
+            origins = g.loc[edges.focal].geometry
+            destinations = g.loc[edges.neighbor].geometry
             ods = zip(origins, destinations, strict=True)
             lines = gpd.GeoSeries([LineString(od) for od in ods], crs=g.crs)
             lines.explore(m=m, color=edge_color, style_kwds={"weight": edge_weight})
-- 
2.43.0


From 4ae0690320e49825156689d298855542f8b95f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:48 +0000
Subject: [PATCH 45/50] fix: KnoxLocal.explore accepts identifiers with a name

---
 pointpats/spacetime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index b8a25fe..b79975d 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1606,7 +1606,9 @@ class KnoxLocal:
         g.loc[neighbors, "color"] = colors["neighbor"]
         g.loc[g.pvalue <= crit, "color"] = colors["focal"]
         nbs = self.adjlist.groupby("focal").agg(list)["neighbor"]
-        g = g.reset_index().merge(nbs, left_on="index", right_index=True, how="left")
+        g = g.reset_index(names="index").merge(
+            nbs, left_on="index", right_index=True, how="left"
+        )
 
         m = g[g.color == colors["nonsig"]].explore(
             color=colors["nonsig"], style_kwds=style_kwds, tiles=tiles
-- 
2.43.0


From bbe44fe32531bac68b116a2beb8e13d5f7fcb0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:08 +0000
Subject: [PATCH 46/50] fix: Local Knox maps draw each event once when two
 classes share a color

---
 pointpats/spacetime.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index b79975d..187c352 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1509,13 +1509,12 @@ class KnoxLocal:
         neighbors = self.adjlist[self.adjlist.focal.isin(mask)].neighbor.unique()
         g.loc[neighbors, "color"] = colors["neighbor"]
         g.loc[g.pvalue <= crit, "color"] = colors["focal"]
-        m = g[g.color == colors["nonsig"]].plot(
-            color=colors["nonsig"], ax=ax, **point_kwargs
-        )
-        g[g.color == colors["neighbor"]].plot(
-            ax=m, color=colors["neighbor"], **point_kwargs
-        )
-        g[g.color == colors["focal"]].plot(ax=m, color=colors["focal"], **point_kwargs)
+        # by class, as two classes may have the same color
+        focal = g.pvalue <= crit
+        neighbor = g.index.isin(neighbors) & ~focal
+        m = g[~focal & ~neighbor].plot(color=colors["nonsig"], ax=ax, **point_kwargs)
+        g[neighbor].plot(ax=m, color=colors["neighbor"], **point_kwargs)
+        g[focal].plot(ax=m, color=colors["focal"], **point_kwargs)
 
         if plot_edges:
             # edges between hotspot and st-neighbors
@@ -1610,17 +1609,18 @@ class KnoxLocal:
             nbs, left_on="index", right_index=True, how="left"
         )
 
-        m = g[g.color == colors["nonsig"]].explore(
+        # by class, as two classes may have the same color
+        focal = g.pvalue <= crit
+        neighbor = g["index"].isin(neighbors) & ~focal
+        m = g[~focal & ~neighbor].explore(
             color=colors["nonsig"], style_kwds=style_kwds, tiles=tiles
         )
-        blues = g[g.color == colors["neighbor"]]
+        blues = g[neighbor]
         if blues.shape[0] == 0:
             warn("empty neighbor set.", UserWarning, stacklevel=2)
         else:
             m = blues.explore(m=m, color=colors["neighbor"], style_kwds=style_kwds)
-        m = g[g.color == colors["focal"]].explore(
-            m=m, color=colors["focal"], style_kwds=style_kwds
-        )
+        m = g[focal].explore(m=m, color=colors["focal"], style_kwds=style_kwds)
 
         if plot_edges:
             # edges between hotspot and st-neighbors
-- 
2.43.0


From aa61783e5f9c82028aec50a3a2dbc822ea6c85bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 47/50] fix: default mark names do not overwrite existing
 attributes

---
 pointpats/pointpattern.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 54e13a3..444f30b 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -160,8 +160,13 @@ class PointPattern:
 
     def add_marks(self, marks, mark_names=None):
         if mark_names is None:
-            nm = range(len(marks))
-            mark_names = [f"mark_{self._n_marks + 1 + j}" for j in nm]
+            mark_names = []
+            j = self._n_marks
+            for _ in marks:
+                j += 1
+                while f"mark_{j}" in self.df.columns:
+                    j += 1
+                mark_names.append(f"mark_{j}")
         for name, mark in zip(mark_names, marks, strict=True):
             self.df[name] = mark
             self._n_marks += 1
-- 
2.43.0


From 70952aaac207c9c187d3c5903d3761a19e846a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:30 +0000
Subject: [PATCH 48/50] fix: add_marks that fails leaves the pattern as it was

---
 pointpats/pointpattern.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 444f30b..53c839e 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -167,8 +167,12 @@ class PointPattern:
                 while f"mark_{j}" in self.df.columns:
                     j += 1
                 mark_names.append(f"mark_{j}")
+        mark_names = list(mark_names)
+        marked = self.df.copy()  # all marks fit, or none is added
         for name, mark in zip(mark_names, marks, strict=True):
-            self.df[name] = mark
+            marked[name] = mark
+        for name in mark_names:
+            self.df[name] = marked[name]
             self._n_marks += 1
 
     def plot(self, window=False, title="Point Pattern", hull=False, get_ax=False):
-- 
2.43.0


From e9c6f772a1c2dad224c43c262a32308a1f21def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 49/50] fix: superimpose compares coordinate names given as any
 sequence

---
 pointpats/pointpattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 53c839e..934d9a7 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -525,9 +525,9 @@ class PointPattern:
         1  1  4
         """
         names_pp1 = self.df.columns.values.tolist()
-        cnames_pp1 = self.coord_names
+        cnames_pp1 = list(self.coord_names)
         names_pp2 = point_pattern.df.columns.values.tolist()
-        cnames_pp2 = point_pattern.coord_names
+        cnames_pp2 = list(point_pattern.coord_names)
         if names_pp1 != names_pp2 or cnames_pp1 != cnames_pp2:
             raise TypeError(
                 "Both point patterns should have similar\
-- 
2.43.0


From 132e05df25bf001d16e544e07bcf1fb3e97a8431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:56 +0000
Subject: [PATCH 50/50] fix: area of the hull of points far from the origin

---
 pointpats/pointpattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 934d9a7..d8e686f 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -312,6 +312,8 @@ class PointPattern:
         """
         # in floats: products of coordinates overflow narrow integers
         h = self.hull.astype(float)
+        # from the first corner: they lose their digits far from the origin
+        h = h - h[0]
         if not np.all(h[0] == h[-1]):
             # not in closed cartographic form
             h = np.vstack((h, h[0]))
-- 
2.43.0

