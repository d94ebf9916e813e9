From d818fc5c39529684f54c8973eccaf3aee87bb49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:11 +0000
Subject: [PATCH 01/31] fix: respect the stored edge directions in the B2
 matrix

The signs of a triangle's edges assumed that every edge is stored in
ascending direction, so B1 @ B2 was not zero for other edge lists.
---
 .../simplicial_complex/simplicial_complex.py  | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 89233e9..eae9788 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -98,22 +98,25 @@ class SimplicialComplex:
         B2 = np.zeros((len(edges), len(triangles)))
         for j, triangle in enumerate(triangles):
             a, b, c = triangle
+            # an edge is traversed along (1) or against (-1) the direction
+            # in which it is stored
             try:
-                index_a = edges.index((a, b))
+                index_a, sign_a = edges.index((a, b)), 1
             except ValueError:
-                index_a = edges.index((b, a))
+                index_a, sign_a = edges.index((b, a)), -1
             try:
-                index_b = edges.index((b, c))
+                index_b, sign_b = edges.index((b, c)), 1
             except ValueError:
-                index_b = edges.index((c, b))
+                index_b, sign_b = edges.index((c, b)), -1
             try:
-                index_c = edges.index((a, c))
+                index_c, sign_c = edges.index((a, c)), -1
             except ValueError:
-                index_c = edges.index((c, a))
+                index_c, sign_c = edges.index((c, a)), 1
 
+            # orient the triangle along its first edge
             B2[index_a, j] = 1
-            B2[index_c, j] = -1
-            B2[index_b, j] = 1
+            B2[index_c, j] = sign_a * sign_c
+            B2[index_b, j] = sign_a * sign_b
 
         return B2
 
-- 
2.43.0


From ff5b272630bb3e666863d37c0880c247d6147f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:11 +0000
Subject: [PATCH 02/31] fix: apply the shifting operators the requested number
 of times

Any number of steps other than one was treated as two steps.
---
 pytspl/simplicial_complex/simplicial_complex.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index eae9788..557a1d4 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -358,12 +358,9 @@ class SimplicialComplex:
         """
         L1L = self.lower_laplacian_matrix(rank=1)
 
-        if steps == 1:
-            # L(1, l) @ f
+        # L(1, l)**steps @ f
+        for _ in range(steps):
             flow = L1L @ flow
-        else:
-            # L(1, l)**2 @ f
-            flow = L1L @ (L1L @ flow)
 
         return flow
 
@@ -383,12 +380,9 @@ class SimplicialComplex:
         """
         L1U = self.upper_laplacian_matrix(rank=1)
 
-        if steps == 1:
-            # L(1, u) @ f
+        # L(1, u)**steps @ f
+        for _ in range(steps):
             flow = L1U @ flow
-        else:
-            # L(1, u)**2 @ f
-            flow = L1U @ (L1U @ flow)
 
         return flow
 
-- 
2.43.0


From 2a19e3665c7933c4c930d7f0db5ee705e551d344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:11 +0000
Subject: [PATCH 03/31] fix: get_total_variance of a simplicial complex always
 failed

The eigendecomposition requires a dense matrix.
---
 pytspl/simplicial_complex/simplicial_complex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 557a1d4..8cd353f 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -477,7 +477,7 @@ class SimplicialComplex:
         Returns:
             np.ndarray: The total variance of the SC.
         """
-        laplacian_matrix = self.laplacian_matrix()
+        laplacian_matrix = self.laplacian_matrix().toarray()
         return get_total_variance(laplacian_matrix)
 
     def get_divergence(self, flow: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 7015a56cca5fc2849f72cb3fcab4b5fd98f7d4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:11 +0000
Subject: [PATCH 04/31] fix: support the documented rank 2 in
 hodge_laplacian_matrix

---
 pytspl/simplicial_complex/simplicial_complex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 8cd353f..ed587a6 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -339,6 +339,8 @@ class SimplicialComplex:
             return self.lower_laplacian_matrix(
                 rank=rank
             ) + self.upper_laplacian_matrix(rank=rank)
+        elif rank == 2:
+            return self.lower_laplacian_matrix(rank=rank)
         else:
             raise ValueError("Rank must be between 0 and 2.")
 
-- 
2.43.0


From ed217c74dcf1826fa1ecf2f68d311aa819902f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 05/31] fix: distance-based triangles for zero distances and
 reversed edges

A distance of zero was treated as missing, and an edge stored from the
larger to the smaller node raised a KeyError.
---
 pytspl/simplicial_complex/scbuilder.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pytspl/simplicial_complex/scbuilder.py b/pytspl/simplicial_complex/scbuilder.py
index e6066a3..2c18f60 100644
--- a/pytspl/simplicial_complex/scbuilder.py
+++ b/pytspl/simplicial_complex/scbuilder.py
@@ -63,17 +63,22 @@ class SCBuilder:
         """
         triangle_nodes = self.triangles()
 
+        def get_distance(u, v):
+            # the edge can be stored in either direction
+            edge = (u, v) if (u, v) in self.edge_features else (v, u)
+            return self.edge_features[edge][dist_col_name]
+
         conditional_tri = []
         for a, b, c in triangle_nodes:
+            dist_ab = get_distance(a, b)
+            dist_ac = get_distance(a, c)
+            dist_bc = get_distance(b, c)
+
             if (
-                self.edge_features[(a, b)][dist_col_name]
-                and self.edge_features[(b, c)][dist_col_name]
-                and self.edge_features[(a, c)][dist_col_name]
+                dist_ab is not None
+                and dist_ac is not None
+                and dist_bc is not None
             ):
-                dist_ab = self.edge_features[(a, b)][dist_col_name]
-                dist_ac = self.edge_features[(b, c)][dist_col_name]
-                dist_bc = self.edge_features[(a, c)][dist_col_name]
-
                 if (
                     dist_ab < epsilon
                     and dist_ac < epsilon
-- 
2.43.0


From d0995b7d3a7a6c8956b75f7282f48f93f56353b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 06/31] fix: keep the features of a row with the edge of that
 row

Features were looked up by the position of the edge after duplicates were
removed and the edges were sorted, so edges got the features of other rows.
---
 pytspl/io/network_reader.py | 61 ++++++++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index da6b74c..e24dcad 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -64,6 +64,43 @@ def _extract_nodes_edges(
     return nodes, edges
 
 
+def _extract_edge_features(
+    df: pd.DataFrame,
+    edges: list,
+    src_col: str,
+    dest_col: str,
+    feature_cols: list,
+    start_index_zero: bool,
+) -> dict:
+    """
+    Extract the features of each edge from the first row of the dataframe
+    that contains the edge.
+
+    Args:
+        df (pd.DataFrame): The dataframe containing the edges.
+        edges (list): The extracted edges.
+        src_col (str): The name of the column containing the source nodes.
+        dest_col (str): The name of the column containing the destination
+        feature_cols (list): The names of the feature columns.
+        start_index_zero (bool): True, if the node ids start from 0. False,
+        if the node ids start from 1.
+
+    Returns:
+        dict: The features of each edge.
+    """
+    offset = 0 if start_index_zero else 1
+
+    # the first row of each edge, in the direction in which it is stored
+    rows = {}
+    for i in range(len(df)):
+        row = df.iloc[i]
+        edge = (int(row[src_col]) - offset, int(row[dest_col]) - offset)
+        if edge not in rows and edge[::-1] not in rows:
+            rows[edge] = row
+
+    return {edge: rows[edge][feature_cols].to_dict() for edge in edges}
+
+
 def read_tntp(
     filename: str,
     src_col: str,
@@ -113,10 +150,14 @@ def read_tntp(
     edge_features = {}
     node_features = {}
     if len(feature_cols) > 0:
-        for i, (from_node, to_node) in enumerate(edges):
-            edge_features[(from_node, to_node)] = df.iloc[i][
-                feature_cols
-            ].to_dict()
+        edge_features = _extract_edge_features(
+            df=df,
+            edges=edges,
+            src_col=src_col,
+            dest_col=dest_col,
+            feature_cols=feature_cols,
+            start_index_zero=start_index_zero,
+        )
 
     return SCBuilder(
         nodes=nodes,
@@ -164,10 +205,14 @@ def read_csv(
     node_features = {}
 
     if len(feature_cols) > 0:
-        for i, (from_node, to_node) in enumerate(edges):
-            edge_features[(from_node, to_node)] = df.iloc[i][
-                feature_cols
-            ].to_dict()
+        edge_features = _extract_edge_features(
+            df=df,
+            edges=edges,
+            src_col=src_col,
+            dest_col=dest_col,
+            feature_cols=feature_cols,
+            start_index_zero=start_index_zero,
+        )
 
     return SCBuilder(
         nodes=nodes,
-- 
2.43.0


From a0197708d0a70d06ad3f02512a2be62f70f99578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 07/31] fix: read_csv failed without feature columns

---
 pytspl/io/network_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index e24dcad..d770ff9 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -149,7 +149,7 @@ def read_tntp(
 
     edge_features = {}
     node_features = {}
-    if len(feature_cols) > 0:
+    if feature_cols:
         edge_features = _extract_edge_features(
             df=df,
             edges=edges,
@@ -204,7 +204,7 @@ def read_csv(
     edge_features = {}
     node_features = {}
 
-    if len(feature_cols) > 0:
+    if feature_cols:
         edge_features = _extract_edge_features(
             df=df,
             edges=edges,
-- 
2.43.0


From 61d631eaaaf07095cecd362eeb945347120bba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 08/31] fix: keep the edge order and all nodes of the B1 file
 in read_B1_B2

Sorting the edges before the rows of B2 were interpreted gave wrong
triangles and misaligned flows, and nodes without edges at the end of the
B1 matrix were lost.
---
 pytspl/io/network_reader.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index d770ff9..f2cac9f 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -266,22 +266,18 @@ def read_B1_B2(B1_filename: str, B2_filename: str) -> tuple:
     """
     B1 = pd.read_csv(B1_filename, header=None).to_numpy()
 
-    num_edges = B1.shape[1]
-    nodes = set()
+    num_nodes, num_edges = B1.shape
     edges = []
 
+    # keep the order of the columns: the rows of B2 and the flow refer to it
     for j in range(num_edges):
         col = B1[:, j]
         from_node = np.where(col == -1)[0][0]
         to_node = np.where(col == 1)[0][0]
 
-        nodes.add(from_node)
-        nodes.add(to_node)
-
         edges.append((from_node, to_node))
 
-    nodes = list(range(max(nodes) + 1))
-    edges.sort()
+    nodes = list(range(num_nodes))
 
     scbuilder = SCBuilder(nodes=nodes, edges=edges)
     triangles = read_B2(B2_filename, np.asarray(edges))
-- 
2.43.0


From e480a920acfe6cf30eb9504a8808551c52183108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 09/31] fix: use the seed for the distances and coordinates of
 a random complex

---
 pytspl/io/sc_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytspl/io/sc_generator.py b/pytspl/io/sc_generator.py
index bf3ca79..e14d648 100644
--- a/pytspl/io/sc_generator.py
+++ b/pytspl/io/sc_generator.py
@@ -26,7 +26,8 @@ def generate_random_simplicial_complex(
     # get random weights
     import random
 
-    weights = [random.random() for i in range(G.number_of_edges())]
+    rng = random.Random(seed)
+    weights = [rng.random() for i in range(G.number_of_edges())]
     # set the weights
     for i, (u, v) in enumerate(G.edges()):
         G[u][v]["distance"] = weights[i]
@@ -45,6 +46,6 @@ def generate_random_simplicial_complex(
     ).to_simplicial_complex(
         condition="distance", dist_threshold=dist_threshold
     )
-    coordinates = nx.spring_layout(G)
+    coordinates = nx.spring_layout(G, seed=seed)
 
     return sc, coordinates
-- 
2.43.0


From 4e41cae60819cd3c7443125715fe0059e5423b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 10/31] fix: LS filter response if the Laplacian has no zero
 eigenvalue

The smallest eigenvalue was always treated as zero, e.g. for the lower
Laplacian of a tree.
---
 pytspl/filters/ls_filter_design.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytspl/filters/ls_filter_design.py b/pytspl/filters/ls_filter_design.py
index de8cccf..401d0d6 100644
--- a/pytspl/filters/ls_filter_design.py
+++ b/pytspl/filters/ls_filter_design.py
@@ -178,8 +178,8 @@ class LSFilterDesign(BaseFilter):
         # get the true signal
         f_true = self.get_true_signal(component=component, f=f)
 
-        # filter coefficients
-        alpha = [0] + [1] * (len(eigenvals) - 1)
+        # filter coefficients - one for the non-zero eigenvalues
+        alpha = np.where(eigenvals > 0, 1, 0)
 
         # apply the filter
         H, f_estimated, frequency_responses, errors = self._apply_filter(
-- 
2.43.0


From 06950516528b6be11b56880b4ebec3698c87076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 11/31] fix: keep the frequency responses entry when the
 history is reset

---
 pytspl/filters/base_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytspl/filters/base_filter.py b/pytspl/filters/base_filter.py
index 9ec2bd9..e60d2c6 100644
--- a/pytspl/filters/base_filter.py
+++ b/pytspl/filters/base_filter.py
@@ -30,6 +30,7 @@ class BaseFilter:
         self.history = {
             "filter": None,
             "f_estimated": None,
+            "frequency_responses": None,
             "extracted_component_error": None,
             "filter_error": None,
         }
-- 
2.43.0


From 289414d99a05ef8f0757f3aeed2c43cdcca3aff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 12/31] fix: grid-based filter runs shared and overwrote one
 history

After the general filter the histories of the gradient and the curl
extraction were the same object, and later runs kept stale entries.
---
 pytspl/filters/grid_based_filter_design.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytspl/filters/grid_based_filter_design.py b/pytspl/filters/grid_based_filter_design.py
index 0d522ed..a286528 100644
--- a/pytspl/filters/grid_based_filter_design.py
+++ b/pytspl/filters/grid_based_filter_design.py
@@ -165,6 +165,8 @@ class GridBasedFilterDesign(BaseFilter):
             L (int): The filter size.
             mu (float): The damping factor.
         """
+        self._reset_history()
+
         P = self.get_p_matrix(p_choice)
         U, _ = get_eigendecomposition(lap_mat=P.toarray())
 
@@ -220,6 +222,8 @@ class GridBasedFilterDesign(BaseFilter):
             steep (int, Optional): The steepness of the logistic function.
             Default is 100.
         """
+        self._reset_history()
+
         P = self.get_p_matrix(p_choice)
         U, _ = get_eigendecomposition(lap_mat=P.toarray())
 
-- 
2.43.0


From feab027eb6bd835939a5e7ac353ff1ba0eb9f67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 13/31] fix: Chebyshev filter with fewer coefficients than the
 order

---
 pytspl/filters/chebyshev_filter_design.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/filters/chebyshev_filter_design.py b/pytspl/filters/chebyshev_filter_design.py
index cb0a129..1baf69e 100644
--- a/pytspl/filters/chebyshev_filter_design.py
+++ b/pytspl/filters/chebyshev_filter_design.py
@@ -72,7 +72,7 @@ class ChebyshevFilterDesign(BaseFilter):
         K = len(coeffs)
 
         I = np.eye(P.shape[0], P.shape[1])
-        H_cheb_approx = np.zeros((order, P.shape[0], P.shape[1]), dtype=float)
+        H_cheb_approx = np.zeros((K, P.shape[0], P.shape[1]), dtype=float)
 
         for k in range(K):
             if k == 0:
-- 
2.43.0


From 7c015ba0bd2d5770163f69b97e994baab8a84813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 14/31] fix: regularize the curl in the l2 trend filter if it
 is requested

---
 pytspl/filters/simplicial_trend_filter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytspl/filters/simplicial_trend_filter.py b/pytspl/filters/simplicial_trend_filter.py
index 15e2e6c..f5fc612 100644
--- a/pytspl/filters/simplicial_trend_filter.py
+++ b/pytspl/filters/simplicial_trend_filter.py
@@ -207,7 +207,10 @@ class SimplicialTrendFilter(BaseFilter):
         # compute the noise variance
         power_noise, snr = self.get_power_noise(flow=flow, snr_db=snr_db)
 
-        L1l = self.sc.lower_laplacian_matrix(rank=1)
+        if component == "divergence":
+            lap_matrix = self.sc.lower_laplacian_matrix(rank=1)
+        else:
+            lap_matrix = self.sc.upper_laplacian_matrix(rank=1)
         num_edges = len(self.sc.edges)
         # identity matrix
         I = np.eye(num_edges)
@@ -232,7 +235,7 @@ class SimplicialTrendFilter(BaseFilter):
                 errors_noisy[i, j] = self.calculate_error_NRMSE(f_noisy, flow)
 
                 # compute the filter
-                H = np.linalg.inv(I + mu * L1l)
+                H = np.linalg.inv(I + mu * lap_matrix)
                 frequency_responses[:, i, j] = H @ f_noisy
 
                 # compute the error
-- 
2.43.0


From 0f83e85b1dacbd204f3d840035cb8f40b2970f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 15/31] fix: report that the model is not trained instead of
 AttributeError

---
 pytspl/hogde_gp/hodge_gp_trainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytspl/hogde_gp/hodge_gp_trainer.py b/pytspl/hogde_gp/hodge_gp_trainer.py
index edabcd7..2c376ff 100644
--- a/pytspl/hogde_gp/hodge_gp_trainer.py
+++ b/pytspl/hogde_gp/hodge_gp_trainer.py
@@ -29,6 +29,7 @@ class HodgeGPTrainer:
         """
         self.sc = sc
         self.y = y
+        self.model = None
 
         self.output_device = torch.device(output_device)
 
-- 
2.43.0


From 1946f40fddd5b7f62b483126c3e20abdb7467cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 16/31] fix: ValueError for a kernel type that is not available
 for a dataset

---
 pytspl/hogde_gp/kernel_serializer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytspl/hogde_gp/kernel_serializer.py b/pytspl/hogde_gp/kernel_serializer.py
index 3f695da..0755a02 100644
--- a/pytspl/hogde_gp/kernel_serializer.py
+++ b/pytspl/hogde_gp/kernel_serializer.py
@@ -53,6 +53,10 @@ class KernelSerializer:
 
         if data_name == "forex":
             kernels = Kernels.get_forex_kernels()
+            if kernel_type not in kernels:
+                raise ValueError(
+                    f"Invalid kernel type. Choose from {list(kernels)}"
+                )
             kernel = kernels[kernel_type]
             return kernel
         else:
-- 
2.43.0


From c5f5c75cc1cbdae9dbe81553d23be482b8e9f46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 17/31] fix: evaluate the kernels with the default second
 argument

---
 pytspl/hogde_gp/forex/diffusion.py        | 4 ++--
 pytspl/hogde_gp/forex/diffusion_non_hc.py | 4 ++--
 pytspl/hogde_gp/forex/laplacian.py        | 4 ++--
 pytspl/hogde_gp/forex/matern.py           | 4 ++--
 pytspl/hogde_gp/forex/matern_non_hc.py    | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pytspl/hogde_gp/forex/diffusion.py b/pytspl/hogde_gp/forex/diffusion.py
index 529d649..224f57a 100644
--- a/pytspl/hogde_gp/forex/diffusion.py
+++ b/pytspl/hogde_gp/forex/diffusion.py
@@ -134,12 +134,12 @@ class DiffusionKernelForex(Kernel):
 
     # define the kernel function
     def forward(self, x1, x2=None, diag: Optional[bool] = False, **params):
+        if x2 is None:
+            x2 = x1
         x1, x2 = x1.long(), x2.long()
         x1 = x1.squeeze(-1)
         x2 = x2.squeeze(-1)
         # compute the kernel matrix
-        if x2 is None:
-            x2 = x1
 
         (k0, k1, k2) = self._eval_covar_matrix()
         K0 = self.harm_eigvects[x1, :] * k0 @ self.harm_eigvects[x2, :].T
diff --git a/pytspl/hogde_gp/forex/diffusion_non_hc.py b/pytspl/hogde_gp/forex/diffusion_non_hc.py
index 6c6e8df..d37c689 100644
--- a/pytspl/hogde_gp/forex/diffusion_non_hc.py
+++ b/pytspl/hogde_gp/forex/diffusion_non_hc.py
@@ -141,12 +141,12 @@ class DiffusionNonHCKernelForex(Kernel):
 
     # define the kernel function
     def forward(self, x1, x2=None, diag: Optional[bool] = False, **params):
+        if x2 is None:
+            x2 = x1
         x1, x2 = x1.long(), x2.long()
         x1 = x1.squeeze(-1)
         x2 = x2.squeeze(-1)
         # compute the kernel matrix
-        if x2 is None:
-            x2 = x1
 
         (k0, k1, k2) = self._eval_covar_matrix()
         K0 = self.harm_eigvects[x1, :] * k0 @ self.harm_eigvects[x2, :].T
diff --git a/pytspl/hogde_gp/forex/laplacian.py b/pytspl/hogde_gp/forex/laplacian.py
index 6733910..3bf3bcd 100644
--- a/pytspl/hogde_gp/forex/laplacian.py
+++ b/pytspl/hogde_gp/forex/laplacian.py
@@ -96,12 +96,12 @@ class LaplacianKernelForex(Kernel):
         return self._eval_covar_matrix()
 
     def forward(self, x1, x2=None, diag: Optional[bool] = False, **params):
+        if x2 is None:
+            x2 = x1
         x1, x2 = x1.long(), x2.long()
         x1 = x1.squeeze(-1)
         x2 = x2.squeeze(-1)
         # compute the kernel matrix
-        if x2 is None:
-            x2 = x1
 
         (k0, k1, k2) = self._eval_covar_matrix()
         K0 = self.harm_eigvects[x1, :] * k0 @ self.harm_eigvects[x2, :].T
diff --git a/pytspl/hogde_gp/forex/matern.py b/pytspl/hogde_gp/forex/matern.py
index 7c1bea4..5b89c27 100644
--- a/pytspl/hogde_gp/forex/matern.py
+++ b/pytspl/hogde_gp/forex/matern.py
@@ -214,12 +214,12 @@ class MaternKernelForex(Kernel):
 
     # define the kernel function
     def forward(self, x1, x2=None, diag: Optional[bool] = False, **params):
+        if x2 is None:
+            x2 = x1
         x1, x2 = x1.long(), x2.long()
         x1 = x1.squeeze(-1)
         x2 = x2.squeeze(-1)
         # compute the kernel matrix
-        if x2 is None:
-            x2 = x1
 
         (k0, k1, k2) = self._eval_covar_matrix()
         K0 = self.harm_eigvects[x1, :] * k0 @ self.harm_eigvects[x2, :].T
diff --git a/pytspl/hogde_gp/forex/matern_non_hc.py b/pytspl/hogde_gp/forex/matern_non_hc.py
index ceba00d..9f9568d 100644
--- a/pytspl/hogde_gp/forex/matern_non_hc.py
+++ b/pytspl/hogde_gp/forex/matern_non_hc.py
@@ -221,12 +221,12 @@ class MaternNonHCKernelForex(Kernel):
 
     # define the kernel function
     def forward(self, x1, x2=None, diag: Optional[bool] = False, **params):
+        if x2 is None:
+            x2 = x1
         x1, x2 = x1.long(), x2.long()
         x1 = x1.squeeze(-1)
         x2 = x2.squeeze(-1)
         # compute the kernel matrix
-        if x2 is None:
-            x2 = x1
 
         (k0, k1, k2) = self._eval_covar_matrix()
         K0 = self.harm_eigvects[x1, :] * k0 @ self.harm_eigvects[x2, :].T
-- 
2.43.0


From 7c6ed11f4aea10561bef6f60d8321696d5e6dfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 18/31] fix: generate plot coordinates for nodes without edges

---
 pytspl/plot/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 6aa13fb..9479410 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -47,6 +47,7 @@ class SCPlot:
         if self.pos is None:
             # use spring layout if no coordinates are provided
             G = nx.Graph()
+            G.add_nodes_from(self.sc.nodes)
             G.add_edges_from(self.sc.edges)
             layout = nx.spring_layout(G)
             self.pos = layout
-- 
2.43.0


From cecb4c7ece4bea04bb5c02b8db76cc2175a37b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 19/31] fix: draw the node labels in the given axes

---
 pytspl/plot/plot.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 9479410..d836abd 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -184,6 +184,7 @@ class SCPlot:
                 font_weight=font_weight,
                 font_color=font_color,
                 alpha=alpha,
+                ax=ax,
             )
 
         node_collection.set_zorder(2)
@@ -194,6 +195,7 @@ class SCPlot:
         font_color: str = "k",
         font_weight: str = "normal",
         alpha=None,
+        ax=None,
     ) -> None:
         """
         Draw the labels of the nodes.
@@ -207,10 +209,15 @@ class SCPlot:
             Defaults to 'normal'.
             alpha (float, optional): The transparency of the node labels.
             Defaults to None.
+            ax (matplotlib.axes.Axes, optional): The axes object.
+            Defaults to None.
         """
+        if ax is None:
+            ax = plt.gca()
+
         for node_id in self.sc.nodes:
             (x, y) = self.pos[node_id]
-            plt.text(
+            ax.text(
                 x,
                 y,
                 node_id,
-- 
2.43.0


From db01d3764fbbc73c6941fcc287753bce82bf0e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 20/31] fix: draw_eigenvectors failed for an empty component

---
 pytspl/plot/plot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index d836abd..7e50caa 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -722,6 +722,9 @@ class SCPlot:
 
         # Assuming you have a total number of eigenvector_indices as num_plots
         num_plots = len(eigenvector_indices)
+        if num_plots == 0:
+            # the component has no eigenvectors
+            return
         # Calculate the number of columns needed
         num_cols = min(num_plots, viz_per_row)
         # Calculate the number of rows needed
-- 
2.43.0


From dca655d33e46d86b1240d14fac06c13c0ded96c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:16 +0000
Subject: [PATCH 21/31] fix: curl eigenpairs must exceed the tolerance like the
 gradient ones

Eigenvalues equal to the tolerance were both harmonic and curl; with a
tolerance of 0 the kernel of the upper Laplacian was reported as curl.
---
 pytspl/decomposition/eigendecomposition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytspl/decomposition/eigendecomposition.py b/pytspl/decomposition/eigendecomposition.py
index fdf7b79..3bfaf1b 100644
--- a/pytspl/decomposition/eigendecomposition.py
+++ b/pytspl/decomposition/eigendecomposition.py
@@ -95,8 +95,8 @@ def get_curl_eigenpair(
     """
     eigenvectors, eigenvalues = get_eigendecomposition(upper_lap_mat)
     # get columns with non-zero eigenvalues
-    u_c = eigenvectors[:, np.where(eigenvalues >= tolerance)[0]]
-    eigenvalues = eigenvalues[np.where(eigenvalues >= tolerance)[0]]
+    u_c = eigenvectors[:, np.where(eigenvalues > tolerance)[0]]
+    eigenvalues = eigenvalues[np.where(eigenvalues > tolerance)[0]]
     return u_c, eigenvalues
 
 
-- 
2.43.0


From ec0d784dc3a952d0470c92aa45527de137015088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:57 +0000
Subject: [PATCH 22/31] fix: interpolation with a ratio below one edge has no
 sampling constraint

---
 pytspl/filters/simplicial_trend_filter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytspl/filters/simplicial_trend_filter.py b/pytspl/filters/simplicial_trend_filter.py
index f5fc612..7b9118f 100644
--- a/pytspl/filters/simplicial_trend_filter.py
+++ b/pytspl/filters/simplicial_trend_filter.py
@@ -455,9 +455,12 @@ class SimplicialTrendFilter(BaseFilter):
                     1 * cp.norm(f_opt - f_in)
                     + regularization * cp.norm(shifted_edge_flow, p=1)
                 )
-                constraints = [
-                    sampling_matrix @ f_opt == sampling_matrix @ f_in
-                ]
+                # a ratio too small for a single edge leaves nothing to fix
+                constraints = (
+                    [sampling_matrix @ f_opt == sampling_matrix @ f_in]
+                    if M > 0
+                    else []
+                )
                 prob = cp.Problem(objective, constraints)
                 prob.solve()
 
-- 
2.43.0


From f747c832f5912368328b13601a9da11a6a180923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:56 +0000
Subject: [PATCH 23/31] fix: draw_network ignored or choked on edge_labels
 instead of refusing it

---
 pytspl/plot/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 7e50caa..ecc5da8 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -555,6 +555,7 @@ class SCPlot:
 
         valid_kwargs = (node_kwargs | edge_kwargs | label_kwargs) - {
             "edge_flow",
+            "edge_labels",
             "directed",
             "with_labels",
             "ax",
-- 
2.43.0


From 3875e34da028ce2d61d70b3a5ae7ca64d00b143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:30 +0000
Subject: [PATCH 24/31] fix: get_shift_operator treated every unknown component
 as curl

---
 pytspl/filters/simplicial_trend_filter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pytspl/filters/simplicial_trend_filter.py b/pytspl/filters/simplicial_trend_filter.py
index 7b9118f..5f2d5a4 100644
--- a/pytspl/filters/simplicial_trend_filter.py
+++ b/pytspl/filters/simplicial_trend_filter.py
@@ -125,9 +125,17 @@ class SimplicialTrendFilter(BaseFilter):
             'divergence' and 'curl'.
             order (int): The order of the STF filter.
 
+        Raises:
+            ValueError: If the component is not 'divergence' or 'curl'.
+
         Returns:
             np.ndarray: The shift operator.
         """
+        if component not in self.components.keys():
+            raise ValueError(
+                "Invalid component. Choose between 'divergence' and 'curl'."
+            )
+
         if order < 0:
             raise ValueError(
                 "The STF order must be greater than or equal to 0."
-- 
2.43.0


From a6cbaf5bcf369de31537e3987900f64a049d73ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:52 +0000
Subject: [PATCH 25/31] fix: transportation flow skipped edges if the edge list
 is not sorted

---
 pytspl/io/data_loaders/transportation_loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytspl/io/data_loaders/transportation_loader.py b/pytspl/io/data_loaders/transportation_loader.py
index 35cec5d..761f042 100644
--- a/pytspl/io/data_loaders/transportation_loader.py
+++ b/pytspl/io/data_loaders/transportation_loader.py
@@ -82,12 +82,13 @@ def load_flow_transportation(dataset: str, edges: list) -> pd.DataFrame:
                 # calculate the net flow
                 net_flow = flow_pos - flow_neg
 
+                visited_nodes.add((source, target))
+
                 # zero index the nodes
                 source -= 1
                 target -= 1
 
                 flow_dict[(source, target)] = net_flow
-                visited_nodes.add((source, target))
 
     return flow_dict
 
-- 
2.43.0


From 1c27d5aa614f3eaee103cb497865340024fb6b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:46 +0000
Subject: [PATCH 26/31] fix: reported R2 of a GP prediction had its arguments
 swapped

---
 pytspl/hogde_gp/hodge_gp_trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/hogde_gp/hodge_gp_trainer.py b/pytspl/hogde_gp/hodge_gp_trainer.py
index 2c376ff..962ee64 100644
--- a/pytspl/hogde_gp/hodge_gp_trainer.py
+++ b/pytspl/hogde_gp/hodge_gp_trainer.py
@@ -302,7 +302,7 @@ class HodgeGPTrainer:
         # Get the metrics
         mae = gpytorch.metrics.mean_absolute_error(predictions, y_test)
         mse = gpytorch.metrics.mean_squared_error(predictions, y_test)
-        r2 = r2_score(y_test, pred_mean)
+        r2 = r2_score(pred_mean, y_test)
         mlss = gpytorch.metrics.mean_standardized_log_loss(predictions, y_test)
         nlpd = gpytorch.metrics.negative_log_predictive_density(
             predictions, y_test
-- 
2.43.0


From 4268fef8e326f77d2587f17fa9c6b354e3278ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:46 +0000
Subject: [PATCH 27/31] fix: GP training after a prediction ran in evaluation
 mode

---
 pytspl/hogde_gp/hodge_gp_trainer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytspl/hogde_gp/hodge_gp_trainer.py b/pytspl/hogde_gp/hodge_gp_trainer.py
index 962ee64..f329133 100644
--- a/pytspl/hogde_gp/hodge_gp_trainer.py
+++ b/pytspl/hogde_gp/hodge_gp_trainer.py
@@ -245,6 +245,10 @@ class HodgeGPTrainer:
             optimizer (_type_, optional): The optimizer. Defaults to
             torch.optim.Adam.
         """
+        # a previous prediction leaves both in evaluation mode
+        model.train()
+        likelihood.train()
+
         # Use the adam optimizer
         optimizer = optimizer(model.parameters(), lr=learning_rate)
         # Includes GaussianLikelihood parameters
-- 
2.43.0


From e5409611e05781a501cfe5304477f1fc447980a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:38 +0000
Subject: [PATCH 28/31] fix: objects built with default arguments shared their
 lists and features

---
 pytspl/simplicial_complex/scbuilder.py        |  8 +++---
 .../simplicial_complex/simplicial_complex.py  | 25 ++++++++++---------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/pytspl/simplicial_complex/scbuilder.py b/pytspl/simplicial_complex/scbuilder.py
index 2c18f60..c75375a 100644
--- a/pytspl/simplicial_complex/scbuilder.py
+++ b/pytspl/simplicial_complex/scbuilder.py
@@ -20,8 +20,8 @@ class SCBuilder:
         self,
         nodes: list,
         edges: list,
-        node_features: dict = {},
-        edge_features: dict = {},
+        node_features: dict = None,
+        edge_features: dict = None,
     ):
         """Initialize the SCBuilder object."""
         # 0-simplices - nodes
@@ -30,8 +30,8 @@ class SCBuilder:
         self.edges = edges
 
         # node and edge features
-        self.node_features = node_features
-        self.edge_features = edge_features
+        self.node_features = {} if node_features is None else node_features
+        self.edge_features = {} if edge_features is None else edge_features
 
     def triangles(self) -> list:
         """
diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index ed587a6..5709ed1 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -27,11 +27,11 @@ class SimplicialComplex:
 
     def __init__(
         self,
-        nodes: list = [],
-        edges: list = [],
-        triangles: list = [],
-        node_features: dict = {},
-        edge_features: dict = {},
+        nodes: list = None,
+        edges: list = None,
+        triangles: list = None,
+        node_features: dict = None,
+        edge_features: dict = None,
     ):
         """
         Create a simplicial complex from nodes, edges, and triangles.
@@ -45,15 +45,16 @@ class SimplicialComplex:
             edge_features (dict, optional): Dict of edge features.
             Defaults to {}.
         """
-        self.nodes = nodes
-        self.edges = edges
-        self.triangles = triangles
+        # no default object is shared between complexes
+        self.nodes = [] if nodes is None else nodes
+        self.edges = [] if edges is None else edges
+        self.triangles = [] if triangles is None else triangles
 
-        self.node_features = node_features
-        self.edge_features = edge_features
+        self.node_features = {} if node_features is None else node_features
+        self.edge_features = {} if edge_features is None else edge_features
 
-        self.B1 = self.edges_to_B1(edges, len(nodes))
-        self.B2 = self.triangles_to_B2(triangles, edges)
+        self.B1 = self.edges_to_B1(self.edges, len(self.nodes))
+        self.B2 = self.triangles_to_B2(self.triangles, self.edges)
 
     def print_summary(self):
         """
-- 
2.43.0


From 1e3ae13cc2dd34db3adbbff91ecca87ccd43a3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:20 +0000
Subject: [PATCH 29/31] fix: noisy error reported by the l2 trend filter
 averaged later noise levels

---
 pytspl/filters/simplicial_trend_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/filters/simplicial_trend_filter.py b/pytspl/filters/simplicial_trend_filter.py
index 5f2d5a4..a3873d8 100644
--- a/pytspl/filters/simplicial_trend_filter.py
+++ b/pytspl/filters/simplicial_trend_filter.py
@@ -265,7 +265,7 @@ class SimplicialTrendFilter(BaseFilter):
 
             print(
                 f"SNR: {np.round(snr[i], 4)} dB - "
-                + f"error noisy: {np.round(np.mean(errors_noisy[i:,]), 4)} - "
+                + f"error noisy: {np.round(np.mean(errors_noisy[i, :]), 4)} - "
                 + f"l2 error: {np.round(np.mean(errors[i, :]), 4)} - "
                 + f"corr:  {np.round(np.mean(corrs[i, :]), 4)}"
             )
-- 
2.43.0


From e32b68d289afe5841a10b027800ba1992008aefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:10 +0000
Subject: [PATCH 30/31] fix: trend filters reported the linear noise ratio as
 dB

---
 pytspl/filters/simplicial_trend_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytspl/filters/simplicial_trend_filter.py b/pytspl/filters/simplicial_trend_filter.py
index a3873d8..b1aaf2f 100644
--- a/pytspl/filters/simplicial_trend_filter.py
+++ b/pytspl/filters/simplicial_trend_filter.py
@@ -264,7 +264,7 @@ class SimplicialTrendFilter(BaseFilter):
                 )
 
             print(
-                f"SNR: {np.round(snr[i], 4)} dB - "
+                f"SNR: {np.round(snr_db[i], 4)} dB - "
                 + f"error noisy: {np.round(np.mean(errors_noisy[i, :]), 4)} - "
                 + f"l2 error: {np.round(np.mean(errors[i, :]), 4)} - "
                 + f"corr:  {np.round(np.mean(corrs[i, :]), 4)}"
@@ -368,7 +368,7 @@ class SimplicialTrendFilter(BaseFilter):
                 )
 
             print(
-                f"SNR: {np.round(snr[i], 4)} dB - "
+                f"SNR: {np.round(snr_db[i], 4)} dB - "
                 + f"l1 error: {np.round(np.mean(errors[i, :]), 4)} - "
                 + f"corr: {np.round(np.mean(correlations[i, :]), 4)}"
             )
-- 
2.43.0


From 93ffc05979c81129286319c045756ff12b9cece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:41 +0000
Subject: [PATCH 31/31] fix: type-two least-squares filters fit every distinct
 eigenvalue once

Copies of a repeated eigenvalue differ by rounding errors, so np.unique kept
a number of them that depended on the order and directions of the edges, and
with it the filter. Eigenvalues closer than the documented tolerance now
count as one.
---
 pytspl/filters/ls_filter_design.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytspl/filters/ls_filter_design.py b/pytspl/filters/ls_filter_design.py
index 401d0d6..6bc8c3b 100644
--- a/pytspl/filters/ls_filter_design.py
+++ b/pytspl/filters/ls_filter_design.py
@@ -174,6 +174,9 @@ class LSFilterDesign(BaseFilter):
         U, eigenvals = get_eigendecomposition(lap_mat=lap_matrix.toarray())
         eigenvals = np.where(np.abs(eigenvals) < tolerance, 0, eigenvals)
         eigenvals = np.unique(eigenvals)
+        # copies of an eigenvalue differ by rounding errors
+        is_distinct = np.append(True, np.diff(eigenvals) > tolerance)
+        eigenvals = eigenvals[is_distinct]
 
         # get the true signal
         f_true = self.get_true_signal(component=component, f=f)
-- 
2.43.0

