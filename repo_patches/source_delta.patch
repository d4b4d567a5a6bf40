From e9b81097520b721dfb597e206e1d2a68016cdf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 01/72] fix: use the rotation axis of each slice in art and
 project

art and project/project2/project3 applied the axis of the first slice of a
chunk to every slice of that chunk, so the result of a volume with per-slice
axes depended on how it was divided over the workers.
---
 source/libtomo/recon/art.c     | 12 +++++++++++
 source/libtomo/recon/project.c | 38 ++++++++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+)

diff --git a/source/libtomo/recon/art.c b/source/libtomo/recon/art.c
index 38de3c3..9267b04 100755
--- a/source/libtomo/recon/art.c
+++ b/source/libtomo/recon/art.c
@@ -52,6 +52,18 @@ art(const float* data, int dy, int dt, int dx, const float* center, const float*
     if(dy == 0 || dt == 0 || dx == 0)
         return;
 
+    // A pass over the slices shares one rotation axis: handle the slices from
+    // the first one that has a different axis on their own.
+    for(int k = 1; k < dy; k++)
+    {
+        if(center[k] != center[0])
+        {
+            art(data + (size_t) k * dt * dx, dy - k, dt, dx, center + k, theta,
+                recon + (size_t) k * ngridx * ngridy, ngridx, ngridy, num_iter);
+            dy = k;
+        }
+    }
+
     float* gridx   = (float*) malloc((ngridx + 1) * sizeof(float));
     float* gridy   = (float*) malloc((ngridy + 1) * sizeof(float));
     float* coordx  = (float*) malloc((ngridy + 1) * sizeof(float));
diff --git a/source/libtomo/recon/project.c b/source/libtomo/recon/project.c
index aa38e49..aaeca23 100755
--- a/source/libtomo/recon/project.c
+++ b/source/libtomo/recon/project.c
@@ -54,6 +54,18 @@ project(const float* obj, int oy, int ox, int oz, float* data, int dy, int dt, i
     if(dy == 0 || dt == 0 || dx == 0)
         return;
 
+    // A pass over the slices shares one rotation axis: handle the slices from
+    // the first one that has a different axis on their own.
+    for(int k = 1; k < dy; k++)
+    {
+        if(center[k] != center[0])
+        {
+            project(obj + (size_t) k * ox * oz, oy - k, ox, oz, data + (size_t) k * dt * dx,
+                    dy - k, dt, dx, center + k, theta);
+            dy = k;
+        }
+    }
+
     float* gridx  = (float*) malloc((ox + 1) * sizeof(float));
     float* gridy  = (float*) malloc((oz + 1) * sizeof(float));
     float* coordx = (float*) malloc((oz + 1) * sizeof(float));
@@ -144,6 +156,18 @@ project2(const float* objx, const float* objy, int oy, int ox, int oz, float* da
     if(dy == 0 || dt == 0 || dx == 0)
         return;
 
+    // A pass over the slices shares one rotation axis: handle the slices from
+    // the first one that has a different axis on their own.
+    for(int k = 1; k < dy; k++)
+    {
+        if(center[k] != center[0])
+        {
+            project2(objx + (size_t) k * ox * oz, objy + (size_t) k * ox * oz, oy - k, ox,
+                     oz, data + (size_t) k * dt * dx, dy - k, dt, dx, center + k, theta);
+            dy = k;
+        }
+    }
+
     float* gridx  = (float*) malloc((ox + 1) * sizeof(float));
     float* gridy  = (float*) malloc((oz + 1) * sizeof(float));
     float* coordx = (float*) malloc((oz + 1) * sizeof(float));
@@ -249,6 +273,20 @@ project3(const float* objx, const float* objy, const float* objz, int oy, int ox
     if(dy == 0 || dt == 0 || dx == 0)
         return;
 
+    // A pass over the slices shares one rotation axis: handle the slices from
+    // the first one that has a different axis on their own.
+    const size_t slice = (axis == 0) ? (size_t) ox * oz : (axis == 1) ? 1 : (size_t) oz;
+    for(int k = 1; k < dy; k++)
+    {
+        if(center[k] != center[0])
+        {
+            project3(objx + k * slice, objy + k * slice, objz + k * slice, oy - k, ox, oz,
+                     data + (size_t) k * dt * dx, dy - k, dt, dx, center + k, theta,
+                     axis);
+            dy = k;
+        }
+    }
+
     float* gridx  = (float*) malloc((ox + 1) * sizeof(float));
     float* gridy  = (float*) malloc((oz + 1) * sizeof(float));
     float* coordx = (float*) malloc((oz + 1) * sizeof(float));
-- 
2.43.0


From c1aefc1f69150eb8b00430c83aa0b6723a09047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:40 +0000
Subject: [PATCH 02/72] fix: gridrec reconstructs slices with different
 rotation axes separately

Slices were always processed in pairs with the axis of the first of the two.
---
 source/libtomo/gridrec/gridrec.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index a4cd574..e50656a 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -307,10 +307,13 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
     const float tblspcg = 2 * ltbl / L;
     int         iul, iuh, ivl, ivh;
     int         k, k2;
+    int         pair;
 
-    // For each slice.
-    for(s = 0; s < dy; s += 2)
+    // For each slice, or pair of slices with a common rotation axis.
+    for(s = 0; s < dy; s += pair ? 2 : 1)
     {
+        pair = (s + 1) < dy && center[s + 1] == center[s];
+
         // Set up table of combined filter-phase factors.
         set_filter_tables(dt, pdim, center[s], filter, filter_par, filphase, filter2d);
 
@@ -374,7 +377,7 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
                 // Add data from both slices
                 float              second_sino = 0.0;
                 const unsigned int index       = j + j0;
-                if(__LIKELY((s + 1) < dy))
+                if(__LIKELY(pair))
                 {
                     second_sino = data[index + delta_index];
                 }
@@ -526,7 +529,7 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
                         const float corrn = corrn_u * winv[k + padx];
                         recon[islc1 + ngridy * (ngridx - 1 - k) + j] =
                             corrn * crealf(H[iu][iv]);
-                        if(__LIKELY((s + 1) < dy))
+                        if(__LIKELY(pair))
                         {
                             recon[islc2 + ngridy * (ngridx - 1 - k) + j] =
                                 corrn * cimagf(H[iu][iv]);
-- 
2.43.0


From 37625921c24e54aa2bfbbd479c5d76a9100d816a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:40 +0000
Subject: [PATCH 03/72] fix: gridrec reads past its correction table for wide
 grids

A grid as wide as the padded detector (every power of two >= 16) used an
uninitialised correction factor in its last row and column, and a wider grid
read and wrote outside the work arrays; the latter is now rejected.
---
 source/libtomo/gridrec/gridrec.c     | 6 +++++-
 source/tomopy/util/extern/gridrec.py | 9 +++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index e50656a..f89bbd9 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -120,6 +120,9 @@ set_pswf_tables(float C, int nt, float lambda, const float* coefs, int ltbl, int
         norm           = -norm;
         winv[linv + i] = winv[linv - i] = norm / wtbl[(int) roundf(i * fac)];
     }
+
+    // The last column of a grid as wide as the padded detector.
+    winv[2 * linv + 1] = -norm / wtbl[ltbl];
 }
 
 void
@@ -248,7 +251,7 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
     __ASSSUME_64BYTES_ALIGNED(H);
     wtbl = malloc_vector_f(ltbl + 1);
     __ASSSUME_64BYTES_ALIGNED(wtbl);
-    winv = malloc_vector_f(pdim - 1);
+    winv = malloc_vector_f(pdim);
     __ASSSUME_64BYTES_ALIGNED(winv);
     J_z = malloc_vector_f(pdim2 * dt);
     __ASSSUME_64BYTES_ALIGNED(J_z);
@@ -557,6 +560,7 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
     free_vector_c(filphase);
     free_vector_f(winv);
     free_vector_f(work);
+    free_vector_f(work2);
     free_matrix_c(H);
     free_vector_f(J_z);
     free_vector_f(P_z);
diff --git a/source/tomopy/util/extern/gridrec.py b/source/tomopy/util/extern/gridrec.py
index 08e4755..76b646b 100644
--- a/source/tomopy/util/extern/gridrec.py
+++ b/source/tomopy/util/extern/gridrec.py
@@ -70,6 +70,15 @@ def c_gridrec(tomo, center, recon, theta, **kwargs):
     else:
         dy, dt, dx = tomo.shape
 
+    # Width of the detector after padding
+    pdim = 16
+    while pdim < dx:
+        pdim *= 2
+    if max(kwargs['num_gridx'], kwargs['num_gridy']) > pdim:
+        raise ValueError(
+            'The reconstruction grid must not be larger than %d for %d '
+            'detector columns.' % (pdim, dx))
+
     LIB_TOMOPY_GRIDREC.gridrec.restype = dtype.as_c_void_p()
     return LIB_TOMOPY_GRIDREC.gridrec(
         dtype.as_c_float_p(tomo),
-- 
2.43.0


From 2cf16284a55f75345239049d1119b40e6aad449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:38 +0000
Subject: [PATCH 04/72] fix: tv takes the gradient along the rows of non-square
 grids

The total variation terms indexed the grid as if its rows had num_gridx
instead of num_gridy pixels.
---
 source/libtomo/recon/tv.c | 60 +++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/source/libtomo/recon/tv.c b/source/libtomo/recon/tv.c
index 2f3e054..ec0b0c7 100755
--- a/source/libtomo/recon/tv.c
+++ b/source/libtomo/recon/tv.c
@@ -127,27 +127,27 @@ tv(const float* data, int dy, int dt, int dx, const float* center, const float*
             // compute proximal of the gradient in x and y directions
             // prox0 = prox0+c*grad(recon);
             // prox0 = prox0/max(1,abs(prox0)/lambda);
-            for(iy = 0; iy < ngridy - 1; iy++)
-                for(ix = 0; ix < ngridx - 1; ix++)
+            for(iy = 0; iy < ngridx - 1; iy++)
+                for(ix = 0; ix < ngridy - 1; ix++)
                 {
-                    prox0x[ind_recon + iy * ngridx + ix] +=
-                        c * (recon[ind_recon + iy * ngridx + ix + 1] -
-                             recon[ind_recon + iy * ngridx + ix]);
-                    prox0y[ind_recon + iy * ngridx + ix] +=
-                        c * (recon[ind_recon + (iy + 1) * ngridx + ix] -
-                             recon[ind_recon + iy * ngridx + ix]);
+                    prox0x[ind_recon + iy * ngridy + ix] +=
+                        c * (recon[ind_recon + iy * ngridy + ix + 1] -
+                             recon[ind_recon + iy * ngridy + ix]);
+                    prox0y[ind_recon + iy * ngridy + ix] +=
+                        c * (recon[ind_recon + (iy + 1) * ngridy + ix] -
+                             recon[ind_recon + iy * ngridy + ix]);
                 }
-            for(iy = 0; iy < ngridy - 1; iy++)
-                for(ix = 0; ix < ngridx - 1; ix++)
+            for(iy = 0; iy < ngridx - 1; iy++)
+                for(ix = 0; ix < ngridy - 1; ix++)
                 {
-                    upd = sqrt(prox0x[ind_recon + iy * ngridx + ix] *
-                                   prox0x[ind_recon + iy * ngridx + ix] +
-                               prox0y[ind_recon + iy * ngridx + ix] *
-                                   prox0y[ind_recon + iy * ngridx + ix]) /
+                    upd = sqrt(prox0x[ind_recon + iy * ngridy + ix] *
+                                   prox0x[ind_recon + iy * ngridy + ix] +
+                               prox0y[ind_recon + iy * ngridy + ix] *
+                                   prox0y[ind_recon + iy * ngridy + ix]) /
                           lambda;
                     upd = upd < 1 ? 1 : upd;
-                    prox0x[ind_recon + iy * ngridx + ix] /= upd;
-                    prox0y[ind_recon + iy * ngridx + ix] /= upd;
+                    prox0x[ind_recon + iy * ngridy + ix] /= upd;
+                    prox0y[ind_recon + iy * ngridy + ix] /= upd;
                 }
 
             // compute proximal of the projections
@@ -226,25 +226,25 @@ tv(const float* data, int dy, int dt, int dx, const float* center, const float*
 
             // backward step. update with the divergence of prox0 and the
             // adjoint of prox1 update = update-c*R^*(prox1)-c*div(prox0);
-            for(iy = 0; iy < ngridy; iy++)
-                for(ix = 0; ix < ngridx; ix++)
+            for(iy = 0; iy < ngridx; iy++)
+                for(ix = 0; ix < ngridy; ix++)
                 {
-                    update[ind_recon + iy * ngridx + ix] -=
-                        c * adjdata[ind_recon + iy * ngridx + ix];
+                    update[ind_recon + iy * ngridy + ix] -=
+                        c * adjdata[ind_recon + iy * ngridy + ix];
                     if(ix == 0)
-                        update[ind_recon + iy * ngridx + ix] +=
-                            c * prox0x[ind_recon + iy * ngridx + ix];
+                        update[ind_recon + iy * ngridy + ix] +=
+                            c * prox0x[ind_recon + iy * ngridy + ix];
                     else
-                        update[ind_recon + iy * ngridx + ix] +=
-                            c * (prox0x[ind_recon + iy * ngridx + ix] -
-                                 prox0x[ind_recon + iy * ngridx + ix - 1]);
+                        update[ind_recon + iy * ngridy + ix] +=
+                            c * (prox0x[ind_recon + iy * ngridy + ix] -
+                                 prox0x[ind_recon + iy * ngridy + ix - 1]);
                     if(iy == 0)
-                        update[ind_recon + iy * ngridx + ix] +=
-                            c * prox0y[ind_recon + iy * ngridx + ix];
+                        update[ind_recon + iy * ngridy + ix] +=
+                            c * prox0y[ind_recon + iy * ngridy + ix];
                     else
-                        update[ind_recon + iy * ngridx + ix] +=
-                            c * (prox0y[ind_recon + iy * ngridx + ix] -
-                                 prox0y[ind_recon + (iy - 1) * ngridx + ix]);
+                        update[ind_recon + iy * ngridy + ix] +=
+                            c * (prox0y[ind_recon + iy * ngridy + ix] -
+                                 prox0y[ind_recon + (iy - 1) * ngridy + ix]);
                 }
 
             // update of recon
-- 
2.43.0


From 27247ac261b5fb7cfe7fcc38036d32e3677f834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:38 +0000
Subject: [PATCH 05/72] fix: free the work arrays of grad, tikh, project2 and
 project3

---
 source/libtomo/recon/grad.c    | 1 +
 source/libtomo/recon/project.c | 4 ++++
 source/libtomo/recon/tikh.c    | 1 +
 3 files changed, 6 insertions(+)

diff --git a/source/libtomo/recon/grad.c b/source/libtomo/recon/grad.c
index 4c44b10..f1b9b9f 100755
--- a/source/libtomo/recon/grad.c
+++ b/source/libtomo/recon/grad.c
@@ -256,4 +256,5 @@ grad(const float* data, int dy, int dt, int dx, const float* center, const float
     free(recon0);
     free(grad0);
     free(grad);
+    free(lambda);
 }
diff --git a/source/libtomo/recon/project.c b/source/libtomo/recon/project.c
index aaeca23..6353cc6 100755
--- a/source/libtomo/recon/project.c
+++ b/source/libtomo/recon/project.c
@@ -262,6 +262,8 @@ project2(const float* objx, const float* objy, int oy, int ox, int oz, float* da
     free(coorx);
     free(coory);
     free(dist);
+    free(indx);
+    free(indy);
     free(indi);
 }
 
@@ -381,5 +383,7 @@ project3(const float* objx, const float* objy, const float* objz, int oy, int ox
     free(coorx);
     free(coory);
     free(dist);
+    free(indx);
+    free(indy);
     free(indi);
 }
diff --git a/source/libtomo/recon/tikh.c b/source/libtomo/recon/tikh.c
index f62050b..3cc751b 100755
--- a/source/libtomo/recon/tikh.c
+++ b/source/libtomo/recon/tikh.c
@@ -263,4 +263,5 @@ tikh(const float* data, int dy, int dt, int dx, const float* center, const float
     free(recon0);
     free(grad0);
     free(grad);
+    free(lambda);
 }
-- 
2.43.0


From 842337cd36d36a8ada734e7d543e6812a650ba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:07 +0000
Subject: [PATCH 06/72] fix: give every chunk of slices its own part of tikh's
 reg_data

All chunks used the beginning of reg_data, and the default reg_data was too
small for grids larger than the detector.
---
 source/tomopy/recon/algorithm.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 2a73132..21f17db 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -328,6 +328,10 @@ def recon(tomo,
                             empty=True)
     else:
         recon = _init_recon(recon_shape, init_recon, sharedmem=False)
+    if algorithm == 'tikh':
+        # One value for every pixel of the reconstruction.
+        kwargs['reg_data'] = np.require(
+            np.broadcast_to(kwargs['reg_data'], recon_shape), requirements="AC")
     return _dist_recon(tomo, center_arr, recon, _get_func(algorithm), args,
                        kwargs, ncore, nchunk)
 
@@ -419,6 +423,12 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
             "Set ncore <= 'TOMOPY_PYTHON_THREADS'.".format(pythreads, ncore))
         ncore = int(pythreads)
 
+    def slice_kwargs(slc):
+        # the part of the keyword arguments that belongs to the slices
+        if algorithm is extern.c_tikh:
+            return dict(kwargs, reg_data=kwargs['reg_data'][slc])
+        return kwargs
+
     logger.info("Reconstructing {} slice groups with {} master threads..."
                 .format(len(slcs), ncore))
     # this is used internally to prevent oversubscription
@@ -427,7 +437,8 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
     if ncore == 1:
         for slc in use_slcs:
             # run in this thread (useful for debugging)
-            algorithm(tomo[slc], center[slc], recon[slc], *args, **kwargs)
+            algorithm(tomo[slc], center[slc], recon[slc], *args,
+                      **slice_kwargs(slc))
     else:
         # execute recon on ncore processes. Accelerated methods have internal
         # thread-pool and NVIDIA NPP library does not support simulatenously
@@ -450,7 +461,7 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
             with cf.ThreadPoolExecutor(ncore) as e:
                 futures = [
                     e.submit(algorithm, tomo[slc], center[slc], recon[slc],
-                             *args, **kwargs) for slc in use_slcs
+                             *args, **slice_kwargs(slc)) for slc in use_slcs
                 ]
             done, _ = cf.wait(futures, return_when=cf.ALL_COMPLETED)
             for f in done:
@@ -482,7 +493,7 @@ def _get_algorithm_kwargs(shape):
         'filter_par': np.array([0.5, 8], dtype='float32'),
         'num_iter': dtype.as_int32(1),
         'reg_par': np.ones(10, dtype='float32'),
-        'reg_data': np.zeros([dy, dx, dx], dtype='float32'),
+        'reg_data': np.zeros(1, dtype='float32'),
         'num_block': dtype.as_int32(1),
         'ind_block': np.arange(0, dt, dtype=np.int32),
         'options': {},
-- 
2.43.0


From 25f7c600e549ebeae4b6d73f0f40846827c637f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:19 +0000
Subject: [PATCH 07/72] fix: recon leaves no state behind

A failing reconstruction left TOMOPY_PYTHON_THREADS set, which limits every
later call, and every mlem or sirt call lengthened the table of allowed
keywords.
---
 source/tomopy/recon/algorithm.py | 83 ++++++++++++++++----------------
 1 file changed, 42 insertions(+), 41 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 21f17db..4eb6f1d 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -275,7 +275,8 @@ def recon(tomo,
 
         allowed_kwargs = copy.copy(allowed_recon_kwargs)
         if algorithm in allowed_accelerated_kwargs:
-            allowed_kwargs[algorithm] += allowed_accelerated_kwargs[algorithm]
+            allowed_kwargs[algorithm] = (allowed_kwargs[algorithm] +
+                                         allowed_accelerated_kwargs[algorithm])
 
         # Check whether we have an allowed method
         if algorithm not in allowed_kwargs:
@@ -434,47 +435,47 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
     # this is used internally to prevent oversubscription
     os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(ncore)
 
-    if ncore == 1:
-        for slc in use_slcs:
-            # run in this thread (useful for debugging)
-            algorithm(tomo[slc], center[slc], recon[slc], *args,
-                      **slice_kwargs(slc))
-    else:
-        # execute recon on ncore processes. Accelerated methods have internal
-        # thread-pool and NVIDIA NPP library does not support simulatenously
-        # leveraging multiple devices within the same process
-        if "accelerated" in kwargs and kwargs["accelerated"]:
-            futures = []
-            with cf.ProcessPoolExecutor(ncore) as e:
-                for idx, slc in enumerate(use_slcs):
-                    futures.append(
-                        e.submit(_run_accel_algorithm, idx, algorithm,
-                                 tomo[slc], center[slc], recon[slc], *args,
-                                 **kwargs))
-
-            for f, slc in zip(futures, use_slcs):
-                if f.exception() is not None:
-                    raise f.exception()
-                recon[slc] = f.result()
+    try:
+        if ncore == 1:
+            for slc in use_slcs:
+                # run in this thread (useful for debugging)
+                algorithm(tomo[slc], center[slc], recon[slc], *args,
+                          **slice_kwargs(slc))
         else:
-            # execute recon on ncore threads
-            with cf.ThreadPoolExecutor(ncore) as e:
-                futures = [
-                    e.submit(algorithm, tomo[slc], center[slc], recon[slc],
-                             *args, **slice_kwargs(slc)) for slc in use_slcs
-                ]
-            done, _ = cf.wait(futures, return_when=cf.ALL_COMPLETED)
-            for f in done:
-                if f.exception() is not None:
-                    raise f.exception()
-
-
-    if pythreads is not None:
-        # reset to default
-        os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(pythreads)
-    elif os.environ.get("TOMOPY_PYTHON_THREADS"):
-        # if no default set, then
-        del os.environ["TOMOPY_PYTHON_THREADS"]
+            # execute recon on ncore processes. Accelerated methods have internal
+            # thread-pool and NVIDIA NPP library does not support simulatenously
+            # leveraging multiple devices within the same process
+            if "accelerated" in kwargs and kwargs["accelerated"]:
+                futures = []
+                with cf.ProcessPoolExecutor(ncore) as e:
+                    for idx, slc in enumerate(use_slcs):
+                        futures.append(
+                            e.submit(_run_accel_algorithm, idx, algorithm,
+                                     tomo[slc], center[slc], recon[slc], *args,
+                                     **kwargs))
+
+                for f, slc in zip(futures, use_slcs):
+                    if f.exception() is not None:
+                        raise f.exception()
+                    recon[slc] = f.result()
+            else:
+                # execute recon on ncore threads
+                with cf.ThreadPoolExecutor(ncore) as e:
+                    futures = [
+                        e.submit(algorithm, tomo[slc], center[slc], recon[slc],
+                                 *args, **slice_kwargs(slc)) for slc in use_slcs
+                    ]
+                done, _ = cf.wait(futures, return_when=cf.ALL_COMPLETED)
+                for f in done:
+                    if f.exception() is not None:
+                        raise f.exception()
+    finally:
+        if pythreads is not None:
+            # reset to default
+            os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(pythreads)
+        elif os.environ.get("TOMOPY_PYTHON_THREADS"):
+            # if no default set, then
+            del os.environ["TOMOPY_PYTHON_THREADS"]
 
     return recon
 
-- 
2.43.0


From 239b1aecf567532fef73a7647469fc9670102082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:23 +0000
Subject: [PATCH 08/72] fix: pass contiguous angles, axes, objects and
 parameters to the C code

Strided views were read as if they were contiguous, and a numpy float32
reg_par was not accepted at all.
---
 source/tomopy/recon/algorithm.py |  5 ++---
 source/tomopy/recon/vector.py    | 12 ++++++------
 source/tomopy/sim/project.py     | 18 +++++++++---------
 source/tomopy/util/dtype.py      |  2 +-
 4 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 4eb6f1d..f047d8d 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -297,8 +297,7 @@ def recon(tomo,
 
                 # Make sure reg_par and filter_par is float32.
                 if key == 'reg_par' or key == 'filter_par' or key == 'reg_data':
-                    if not isinstance(kwargs[key], np.float32):
-                        kwargs[key] = np.array(value, dtype='float32')
+                    kwargs[key] = np.array(value, dtype='float32', order='C')
 
         # Set kwarg defaults.
         for kw in allowed_kwargs[algorithm]:
@@ -481,7 +480,7 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
 
 
 def _get_algorithm_args(theta):
-    theta = dtype.as_float32(theta)
+    theta = np.ascontiguousarray(theta, dtype=np.float32)
     return (theta, )
 
 
diff --git a/source/tomopy/recon/vector.py b/source/tomopy/recon/vector.py
index 5775dcc..e5555b4 100644
--- a/source/tomopy/recon/vector.py
+++ b/source/tomopy/recon/vector.py
@@ -68,7 +68,7 @@ __all__ = ['vector', 'vector2', 'vector3']
 
 def vector(tomo, theta, center=None, num_iter=1):
     tomo = dtype.as_float32(tomo)
-    theta = dtype.as_float32(theta)
+    theta = np.ascontiguousarray(theta, dtype=np.float32)
 
     # Initialize tomography data.
     tomo = init_tomo(tomo, sinogram_order=False, sharedmem=False)
@@ -87,8 +87,8 @@ def vector(tomo, theta, center=None, num_iter=1):
 def vector2(tomo1, tomo2, theta1, theta2, center1=None, center2=None, num_iter=1, axis1=1, axis2=2):
     tomo1 = dtype.as_float32(tomo1)
     tomo2 = dtype.as_float32(tomo2)
-    theta1 = dtype.as_float32(theta1)
-    theta2 = dtype.as_float32(theta2)
+    theta1 = np.ascontiguousarray(theta1, dtype=np.float32)
+    theta2 = np.ascontiguousarray(theta2, dtype=np.float32)
 
     # Initialize tomography data.
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
@@ -111,9 +111,9 @@ def vector3(tomo1, tomo2, tomo3, theta1, theta2, theta3, center1=None, center2=N
     tomo1 = dtype.as_float32(tomo1)
     tomo2 = dtype.as_float32(tomo2)
     tomo3 = dtype.as_float32(tomo3)
-    theta1 = dtype.as_float32(theta1)
-    theta2 = dtype.as_float32(theta2)
-    theta3 = dtype.as_float32(theta3)
+    theta1 = np.ascontiguousarray(theta1, dtype=np.float32)
+    theta2 = np.ascontiguousarray(theta2, dtype=np.float32)
+    theta3 = np.ascontiguousarray(theta3, dtype=np.float32)
 
     # Initialize tomography data.
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
diff --git a/source/tomopy/sim/project.py b/source/tomopy/sim/project.py
index 765051f..d67bd5a 100644
--- a/source/tomopy/sim/project.py
+++ b/source/tomopy/sim/project.py
@@ -299,7 +299,7 @@ def project(
         3D tomographic data.
     """
     obj = dtype.as_float32(obj)
-    theta = dtype.as_float32(theta)
+    theta = np.ascontiguousarray(theta, dtype=np.float32)
 
     # Estimate data dimensions.
     oy, ox, oz = obj.shape
@@ -367,9 +367,9 @@ def project2(
     ndarray
         3D tomographic data.
     """
-    objx = dtype.as_float32(objx)
-    objy = dtype.as_float32(objy)
-    theta = dtype.as_float32(theta)
+    objx = np.ascontiguousarray(objx, dtype=np.float32)
+    objy = np.ascontiguousarray(objy, dtype=np.float32)
+    theta = np.ascontiguousarray(theta, dtype=np.float32)
 
     # Estimate data dimensions.
     oy, ox, oz = objx.shape
@@ -433,10 +433,10 @@ def project3(
     ndarray
         3D tomographic data.
     """
-    objx = dtype.as_float32(objx)
-    objy = dtype.as_float32(objy)
-    objz = dtype.as_float32(objz)
-    theta = dtype.as_float32(theta)
+    objx = np.ascontiguousarray(objx, dtype=np.float32)
+    objy = np.ascontiguousarray(objy, dtype=np.float32)
+    objz = np.ascontiguousarray(objz, dtype=np.float32)
+    theta = np.ascontiguousarray(theta, dtype=np.float32)
 
     # Estimate data dimensions.
     oy, ox, oz = objx.shape
@@ -472,7 +472,7 @@ def get_center(shape, center):
         center = np.ones(shape[0], dtype='float32') * (shape[2] / 2.)
     elif np.array(center).size == 1:
         center = np.ones(shape[0], dtype='float32') * center
-    return dtype.as_float32(center)
+    return np.ascontiguousarray(center, dtype=np.float32)
 
 
 def fan_to_para(tomo, dist, geom):
diff --git a/source/tomopy/util/dtype.py b/source/tomopy/util/dtype.py
index 510a5c8..86017d7 100644
--- a/source/tomopy/util/dtype.py
+++ b/source/tomopy/util/dtype.py
@@ -144,7 +144,7 @@ def as_c_long(arr):
     return ctypes.c_long(arr)
 
 def as_c_int_p(arr):
-    arr = arr.astype(np.intc, copy=False)
+    arr = np.ascontiguousarray(arr, dtype=np.intc)
     c_int_p = ctypes.POINTER(ctypes.c_int)
     return arr.ctypes.data_as(c_int_p)
 
-- 
2.43.0


From 009ec1307a8127dc0b6074aa29fb270678cc82ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:48 +0000
Subject: [PATCH 09/72] fix: reject reconstruction arguments of the wrong size

An initial guess, block order, custom filter, set of axes or parameter list of
the wrong size made the C code access memory outside of the arrays.
---
 source/tomopy/recon/algorithm.py     | 17 +++++++++++++++++
 source/tomopy/sim/project.py         |  2 ++
 source/tomopy/util/extern/gridrec.py |  4 ++++
 3 files changed, 23 insertions(+)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index f047d8d..b3822c7 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -298,6 +298,11 @@ def recon(tomo,
                 # Make sure reg_par and filter_par is float32.
                 if key == 'reg_par' or key == 'filter_par' or key == 'reg_data':
                     kwargs[key] = np.array(value, dtype='float32', order='C')
+                    # Parameters that are not given keep their default value.
+                    if key != 'reg_data':
+                        kwargs[key] = np.append(
+                            kwargs[key],
+                            kwargs_defaults[key][kwargs[key].size:])
 
         # Set kwarg defaults.
         for kw in allowed_kwargs[algorithm]:
@@ -321,8 +326,20 @@ def recon(tomo,
 
     args = _get_algorithm_args(theta)
 
+    if 'num_block' in kwargs and isinstance(algorithm, str):
+        if kwargs['num_block'] < 1:
+            raise ValueError('There must be at least one block.')
+        if (np.size(kwargs['ind_block']) != tomo.shape[1]
+                or np.min(kwargs['ind_block']) < 0
+                or np.max(kwargs['ind_block']) >= tomo.shape[1]):
+            raise ValueError('There must be one index for every projection.')
+
     # Initialize reconstruction.
     recon_shape = (tomo.shape[0], kwargs['num_gridx'], kwargs['num_gridy'])
+    if init_recon is not None and np.shape(init_recon) != tuple(
+            int(n) for n in recon_shape):
+        raise ValueError('The initial guess must have the shape of the '
+                         'reconstruction.')
     if algorithm == 'gridrec':
         recon = _init_recon(recon_shape, init_recon, val=0, sharedmem=False,
                             empty=True)
diff --git a/source/tomopy/sim/project.py b/source/tomopy/sim/project.py
index d67bd5a..5f45e3b 100644
--- a/source/tomopy/sim/project.py
+++ b/source/tomopy/sim/project.py
@@ -472,6 +472,8 @@ def get_center(shape, center):
         center = np.ones(shape[0], dtype='float32') * (shape[2] / 2.)
     elif np.array(center).size == 1:
         center = np.ones(shape[0], dtype='float32') * center
+    elif np.array(center).size != shape[0]:
+        raise ValueError('There must be one center for every slice.')
     return np.ascontiguousarray(center, dtype=np.float32)
 
 
diff --git a/source/tomopy/util/extern/gridrec.py b/source/tomopy/util/extern/gridrec.py
index 76b646b..9fe7f7a 100644
--- a/source/tomopy/util/extern/gridrec.py
+++ b/source/tomopy/util/extern/gridrec.py
@@ -78,6 +78,10 @@ def c_gridrec(tomo, center, recon, theta, **kwargs):
         raise ValueError(
             'The reconstruction grid must not be larger than %d for %d '
             'detector columns.' % (pdim, dx))
+    nfilter = {'custom': pdim // 2, 'custom2d': dt * (pdim // 2)}
+    if kwargs['filter_par'].size < nfilter.get(kwargs['filter_name'], 0):
+        raise ValueError('A %s filter needs %d values.' % (
+            kwargs['filter_name'], nfilter[kwargs['filter_name']]))
 
     LIB_TOMOPY_GRIDREC.gridrec.restype = dtype.as_c_void_p()
     return LIB_TOMOPY_GRIDREC.gridrec(
-- 
2.43.0


From 0bd266a5adafdfcf06bf3e325dd01951db996c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:12 +0000
Subject: [PATCH 10/72] fix: vector2 and vector3 use the angles and axes of
 each data set

The second and third data set were reconstructed with the angles and the
rotation axes of the first one.
---
 source/libtomo/recon/vector.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/libtomo/recon/vector.c b/source/libtomo/recon/vector.c
index daa8b94..96dc917 100755
--- a/source/libtomo/recon/vector.c
+++ b/source/libtomo/recon/vector.c
@@ -353,7 +353,7 @@ vector2(const float* data1, const float* data2, int dy, int dt, int dx,
         // For each slice
         for(s = 0; s < dy; s++)
         {
-            preprocessing(ngridx, ngridy, dx, center1[s], &mov, gridx,
+            preprocessing(ngridx, ngridy, dx, center2[s], &mov, gridx,
                           gridy);  // Outputs: mov, gridx, gridy
 
             sum_dist = (float*) calloc((ngridx * ngridy), sizeof(float));
@@ -366,7 +366,7 @@ vector2(const float* data1, const float* data2, int dy, int dt, int dx,
                 // Calculate the sin and cos values
                 // of the projection angle and find
                 // at which quadrant on the cartesian grid.
-                theta_p  = fmod(theta1[p], 2 * M_PI);
+                theta_p  = fmod(theta2[p], 2 * M_PI);
                 quadrant = calc_quadrant(theta_p);
                 sin_p    = sinf(theta_p);
                 cos_p    = cosf(theta_p);
@@ -623,7 +623,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
         // For each slice
         for(s = 0; s < dy; s++)
         {
-            preprocessing(ngridx, ngridy, dx, center1[s], &mov, gridx,
+            preprocessing(ngridx, ngridy, dx, center2[s], &mov, gridx,
                           gridy);  // Outputs: mov, gridx, gridy
 
             sum_dist = (float*) calloc((ngridx * ngridy), sizeof(float));
@@ -636,7 +636,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
                 // Calculate the sin and cos values
                 // of the projection angle and find
                 // at which quadrant on the cartesian grid.
-                theta_p  = fmod(theta1[p], 2 * M_PI);
+                theta_p  = fmod(theta2[p], 2 * M_PI);
                 quadrant = calc_quadrant(theta_p);
                 sin_p    = sinf(theta_p);
                 cos_p    = cosf(theta_p);
@@ -729,7 +729,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
         // For each slice
         for(s = 0; s < dy; s++)
         {
-            preprocessing(ngridx, ngridy, dx, center1[s], &mov, gridx,
+            preprocessing(ngridx, ngridy, dx, center3[s], &mov, gridx,
                           gridy);  // Outputs: mov, gridx, gridy
 
             sum_dist = (float*) calloc((ngridx * ngridy), sizeof(float));
@@ -742,7 +742,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
                 // Calculate the sin and cos values
                 // of the projection angle and find
                 // at which quadrant on the cartesian grid.
-                theta_p  = fmod(theta1[p], 2 * M_PI);
+                theta_p  = fmod(theta3[p], 2 * M_PI);
                 quadrant = calc_quadrant(theta_p);
                 sin_p    = sinf(theta_p);
                 cos_p    = cosf(theta_p);
-- 
2.43.0


From 0938f62cb33679b0a607fd10657cd0763c55a538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:12 +0000
Subject: [PATCH 11/72] fix: vector leaves pixels that no ray crosses unchanged
 instead of NaN

---
 source/libtomo/recon/vector.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/libtomo/recon/vector.c b/source/libtomo/recon/vector.c
index 96dc917..1c58a00 100755
--- a/source/libtomo/recon/vector.c
+++ b/source/libtomo/recon/vector.c
@@ -171,10 +171,13 @@ vector(const float* data, int dy, int dt, int dx, const float* center, const flo
             {
                 for(n = 0; n < ngridy; n++)
                 {
-                    recon1[n + m * ngridy + s * ngridx * ngridy] +=
-                        update1[n + m * ngridy] / sum_dist[n + m * ngridy];
-                    recon2[n + m * ngridy + s * ngridx * ngridy] +=
-                        update2[n + m * ngridy] / sum_dist[n + m * ngridy];
+                    if(sum_dist[n + m * ngridy] != 0.0)
+                    {
+                        recon1[n + m * ngridy + s * ngridx * ngridy] +=
+                            update1[n + m * ngridy] / sum_dist[n + m * ngridy];
+                        recon2[n + m * ngridy + s * ngridx * ngridy] +=
+                            update2[n + m * ngridy] / sum_dist[n + m * ngridy];
+                    }
                 }
             }
 
-- 
2.43.0


From a477df3bda84bf911c137149298dd192755d63fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:32 +0000
Subject: [PATCH 12/72] fix: reject vector data of the wrong size

Data sets that differ in shape, that are not square or that have another number
of angles made the C code access memory outside of the arrays.
---
 source/tomopy/recon/vector.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/source/tomopy/recon/vector.py b/source/tomopy/recon/vector.py
index e5555b4..f311549 100644
--- a/source/tomopy/recon/vector.py
+++ b/source/tomopy/recon/vector.py
@@ -66,6 +66,16 @@ __docformat__ = 'restructuredtext en'
 __all__ = ['vector', 'vector2', 'vector3']
 
 
+def _check_angles(*data, cube=False):
+    for tomo, theta in data:
+        if tomo.shape[1] != theta.size:
+            raise ValueError('There must be one angle for every projection.')
+        if tomo.shape != data[0][0].shape:
+            raise ValueError('The data sets must have the same shape.')
+        if cube and tomo.shape[0] != tomo.shape[2]:
+            raise ValueError('The projections must be square.')
+
+
 def vector(tomo, theta, center=None, num_iter=1):
     tomo = dtype.as_float32(tomo)
     theta = np.ascontiguousarray(theta, dtype=np.float32)
@@ -73,6 +83,8 @@ def vector(tomo, theta, center=None, num_iter=1):
     # Initialize tomography data.
     tomo = init_tomo(tomo, sinogram_order=False, sharedmem=False)
 
+    _check_angles((tomo, theta))
+
     recon_shape = (tomo.shape[0], tomo.shape[2], tomo.shape[2])
     recon1 = np.zeros(recon_shape, dtype=np.float32)
     recon2 = np.zeros(recon_shape, dtype=np.float32)
@@ -93,6 +105,7 @@ def vector2(tomo1, tomo2, theta1, theta2, center1=None, center2=None, num_iter=1
     # Initialize tomography data.
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
     tomo2 = init_tomo(tomo2, sinogram_order=False, sharedmem=False)
+    _check_angles((tomo1, theta1), (tomo2, theta2), cube=True)
 
     recon_shape = (tomo1.shape[0], tomo1.shape[2], tomo1.shape[2])
     recon1 = np.zeros(recon_shape, dtype=np.float32)
@@ -119,6 +132,7 @@ def vector3(tomo1, tomo2, tomo3, theta1, theta2, theta3, center1=None, center2=N
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
     tomo2 = init_tomo(tomo2, sinogram_order=False, sharedmem=False)
     tomo3 = init_tomo(tomo3, sinogram_order=False, sharedmem=False)
+    _check_angles((tomo1, theta1), (tomo2, theta2), (tomo3, theta3), cube=True)
 
     recon_shape = (tomo1.shape[0], tomo1.shape[2], tomo1.shape[2])
     recon1 = np.zeros(recon_shape, dtype=np.float32)
-- 
2.43.0


From ba2e972ab97710ba357c94edf07b88646da0e9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:17 +0000
Subject: [PATCH 13/72] fix: copy views of shared-memory arrays before
 distributing them

A view of a shared array was replaced by the whole buffer behind it, read with
the shape of the view.
---
 source/tomopy/util/dtype.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/util/dtype.py b/source/tomopy/util/dtype.py
index 86017d7..7d72bcf 100644
--- a/source/tomopy/util/dtype.py
+++ b/source/tomopy/util/dtype.py
@@ -166,8 +166,9 @@ def as_c_size_t(arr):
 
 
 def as_sharedmem(arr, copy=False):
-    # first check to see if it already a shared array
-    if not copy and is_sharedmem(arr):
+    # first check to see if it already a shared array (all of it, in order)
+    if (not copy and is_sharedmem(arr) and is_contiguous(arr)
+            and ctypes.sizeof(get_shared_mem(arr)) == arr.nbytes):
         return arr
     # get ctype from numpy array
     temp_arr = np.empty((1), dtype=arr.dtype)
-- 
2.43.0


From 4d8bf2df899a7be2a6a7ee7873b4815e427838a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:17 +0000
Subject: [PATCH 14/72] fix: distribute arrays of different types

Every array was read with the type of the last one.
---
 source/tomopy/util/mproc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index f9b5672..f91a091 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -288,13 +288,14 @@ def distribute_jobs(arr,
         else:
             map_args.append((func, args, kwargs, i, axis))
 
-    init_shared(shared_arrays, shared_out, arr.dtype, shared_shape,
+    shared_types = [a.dtype for a in arrs]
+    init_shared(shared_arrays, shared_out, shared_types, shared_shape,
                 shared_out_type, shared_out_shape, queue=queue, on_host=True)
 
     if ncore > 1 and DEBUG is False:
         with closing(mp.Pool(processes=ncore,
                              initializer=init_shared,
-                             initargs=(shared_arrays, shared_out, arr.dtype,
+                             initargs=(shared_arrays, shared_out, shared_types,
                                        shared_shape, shared_out_type,
                                        shared_out_shape, queue))) as p:
             if p._pool:
@@ -374,7 +375,7 @@ def _arg_parser(params):
     global INSHAPE
     global OUTSHAPE
     func, args, kwargs, slc, axis = params
-    func_args = tuple((slice_axis(to_numpy_array(a, INTYPE, INSHAPE[idx]), slc, axis) for idx, a in enumerate(SHARED_ARRAYS))) + args
+    func_args = tuple((slice_axis(to_numpy_array(a, INTYPE[idx], INSHAPE[idx]), slc, axis) for idx, a in enumerate(SHARED_ARRAYS))) + args
     # NOTE: will only copy if actually different arrays
     try:
         result = func(*func_args, **kwargs)
-- 
2.43.0


From 5d5d376e8047ba3f6d536c308520b5caeb0bb6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:17 +0000
Subject: [PATCH 15/72] fix: np.int is gone from numpy

---
 source/tomopy/util/mproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index f91a091..2916cec 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -166,10 +166,10 @@ def get_worker_ncore_slices(axis_size, ncore=None, nchunk=None):
         # calculate number of slices to send to each GPU
         chunk_size = axis_size // ncore
         leftover = axis_size % ncore
-        sizes = np.ones(ncore, dtype=np.int) * chunk_size
+        sizes = np.ones(ncore, dtype=int) * chunk_size
         # evenly distribute leftover across workers
         sizes[:leftover] += 1
-        offsets = np.zeros(ncore+1, dtype=np.int)
+        offsets = np.zeros(ncore+1, dtype=int)
         offsets[1:] = np.cumsum(sizes)
         slcs = [np.s_[offsets[i]:offsets[i+1]]
                 for i in range(offsets.shape[0]-1)]
-- 
2.43.0


From d8ef8b403dda71a5ae585a158f68bd6065f89898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:53 +0000
Subject: [PATCH 16/72] fix: reconstruct and project single slices (nchunk=0)

The axis of a single slice is a scalar, which could not be passed on.
---
 source/tomopy/util/dtype.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/tomopy/util/dtype.py b/source/tomopy/util/dtype.py
index 7d72bcf..51e8a25 100644
--- a/source/tomopy/util/dtype.py
+++ b/source/tomopy/util/dtype.py
@@ -120,6 +120,7 @@ def as_uint8(arr):
 
 def as_c_float_p(arr):
     c_float_p = ctypes.POINTER(ctypes.c_float)
+    arr = as_ndarray(arr, np.float32)
     return arr.ctypes.data_as(c_float_p)
 
 
-- 
2.43.0


From ff49bf98c712de0e230cee897662e3eddfa279e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:08 +0000
Subject: [PATCH 17/72] fix: median_filter3d and remove_outlier3d of other
 types and memory orders

---
 source/tomopy/misc/corr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 06cc0ae..4bcd24b 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -385,7 +385,8 @@ def median_filter3d(arr, size=3, ncore=None):
     input_type = arr.dtype
     if (input_type != "float32") and (input_type != "uint16"):
         arr = dtype.as_float32(arr)  # silent convertion to float32 data type
-    out = np.empty_like(arr)
+        input_type = arr.dtype
+    out = np.empty_like(arr, order="C")
     dif = 0.0  # set to 0 to avoid selective filtering
 
     # convert the full kernel size (odd int) to a half size as the C function requires it
@@ -447,6 +448,7 @@ def remove_outlier3d(arr, dif, size=3, ncore=None):
     input_type = arr.dtype
     if (input_type != "float32") and (input_type != "uint16"):
         arr = dtype.as_float32(arr)  # silent convertion to float32 data type
+        input_type = arr.dtype
     out = np.copy(arr, order="C")
 
     # convert the full kernel size (odd int) to a half size as the C function requires it
-- 
2.43.0


From 9f2744b6e70734e2059c2509ae0aec9c72e20050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:08 +0000
Subject: [PATCH 18/72] fix: sobel_filter and remove_outlier1d index their
 slices

---
 source/tomopy/misc/corr.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 4bcd24b..8b2e635 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -501,7 +501,11 @@ def sobel_filter(arr, axis=0, ncore=None):
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(filters.sobel, arr[slc], output=out[slc])
+            e.submit(
+                scipy.ndimage.sobel,
+                arr[tuple(slc)],
+                output=out[tuple(slc)],
+            )
     return out
 
 
@@ -659,9 +663,9 @@ def remove_outlier1d(arr, dif, size=3, axis=0, ncore=None, out=None):
             slc[lar_axis] = chnk_slices[i]
             e.submit(
                 scipy.ndimage.median_filter,
-                arr[slc],
+                arr[tuple(slc)],
                 size=filt_size,
-                output=tmp[slc],
+                output=tmp[tuple(slc)],
                 mode="mirror",
             )
 
-- 
2.43.0


From bddababd85c5f0fc80b3f10056d647f4b4e90572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:08 +0000
Subject: [PATCH 19/72] fix: filters report the errors of their threads

---
 source/tomopy/misc/corr.py | 40 +++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 8b2e635..894cafc 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -150,17 +150,20 @@ def gaussian_filter(arr, sigma=3, order=0, axis=0, ncore=None):
     if ncore is None:
         ncore = mproc.mp.cpu_count()
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(
+            futures.append(e.submit(
                 scipy.ndimage.gaussian_filter,
                 arr[tuple(slc)],
                 sigma,
                 order=order,
                 output=out[tuple(slc)],
-            )
+            ))
+    for future in futures:
+        future.result()
     return out
 
 
@@ -190,16 +193,19 @@ def median_filter(arr, size=3, axis=0, ncore=None):
     if ncore is None:
         ncore = mproc.mp.cpu_count()
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(
+            futures.append(e.submit(
                 scipy.ndimage.median_filter,
                 arr[tuple(slc)],
                 size=(size, size),
                 output=out[tuple(slc)],
-            )
+            ))
+    for future in futures:
+        future.result()
     return out
 
 
@@ -497,15 +503,18 @@ def sobel_filter(arr, axis=0, ncore=None):
     if ncore is None:
         ncore = mproc.mp.cpu_count()
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(
+            futures.append(e.submit(
                 scipy.ndimage.sobel,
                 arr[tuple(slc)],
                 output=out[tuple(slc)],
-            )
+            ))
+    for future in futures:
+        future.result()
     return out
 
 
@@ -597,16 +606,19 @@ def remove_outlier(arr, dif, size=3, axis=0, ncore=None, out=None):
     filt_size = [size] * arr.ndim
     filt_size[axis] = 1
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(ncore):
             slc[axis] = chnk_slices[i]
-            e.submit(
+            futures.append(e.submit(
                 scipy.ndimage.median_filter,
                 arr[tuple(slc)],
                 size=filt_size,
                 output=tmp[tuple(slc)],
-            )
+            ))
+    for future in futures:
+        future.result()
 
     arr = dtype.as_float32(arr)
     tmp = dtype.as_float32(tmp)
@@ -657,17 +669,20 @@ def remove_outlier1d(arr, dif, size=3, axis=0, ncore=None, out=None):
     filt_size = [1] * arr.ndim
     filt_size[axis] = size
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(ncore):
             slc[lar_axis] = chnk_slices[i]
-            e.submit(
+            futures.append(e.submit(
                 scipy.ndimage.median_filter,
                 arr[tuple(slc)],
                 size=filt_size,
                 output=tmp[tuple(slc)],
                 mode="mirror",
-            )
+            ))
+    for future in futures:
+        future.result()
 
     with mproc.set_numexpr_threads(ncore):
         out = ne.evaluate("where(arr-tmp>=dif,tmp,arr)", out=out)
@@ -848,10 +863,13 @@ def remove_ring(
 
     axis_size = rec.shape[0]
     ncore, nchunk = mproc.get_ncore_nchunk(axis_size, ncore, nchunk)
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         for offset in range(0, axis_size, nchunk):
             slc = np.s_[offset : offset + nchunk]
-            e.submit(extern.c_remove_ring, out[slc], *args)
+            futures.append(e.submit(extern.c_remove_ring, out[slc], *args))
+    for future in futures:
+        future.result()
     return out
 
 
-- 
2.43.0


From d779aae4efc6e80c84081002f4e2e77412b63603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:08 +0000
Subject: [PATCH 20/72] fix: remove_outlier_cuda uses its axis without a GPU

---
 source/tomopy/misc/corr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 894cafc..6a7f3bc 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -760,11 +760,11 @@ def remove_outlier_cuda(arr, dif, size=3, axis=0):
                 out = np.swapaxes(out, 0, axis)
         else:
             warnings.warn("Window size not support, using cpu outlier removal")
-            out = remove_outlier(arr, dif, size)
+            out = remove_outlier(arr, dif, size, axis)
 
     except ImportError:
         warnings.warn("The tomocuda is not support, using cpu outlier removal")
-        out = remove_outlier(arr, dif, size)
+        out = remove_outlier(arr, dif, size, axis)
 
     return out
 
-- 
2.43.0


From 49e8221082c2bac50bf0b8a0ce44596c3d0f41c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:08 +0000
Subject: [PATCH 21/72] fix: remove_ring fills out from rec

---
 source/tomopy/misc/corr.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 6a7f3bc..c81ebe1 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -825,10 +825,7 @@ def remove_ring(
 
     rec = dtype.as_float32(rec)
 
-    if out is None:
-        out = rec.copy()
-    else:
-        out = dtype.as_float32(out)
+    work = rec.copy()
 
     dz, dy, dx = rec.shape
 
@@ -867,9 +864,12 @@ def remove_ring(
     with cf.ThreadPoolExecutor(ncore) as e:
         for offset in range(0, axis_size, nchunk):
             slc = np.s_[offset : offset + nchunk]
-            futures.append(e.submit(extern.c_remove_ring, out[slc], *args))
+            futures.append(e.submit(extern.c_remove_ring, work[slc], *args))
     for future in futures:
         future.result()
+    if out is None:
+        return work
+    out[...] = work
     return out
 
 
-- 
2.43.0


From 8f1f743f866c7022cca375be15ac1da70c938641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:08 +0000
Subject: [PATCH 22/72] fix: inpainter_morph of arrays with a dimension of 1

---
 source/tomopy/misc/corr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index c81ebe1..2d0f99e 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -1123,9 +1123,9 @@ def inpainter_morph(
             # perform 2d inpainting for 3d data using the provided axis
             slices_list = [slice(None), slice(None), slice(None)]
             for m in range(arr.shape[axis]):
-                slices_list[axis] = slice(m,m+1)
-                slice2d = arr[tuple(slices_list)].squeeze()
-                mask2d = mask[tuple(slices_list)].squeeze()
+                slices_list[axis] = m
+                slice2d = arr[tuple(slices_list)]
+                mask2d = mask[tuple(slices_list)]
                 dy, dx = slice2d.shape
                 out2d = np.empty_like(slice2d, order="C")
                 extern.c_inpainter(
-- 
2.43.0


From b61b1320ddde60b261049de3f83a66de72c98bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:42 +0000
Subject: [PATCH 23/72] fix: the 3D median inpainter sorts only the values it
 found

---
 source/libtomo/misc/inpainter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/libtomo/misc/inpainter.c b/source/libtomo/misc/inpainter.c
index 80c9cb0..51dce30 100644
--- a/source/libtomo/misc/inpainter.c
+++ b/source/libtomo/misc/inpainter.c
@@ -505,7 +505,7 @@ median_rand_inpainting_3D(bool* M_upd, const float* Output, float* Updated,
             if(method_type == 1)
             {
                 /* inpainting based on the median neighbour */
-                qsort(_values, window_fullength, sizeof(float), floatcomp1);
+                qsort(_values, counter_local, sizeof(float), floatcomp1);
                 median_val     = (counter_local / 2);
                 Updated[index] = _values[median_val];
             }
-- 
2.43.0


From 95fcd042008e7444cdfaea1560ff20a32928b5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:40 +0000
Subject: [PATCH 24/72] fix: remove_ring reads outside the polar image

---
 source/libtomo/misc/remove_ring.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/source/libtomo/misc/remove_ring.c b/source/libtomo/misc/remove_ring.c
index 1768f39..6e746ef 100644
--- a/source/libtomo/misc/remove_ring.c
+++ b/source/libtomo/misc/remove_ring.c
@@ -221,6 +221,10 @@ quick_sort_2_arrays(float* median_array, int* position_array, int left, int righ
 void
 bubble_2_arrays(float* median_array, int* position_array, int index, int length)
 {
+    if(length < 2)
+    {
+        return;
+    }
     if(index > 0 && index < length - 1)
     {
         if(median_array[index] < median_array[index - 1])
@@ -285,11 +289,14 @@ median_filter_fast_1D(float*** filtered_image, float*** image, int start_row,
                     {
                         adjusted_row -= height / 2;
                     }
+                }
+                if(adjusted_col < width)
+                {
                     median_array[n + kernel_rad] = image[0][adjusted_row][adjusted_col];
                 }
                 else
                 {
-                    median_array[n + kernel_rad] = image[0][row][adjusted_col];
+                    median_array[n + kernel_rad] = 0.0;
                 }
                 position_array[n + kernel_rad] = n + kernel_rad;
             }
@@ -630,6 +637,11 @@ remove_ring(float* data, float center_x, float center_y, int dx, int dy, int dz,
             polar_transform(image, center_x, center_y, dx, dy, &pol_width, &pol_height,
                             thresh_max, thresh_min, r_scale, ang_scale, ring_width);
         m_azi = floor((float) pol_height / 360.0 * angular_min);
+        // Reflections must stay inside one half turn
+        if(m_azi > pol_height / 2 - 1)
+        {
+            m_azi = pol_height / 2 - 1;
+        }
         m_rad = 2 * ring_width + 1;
 
         // Call Ring Algorithm
-- 
2.43.0


From cc88fa34072dacd6d91aa593aee4955856d538be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:40 +0000
Subject: [PATCH 25/72] fix: remove_ring skips the last half step of the turn

---
 source/libtomo/misc/remove_ring.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/libtomo/misc/remove_ring.c b/source/libtomo/misc/remove_ring.c
index 6e746ef..5ce9ee8 100644
--- a/source/libtomo/misc/remove_ring.c
+++ b/source/libtomo/misc/remove_ring.c
@@ -147,6 +147,10 @@ inverse_polar_transform(float** polar_image, float center_x, float center_y,
                 theta += 2.0 * PI;
             }
             int pol_row = iroundf(theta * (float) pol_height / (2.0 * PI));
+            if(pol_row == pol_height)
+            {
+                pol_row = 0;
+            }
             int pol_col =
                 iroundf((float) r_scale *
                         sqrtf(((float) row - center_y) * ((float) row - center_y) +
-- 
2.43.0


From df3ecf9633ac298c5d669d0d5a4788a0f24be12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:41 +0000
Subject: [PATCH 26/72] fix: remove_ring rejects centers outside the image

---
 source/tomopy/misc/corr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 2d0f99e..93a8e34 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -844,6 +844,9 @@ def remove_ring(
     if not 0 <= theta_min < 180:
         raise ValueError("theta_min should be in the range [0 - 180)")
 
+    if not (0 <= center_x <= dx - 1 and 0 <= center_y <= dy - 1):
+        raise ValueError("center_x and center_y should be inside the image")
+
     args = (
         center_x,
         center_y,
-- 
2.43.0


From 9bf309450034c2f17051f5e93a5c6d5d3f945f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:31 +0000
Subject: [PATCH 27/72] fix: pad boolean arrays and by nothing

---
 source/tomopy/misc/morph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 5d7668b..863a3f2 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -121,6 +121,9 @@ def pad(arr, axis, npad=None, mode='constant', ncore=None, **kwargs):
     if npad is None:
         npad = _get_npad(arr.shape[axis])
 
+    if npad == 0:
+        return np.array(arr, order='C')
+
     newshape = list(arr.shape)
     newshape[axis] += 2*npad
 
@@ -139,8 +142,7 @@ def pad(arr, axis, npad=None, mode='constant', ncore=None, **kwargs):
         with mproc.set_numexpr_threads(ncore):
             ne.evaluate("arr", out=out[slc_in])
             if mode == 'constant':
-                np_cast = getattr(np, str(arr.dtype))
-                cval = np_cast(kwargs['constant_values'])
+                cval = arr.dtype.type(kwargs['constant_values'])
                 ne.evaluate("cval", out=out[slc_l])
                 ne.evaluate("cval", out=out[slc_r])
             elif mode == 'edge':
-- 
2.43.0


From a9a107401926bae1dc437896fbbe268d14ff7ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:31 +0000
Subject: [PATCH 28/72] fix: trim_sinogram slices with integers

---
 source/tomopy/misc/morph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 863a3f2..95d7a92 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -287,14 +287,14 @@ def trim_sinogram(data, center, x, y, diameter):
     l1 = center - diameter / 2
     l2 = center - diameter / 2 + rad
 
-    roidata = np.ones((dx, dy, diameter), dtype='float32')
+    roidata = np.ones((dx, dy, int(np.ceil(diameter))), dtype='float32')
 
     delphi = np.pi / dx
     for m in range(dx):
 
         # Calculate start end coordinates for each row of the sinogram.
-        ind1 = np.ceil(np.cos(alpha - m * delphi) * (l2 - l1) + l1)
-        ind2 = np.floor(np.cos(alpha - m * delphi) * (l2 - l1) + l1 + diameter)
+        ind1 = int(np.ceil(np.cos(alpha - m * delphi) * (l2 - l1) + l1))
+        ind2 = int(np.floor(np.cos(alpha - m * delphi) * (l2 - l1) + l1 + diameter))
 
         # Make sure everythin is inside the frame.
         if ind1 < 0:
-- 
2.43.0


From 3ddd93d15ab5ce8d70db68915cd5b6a63ac5465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:31 +0000
Subject: [PATCH 29/72] fix: sino_360_to_180 with an overlap of 0, 1 or the
 whole width

---
 source/tomopy/misc/morph.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 95d7a92..a5e86d1 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -343,15 +343,17 @@ def sino_360_to_180(data, overlap=0, rotation='left'):
     out = np.empty((n, dy, 2*dz-overlap), dtype=data.dtype)
 
     if rotation == 'left':
-        weights = np.linspace(0, 1.0, overlap)
-        out[:, :, -dz+overlap:] = data[:n, :, overlap:]
+        weights = np.linspace(0, 1.0, overlap) if overlap != 1 else 0.5
+        out[:, :, dz:] = data[:n, :, overlap:]
         out[:, :, :dz-overlap] = data[n:2*n, :, overlap:][:, :, ::-1]
         out[:, :, dz-overlap:dz] = weights*data[:n, :, :overlap] + (weights*data[n:2*n, :, :overlap])[:, :, ::-1]
     elif rotation == 'right':
-        weights = np.linspace(1.0, 0, overlap)
-        out[:, :, :dz-overlap] = data[:n, :, :-overlap]
-        out[:, :, -dz+overlap:] = data[n:2*n, :, :-overlap][:, :, ::-1]
-        out[:, :, dz-overlap:dz] = weights*data[:n, :, -overlap:] + (weights*data[n:2*n, :, -overlap:])[:, :, ::-1]
+        weights = np.linspace(1.0, 0, overlap) if overlap != 1 else 0.5
+        out[:, :, :dz-overlap] = data[:n, :, :dz-overlap]
+        out[:, :, dz:] = data[n:2*n, :, :dz-overlap][:, :, ::-1]
+        out[:, :, dz-overlap:dz] = weights*data[:n, :, dz-overlap:] + (weights*data[n:2*n, :, dz-overlap:])[:, :, ::-1]
+    else:
+        raise ValueError("rotation should be 'left' or 'right'")
     return out
 
 # For backward compatibility
-- 
2.43.0


From 4a546fb14309d546e617d14485602988cf295325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:20 +0000
Subject: [PATCH 30/72] fix: downsample lengths that are no multiple of the bin

---
 source/libtomo/misc/morph.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/libtomo/misc/morph.c b/source/libtomo/misc/morph.c
index 3c31fdd..b0f5aa7 100755
--- a/source/libtomo/misc/morph.c
+++ b/source/libtomo/misc/morph.c
@@ -81,10 +81,12 @@ downsample(const float* data, int dx, int dy, int dz, int level, int axis, float
     }
     else if(axis == 1)
     {
+        const unsigned long long stride = (unsigned long long) dy * dz;
         dy /= binsize;
-        for(m = 0, ind = 0; m < (unsigned) dx; m++)
+        for(m = 0; m < (unsigned) dx; m++)
         {
-            i = m * (dy * dz);
+            i   = m * (dy * dz);
+            ind = m * stride;
             for(n = 0; n < (unsigned) dy; n++)
             {
                 j = n * dz;
@@ -101,13 +103,15 @@ downsample(const float* data, int dx, int dy, int dz, int level, int axis, float
     }
     else if(axis == 2)
     {
+        const unsigned long long stride = dz;
         dz /= binsize;
-        for(m = 0, ind = 0; m < (unsigned) dx; m++)
+        for(m = 0; m < (unsigned) dx; m++)
         {
             i = m * (dy * dz);
             for(n = 0; n < (unsigned) dy; n++)
             {
-                j = n * dz;
+                j   = n * dz;
+                ind = ((unsigned long long) m * dy + n) * stride;
                 for(k = 0; k < (unsigned) dz; k++)
                 {
                     for(p = 0; p < binsize; p++)
-- 
2.43.0


From 63b488c19580a03376b24d879f4b828768d1f6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:20 +0000
Subject: [PATCH 31/72] fix: down- and upsample along negative axes

---
 source/tomopy/misc/morph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index a5e86d1..48d3242 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -235,6 +235,7 @@ def upsample(arr, level=1, axis=2):
 def _sample(arr, level, axis, mode):
     arr = dtype.as_float32(arr.copy())
     dx, dy, dz = arr.shape
+    axis = range(arr.ndim)[axis]
     # Determine the new size, dim, of the down-/up-sampled dimension
     if mode == 0:
         dim = int(arr.shape[axis] / np.power(2, level))
-- 
2.43.0


From 21790a3a34bb638a16d24aa1353fab8259ebe2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:20 +0000
Subject: [PATCH 32/72] fix: normalize_nf with averaging='median'

---
 source/tomopy/prep/normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/normalize.py b/source/tomopy/prep/normalize.py
index c75e513..ca6aadb 100644
--- a/source/tomopy/prep/normalize.py
+++ b/source/tomopy/prep/normalize.py
@@ -302,7 +302,7 @@ def normalize_nf(
     if averaging == 'mean':
         dark = np.mean(dark, axis=0, dtype=np.float32)
     elif averaging == 'median':
-        dark = np.median(dark, axis=0, dtype=np.float32)
+        dark = np.median(dark, axis=0).astype(np.float32)
     else:
         raise ValueError(
             f"'averaging' must be 'mean' or 'median' not {averaging}")
-- 
2.43.0


From 199432341aa43e1098dd30b5544f04b719e2d14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:12 +0000
Subject: [PATCH 33/72] fix: retrieve_phase without padding

---
 source/tomopy/prep/phase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/prep/phase.py b/source/tomopy/prep/phase.py
index e1be769..bf32a5e 100644
--- a/source/tomopy/prep/phase.py
+++ b/source/tomopy/prep/phase.py
@@ -137,9 +137,9 @@ def _retrieve_phase(tomo, phase_filter, px, py, prj, pad):
     for m in range(num_jobs):
         prj[px:dy + px, py:dz + py] = tomo[m]
         prj[:px] = prj[px]
-        prj[-px:] = prj[-px-1]
+        prj[dy + px:] = prj[dy + px - 1]
         prj[:, :py] = prj[:, py][:, np.newaxis]
-        prj[:, -py:] = prj[:, -py-1][:, np.newaxis]
+        prj[:, dz + py:] = prj[:, dz + py - 1][:, np.newaxis]
         fproj = fft2(prj, extra_info=num_jobs)
         fproj *= normalized_phase_filter
         proj = np.real(ifft2(fproj, extra_info=num_jobs, overwrite_input=True))
-- 
2.43.0


From 67fd1610965470c87252c9bc4d0872987fe59e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:12 +0000
Subject: [PATCH 34/72] fix: retrieve_phase of projections with an odd size

---
 source/tomopy/prep/phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/phase.py b/source/tomopy/prep/phase.py
index bf32a5e..8371fd2 100644
--- a/source/tomopy/prep/phase.py
+++ b/source/tomopy/prep/phase.py
@@ -116,7 +116,7 @@ def retrieve_phase(
     w2 = _reciprocal_grid(pixel_size, dy + 2 * py, dz + 2 * pz)
 
     # Filter in Fourier space.
-    phase_filter = np.fft.fftshift(
+    phase_filter = np.fft.ifftshift(
         _paganin_filter_factor(energy, dist, alpha, w2))
 
     prj = np.full((dy + 2 * py, dz + 2 * pz), val, dtype='float32')
-- 
2.43.0


From fa106d8031338380c4d26ba1be3dac0a14dd7546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:44 +0000
Subject: [PATCH 35/72] fix: remove_stripe_ti removes NaN and corrects all rows
 when it works in blocks

---
 source/tomopy/prep/stripe.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/source/tomopy/prep/stripe.py b/source/tomopy/prep/stripe.py
index 7523f0b..31d547a 100644
--- a/source/tomopy/prep/stripe.py
+++ b/source/tomopy/prep/stripe.py
@@ -305,17 +305,15 @@ def _ringb(sino, m, n, step):
     N = np.size(mysino, 1)
 
     # Remove NaN.
-    pos = np.where(np.isnan(mysino) is True)
-    mysino[pos] = 0
+    mysino[np.isnan(mysino)] = 0
 
     # Kernel & regularization parameter.
     h = _kernel(m, n)
 
     # Mathematical correction by blocks.
-    nblock = int(N / step)
     new = np.ones((R, N))
-    for k in range(0, nblock):
-        sino_block = mysino[:, k * step:(k + 1) * step]
+    for k in range(0, N, step):
+        sino_block = mysino[:, k:k + step]
         alpha = _get_parameter(sino_block)
         pp = sino_block.mean(1)
 
@@ -324,8 +322,8 @@ def _ringb(sino, m, n, step):
 
         # Update sinogram.
         q.shape = (R, 1)
-        K = np.kron(q, np.ones((1, step)))
-        new[:, k * step:(k + 1) * step] = np.add(sino_block, K)
+        K = np.kron(q, np.ones((1, sino_block.shape[1])))
+        new[:, k:k + step] = np.add(sino_block, K)
     newsino = new.astype(np.float32)
     return np.transpose(newsino)
 
-- 
2.43.0


From f324728fd709c8b5c7e9f0c6bdddd26d736e7a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:44 +0000
Subject: [PATCH 36/72] fix: remove_stripe_ti of sinograms without stripes

---
 source/tomopy/prep/stripe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/prep/stripe.py b/source/tomopy/prep/stripe.py
index 31d547a..2204a4d 100644
--- a/source/tomopy/prep/stripe.py
+++ b/source/tomopy/prep/stripe.py
@@ -252,6 +252,8 @@ def _ringMatXvec(h, x):
 
 def _ringCGM(h, alpha, f):
     x0 = np.zeros(np.size(f))
+    if np.isinf(alpha) or np.linalg.norm(f) < 0.0000001:
+        return x0
     r = f - (_ringMatXvec(h, x0) + alpha * x0)
     w = -r
     z = _ringMatXvec(h, w) + alpha * w
-- 
2.43.0


From c7a35d3d55b837228d045e49b6ac0f4eebcf303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:36 +0000
Subject: [PATCH 37/72] fix: stripes_detect3d and stripes_mask3d read outside
 small arrays

---
 source/libtomo/prep/stripes_detect3d.c | 81 +++++++++-----------------
 1 file changed, 29 insertions(+), 52 deletions(-)

diff --git a/source/libtomo/prep/stripes_detect3d.c b/source/libtomo/prep/stripes_detect3d.c
index b51ec83..b810983 100644
--- a/source/libtomo/prep/stripes_detect3d.c
+++ b/source/libtomo/prep/stripes_detect3d.c
@@ -56,6 +56,18 @@
 /********************************************************************/
 /**********************Supporting Functions**************************/
 /********************************************************************/
+/* The index at a signed distance from pos, mirrored at the borders of the dimension;
+pos itself if the dimension is too small for both */
+static long
+mirror_index(long pos, long distance, long dim)
+{
+    if((pos + distance >= 0) && (pos + distance < dim))
+        return pos + distance;
+    if((pos - distance >= 0) && (pos - distance < dim))
+        return pos - distance;
+    return pos;
+}
+
 /* Calculate the forward difference derrivative of the 3D input in the
 direction of the "axis" parameter using the step_size in pixels to skip pixels
 (i.e. step_size = 1 is the classical gradient)
@@ -86,27 +98,21 @@ gradient3D_local(const float* input, float* output, long dimX, long dimY, long d
                 /* Forward differences */
                 if(axis == 0)
                 {
-                    i1 = i + step_size;
-                    if(i1 >= dimX)
-                        i1 = i - step_size;
+                    i1 = mirror_index(i, step_size, dimX);
                     output[index] =
                         input[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + i1)] -
                         input[index];
                 }
                 else if(axis == 1)
                 {
-                    j1 = j + step_size;
-                    if(j1 >= dimY)
-                        j1 = j - step_size;
+                    j1 = mirror_index(j, step_size, dimY);
                     output[index] =
                         input[(size_t) (dimX * dimY * k) + (size_t) (j1 * dimX + i)] -
                         input[index];
                 }
                 else
                 {
-                    k1 = k + step_size;
-                    if(k1 >= dimZ)
-                        k1 = k - step_size;
+                    k1 = mirror_index(k, step_size, dimZ);
                     output[index] =
                         input[(size_t) (dimX * dimY * k1) + (size_t) (j * dimX + i)] -
                         input[index];
@@ -142,14 +148,10 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
     mean_plate = 0.0F;
     for(j_m = -radius; j_m <= radius; j_m++)
     {
-        j1 = j + j_m;
-        if((j1 < 0) || (j1 >= dimY))
-            j1 = j - j_m;
+        j1 = mirror_index(j, j_m, dimY);
         for(k_m = -radius; k_m <= radius; k_m++)
         {
-            k1 = k + k_m;
-            if((k1 < 0) || (k1 >= dimZ))
-                k1 = k - k_m;
+            k1       = mirror_index(k, k_m, dimZ);
             newindex = (size_t) (dimX * dimY * k1) + (size_t) (j1 * dimX + i);
             mean_plate += fabsf(input[newindex]);
         }
@@ -160,14 +162,10 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
     mean_horiz = 0.0F;
     for(j_m = -1; j_m <= 1; j_m++)
     {
-        j1 = j + j_m;
-        if((j1 < 0) || (j1 >= dimY))
-            j1 = j - j_m;
+        j1 = mirror_index(j, j_m, dimY);
         for(i_m = 1; i_m <= radius; i_m++)
         {
-            i1 = i + i_m;
-            if(i1 >= dimX)
-                i1 = i - i_m;
+            i1       = mirror_index(i, i_m, dimX);
             newindex = (size_t) (dimX * dimY * k) + (size_t) (j1 * dimX + i1);
             mean_horiz += fabsf(input[newindex]);
         }
@@ -178,14 +176,10 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
     mean_horiz2 = 0.0F;
     for(j_m = -1; j_m <= 1; j_m++)
     {
-        j1 = j + j_m;
-        if((j1 < 0) || (j1 >= dimY))
-            j1 = j - j_m;
+        j1 = mirror_index(j, j_m, dimY);
         for(i_m = -radius; i_m <= -1; i_m++)
         {
-            i1 = i + i_m;
-            if(i1 < 0)
-                i1 = i - i_m;
+            i1       = mirror_index(i, i_m, dimX);
             newindex = (size_t) (dimX * dimY * k) + (size_t) (j1 * dimX + i1);
             mean_horiz2 += fabsf(input[newindex]);
         }
@@ -269,25 +263,12 @@ mean_stride3d(const float* input, float* output, long i, long j, long k, long di
 
     index = (size_t) (dimX * dimY * k) + (size_t) (j * dimX + i);
 
-    i1 = i - 1;
-    i2 = i + 1;
-    j1 = j - 1;
-    j2 = j + 1;
-    k1 = k - 1;
-    k2 = k + 1;
-
-    if(i1 < 0)
-        i1 = i2;
-    if(i2 >= dimX)
-        i2 = i1;
-    if(j1 < 0)
-        j1 = j2;
-    if(j2 >= dimY)
-        j2 = j1;
-    if(k1 < 0)
-        k1 = k2;
-    if(k2 >= dimZ)
-        k2 = k1;
+    i1 = mirror_index(i, -1, dimX);
+    i2 = mirror_index(i, 1, dimX);
+    j1 = mirror_index(j, -1, dimY);
+    j2 = mirror_index(j, 1, dimY);
+    k1 = mirror_index(k, -1, dimZ);
+    k2 = mirror_index(k, 1, dimZ);
 
     val1 = input[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + i1)];
     val2 = input[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + i2)];
@@ -451,9 +432,7 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
             mask_up = 0;
             for(x = -vertical_length; x <= 0; x++)
             {
-                k_u = k + x;
-                if(k_u < 0)
-                    k_u = k - x;
+                k_u = mirror_index(k, x, dimZ);
                 if(mask[(size_t) (dimX * dimY * k_u) + (size_t) (j * dimX + i)] == true)
                 {
                     mask_up = 1;
@@ -464,9 +443,7 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
             mask_down = 0;
             for(x = 0; x <= vertical_length; x++)
             {
-                k_d = k + x;
-                if(k_d >= dimZ)
-                    k_d = k - x;
+                k_d = mirror_index(k, x, dimZ);
                 if(mask[(size_t) (dimX * dimY * k_d) + (size_t) (j * dimX + i)] == true)
                 {
                     mask_down = 1;
-- 
2.43.0


From b1f97456cabccc2c571b1ba8d0f1799565436dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:36 +0000
Subject: [PATCH 38/72] fix: stripes_detect3d returns weights in the range of
 [0, 1]

---
 source/libtomo/prep/stripes_detect3d.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/libtomo/prep/stripes_detect3d.c b/source/libtomo/prep/stripes_detect3d.c
index b810983..6bf9cff 100644
--- a/source/libtomo/prep/stripes_detect3d.c
+++ b/source/libtomo/prep/stripes_detect3d.c
@@ -143,7 +143,8 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
 
     index = (size_t) (dimX * dimY * k) + (size_t) (j * dimX + i);
 
-    min_val = 0.0F;
+    min_val       = 0.0F;
+    output[index] = 0.0F;
     /* calculate mean of gradientX in a 2D plate parallel to stripes direction */
     mean_plate = 0.0F;
     for(j_m = -radius; j_m <= radius; j_m++)
-- 
2.43.0


From 24878d5f55b866a8188f2d54dc2e93c839520b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:44 +0000
Subject: [PATCH 39/72] fix: find_slits_corners_aps_1id in images that are not
 square

---
 source/tomopy/prep/alignment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index abc70a9..65a0918 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -624,7 +624,7 @@ def find_slits_corners_aps_1id(img,
                      Quadrant(img=img[cnt[1]:, cnt[0]:],
                               col_func=np.argmin, row_func=np.argmin),
                      # upper right, 4th quadrant
-                     Quadrant(img=img[0:cnt[0], cnt[1]:],
+                     Quadrant(img=img[0:cnt[1], cnt[0]:],
                               col_func=np.argmin, row_func=np.argmax),
                      ]
         # the origin in each quadrants ==> easier to set it here
@@ -632,7 +632,7 @@ def find_slits_corners_aps_1id(img,
                                     [0, cnt[1]],  # lower left,  2nd quadrant
                                     # lower right, 3rd quadrant
                                     [cnt[0], cnt[1]],
-                                    [cnt[1], 0],  # upper right, 4th quadrant
+                                    [cnt[0], 0],  # upper right, 4th quadrant
                                     ])
         # init four corners
         cnrs = np.zeros((4, 2))
-- 
2.43.0


From 9b5959aa22ec6fc0584ddfd60eefcd20236ace89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:44 +0000
Subject: [PATCH 40/72] fix: shift_images and add_jitter of blank images

---
 source/tomopy/prep/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index 65a0918..f150def 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -474,7 +474,7 @@ def scale(prj):
     ndarray
         Scaled 3D stack of projection images.
     """
-    scl = max(abs(prj.max()), abs(prj.min()))
+    scl = max(abs(prj.max()), abs(prj.min())) or 1
     prj /= scl
     return prj, scl
 
-- 
2.43.0


From 8268fcb51842bb99265e83b774b4d0b1b79f96e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:25 +0000
Subject: [PATCH 41/72] fix: write_center with algorithms that take no filter

---
 source/tomopy/recon/rotation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/recon/rotation.py b/source/tomopy/recon/rotation.py
index 4f5aea9..6dc69a9 100644
--- a/source/tomopy/recon/rotation.py
+++ b/source/tomopy/recon/rotation.py
@@ -557,14 +557,19 @@ def write_center(
         else:
             stack[m] = tomo[:, ind, :]
 
+    # Only the analytic algorithms take a filter.
+    kwargs = {}
+    if algorithm in ('fbp', 'gridrec'):
+        kwargs['filter_name'] = filter_name
+
     # Reconstruct the same slice with a range of centers.
     rec = recon(stack,
                 theta,
                 center=center,
                 sinogram_order=True,
                 algorithm=algorithm,
-                filter_name=filter_name,
-                nchunk=1)
+                nchunk=1,
+                **kwargs)
 
     # Apply circular mask.
     if mask is True:
-- 
2.43.0


From cafc7e7e347982f6cd84e2e0b58669cf58729bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:25 +0000
Subject: [PATCH 42/72] fix: find_center and write_center use the ratio of the
 mask

---
 source/tomopy/recon/rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/recon/rotation.py b/source/tomopy/recon/rotation.py
index 6dc69a9..731f53c 100644
--- a/source/tomopy/recon/rotation.py
+++ b/source/tomopy/recon/rotation.py
@@ -193,7 +193,7 @@ def _find_center_cost(
         algorithm='gridrec')
 
     if mask is True:
-        rec = circ_mask(rec, axis=0)
+        rec = circ_mask(rec, axis=0, ratio=ratio)
 
     hist, e = np.histogram(rec, bins=64, range=[hmin, hmax])
     hist = hist.astype('float32') / rec.size + 1e-12
@@ -573,7 +573,7 @@ def write_center(
 
     # Apply circular mask.
     if mask is True:
-        rec = circ_mask(rec, axis=0)
+        rec = circ_mask(rec, axis=0, ratio=ratio)
 
     # Save images to a temporary folder.
     dpath = os.path.abspath(dpath)
-- 
2.43.0


From 93da21f0d06e9317bfbcc7ceec3d376f08d52f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:27 +0000
Subject: [PATCH 43/72] fix: discrete_cdf ends at one

---
 source/tomopy/misc/npmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/misc/npmath.py b/source/tomopy/misc/npmath.py
index cd02bc4..42e14d8 100644
--- a/source/tomopy/misc/npmath.py
+++ b/source/tomopy/misc/npmath.py
@@ -115,7 +115,7 @@ def discrete_cdf(data, steps=None):
     # calculate the cumulative density
     xx = np.tile(x, (2, 1)).flatten(order='F')
     y = np.arange(len(x))
-    yy = np.vstack((y, y + 1)).flatten(order='F') / float(y[-1])
+    yy = np.vstack((y, y + 1)).flatten(order='F') / float(len(x))
 
     return xx, yy
 
-- 
2.43.0


From 1023aa301dc1dd33b52e2972c61cf9f4461488ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:27 +0000
Subject: [PATCH 44/72] fix: calc_intensity keeps the order of the far field
 images

---
 source/tomopy/sim/propagate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/sim/propagate.py b/source/tomopy/sim/propagate.py
index efe6e4f..6a806fa 100644
--- a/source/tomopy/sim/propagate.py
+++ b/source/tomopy/sim/propagate.py
@@ -214,5 +214,5 @@ def calc_intensity(probe, proj, shift_x=None, shift_y=None, mode='near'):
     if mode == 'near':
         intensity = abs(psi) ** 2
     elif mode == 'far':
-        intensity = abs(np.fft.fftshift(np.fft.fft2(psi))) ** 2
+        intensity = abs(np.fft.fftshift(np.fft.fft2(psi), axes=(1, 2))) ** 2
     return intensity
-- 
2.43.0


From f81793d872c98238cc2792e107790356d9aa61cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:27 +0000
Subject: [PATCH 45/72] fix: normalize_bg rejects air regions wider than the
 data

---
 source/tomopy/prep/normalize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/prep/normalize.py b/source/tomopy/prep/normalize.py
index ca6aadb..32f6244 100644
--- a/source/tomopy/prep/normalize.py
+++ b/source/tomopy/prep/normalize.py
@@ -230,6 +230,8 @@ def normalize_bg(tomo, air=1, ncore=None, nchunk=None):
     """
     tomo = dtype.as_float32(tomo)
     air = dtype.as_int32(air)
+    if not 1 <= air <= tomo.shape[2]:
+        raise ValueError("'air' must be between 1 and the number of columns")
 
     arr = mproc.distribute_jobs(
         tomo,
-- 
2.43.0


From 5c6fda951031c5ff9dd5ac5614839c63b7ce6460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:20 +0000
Subject: [PATCH 46/72] fix: keep the rays off the grid lines of objects with
 an odd size

A ray exactly along a grid line (an object of odd width projected onto its
padded, even detector at 90 degrees) got a wrong path: up to 1.5 times the
ray's length inside the object.
---
 source/libtomo/recon/utils.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/libtomo/recon/utils.c b/source/libtomo/recon/utils.c
index 72c480e..ad9112c 100755
--- a/source/libtomo/recon/utils.c
+++ b/source/libtomo/recon/utils.c
@@ -78,7 +78,11 @@ preprocessing(int ry, int rz, int num_pixels, float center, float* mov, float* g
     }
 
     *mov = ((float) num_pixels - 1) * 0.5f - center;
-    if(*mov - floor(*mov) < 0.01f)
+    // keep the rays off the lines of the grid, wherever the lines are
+    float offx = 0.5f - center - gridx[0];
+    float offy = 0.5f - center - gridy[0];
+    if(*mov - floor(*mov) < 0.01f || offx - floor(offx) < 0.01f ||
+       offy - floor(offy) < 0.01f)
     {
         *mov += 0.01f;
     }
-- 
2.43.0


From 4e08d7f3c6aa64926b202dc99b2906ee8d6b53c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:33 +0000
Subject: [PATCH 47/72] fix: osem and ospml of slices where nothing was
 detected

A ray whose pixels are all zero made 0/0 and, from the second iteration on,
NaN of every pixel that it shares with other rays (an empty slice became NaN).
---
 source/libtomo/recon/osem.c         | 6 +++---
 source/libtomo/recon/ospml_hybrid.c | 6 +++---
 source/libtomo/recon/ospml_quad.c   | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/libtomo/recon/osem.c b/source/libtomo/recon/osem.c
index da2843d..2ef3cbd 100755
--- a/source/libtomo/recon/osem.c
+++ b/source/libtomo/recon/osem.c
@@ -158,10 +158,10 @@ osem(const float* data, int dy, int dt, int dx, const float* center, const float
                             sum_dist[indi[n]] += dist[n];
                         }
 
-                        // Update
-                        if(sum_dist2 != 0.0f)
+                        // Update (a ray without counts in the model has no ratio)
+                        ind_data = d + p * dx + s * dt * dx;
+                        if(sum_dist2 != 0.0f && simdata[ind_data] != 0.0f)
                         {
-                            ind_data = d + p * dx + s * dt * dx;
                             upd      = data[ind_data] / simdata[ind_data];
                             for(n = 0; n < csize - 1; n++)
                             {
diff --git a/source/libtomo/recon/ospml_hybrid.c b/source/libtomo/recon/ospml_hybrid.c
index 62feda3..9f25b39 100755
--- a/source/libtomo/recon/ospml_hybrid.c
+++ b/source/libtomo/recon/ospml_hybrid.c
@@ -157,10 +157,10 @@ ospml_hybrid(const float* data, int dy, int dt, int dx, const float* center,
                             sum_dist[indi[n]] += dist[n];
                         }
 
-                        // Update
-                        if(sum_dist2 != 0.0f)
+                        // Update (a ray without counts in the model has no ratio)
+                        ind_data = d + p * dx + s * dt * dx;
+                        if(sum_dist2 != 0.0f && simdata[ind_data] != 0.0f)
                         {
-                            ind_data  = d + p * dx + s * dt * dx;
                             ind_recon = s * ngridx * ngridy;
                             upd       = data[ind_data] / simdata[ind_data];
                             for(n = 0; n < csize - 1; n++)
diff --git a/source/libtomo/recon/ospml_quad.c b/source/libtomo/recon/ospml_quad.c
index 71e40e9..6df5b23 100755
--- a/source/libtomo/recon/ospml_quad.c
+++ b/source/libtomo/recon/ospml_quad.c
@@ -157,10 +157,10 @@ ospml_quad(const float* data, int dy, int dt, int dx, const float* center,
                             sum_dist[indi[n]] += dist[n];
                         }
 
-                        // Update
-                        if(sum_dist2 != 0.0f)
+                        // Update (a ray without counts in the model has no ratio)
+                        ind_data = d + p * dx + s * dt * dx;
+                        if(sum_dist2 != 0.0f && simdata[ind_data] != 0.0f)
                         {
-                            ind_data  = d + p * dx + s * dt * dx;
                             ind_recon = s * ngridx * ngridy;
                             upd       = data[ind_data] / simdata[ind_data];
                             for(n = 0; n < csize - 1; n++)
-- 
2.43.0


From a85a0bfd98bc1b5282ddfb7d13d3e2523d7b8827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:57 +0000
Subject: [PATCH 48/72] fix: penalised likelihood of data with zeros gave NaN

The root of the update was taken with cancellation: pixels without counts
became slightly negative and NaN in the next update.
---
 source/libtomo/recon/ospml_hybrid.c | 7 +++++--
 source/libtomo/recon/ospml_quad.c   | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/libtomo/recon/ospml_hybrid.c b/source/libtomo/recon/ospml_hybrid.c
index 9f25b39..bb44bf7 100755
--- a/source/libtomo/recon/ospml_hybrid.c
+++ b/source/libtomo/recon/ospml_hybrid.c
@@ -395,8 +395,11 @@ ospml_hybrid(const float* data, int dy, int dt, int dx, const float* center,
                         if(F[q] != 0.0)
                         {
                             ind0        = q + s * ngridx * ngridy;
-                            recon[ind0] = (-G[q] + sqrt(G[q] * G[q] - 8 * E[q] * F[q])) /
-                                          (4 * F[q]);
+                            // the root of 2Fx^2 + Gx + E without cancellation, which would
+                            // make pixels without counts negative
+                            double root = sqrt((double) G[q] * G[q] - 8.0 * E[q] * F[q]);
+                            recon[ind0] = (G[q] > 0) ? -2.0 * E[q] / (G[q] + root)
+                                                     : (-G[q] + root) / (4 * F[q]);
                         }
                     }
                 }
diff --git a/source/libtomo/recon/ospml_quad.c b/source/libtomo/recon/ospml_quad.c
index 6df5b23..ba95ee0 100755
--- a/source/libtomo/recon/ospml_quad.c
+++ b/source/libtomo/recon/ospml_quad.c
@@ -377,8 +377,11 @@ ospml_quad(const float* data, int dy, int dt, int dx, const float* center,
                         if(F[q] != 0.0)
                         {
                             ind0        = q + s * ngridx * ngridy;
-                            recon[ind0] = (-G[q] + sqrt(G[q] * G[q] - 8 * E[q] * F[q])) /
-                                          (4 * F[q]);
+                            // the root of 2Fx^2 + Gx + E without cancellation, which would
+                            // make pixels without counts negative
+                            double root = sqrt((double) G[q] * G[q] - 8.0 * E[q] * F[q]);
+                            recon[ind0] = (G[q] > 0) ? -2.0 * E[q] / (G[q] + root)
+                                                     : (-G[q] + root) / (4 * F[q]);
                         }
                     }
                 }
-- 
2.43.0


From 950f84e9b583f908d64ffd1d10f9ab9f0de085be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:09 +0000
Subject: [PATCH 49/72] fix: grad and tikh with an automatic step stop when
 they converged

The step 0/0 turned the converged image into NaN.
---
 source/libtomo/recon/grad.c | 4 +++-
 source/libtomo/recon/tikh.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/libtomo/recon/grad.c b/source/libtomo/recon/grad.c
index f1b9b9f..23d207c 100755
--- a/source/libtomo/recon/grad.c
+++ b/source/libtomo/recon/grad.c
@@ -210,7 +210,9 @@ grad(const float* data, int dy, int dt, int dx, const float* center, const float
                                    (grad[ind_recon + iy * ngridx + ix] -
                                     grad0[ind_recon + iy * ngridx + ix]);
                         }
-                    lambda[s] /= upd;
+                    // no step is left when the gradient does not change
+                    if(upd != 0)
+                        lambda[s] /= upd;
                 }
             }
             else
diff --git a/source/libtomo/recon/tikh.c b/source/libtomo/recon/tikh.c
index 3cc751b..4ae18d5 100755
--- a/source/libtomo/recon/tikh.c
+++ b/source/libtomo/recon/tikh.c
@@ -218,7 +218,9 @@ tikh(const float* data, int dy, int dt, int dx, const float* center, const float
                                    (grad[ind_recon + iy * ngridx + ix] -
                                     grad0[ind_recon + iy * ngridx + ix]);
                         }
-                    lambda[s] /= upd;
+                    // no step is left when the gradient does not change
+                    if(upd != 0)
+                        lambda[s] /= upd;
                 }
             }
             else
-- 
2.43.0


From 74144020e8fa5028c15cfafc36773b9374de7938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:39 +0000
Subject: [PATCH 50/72] fix: distribute_jobs split nothing along a negative
 axis

---
 source/tomopy/util/mproc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index 2916cec..b9ec8d7 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -243,6 +243,7 @@ def distribute_jobs(arr,
         # assume this is multiple arrays
         arrs = list(arr)
 
+    axis = range(arrs[0].ndim)[axis]
     axis_size = arrs[0].shape[axis]
     ncore, nchunk = get_ncore_nchunk(axis_size, ncore, nchunk)
 
-- 
2.43.0


From 095baa478bb0af548c90db6cc13be846279e2628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:39 +0000
Subject: [PATCH 51/72] fix: remove_outlier1d chunked the filtered axis if it
 was negative

---
 source/tomopy/misc/corr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 93a8e34..b71f0fa 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -662,6 +662,7 @@ def remove_outlier1d(arr, dif, size=3, axis=0, ncore=None, out=None):
 
     tmp = np.empty_like(arr)
 
+    axis = range(arr.ndim)[axis]
     other_axes = [i for i in range(arr.ndim) if i != axis]
     largest = np.argmax([arr.shape[i] for i in other_axes])
     lar_axis = other_axes[largest]
-- 
2.43.0


From 5cea8f09f5d25ed897712703498a7619f8f5bb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:39 +0000
Subject: [PATCH 52/72] fix: inpainter_morph read outside a mask of another
 shape

---
 source/tomopy/misc/corr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index b71f0fa..a7e0f5a 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -1098,6 +1098,8 @@ def inpainter_morph(
         raise ValueError(
             "Please make sure that the mask provided is boolean where true values define the missing data regions!"
         )
+    if mask.shape != arr.shape:
+        raise ValueError("The mask must have the shape of the array")
     out = np.empty_like(arr, order="C")
 
     if inpainting_type not in ["mean", "median", "random"]:
-- 
2.43.0


From 104f8157a15c763e57d6fc378140b813a9921bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:36 +0000
Subject: [PATCH 53/72] fix: distribute_jobs lost in-place results when the
 output is the input array

---
 source/tomopy/util/mproc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index b9ec8d7..df84b2f 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -275,7 +275,8 @@ def distribute_jobs(arr,
     else:
         shared_out_shape = out.shape
         shared_out_type = out.dtype
-        shared_out = as_sharedmem(out)
+        if shared_out is None:
+            shared_out = as_sharedmem(out)
 
     # Set up queue
     man = mp.Manager()
-- 
2.43.0


From e86f3065c7a922be08049669dc25b4ecfb2cab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:36 +0000
Subject: [PATCH 54/72] fix: distribute_jobs hung when a worker process exited
 with status zero

---
 source/tomopy/util/mproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index df84b2f..bc95e8f 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -305,7 +305,7 @@ def distribute_jobs(arr,
                 res = p.map_async(_arg_parser, map_args)
                 try:
                     while not res.ready():
-                        if any(proc.exitcode for proc in proclist):
+                        if any(proc.exitcode is not None for proc in proclist):
                             p.terminate()
                             raise RuntimeError(
                                 "Child process terminated before finishing")
-- 
2.43.0


From 5d4ec1754b978dfd5f15cfec47749ebe8dc77fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:57 +0000
Subject: [PATCH 55/72] fix: retrieve_phase failed for projections of a single
 row or column

---
 source/tomopy/prep/phase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/prep/phase.py b/source/tomopy/prep/phase.py
index 8371fd2..84cebe5 100644
--- a/source/tomopy/prep/phase.py
+++ b/source/tomopy/prep/phase.py
@@ -241,5 +241,6 @@ def _reciprocal_coord(pixel_size, num_grid):
     """
     n = num_grid - 1
     rc = np.arange(-n, num_grid, 2, dtype = np.float32)
-    rc *= 0.5 / (n * pixel_size)
+    if n > 0:
+        rc *= 0.5 / (n * pixel_size)
     return  rc
-- 
2.43.0


From 74aecbea96762788ddf88da4e3a6ea274055e36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:57 +0000
Subject: [PATCH 56/72] fix: calc_intensity hung when the probe is larger than
 the image

---
 source/tomopy/sim/propagate.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/source/tomopy/sim/propagate.py b/source/tomopy/sim/propagate.py
index 6a806fa..ebecea9 100644
--- a/source/tomopy/sim/propagate.py
+++ b/source/tomopy/sim/propagate.py
@@ -145,12 +145,8 @@ def _rect_scan_coords(probe_grid, proj_grid, shift_x, shift_y):
     array
         y coordinates of upper-left scan coordinates
     """
-    x = np.arange(0, proj_grid[0], shift_x)
-    y = np.arange(0, proj_grid[1], shift_y)
-    while x.size * shift_x > proj_grid[0] - probe_grid[0] + shift_x:
-        x = x[:-1]
-    while y.size * shift_y > proj_grid[1] - probe_grid[1] + shift_y:
-        y = y[:-1]
+    x = np.arange(0, proj_grid[0] - probe_grid[0] + 1, shift_x)
+    y = np.arange(0, proj_grid[1] - probe_grid[1] + 1, shift_y)
     return x, y
 
 
-- 
2.43.0


From 836f388d4bab30c25477117bfbd13f03f1b667b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:29 +0000
Subject: [PATCH 57/72] fix: mask_empty_slice failed on integer data

---
 source/tomopy/recon/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/recon/rotation.py b/source/tomopy/recon/rotation.py
index 731f53c..074dfe3 100644
--- a/source/tomopy/recon/rotation.py
+++ b/source/tomopy/recon/rotation.py
@@ -603,7 +603,7 @@ def mask_empty_slice(tomo, threshold=0.25):
         a mask indicate the emptyness of each layer
     """
     projs_sum = np.sum(tomo, axis=0)
-    projs_sum /= projs_sum.max()
+    projs_sum = projs_sum / projs_sum.max()
 
     projs_sumsum = np.sum(projs_sum, axis=0)
     projs_sumsum /= projs_sumsum.max()
-- 
2.43.0


From 5d606f43b8a8089e6a62b37996c0cac9e43b75f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:41 +0000
Subject: [PATCH 58/72] fix: align_seq and align_joint left the caller's
 projections scaled

---
 source/tomopy/prep/alignment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index f150def..0a9508e 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -154,7 +154,7 @@ def align_seq(
     """
 
     # Needs scaling for skimage float operations.
-    prj, scl = scale(prj)
+    prj, scl = scale(prj.copy())
 
     # Shift arrays
     sx = np.zeros((prj.shape[0]))
@@ -281,7 +281,7 @@ def align_joint(
     """
 
     # Needs scaling for skimage float operations.
-    prj, scl = scale(prj)
+    prj, scl = scale(prj.copy())
 
     # Shift arrays
     sx = np.zeros((prj.shape[0]))
-- 
2.43.0


From 484b13384d015da2ec5da15d1c816de4778a2cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:24 +0000
Subject: [PATCH 59/72] fix: align_seq did not recover shifts since
 phase_cross_correlation normalises by default

---
 source/tomopy/prep/alignment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index 0a9508e..de73ba0 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -190,7 +190,8 @@ def align_seq(
 
             # Register current projection in sub-pixel precision
             shift, error, diffphase = phase_cross_correlation(
-                    _prj[m], _sim[m], upsample_factor=upsample_factor)
+                    _prj[m], _sim[m], normalization=None,
+                    upsample_factor=upsample_factor)
             err[m] = np.sqrt(shift[0]*shift[0] + shift[1]*shift[1])
             sx[m] += shift[0]
             sy[m] += shift[1]
-- 
2.43.0


From eafbbf1846ae84d8b24ee3a0c1418d4de5375155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:33 +0000
Subject: [PATCH 60/72] fix: find_slits_corners_aps_1id fitted the corners from
 a start beside the peak

---
 source/tomopy/prep/alignment.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index de73ba0..23754b8 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -668,11 +668,11 @@ def find_slits_corners_aps_1id(img,
                 # isolate the strongest peak to fit
                 tmpx = np.arange(cnr_x_guess - 10, cnr_x_guess + 11)
                 tmpy = np.gradient(np.std(q.img, axis=0))[tmpx]
-                # tmpy[0] is the value from the highest/lowest pixle
-                # tmpx[0] is basically cnr_x_guess
+                # tmpy[10] is the value from the highest/lowest pixle
+                # tmpx[10] is basically cnr_x_guess
                 # 5.0 is the guessted std,
                 coeff, _ = curve_fit(gauss1d, tmpx, tmpy,
-                                     p0=[tmpy[0], tmpx[0], 5.0],
+                                     p0=[tmpy[10], tmpx[10], 5.0],
                                      maxfev=int(1e6),
                                      )
                 cnrs[i, 0] = coeff[1]  # x position
@@ -688,7 +688,7 @@ def find_slits_corners_aps_1id(img,
                 tmpx = np.arange(cnr_y_guess - 10, cnr_y_guess + 11)
                 tmpy = np.gradient(np.std(q.img, axis=1))[tmpx]
                 coeff, _ = curve_fit(gauss1d, tmpx, tmpy,
-                                     p0=[tmpy[0], tmpx[0], 5.0],
+                                     p0=[tmpy[10], tmpx[10], 5.0],
                                      maxfev=int(1e6),
                                      )
                 cnrs[i, 1] = coeff[1]  # y posiiton
-- 
2.43.0


From 0afcca1d92418d8c28a9864e6ff631ad17d5c0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:59 +0000
Subject: [PATCH 61/72] fix: vector2 and vector3 update the components of the
 requested axes

---
 source/libtomo/recon/vector.c | 109 +++++++++++++---------------------
 1 file changed, 42 insertions(+), 67 deletions(-)

diff --git a/source/libtomo/recon/vector.c b/source/libtomo/recon/vector.c
index 1c58a00..62c656e 100755
--- a/source/libtomo/recon/vector.c
+++ b/source/libtomo/recon/vector.c
@@ -204,6 +204,36 @@ vector(const float* data, int dy, int dt, int dx, const float* center, const flo
     free(indy);
 }
 
+// Adds the update of a slice to the two components in the plane of the given
+// rotation axis (the layout is that of calc_simdata3).
+static void
+add_update3(int s, int ngridx, int ngridy, int axis, const float* sum_dist,
+            const float* update1, const float* update2, float* recon1, float* recon2,
+            float* recon3)
+{
+    int    m, n, ind;
+    float* first  = (axis == 1) ? recon2 : recon1;
+    float* second = (axis == 0) ? recon2 : recon3;
+
+    for(m = 0; m < ngridx; m++)
+    {
+        for(n = 0; n < ngridy; n++)
+        {
+            if(sum_dist[n + m * ngridy] != 0.0)
+            {
+                if(axis == 0)
+                    ind = n + m * ngridy + s * ngridx * ngridy;
+                else if(axis == 1)
+                    ind = s + m * ngridy + n * ngridx * ngridy;
+                else
+                    ind = m + s * ngridy + n * ngridx * ngridy;
+                first[ind] += update1[n + m * ngridy] / sum_dist[n + m * ngridy];
+                second[ind] += update2[n + m * ngridy] / sum_dist[n + m * ngridy];
+            }
+        }
+    }
+}
+
 void
 vector2(const float* data1, const float* data2, int dy, int dt, int dx,
         const float* center1, const float* center2, const float* theta1,
@@ -228,7 +258,7 @@ vector2(const float* data1, const float* data2, int dy, int dt, int dx,
            ax != NULL && ay != NULL && by != NULL && bx != NULL && coorx != NULL &&
            coory != NULL && dist != NULL && indx != NULL && indy != NULL);
 
-    int    s, p, d, i, n, m;
+    int    s, p, d, i, n;
     int    quadrant;
     float  theta_p, sin_p, cos_p;
     float  mov, xi, yi;
@@ -330,19 +360,8 @@ vector2(const float* data1, const float* data2, int dy, int dt, int dx,
                 }
             }
 
-            for(m = 0; m < ngridx; m++)
-            {
-                for(n = 0; n < ngridy; n++)
-                {
-                    if(sum_dist[n + m * ngridy] != 0.0)
-                    {
-                        recon2[s + m * ngridy + n * ngridx * ngridy] +=
-                            update1[n + m * ngridy] / sum_dist[n + m * ngridy];
-                        recon3[s + m * ngridy + n * ngridx * ngridy] +=
-                            update2[n + m * ngridy] / sum_dist[n + m * ngridy];
-                    }
-                }
-            }
+            add_update3(s, ngridx, ngridy, axis1, sum_dist, update1, update2, recon1,
+                        recon2, recon3);
 
             free(sum_dist);
             free(update1);
@@ -436,19 +455,8 @@ vector2(const float* data1, const float* data2, int dy, int dt, int dx,
                 }
             }
 
-            for(m = 0; m < ngridx; m++)
-            {
-                for(n = 0; n < ngridy; n++)
-                {
-                    if(sum_dist[n + m * ngridy] != 0.0)
-                    {
-                        recon1[m + s * ngridy + n * ngridx * ngridy] +=
-                            update1[n + m * ngridy] / sum_dist[n + m * ngridy];
-                        recon3[m + s * ngridy + n * ngridx * ngridy] +=
-                            update2[n + m * ngridy] / sum_dist[n + m * ngridy];
-                    }
-                }
-            }
+            add_update3(s, ngridx, ngridy, axis2, sum_dist, update1, update2, recon1,
+                        recon2, recon3);
 
             free(sum_dist);
             free(update1);
@@ -498,7 +506,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
            ax != NULL && ay != NULL && by != NULL && bx != NULL && coorx != NULL &&
            coory != NULL && dist != NULL && indx != NULL && indy != NULL);
 
-    int    s, p, d, i, n, m;
+    int    s, p, d, i, n;
     int    quadrant;
     float  theta_p, sin_p, cos_p;
     float  mov, xi, yi;
@@ -600,19 +608,8 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
                 }
             }
 
-            for(m = 0; m < ngridx; m++)
-            {
-                for(n = 0; n < ngridy; n++)
-                {
-                    if(sum_dist[n + m * ngridy] != 0.0)
-                    {
-                        recon1[n + m * ngridy + s * ngridx * ngridy] +=
-                            update1[n + m * ngridy] / sum_dist[n + m * ngridy];
-                        recon2[n + m * ngridy + s * ngridx * ngridy] +=
-                            update2[n + m * ngridy] / sum_dist[n + m * ngridy];
-                    }
-                }
-            }
+            add_update3(s, ngridx, ngridy, axis1, sum_dist, update1, update2, recon1,
+                        recon2, recon3);
 
             free(sum_dist);
             free(update1);
@@ -706,19 +703,8 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
                 }
             }
 
-            for(m = 0; m < ngridx; m++)
-            {
-                for(n = 0; n < ngridy; n++)
-                {
-                    if(sum_dist[n + m * ngridy] != 0.0)
-                    {
-                        recon2[s + m * ngridy + n * ngridx * ngridy] +=
-                            update1[n + m * ngridy] / sum_dist[n + m * ngridy];
-                        recon3[s + m * ngridy + n * ngridx * ngridy] +=
-                            update2[n + m * ngridy] / sum_dist[n + m * ngridy];
-                    }
-                }
-            }
+            add_update3(s, ngridx, ngridy, axis2, sum_dist, update1, update2, recon1,
+                        recon2, recon3);
 
             free(sum_dist);
             free(update1);
@@ -812,19 +798,8 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
                 }
             }
 
-            for(m = 0; m < ngridx; m++)
-            {
-                for(n = 0; n < ngridy; n++)
-                {
-                    if(sum_dist[n + m * ngridy] != 0.0)
-                    {
-                        recon1[m + s * ngridy + n * ngridx * ngridy] +=
-                            update1[n + m * ngridy] / sum_dist[n + m * ngridy];
-                        recon3[m + s * ngridy + n * ngridx * ngridy] +=
-                            update2[n + m * ngridy] / sum_dist[n + m * ngridy];
-                    }
-                }
-            }
+            add_update3(s, ngridx, ngridy, axis3, sum_dist, update1, update2, recon1,
+                        recon2, recon3);
 
             free(sum_dist);
             free(update1);
-- 
2.43.0


From a17b5f83ed14d80379044a965276922939b2a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:59 +0000
Subject: [PATCH 62/72] fix: reject unknown axes and objects of the wrong shape
 in vector tomography

---
 source/tomopy/recon/vector.py | 8 ++++++++
 source/tomopy/sim/project.py  | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/source/tomopy/recon/vector.py b/source/tomopy/recon/vector.py
index f311549..3aeb8d6 100644
--- a/source/tomopy/recon/vector.py
+++ b/source/tomopy/recon/vector.py
@@ -76,6 +76,12 @@ def _check_angles(*data, cube=False):
             raise ValueError('The projections must be square.')
 
 
+def _check_axes(*axes):
+    for axis in axes:
+        if axis not in (0, 1, 2):
+            raise ValueError('The axes must be 0, 1 or 2.')
+
+
 def vector(tomo, theta, center=None, num_iter=1):
     tomo = dtype.as_float32(tomo)
     theta = np.ascontiguousarray(theta, dtype=np.float32)
@@ -106,6 +112,7 @@ def vector2(tomo1, tomo2, theta1, theta2, center1=None, center2=None, num_iter=1
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
     tomo2 = init_tomo(tomo2, sinogram_order=False, sharedmem=False)
     _check_angles((tomo1, theta1), (tomo2, theta2), cube=True)
+    _check_axes(axis1, axis2)
 
     recon_shape = (tomo1.shape[0], tomo1.shape[2], tomo1.shape[2])
     recon1 = np.zeros(recon_shape, dtype=np.float32)
@@ -133,6 +140,7 @@ def vector3(tomo1, tomo2, tomo3, theta1, theta2, theta3, center1=None, center2=N
     tomo2 = init_tomo(tomo2, sinogram_order=False, sharedmem=False)
     tomo3 = init_tomo(tomo3, sinogram_order=False, sharedmem=False)
     _check_angles((tomo1, theta1), (tomo2, theta2), (tomo3, theta3), cube=True)
+    _check_axes(axis1, axis2, axis3)
 
     recon_shape = (tomo1.shape[0], tomo1.shape[2], tomo1.shape[2])
     recon1 = np.zeros(recon_shape, dtype=np.float32)
diff --git a/source/tomopy/sim/project.py b/source/tomopy/sim/project.py
index 5f45e3b..96ceff5 100644
--- a/source/tomopy/sim/project.py
+++ b/source/tomopy/sim/project.py
@@ -370,6 +370,8 @@ def project2(
     objx = np.ascontiguousarray(objx, dtype=np.float32)
     objy = np.ascontiguousarray(objy, dtype=np.float32)
     theta = np.ascontiguousarray(theta, dtype=np.float32)
+    if objx.shape != objy.shape:
+        raise ValueError('The components must have the same shape.')
 
     # Estimate data dimensions.
     oy, ox, oz = objx.shape
@@ -437,6 +439,12 @@ def project3(
     objy = np.ascontiguousarray(objy, dtype=np.float32)
     objz = np.ascontiguousarray(objz, dtype=np.float32)
     theta = np.ascontiguousarray(theta, dtype=np.float32)
+    if objx.shape != objy.shape or objx.shape != objz.shape:
+        raise ValueError('The components must have the same shape.')
+    if axis not in (0, 1, 2):
+        raise ValueError('The axis must be 0, 1 or 2.')
+    if axis != 0 and len(set(objx.shape)) != 1:
+        raise ValueError('The object must be a cube.')
 
     # Estimate data dimensions.
     oy, ox, oz = objx.shape
-- 
2.43.0


From 5f24af6a799dd2afb5d82370143c80727b5d0d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:51 +0000
Subject: [PATCH 63/72] fix: inpainter_morph read outside its window when the
 size is not positive

---
 source/tomopy/misc/corr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index a7e0f5a..6c69c08 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -1102,6 +1102,8 @@ def inpainter_morph(
         raise ValueError("The mask must have the shape of the array")
     out = np.empty_like(arr, order="C")
 
+    if size < 1:
+        raise ValueError("The size of the searching window must be positive")
     if inpainting_type not in ["mean", "median", "random"]:
         raise ValueError(
             "Inpainting type should be chosen as 'mean', 'median' or 'random'"
-- 
2.43.0


From beb76923e2b844ec25179b0e14e582c7733333ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:51 +0000
Subject: [PATCH 64/72] fix: penalised reconstruction read outside grids of a
 single row or column

---
 source/tomopy/recon/algorithm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index b3822c7..a0d91d5 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -334,6 +334,11 @@ def recon(tomo,
                 or np.max(kwargs['ind_block']) >= tomo.shape[1]):
             raise ValueError('There must be one index for every projection.')
 
+    if (algorithm in ('ospml_hybrid', 'ospml_quad', 'pml_hybrid', 'pml_quad')
+            and min(kwargs['num_gridx'], kwargs['num_gridy']) < 2):
+        raise ValueError('The penalty needs a grid of at least two pixels in '
+                         'each direction.')
+
     # Initialize reconstruction.
     recon_shape = (tomo.shape[0], kwargs['num_gridx'], kwargs['num_gridy'])
     if init_recon is not None and np.shape(init_recon) != tuple(
-- 
2.43.0


From 74ddce37985246380389f1408550a02f629cabba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:01 +0000
Subject: [PATCH 65/72] fix: astra: raise the errors of the threads that serve
 the GPUs

---
 source/tomopy/recon/wrappers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index 2d8cfa2..467ec7b 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -155,9 +155,14 @@ def astra(tomo, center, recon, theta, **kwargs):
         _, slcs = mproc.get_ncore_slices(nslices, ngpu)
         # execute recon on a thread per GPU
         with cf.ThreadPoolExecutor(ngpu) as e:
-            for gpu, slc in zip(gpu_list, slcs):
+            futures = [
                 e.submit(astra_rec, tomo[slc], center[slc], recon[slc],
-                            theta, vol_geom, niter, proj_type, gpu, opts)
+                         theta, vol_geom, niter, proj_type, gpu, opts)
+                for gpu, slc in zip(gpu_list, slcs)
+            ]
+        for future in futures:
+            # an error of a thread is raised here
+            future.result()
     else:
         astra_rec(tomo, center, recon, theta, vol_geom, niter,
                            proj_type, None, opts)
-- 
2.43.0


From b1066db830ca222e684e160ac343b2689176a7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:01 +0000
Subject: [PATCH 66/72] fix: astra: do not write the defaults into the caller's
 options

---
 source/tomopy/recon/wrappers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index 467ec7b..247a878 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -130,7 +130,8 @@ def astra(tomo, center, recon, theta, **kwargs):
     nslices = tomo.shape[0]
     num_gridx = kwargs['num_gridx']
     num_gridy = kwargs['num_gridy']
-    opts = kwargs['options']
+    # the defaults are added to a copy
+    opts = dict(kwargs['options'])
 
     # Check options
     for o in needed_options['astra']:
-- 
2.43.0


From 994bf23554cac07254384ccc416fe529973e1749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:01 +0000
Subject: [PATCH 67/72] fix: astra: no data of an axis far from the detector

---
 source/tomopy/recon/wrappers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index 247a878..5c75592 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -205,6 +205,8 @@ def astra_rec(tomo, center, recon, theta, vol_geom, niter, proj_type, gpu_index,
                     l = 0
                 if r > ndet:
                     r = ndet
+                if r < 0:
+                    r = 0
                 sino[:, :l] = 0
                 sino[:,  r:] = 0
         pid = astra_mod.create_projector(proj_type, proj_geom, vol_geom)
-- 
2.43.0


From c83f502bb4e696c87c38873974f240b169b8035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:56 +0000
Subject: [PATCH 68/72] fix: lprec: at least one slice at a time, also for wide
 detectors

---
 source/tomopy/recon/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index 5c75592..768f3c5 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -416,7 +416,7 @@ def lprec(tomo, center, recon, theta, **kwargs):
 
     # number of slices for simultaneous processing by 1 gpu
     # (depends on gpu memory size, chosen for gpus with >= 4GB memory)
-    Nssimgpu = min(int(pow(2, 24)/float(N*N)), int(np.ceil(Ns/float(ngpus))))
+    Nssimgpu = max(1, min(int(pow(2, 24)/float(N*N)), int(np.ceil(Ns/float(ngpus)))))
 
     # class lprec
     lp = lpTransform.lpTransform(
-- 
2.43.0


From a8d3e13c15496bf35bdf5914df869f9332d86ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:01 +0000
Subject: [PATCH 69/72] fix: align_joint saves in the given directory, with or
 without a final slash

---
 source/tomopy/prep/alignment.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index 23754b8..d6f8804 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -349,11 +349,11 @@ def align_joint(
             conv[n] = np.linalg.norm(err)
 
         if save:
-            write_tiff(_prj, fdir + 'tmp/iters/prj', n)
-            write_tiff(sim, fdir + 'tmp/iters/sim', n)
-            write_tiff(rec, fdir + 'tmp/iters/rec', n)
-            write_tiff(sx, fdir + 'tmp/iters/sx', n)
-            write_tiff(sy, fdir + 'tmp/iters/sy', n)
+            write_tiff(_prj, fdir + '/tmp/iters/prj', n)
+            write_tiff(sim, fdir + '/tmp/iters/sim', n)
+            write_tiff(rec, fdir + '/tmp/iters/rec', n)
+            write_tiff(sx, fdir + '/tmp/iters/sx', n)
+            write_tiff(sy, fdir + '/tmp/iters/sy', n)
 
     # Re-normalize data
     prj *= scl
-- 
2.43.0


From 242d4d08518160fff4d2180da68546eba8b193a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:01 +0000
Subject: [PATCH 70/72] fix: write_tiff adds the extension to names that only
 end like it

---
 source/tomopy/util/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/util/misc.py b/source/tomopy/util/misc.py
index 9da424b..eead3cc 100644
--- a/source/tomopy/util/misc.py
+++ b/source/tomopy/util/misc.py
@@ -103,7 +103,7 @@ def write_tiff(data, fname='tmp/data', digit=None, ext='tiff'):
     # Add the extension and digit.
     if digit is not None:
         fname = os.path.join(fname, str(digit))
-    if not str(fname).endswith(ext):
+    if not str(fname).endswith('.' + ext):
         fname = ".".join([fname, ext])
     # Convert to absolute path.
     fname = os.path.abspath(fname)
-- 
2.43.0


From 08ac3f40420f7b135a1ae419253800c2a3ae2f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:09 +0000
Subject: [PATCH 71/72] fix: recognise shared arrays of a length ctypes has
 already met

---
 source/tomopy/util/dtype.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/util/dtype.py b/source/tomopy/util/dtype.py
index 51e8a25..1bb00c0 100644
--- a/source/tomopy/util/dtype.py
+++ b/source/tomopy/util/dtype.py
@@ -195,7 +195,9 @@ def is_sharedmem(arr):
         base = arr.base
         if base is None:
             return False
-        elif type(base).__module__.startswith('multiprocessing.sharedctypes'):
+        elif isinstance(base, ctypes.Array) and hasattr(base, '_wrapper'):
+            # memory from multiprocessing.sharedctypes (the type's module is the
+            # one which asked for arrays of that length first)
             return True
         else:
             return is_sharedmem(base)
-- 
2.43.0


From 8edfc28235a5812cd7bab4344594457894f43448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 72/72] fix: detector_drift_adjust_aps_1id doubled the drift
 and mixed up rows and columns

---
 source/tomopy/prep/alignment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index d6f8804..bad629e 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -853,8 +853,11 @@ def detector_drift_adjust_aps_1id(imgstacks,
     # -- calculate affine transformation (fast)
     img_correct_F = np.ones((imgstacks.shape[0], 3, 3))
     for n_img in range(imgstacks.shape[0]):
+        # NOTE:
+        #   affine_transform needs the position in the image, as (row, col), of
+        #   every pixel of the result; the corners are given as (x, y)
         img_correct_F[n_img, :, :] = calc_affine_transform(
-            proj_cnrs[n_img, :, :], slit_cnr_ref)
+            slit_cnr_ref[:, ::-1], proj_cnrs[n_img, :, ::-1])
 
     # -- apply affine transformation (slow)
     tmp = []
-- 
2.43.0

