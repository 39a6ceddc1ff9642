From d333717594d35394870b17b26aaba89e040e597e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:14 +0000
Subject: [PATCH 01/27] fix: mrcal_compose_rt_full(inverted0): allow
 dt_t1==NULL when dt_t0 is requested

All the gradient outputs are documented as optional. But the inverted0 path
computed dt_t0 from the contents of dt_t1, and dereferenced NULL if the caller
asked for dt_t0 only
---
 poseutils.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/poseutils.c b/poseutils.c
index 6c8f5b8..eca7aa4 100644
--- a/poseutils.c
+++ b/poseutils.c
@@ -861,9 +861,11 @@ void mrcal_compose_rt_full( // output
         double t10[3] = { rt1[0+3] - rt0[0+3],
                           rt1[1+3] - rt0[1+3],
                           rt1[2+3] - rt0[2+3] };
+        // dt_t1 may be NULL even if we need dt_t0, so I have a local copy
+        double dt_t10[9];
         mrcal_rotate_point_r_full( &P1(rt_out,3), rt_out_stride0,
                                    dt_r0, dt_r0_stride0, dt_r0_stride1,
-                                   dt_t1, dt_t1_stride0, dt_t1_stride1,
+                                   dt_t10, -1, -1,
 
                                    rt0, -1,
                                    t10, -1,
@@ -876,11 +878,16 @@ void mrcal_compose_rt_full( // output
                 for(int j=0; j<3; j++)
                     P2(dt_r1,i,j) = 0.;
 
+        if(dt_t1 != NULL)
+            for(int i=0; i<3; i++)
+                for(int j=0; j<3; j++)
+                    P2(dt_t1,i,j) = dt_t10[3*i+j];
+
         // dt01/dt0 = -dt01/dt1
         if(dt_t0 != NULL)
             for(int i=0; i<3; i++)
                 for(int j=0; j<3; j++)
-                    P2(dt_t0,i,j) = -P2(dt_t1,i,j);
+                    P2(dt_t0,i,j) = -dt_t10[3*i+j];
     }
     else if(!inverted0 && inverted1)
     {
-- 
2.43.0


From 4da048fcc9812a14c57022b2d2ada5e41fe5930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:30 +0000
Subject: [PATCH 02/27] fix: mrcal_project_pinhole(): store each of the N
 results

All the points were being written into q[0]
---
 mrcal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 4450142..3ce40fa 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -1455,8 +1455,8 @@ void mrcal_project_pinhole( // output
     for(int i=0; i<N; i++)
     {
         double pz_recip = 1. / v[i].z;
-        q->x = v[i].x*pz_recip * fx + cx;
-        q->y = v[i].y*pz_recip * fy + cy;
+        q[i].x = v[i].x*pz_recip * fx + cx;
+        q[i].y = v[i].y*pz_recip * fy + cy;
 
         if(dq_dv)
         {
-- 
2.43.0


From abf70b017bbb92f00febada569dc484319ebfe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:48 +0000
Subject: [PATCH 03/27] fix: mrcal_project(): store dq_dp for each of the N
 points

If we wanted dq_dp, but not dq_dintrinsics, then all the gradients were being
written into the first slot of dq_dp
---
 mrcal.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mrcal.c b/mrcal.c
index 3ce40fa..41e9a02 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -2903,6 +2903,9 @@ bool _mrcal_project_internal( // out
                      intrinsics, NULL, &frame, NULL, true,
                      lensmodel, precomputed,
                      0.0, 0,0);
+
+            if(dq_dp != NULL)
+                dq_dp = &dq_dp[2];
         }
         return true;
     }
-- 
2.43.0


From e733cba23b878ab76169c31eae7df22bd68c49bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:48 +0000
Subject: [PATCH 04/27] fix: _project_point(): zero the full gradients if
 CAHVORE projection fails

Each of these points to TWO mrcal_point3_t: for each of qx,qy. We were clearing
only the first one, leaving the second one uninitialized
---
 mrcal.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 41e9a02..794c309 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -2505,10 +2505,10 @@ void _project_point( // outputs
             memset(q, 0, sizeof(*q));
             if(p_dq_dfxy)               memset(p_dq_dfxy,               0, sizeof(*p_dq_dfxy));
             if(p_dq_dintrinsics_nocore) memset(p_dq_dintrinsics_nocore, 0, sizeof(*p_dq_dintrinsics_nocore) * 2 * (Nintrinsics-4));
-            if(dq_drcamera)             memset(dq_drcamera,             0, sizeof(*dq_drcamera));
-            if(dq_dtcamera)             memset(dq_dtcamera,             0, sizeof(*dq_dtcamera));
-            if(dq_drframe)              memset(dq_drframe,              0, sizeof(*dq_drframe));
-            if(dq_dtframe)              memset(dq_dtframe,              0, sizeof(*dq_dtframe));
+            if(dq_drcamera)             memset(dq_drcamera,             0, sizeof(*dq_drcamera) * 2);
+            if(dq_dtcamera)             memset(dq_dtcamera,             0, sizeof(*dq_dtcamera) * 2);
+            if(dq_drframe)              memset(dq_drframe,              0, sizeof(*dq_drframe) * 2);
+            if(dq_dtframe)              memset(dq_dtframe,              0, sizeof(*dq_dtframe) * 2);
 
         }
     }
-- 
2.43.0


From b9f1f8a409926501b8bcc144dc6d5e419bf6f879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:48 +0000
Subject: [PATCH 05/27] fix: mrcal_unproject(): set ALL of the output to nan if
 we couldn't converge

The output is a 3d vector, and the last element was left uninitialized
---
 mrcal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mrcal.c b/mrcal.c
index 794c309..f568035 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -3263,6 +3263,7 @@ bool _mrcal_unproject_internal( // out
             double nan = strtod("NAN", NULL);
             out->xyz[0] = nan;
             out->xyz[1] = nan;
+            out->xyz[2] = nan;
         }
         else
         {
-- 
2.43.0


From 0019d75e2936526e40c95964436909a2c14db089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:40 +0000
Subject: [PATCH 06/27] fix: mrcal_triangulate_lindstrom(): update lambda as
 the paper does

---
 triangulation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triangulation.cc b/triangulation.cc
index 679c0f9..b3564c3 100644
--- a/triangulation.cc
+++ b/triangulation.cc
@@ -369,7 +369,7 @@ mrcal_triangulate_lindstrom(// outputs
     // Step 12. l *= 2*d/( nps.inner(n,n) + nps.inner(nn,nn) )
     val_withgrad_t<18> bb = (n [0]*n [0] + n [1]*n [1] +
                              nn[0]*nn[0] + nn[1]*nn[1]) * 0.5;
-    l = l/d * bb;
+    l = l*d / bb;
 
     // Step 13. dx  = l*n
     dx[0] = l * n[0];
-- 
2.43.0


From 04811382331a1fec59c14db2bb703afe9e1c6b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 07/27] fix: concurrent parsing of camera models no longer
 races

re2c's tag variables were process-wide, so two threads reading camera models at
the same time parsed each other's text (wrong values, errors, crashes)
---
 cameramodel-parser.re | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameramodel-parser.re b/cameramodel-parser.re
index cd170da..6183b6d 100644
--- a/cameramodel-parser.re
+++ b/cameramodel-parser.re
@@ -56,7 +56,7 @@ typedef struct
   UNSIGNED_INT = "0"|[1-9][0-9]*;
 */
 
-/*!stags:re2c format = 'static const char *@@;'; */
+/*!stags:re2c format = 'static __thread const char *@@;'; */
 
 static bool string_is(const char* ref, string_t key)
 {
-- 
2.43.0


From b9fb2ec24306f109bcf3c0be8b18f7b6967d4ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 08/27] fix: warnings about an empty valid-intrinsics region go
 to stderr

mrcal-reproject-image writes the pinhole model it makes to stdout; the warning
ended up inside the model
---
 mrcal/visualization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mrcal/visualization.py b/mrcal/visualization.py
index bf81f80..685e42b 100644
--- a/mrcal/visualization.py
+++ b/mrcal/visualization.py
@@ -3149,10 +3149,12 @@ None. The input image array is modified
 
     if valid_intrinsics_region is None:
         cv2.circle( image, tuple((model.imagersize() - 1)//2), 10, color, -1)
-        print("WARNING: annotate_image__valid_intrinsics_region(): valid-intrinsics region is undefined. Drawing a circle")
+        print("WARNING: annotate_image__valid_intrinsics_region(): valid-intrinsics region is undefined. Drawing a circle",
+              file = sys.stderr)
     elif valid_intrinsics_region.size == 0:
         cv2.circle( image, tuple((model.imagersize() - 1)//2), 10, color, -1)
-        print("WARNING: annotate_image__valid_intrinsics_region(): valid-intrinsics region is empty. Drawing a circle")
+        print("WARNING: annotate_image__valid_intrinsics_region(): valid-intrinsics region is empty. Drawing a circle",
+              file = sys.stderr)
     else:
         cv2.polylines(image, [valid_intrinsics_region.astype(np.int32)], True, color, 3)
 
-- 
2.43.0


From 9021c8dd951fab668d04a7dd348b703f90e0cff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 09/27] fix: reading an empty camera model file no longer leaks
 a mapping

If the file couldn't be mapped (an empty file, for instance) the anonymous mapping
was forgotten
---
 cameramodel-parser.re | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cameramodel-parser.re b/cameramodel-parser.re
index 6183b6d..757e1da 100644
--- a/cameramodel-parser.re
+++ b/cameramodel-parser.re
@@ -711,11 +711,11 @@ bool read_cameramodel_from_file(// output buffer. If it should be allocated,
         goto done;
     }
 
-    string = mmap(string, st.st_size,
-                  PROT_READ,
-                  MAP_FIXED | MAP_PRIVATE,
-                  fd, 0);
-    if(string == MAP_FAILED)
+    // On failure "string" remains the anonymous mapping, which is unmapped below
+    if(MAP_FAILED == mmap(string, st.st_size,
+                          PROT_READ,
+                          MAP_FIXED | MAP_PRIVATE,
+                          fd, 0))
     {
         MSG("Couldn't mmap(\"%s\")", filename);
         goto done;
-- 
2.43.0


From 1c4413fc4503e31c50704c57526721163e14b159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 10/27] fix: giving both a legacy and a new argument no longer
 leaves SIGINT reset

optimize() and friends returned directly from this error path, skipping the
cleanup: Python's SIGINT handler was never restored (so Ctrl-C killed the
interpreter from then on), and the argument references leaked.
---
 mrcal-pywrap.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 86dc537..20633b3 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1689,9 +1689,9 @@ PyObject* _optimize(optimizemode_t optimizemode,
 #undef SET_NULL_IF_NONE
 
     if(!handle_renamed(extrinsics_rt_fromref, rt_cam_ref))
-        return false;
+        goto done;
     if(!handle_renamed(frames_rt_toref, rt_ref_frame))
-        return false;
+        goto done;
 
     mrcal_lensmodel_t mrcal_lensmodel;
     // Check the arguments for optimize(). If optimizer_callback, then the other
@@ -2292,9 +2292,9 @@ static PyObject* state_index_generic(callback_state_index_t cb,
 #undef CALLED_FUNCTION_BUFFER
 
     if(!handle_renamed(extrinsics_rt_fromref, rt_cam_ref))
-        return false;
+        goto done;
     if(!handle_renamed(frames_rt_toref, rt_ref_frame))
-        return false;
+        goto done;
 
     mrcal_lensmodel_t mrcal_lensmodel = {};
 
@@ -3495,9 +3495,9 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
         goto done;
 
     if(!handle_renamed(extrinsics_rt_fromref, rt_cam_ref))
-        return false;
+        goto done;
     if(!handle_renamed(frames_rt_toref, rt_ref_frame))
-        return false;
+        goto done;
 
 
     // checks dimensionality of array !IS_NULL. So if any array isn't passed-in,
-- 
2.43.0


From 66d136bf06120c3551995f23735478db90a9681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 11/27] fix: functions reporting the state layout accept their
 documented arguments

num_states(), state_index_...(), num_measurements_...() and so on are documented
to accept explicit array sizes: Ncameras_intrinsics, Nframes, and so on. These
were rejected as unknown optimization_inputs. calibration_object_width_n and
calibration_object_height_n weren't accepted at all. And calling these functions
without any keyword arguments crashed.
---
 mrcal-pywrap.c | 64 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 14 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 20633b3..ec66511 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1487,13 +1487,19 @@ static bool _handle_renamed(PyArrayObject** old, const char* name_old,
 // and just save it as a global here
 static PyObject* _optimization_inputs_known_keys_frozenset;
 //  Replace the kwargs to keep only those that are known. The unknown ones that
-//  are not null trigger an error. This is intended for forwards compatibility
+//  are not null trigger an error. This is intended for forwards compatibility.
+//
+//  The known arguments are the optimization inputs and the NULL-terminated
+//  keywords_extra, if given: these are the other arguments of the function being
+//  called
 static bool optimization_inputs_kwargs_delete_unknown(PyObject** kwargs,
-                                                      bool* need_decref_kwargs)
+                                                      bool* need_decref_kwargs,
+                                                      char* const* keywords_extra)
 {
     *need_decref_kwargs = false;
 
-    if(!PyDict_Check(*kwargs))
+    // NULL if no keyword arguments were given at all
+    if(*kwargs == NULL || !PyDict_Check(*kwargs))
         return true;
 
     PyObject* kwargs_new = PyDict_New();
@@ -1516,6 +1522,13 @@ static bool optimization_inputs_kwargs_delete_unknown(PyObject** kwargs,
             Py_DECREF(kwargs_new);
             return false;
         }
+        if(!contains && keywords_extra != NULL && PyUnicode_Check(key))
+            for(int j=0; keywords_extra[j] != NULL; j++)
+                if(0 == PyUnicode_CompareWithASCIIString(key, keywords_extra[j]))
+                {
+                    contains = 1;
+                    break;
+                }
         if(contains)
         {
             if(0 != PyDict_SetItem(kwargs_new, key, value))
@@ -1586,7 +1599,7 @@ PyObject* _optimize(optimizemode_t optimizemode,
         goto done;
     }
 
-    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs))
+    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs, NULL))
         goto done;
 
     int calibration_object_height_n = -1;
@@ -2212,8 +2225,6 @@ static PyObject* state_index_generic(callback_state_index_t cb,
     OPTIMIZE_ARGUMENTS_OPTIONAL(ARG_DEFINE);
 
     bool need_decref_kwargs = false;
-    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs))
-        goto done;
 
     int i = -1;
 
@@ -2223,6 +2234,8 @@ static PyObject* state_index_generic(callback_state_index_t cb,
     int Npoints             = -1;
     int Nobservations_board = -1;
     int Nobservations_point = -1;
+    int calibration_object_width_n  = -1;
+    int calibration_object_height_n = -1;
 
     char* keywords[] = { (char*)argname,
                          "Ncameras_intrinsics",
@@ -2231,17 +2244,23 @@ static PyObject* state_index_generic(callback_state_index_t cb,
                          "Npoints",
                          "Nobservations_board",
                          "Nobservations_point",
+                         "calibration_object_width_n",
+                         "calibration_object_height_n",
                          OPTIMIZE_ARGUMENTS_REQUIRED(NAMELIST)
                          OPTIMIZE_ARGUMENTS_OPTIONAL(NAMELIST)
                          NULL};
 
+    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs,
+                                                  argname != NULL ? keywords : &keywords[1]))
+        goto done;
+
     // needs to be big-enough to store the largest-possible called_function
 #define CALLED_FUNCTION_BUFFER "123456789012345678901234567890123456789012345678901234567890"
     char arg_string[] =
         "i"
         "|$" // everything is kwarg-only and optional. I apply logic down the
              // line to get what I need
-        "iiiiii"
+        "iiiiiiii"
         OPTIMIZE_ARGUMENTS_REQUIRED(PARSECODE)
         OPTIMIZE_ARGUMENTS_OPTIONAL(PARSECODE)
         ":mrcal." CALLED_FUNCTION_BUFFER;
@@ -2267,6 +2286,8 @@ static PyObject* state_index_generic(callback_state_index_t cb,
                                          &Npoints,
                                          &Nobservations_board,
                                          &Nobservations_point,
+                                         &calibration_object_width_n,
+                                         &calibration_object_height_n,
                                          OPTIMIZE_ARGUMENTS_REQUIRED(PARSEARG)
                                          OPTIMIZE_ARGUMENTS_OPTIONAL(PARSEARG) NULL))
             goto done;
@@ -2285,6 +2306,8 @@ static PyObject* state_index_generic(callback_state_index_t cb,
                                          &Npoints,
                                          &Nobservations_board,
                                          &Nobservations_point,
+                                         &calibration_object_width_n,
+                                         &calibration_object_height_n,
                                          OPTIMIZE_ARGUMENTS_REQUIRED(PARSEARG)
                                          OPTIMIZE_ARGUMENTS_OPTIONAL(PARSEARG) NULL))
             goto done;
@@ -2325,13 +2348,13 @@ static PyObject* state_index_generic(callback_state_index_t cb,
     if(Nobservations_board < 0) Nobservations_board = IS_NULL(observations_board)    ? 0 : PyArray_DIMS(observations_board)    [0];
     if(Nobservations_point < 0) Nobservations_point = IS_NULL(observations_point)    ? 0 : PyArray_DIMS(observations_point)    [0];
 
-    int calibration_object_height_n = -1;
-    int calibration_object_width_n  = -1;
-    if( Nobservations_board > 0 )
+    if( Nobservations_board > 0 && !IS_NULL(observations_board) )
     {
-        calibration_object_height_n = PyArray_DIMS(observations_board)[1];
-        calibration_object_width_n  = PyArray_DIMS(observations_board)[2];
+        if(calibration_object_height_n < 0) calibration_object_height_n = PyArray_DIMS(observations_board)[1];
+        if(calibration_object_width_n  < 0) calibration_object_width_n  = PyArray_DIMS(observations_board)[2];
     }
+    if(calibration_object_height_n < 0) calibration_object_height_n = 0;
+    if(calibration_object_width_n  < 0) calibration_object_width_n  = 0;
 
 
     mrcal_problem_selections_t problem_selections = CONSTRUCT_PROBLEM_SELECTIONS();
@@ -3282,6 +3305,12 @@ static PyObject* callback_corresponding_icam_extrinsics(int icam_intrinsics,
         BARF("Have Nobservations_board > 0, but indices_frame_camintrinsics_camextrinsics == NULL. Some required arguments missing?");
         return NULL;
     }
+    if(Nobservations_board > 0 && PyArray_DIM(indices_frame_camintrinsics_camextrinsics,0) < Nobservations_board)
+    {
+        BARF("Have Nobservations_board=%d, but indices_frame_camintrinsics_camextrinsics has only %ld elements",
+             Nobservations_board, PyArray_DIM(indices_frame_camintrinsics_camextrinsics,0));
+        return NULL;
+    }
     mrcal_observation_board_t c_observations_board[Nobservations_board];
     fill_c_observations_board(// output
                               c_observations_board,
@@ -3301,6 +3330,12 @@ static PyObject* callback_corresponding_icam_extrinsics(int icam_intrinsics,
             BARF("Have Nobservations_point > 0, but observations_point == NULL. Some required arguments missing?");
             return NULL;
         }
+        if(PyArray_DIM(indices_point_camintrinsics_camextrinsics,0) < Nobservations_point)
+        {
+            BARF("Have Nobservations_point=%d, but indices_point_camintrinsics_camextrinsics has only %ld elements",
+                 Nobservations_point, PyArray_DIM(indices_point_camintrinsics_camextrinsics,0));
+            return NULL;
+        }
     }
     mrcal_observation_point_t c_observations_point[Nobservations_point];
     fill_c_observations_point(// output
@@ -3432,8 +3467,6 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
     PyArrayObject* b = NULL;
 
     bool need_decref_kwargs = false;
-    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs))
-        goto done;
 
     int Ncameras_intrinsics = -1;
     int Ncameras_extrinsics = -1;
@@ -3453,6 +3486,9 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
                          OPTIMIZE_ARGUMENTS_OPTIONAL(NAMELIST)
                          NULL};
 
+    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs, keywords))
+        goto done;
+
 #define UNPACK_STATE "unpack_state"
     char arg_string[] =
         "O&"
-- 
2.43.0


From c04938b7bf83a404ac21fd0fcee7b04caf731621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 12/27] fix: optimizer_callback() reports a failed allocation
 of the Jacobian

The allocations weren't checked, and a failure crashed the interpreter.
---
 mrcal-pywrap.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index ec66511..0a252e5 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1934,6 +1934,11 @@ PyObject* _optimize(optimizemode_t optimizemode,
                 P = (PyArrayObject*)PyArray_SimpleNew(1, ((npy_intp[]){Nmeasurements + 1}), NPY_INT32);
                 I = (PyArrayObject*)PyArray_SimpleNew(1, ((npy_intp[]){N_j_nonzero      }), NPY_INT32);
                 X = (PyArrayObject*)PyArray_SimpleNew(1, ((npy_intp[]){N_j_nonzero      }), NPY_DOUBLE);
+                if(P == NULL || I == NULL || X == NULL)
+                {
+                    // reuse the existing error
+                    goto done;
+                }
                 Jt.p = PyArray_DATA(P);
                 Jt.i = PyArray_DATA(I);
                 Jt.x = PyArray_DATA(X);
-- 
2.43.0


From 7943cecb8287113747d6438ec382f509bf9331d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 13/27] fix: CHOLMOD_factorization() propagates errors from
 inspecting its argument

These ended with a SystemError: returned a result with an exception set
---
 mrcal-pywrap.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 0a252e5..9e6a554 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -263,7 +263,7 @@ CHOLMOD_factorization_init(CHOLMOD_factorization* self, PyObject* args, PyObject
         BARF("Couldn't find 'csr_matrix' in scipy.sparse");
         goto done;
     }
-    if(!PyObject_IsInstance(Py_J, csr_matrix_type))
+    if(1 != PyObject_IsInstance(Py_J, csr_matrix_type))
     {
         BARF("Argument J is must have type scipy.sparse.csr_matrix");
         goto done;
@@ -361,6 +361,13 @@ CHOLMOD_factorization_init(CHOLMOD_factorization* self, PyObject* args, PyObject
     CHECK_NUMPY_ARRAY(indices, NPY_INT32);
     CHECK_NUMPY_ARRAY(indptr,  NPY_INT32);
 
+    int has_sorted_indices = PyObject_IsTrue(Py_has_sorted_indices);
+    if(has_sorted_indices < 0)
+    {
+        BARF("Error interpreting J.has_sorted_indices as a boolean");
+        goto done;
+    }
+
     // OK, the input looks good. I guess I can tell CHOLMOD about it
 
     // My convention is to store row-major matrices, but CHOLMOD stores
@@ -377,7 +384,7 @@ CHOLMOD_factorization_init(CHOLMOD_factorization* self, PyObject* args, PyObject
         .itype  = CHOLMOD_INT,
         .xtype  = CHOLMOD_REAL,
         .dtype  = CHOLMOD_DOUBLE,
-        .sorted = PyObject_IsTrue(Py_has_sorted_indices),
+        .sorted = has_sorted_indices,
         .packed = 1
     };
 
-- 
2.43.0


From 605a4f63a39880b6e532b7b9d28f1483779b81ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 14/27] fix: optimize() and optimizer_callback() report failed
 allocations

These weren't checked, and a failure crashed the interpreter.
---
 mrcal-pywrap.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 9e6a554..66c6490 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -61,9 +61,8 @@ static PyObject* csr_from_cholmod_sparse( PyObject* P,
 
     // Here I'm assuming specific types in my cholmod arrays. I tried to
     // static_assert it, but internally cholmod uses void*, so I can't do that
-    PyObject* MatrixDef = PyTuple_Pack(3, X, I, P);
-    args                = PyTuple_Pack(1, MatrixDef);
-    Py_DECREF(MatrixDef);
+    if(NULL == (args = Py_BuildValue("((OOO))", X, I, P)))
+        goto done; // reuse already-set error
 
     if(NULL == (result = PyObject_CallObject(method, args)))
         goto done; // reuse already-set error
@@ -1691,6 +1690,8 @@ PyObject* _optimize(optimizemode_t optimizemode,
             npy_intp dims[] = {__VA_ARGS__};                            \
             x = (PyArrayObject*)PyArray_SimpleNew(sizeof(dims)/sizeof(dims[0]), \
                                                   dims, type);          \
+            if( x == NULL )                                             \
+                goto done; /* reuse the existing error */               \
         }                                                               \
     } while(0)
 
@@ -1813,9 +1814,13 @@ PyObject* _optimize(optimizemode_t optimizemode,
 
         // both optimize() and optimizer_callback() use this
         b_packed_final = (PyArrayObject*)PyArray_SimpleNew(1, ((npy_intp[]){Nstate}), NPY_DOUBLE);
+        if(b_packed_final == NULL)
+            goto done; // reuse the existing error
         double* c_b_packed_final = PyArray_DATA(b_packed_final);
 
         x_final = (PyArrayObject*)PyArray_SimpleNew(1, ((npy_intp[]){Nmeasurements}), NPY_DOUBLE);
+        if(x_final == NULL)
+            goto done; // reuse the existing error
         double* c_x_final = PyArray_DATA(x_final);
 
         if(optimizemode == OPTIMIZEMODE_OPTIMIZE)
-- 
2.43.0


From df15cb49ab04a90dbdf29a773123821208be269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 15/27] fix: optimize() honors the legacy argument names

extrinsics_rt_fromref and frames_rt_toref are documented as synonyms for
rt_cam_ref and rt_ref_frame. But the missing rt_cam_ref, rt_ref_frame were filled
in with empty arrays first, so the synonyms were ignored.
---
 mrcal-pywrap.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 66c6490..6666be7 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1673,6 +1673,13 @@ PyObject* _optimize(optimizemode_t optimizemode,
         goto done;
     }
 
+    // This must happen before I fill in the missing arguments below: those are then
+    // no longer missing
+    if(!handle_renamed(extrinsics_rt_fromref, rt_cam_ref))
+        goto done;
+    if(!handle_renamed(frames_rt_toref, rt_ref_frame))
+        goto done;
+
     // Some of my input arguments can be empty (None). The code all assumes that
     // everything is a properly-dimensioned numpy array, with "empty" meaning
     // some dimension is 0. Here I make this conversion. The user can pass None,
@@ -1709,11 +1716,6 @@ PyObject* _optimize(optimizemode_t optimizemode,
     SET_SIZE0_IF_NONE(imagersizes,                                            NPY_INT32,  0, 2);
 #undef SET_NULL_IF_NONE
 
-    if(!handle_renamed(extrinsics_rt_fromref, rt_cam_ref))
-        goto done;
-    if(!handle_renamed(frames_rt_toref, rt_ref_frame))
-        goto done;
-
     mrcal_lensmodel_t mrcal_lensmodel;
     // Check the arguments for optimize(). If optimizer_callback, then the other
     // stuff is defined, but it all has valid, default values
-- 
2.43.0


From f52fc2435c21b3bfa46bcb91da357b055fdc8238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 16/27] fix: mrcal_cameramodel_converter() doesn't free()
 uninitialized pointers on error

If the argument wasn't a camera model, this function released whatever the caller
had in *model
---
 python-cameramodel-converter.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python-cameramodel-converter.c b/python-cameramodel-converter.c
index dedc677..e870717 100644
--- a/python-cameramodel-converter.c
+++ b/python-cameramodel-converter.c
@@ -71,6 +71,8 @@ int mrcal_cameramodel_converter(PyObject*             py_model,
 
     PyObject* call_result = NULL;
 
+    // In case we fail before this is allocated
+    *model = NULL;
 
     if(py_model == Py_None)
         *model = NULL;
-- 
2.43.0


From 14228cd95e55ad37837b0d9de317a33b80d9bfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 17/27] fix: passing an unencodable string for a renamed
 argument doesn't crash

---
 mrcal-pywrap.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 6666be7..04f8cda 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -872,14 +872,20 @@ int PyArray_Converter_checkrenamed_leaveNone(PyObject* obj, PyObject** address)
     // If we see the ERROR poison string from renamed() in
     // _deserialize_optimization_inputs() in cameramodel.py, we produce None.
     // This string isn't supposed to actually be used
-    if(PyUnicode_Check(obj) &&
-       0 == strncmp("ERROR:", PyUnicode_AsUTF8(obj), 6))
+    if(PyUnicode_Check(obj))
     {
-        *address = Py_None;
-        Py_INCREF(Py_None);
-        return 1;
-    }        
-    
+        const char* str = PyUnicode_AsUTF8(obj);
+        if(str == NULL)
+            // reuse the existing error
+            return 0;
+        if(0 == strncmp("ERROR:", str, 6))
+        {
+            *address = Py_None;
+            Py_INCREF(Py_None);
+            return 1;
+        }
+    }
+
     return PyArray_Converter_leaveNone(obj,address);
 }
 
-- 
2.43.0


From 490bff44434f1cd507979d191a3ccd0f9b55cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 18/27] fix: triangulate_lindstrom(): handle broadcasted Rt01
 properly

---
 mrcal/triangulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/triangulation.py b/mrcal/triangulation.py
index c4cbd3f..cd117ff 100644
--- a/mrcal/triangulation.py
+++ b/mrcal/triangulation.py
@@ -941,7 +941,7 @@ if get_gradients: we return a tuple:
     if not v_are_local:
         if get_gradients:
             raise Exception("get_gradients is True, so v_are_local MUST be True")
-        v1 = mrcal.rotate_point_R(nps.transpose(Rt01[:3,:]), v1)
+        v1 = mrcal.rotate_point_R(nps.transpose(Rt01[...,:3,:]), v1)
 
     if not get_gradients:
         return mrcal._triangulation_npsp._triangulate_lindstrom(v0, v1, Rt01, out=out)
-- 
2.43.0


From c4fc07460a4a7b3713368fa2b6f6b66f2bb98b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 19/27] fix: hypothesis_board_corner_positions() does not
 modify the caller's idx_inliers

---
 mrcal/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 7b19378..17a4d1a 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -574,8 +574,10 @@ RETURNED VALUE
     # shape (Nobservations,)
     idx_observations = indices_frame_camintrinsics_camextrinsics[:,1]==icam_intrinsics
 
-    idx_inliers [~idx_observations] = False
-    idx_outliers[~idx_observations] = False
+    # Not in-place: idx_inliers may belong to the caller
+    idx_selected = idx_observations[:, np.newaxis, np.newaxis]
+    idx_inliers  = idx_inliers  & idx_selected
+    idx_outliers = idx_outliers & idx_selected
 
     return                                       \
         p_cam_calobjects,                        \
-- 
2.43.0


From 4c20522f6110e30c32a7ea6455d48569ad45937b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 20/27] fix: show_valid_intrinsics_region() does not modify the
 caller's list of camera names

---
 mrcal/visualization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrcal/visualization.py b/mrcal/visualization.py
index 685e42b..d926a1b 100644
--- a/mrcal/visualization.py
+++ b/mrcal/visualization.py
@@ -2649,6 +2649,8 @@ A tuple:
     else:
         if len(models) != len(cameranames):
             raise Exception("Must get the same number of models and cameranames")
+        # a copy: I may modify this
+        cameranames = list(cameranames)
 
     W,H = models[0].imagersize()
     for m in models[1:]:
-- 
2.43.0


From 8b818218cf23c3b8b8e224367b3d5c61d509f42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 21/27] fix: make_perfect_observations() preserves the weights
 of the outliers

---
 mrcal/synthetic_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mrcal/synthetic_data.py b/mrcal/synthetic_data.py
index f473af2..ff27a3a 100644
--- a/mrcal/synthetic_data.py
+++ b/mrcal/synthetic_data.py
@@ -742,7 +742,8 @@ None
                 observed_pixel_uncertainty * \
                 np.random.randn(*optimization_inputs[what][...,:2].shape)
 
-            weight = nps.dummy( optimization_inputs[what][...,2],
+            # a copy: I do not want to overwrite the weights of the outliers
+            weight = nps.dummy( np.array(optimization_inputs[what][...,2]),
                                 axis = -1 )
             weight[ weight<=0 ] = 1. # to avoid dividing by 0
 
-- 
2.43.0


From b51498f2a444090a8d28c1c02d39778e3afa63c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 22/27] fix: stereo_pair_diff(): norm2() comes from numpysane

---
 mrcal/model_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 6d48718..f55a253 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -2058,7 +2058,7 @@ A tuple
 
             # CAHVORE. I know how to centralize this. If we're looking at
             # infinity, then this is ok
-            if np.norm2(model.intrinsics()[1][-3:]) < 1e-12 or atinfinity:
+            if nps.norm2(model.intrinsics()[1][-3:]) < 1e-12 or atinfinity:
                 intrinsics_data = model.intrinsics()[1]
                 intrinsics_data[-3:] = 0
                 model.intrinsics( intrinsics = (model.intrinsics()[0],
-- 
2.43.0


From ca8d34e3281f4663db1b109aa40f816cfc32ef52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 23/27] fix: stereo_pair_diff() does not modify the models it
 was given

---
 mrcal/model_analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index f55a253..9a5556e 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -2049,6 +2049,8 @@ A tuple
     else:
         atinfinity = False
 
+    # I may modify these, so I make copies
+    model_pairs = [ [mrcal.cameramodel(m) for m in model_pair] for model_pair in model_pairs ]
     for model_pair in model_pairs:
         for model in model_pair:
             if not mrcal.lensmodel_metadata_and_config(model.intrinsics()[0])['noncentral']:
-- 
2.43.0


From f3e74068dcafda908f290331175d769747f3b181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 24/27] fix: mrcal_optimize(check_gradient=true) does not
 dereference the NULL solver context

---
 mrcal.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index f568035..6e5543c 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -6615,10 +6615,15 @@ mrcal_optimize( // out
         // THIS IS NOT CORRECT FOR POINTS. I have 3 measurements for points currently
         sqrt(norm2_error / (double)ctx.Nmeasurements);
 
-    if(b_packed_final)
-        memcpy(b_packed_final, solver_context->beforeStep->p, Nstate*sizeof(double));
-    if(x_final)
-        memcpy(x_final, solver_context->beforeStep->x, ctx.Nmeasurements*sizeof(double));
+    // If we're only checking the gradients, there was no solve, and there isn't any
+    // solver context to report from
+    if(solver_context != NULL)
+    {
+        if(b_packed_final)
+            memcpy(b_packed_final, solver_context->beforeStep->p, Nstate*sizeof(double));
+        if(x_final)
+            memcpy(x_final, solver_context->beforeStep->x, ctx.Nmeasurements*sizeof(double));
+    }
 
  done:
     if(solver_context != NULL)
-- 
2.43.0


From beb4d6cae6382e8bd9e94d5030f6556ace14459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 25/27] fix: lensmodel_metadata_and_config() does not leak a
 reference, or crash if it cannot build its result

---
 mrcal-pywrap.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 04f8cda..90a6f6c 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -732,8 +732,6 @@ static PyObject* lensmodel_metadata_and_config(PyObject* NPY_UNUSED(self),
                                "}"
                                MRCAL_LENSMODEL_META_LIST(MRCAL_ITEM_BUILDVALUE_VALUE, meta.));
 
-    Py_INCREF(result);
-
  done:
     return result;
 }
-- 
2.43.0


From bdf18edf8993681f35f9622d3220141f65d579d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 26/27] fix: _rectification_maps() releases its reference to
 intrinsics_rectified

---
 mrcal-pywrap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 90a6f6c..54a82ac 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -4258,6 +4258,7 @@ PyObject* _rectification_maps(PyObject* NPY_UNUSED(self),
 
     LENSMODEL_ONE_ARGUMENTS(FREE_PYARRAY, 0);
     LENSMODEL_ONE_ARGUMENTS(FREE_PYARRAY, 1);
+    LENSMODEL_ONE_ARGUMENTS(FREE_PYARRAY, _rectified);
     RECTIFICATION_MAPS_ARGUMENTS(FREE_PYARRAY);
 
     return result;
-- 
2.43.0


From b73d000015e192934ed49f7987efbfa818346806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 27/27] fix: optimize() releases its references to the items in
 the reported stats

---
 mrcal-pywrap.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 54a82ac..b7ee871 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1900,6 +1900,8 @@ PyObject* _optimize(optimizemode_t optimizemode,
                     Py_DECREF(obj);                                     \
                     goto done;                                          \
                 }                                                       \
+                /* the dict has its own reference */                    \
+                Py_DECREF(obj);                                         \
             }
             MRCAL_STATS_ITEM(MRCAL_STATS_ITEM_POPULATE_DICT);
 
-- 
2.43.0

