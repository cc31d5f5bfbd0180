From 7478f135470ae6b38b852dbba0ca802b7131ad09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:11 +0000
Subject: [PATCH 01/40] fix: write_mitgridfile reported success after a failed
 write (disk full, file size limit)

ndarray.tofile() buffers small writes in a C stream and ignores the error when
that stream is closed, and fd.close was never called.
---
 simplegrid/gridio.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simplegrid/gridio.py b/simplegrid/gridio.py
index f53ab79..b721614 100644
--- a/simplegrid/gridio.py
+++ b/simplegrid/gridio.py
@@ -158,8 +158,9 @@ def write_mitgridfile(filename,griddata,ni,nj,verbose=False):
         # finally, ensure double-precision, big-endian representation:
         outarray = tmparray.astype('>f8')
         # append to output file:
-        outarray.tofile(fd)
+        # (not outarray.tofile(fd), which loses write errors, e.g., disk full):
+        fd.write(outarray.tobytes())
 
-    fd.close
+    fd.close()
     return True
 
-- 
2.43.0


From 857d9da604f1b80c248007160d023f1ee1a054e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:11 +0000
Subject: [PATCH 02/40] fix: regrid rotated XG and YG inside the caller's
 mitgrid_matrices dictionary

---
 simplegrid/regrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplegrid/regrid.py b/simplegrid/regrid.py
index 3cffefc..6c5f36a 100644
--- a/simplegrid/regrid.py
+++ b/simplegrid/regrid.py
@@ -160,7 +160,7 @@ def regrid( strict=False, verbose=False, **kwargs):
         else:
             raise ValueError("ni, nj required if xg/yg_file specified")
     elif mitgrid_matrices:
-        mitgrid = mitgrid_matrices
+        mitgrid = dict(mitgrid_matrices)    # (XG, YG may be rotated, below)
         # ni, nj from tracer cell counts:
         (ni,nj) = mitgrid['XC'].shape
     else:
-- 
2.43.0


From cf5b8db2127ea15ed6bdf52cfd98c43992869c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:11 +0000
Subject: [PATCH 03/40] fix: computing spherical areas silenced every warning
 in the calling process for good

---
 simplegrid/util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/simplegrid/util.py b/simplegrid/util.py
index 9ee6c7e..3891c05 100644
--- a/simplegrid/util.py
+++ b/simplegrid/util.py
@@ -80,6 +80,8 @@ def nearest(lon,lat,lons,lats,geod):
     return i,j,dist
 
 
+# some geometries are poorly conditioned:
+@np.errstate(divide='ignore',invalid='ignore')
 def squad_uarea( cart):
     """Compute quadrilateral surface areas for cartesian array of corner points
     on the unit sphere.
@@ -102,10 +104,6 @@ def squad_uarea( cart):
 
     """
 
-    # only because some geometries are poorly conditioned:
-    import warnings
-    warnings.filterwarnings("ignore")
-
     area = np.zeros((np.size(cart,0)-1,np.size(cart,1)-1))
 
     for x_idx in np.arange(np.size(cart,0)-1):
-- 
2.43.0


From 9bed76239b65c4a04677ce97356b5cf44f2e9018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:42 +0000
Subject: [PATCH 04/40] fix: edges with only their end points in common (e.g.,
 different cell counts) were accepted as a match

---
 simplegrid/matchedges.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/simplegrid/matchedges.py b/simplegrid/matchedges.py
index 9ca0346..2285868 100644
--- a/simplegrid/matchedges.py
+++ b/simplegrid/matchedges.py
@@ -153,6 +153,17 @@ def matchedges( aXG, aYG, bXG, bYG, geod, verbose=False):
     if (a_edge+b_edge!=N+S) and (a_edge+b_edge!=E+W):
         raise ValueError('Inconsistent edge match for input grids')
 
+    # coincident corners are necessary but not sufficient; all points along the
+    # edge have to match:
+
+    if aXG[a_edge_slice].shape!=bXG[b_edge_slice].shape:
+        raise ValueError('Input grid edges have different numbers of points')
+    _,_,edge_dist = geod.inv(
+        aXG[a_edge_slice], aYG[a_edge_slice],
+        bXG[b_edge_slice], bYG[b_edge_slice])
+    if np.amax(edge_dist) > nom_diag*config.POINTS_ARE_CLOSE_ENOUGH:
+        raise ValueError('Input grid edges coincide at their end points only')
+
     if verbose:
         print(msg)
 
-- 
2.43.0


From 839ebd6deea1773151506432de80d0ddf8796f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:42 +0000
Subject: [PATCH 05/40] fix: regrid read a .csv file as binary when only one of
 xg_file, yg_file was .csv

---
 simplegrid/regrid.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/simplegrid/regrid.py b/simplegrid/regrid.py
index 6c5f36a..e295abf 100644
--- a/simplegrid/regrid.py
+++ b/simplegrid/regrid.py
@@ -144,17 +144,17 @@ def regrid( strict=False, verbose=False, **kwargs):
     elif xg_file and yg_file:
         mitgrid = {key:None for key in mitgridfilefields.names}
         if ni and nj:
-            if os.path.splitext(xg_file)[1] == '.csv' and \
-               os.path.splitext(yg_file)[1] == '.csv':
-                # read .csv data, store in dictionary fields that read_mitgridfile
-                # would have produced:
+            # read .csv or binary column-ordered data (each file according to
+            # its own extension), store in dictionary fields that
+            # read_mitgridfile would have produced:
+            if os.path.splitext(xg_file)[1] == '.csv':
                 mitgrid['XG'] = np.loadtxt(xg_file,delimiter=',')
-                mitgrid['YG'] = np.loadtxt(yg_file,delimiter=',')
             else:
-                # read binary column-ordered data, store in dictionary fields that
-                # read_mitgridfile would have produced:
                 XG_raw = np.fromfile(xg_file,mitgridfilefields.datatype)
                 mitgrid['XG'] = np.reshape(XG_raw,(ni+1,nj+1),order='F')
+            if os.path.splitext(yg_file)[1] == '.csv':
+                mitgrid['YG'] = np.loadtxt(yg_file,delimiter=',')
+            else:
                 YG_raw = np.fromfile(yg_file,mitgridfilefields.datatype)
                 mitgrid['YG'] = np.reshape(YG_raw,(ni+1,nj+1),order='F')
         else:
-- 
2.43.0


From 35f008a45c24f7404f6fb0329117ffe8a3122cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:43 +0000
Subject: [PATCH 06/40] fix: getobcs index vectors: any vector longer than one
 raised an error, [0] was not ignored

Also applies the documented negative index convention to the south and west
boundaries, as it is to the north and east.
---
 simplegrid/getobcs.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index d9d0b3b..2ebec84 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -156,10 +156,10 @@ def getobcs( strict=False, verbose=False, **kwargs):
     ni_regional             = kwargs.get('ni_regional')
     nj_regional             = kwargs.get('nj_regional')
     parent_resultsdir       = kwargs.get('parent_resultsdir')
-    ob_jnorth               = np.array(kwargs.get('OB_Jnorth'))
-    ob_jsouth               = np.array(kwargs.get('OB_Jsouth'))
-    ob_ieast                = np.array(kwargs.get('OB_Ieast'))
-    ob_iwest                = np.array(kwargs.get('OB_Iwest'))
+    ob_jnorth               = kwargs.get('OB_Jnorth')
+    ob_jsouth               = kwargs.get('OB_Jsouth')
+    ob_ieast                = kwargs.get('OB_Ieast')
+    ob_iwest                = kwargs.get('OB_Iwest')
     resultsdir              = kwargs.get('resultsdir')
 
     #
@@ -236,33 +236,35 @@ def getobcs( strict=False, verbose=False, **kwargs):
     # defaults:
 
     do_ob_jnorth, do_ob_jsouth, do_ob_ieast, do_ob_iwest = [True]*4
-    if not ob_jnorth:
+    if ob_jnorth is None:
         ob_jnorth = np.ones(ni_regional,dtype=int)*nj_regional
-    elif not any(ob_jnorth!=0):
+    elif not np.any(ob_jnorth):
         do_ob_jnorth = False
-    if not ob_jsouth:
+    if ob_jsouth is None:
         ob_jsouth = np.ones(ni_regional,dtype=int)
-    elif not any(ob_jsouth!=0):
+    elif not np.any(ob_jsouth):
         do_ob_jsouth = False
-    if not ob_ieast:
+    if ob_ieast is None:
         ob_ieast = np.ones(nj_regional,dtype=int)*ni_regional
-    elif not any(ob_ieast!=0):
+    elif not np.any(ob_ieast):
         do_ob_ieast = False
-    if not ob_iwest:
+    if ob_iwest is None:
         ob_iwest = np.ones(nj_regional,dtype=int)
-    elif not any(ob_iwest!=0):
+    elif not np.any(ob_iwest):
         do_ob_iwest = False
 
     # apply logic to negative indices and convert vectors to zeros-based:
 
+    ob_jnorth, ob_jsouth, ob_ieast, ob_iwest = [np.atleast_1d(ob)
+        for ob in (ob_jnorth, ob_jsouth, ob_ieast, ob_iwest)]
     if do_ob_jnorth:
         ob_jnorth = np.array([nj_regional+1+j if j<0 else j for j in ob_jnorth]) - 1
     if do_ob_jsouth:
-        ob_jsouth = ob_jsouth - 1
+        ob_jsouth = np.array([nj_regional+1+j if j<0 else j for j in ob_jsouth]) - 1
     if do_ob_ieast:
         ob_ieast = np.array([ni_regional+1+i if i<0 else i for i in ob_ieast]) - 1
     if do_ob_iwest:
-        ob_iwest = ob_iwest - 1
+        ob_iwest = np.array([ni_regional+1+i if i<0 else i for i in ob_iwest]) - 1
 
     #
     # output directory:
-- 
2.43.0


From e56968c02414b4152966f3db0a9df1009a176a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:43 +0000
Subject: [PATCH 07/40] fix: getobcs repeated every time step once per tile
 file if parent results are tiled

---
 simplegrid/getobcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 2ebec84..add4809 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -339,8 +339,9 @@ def getobcs( strict=False, verbose=False, **kwargs):
 
     # get integer time steps from filenames:
     re_time = re.compile('\d+')
-    times = sorted( [int(re_time.findall(os.path.basename(f))[0])
-        for f in glob.glob(os.path.join(parent_resultsdir,'T.*.data'))])
+    # (once only, if there is more than one tile file per time step):
+    times = sorted( set([int(re_time.findall(os.path.basename(f))[0])
+        for f in glob.glob(os.path.join(parent_resultsdir,'T.*.data'))]))
     ntimes = len(times)
     # open up a temperature file, get depths from matrix size:
     T1 = mds.rdmds(os.path.join(parent_resultsdir,'T'),times[0])
-- 
2.43.0


From 3f165356f3f9cb644648385ba3ce0d19480cba6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:43 +0000
Subject: [PATCH 08/40] fix: getobcs reused interpolation weights of other
 grids of the same size left in resultsdir

---
 simplegrid/getobcs.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index add4809..d799573 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -2,6 +2,7 @@
 
 import argparse
 import glob
+import hashlib
 import numpy as np
 import os.path
 import re
@@ -81,15 +82,22 @@ def weightfilename( interp_meth, grid_in, grid_out, response_type, netcdf_ext):
         netcdf_ext (str): NetCDF file extension (typically '.nc')
 
     Returns:
-        Regridder filename string, e.g., 'bilinear_20x16_40x32_tracer.nc'
+        Regridder filename string, e.g., 'bilinear_20x16_40x32_tracer_<id>.nc',
+        where <id> identifies grid_in and grid_out coordinates (weights are only
+        reusable for one and the same pair of grids, equal sizes aren't enough).
 
     """
 
-    return '{0}_{1}x{2}_{3}x{4}_{5}.nc'.format(
+    grid_id = hashlib.sha1()
+    for grid in (grid_in,grid_out):
+        for coord in ('lon','lat'):
+            grid_id.update(np.ascontiguousarray(grid[coord],dtype='>f8').tobytes())
+
+    return '{0}_{1}x{2}_{3}x{4}_{5}_{6}.nc'.format(
         interp_meth,
         str(grid_in['lon'].shape[0]), str(grid_in['lon'].shape[1]),   # either
         str(grid_out['lon'].shape[0]), str(grid_out['lon'].shape[1]), # lon or lat
-        response_type, netcdf_ext)
+        response_type, grid_id.hexdigest()[:16])
 
 
 def getobcs( strict=False, verbose=False, **kwargs):
-- 
2.43.0


From 49e4e98c59b0ef46e6f7eeaabdde26b61444b6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:04 +0000
Subject: [PATCH 09/40] fix: getobcs ignored write errors (e.g., disk full) on
 boundary files

---
 simplegrid/getobcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index d799573..99c39b2 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -490,8 +490,9 @@ def getobcs( strict=False, verbose=False, **kwargs):
                     outarray = np.asfortranarray(obs[ob]['ob_array'],dtype='>f8')
                     filename = 'OB'+ob+response.lower() # plus an optional name?
                     fd = open(os.path.join(resultsdir,filename),'wb')
-                    outarray.tofile(fd)
-                    fd.close
+                    # (not outarray.tofile(fd), which loses write errors):
+                    fd.write(outarray.tobytes())
+                    fd.close()
 
 
 def main():
-- 
2.43.0


From 6b3cb620ef56a2ce6f5b2e4299c5bce4ce79026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:04 +0000
Subject: [PATCH 10/40] fix: getobcs wrote boundary files in C order (time
 fastest), not Fortran order

MITgcm reads them with the index along the boundary varying fastest, then
depth, then time. asfortranarray() was meant to do this, but ndarray.tofile()
always writes in C order, whatever the memory layout.
---
 simplegrid/getobcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 99c39b2..9aebc8f 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -491,7 +491,7 @@ def getobcs( strict=False, verbose=False, **kwargs):
                     filename = 'OB'+ob+response.lower() # plus an optional name?
                     fd = open(os.path.join(resultsdir,filename),'wb')
                     # (not outarray.tofile(fd), which loses write errors):
-                    fd.write(outarray.tobytes())
+                    fd.write(outarray.tobytes(order='F'))
                     fd.close()
 
 
-- 
2.43.0


From 337765fb909402bc2520ea6d356a978cf2a5c5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:04 +0000
Subject: [PATCH 11/40] fix: sggetobcs accepted only one index per boundary
 vector and required the optional resultsdir

---
 simplegrid/getobcs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 9aebc8f..cca16bd 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -38,21 +38,21 @@ def create_parser():
         number of tracer points in the regional model grid 'y' direction""")
     parser.add_argument('--parent_resultsdir', required=True, help="""
         MITgcm parent grid results directory""")
-    parser.add_argument('--OB_Jnorth', type=int, help="""
+    parser.add_argument('--OB_Jnorth', type=int, nargs='+', help="""
         North boundary vector of length ni_regional containing boundary tracer
         cell j indices per MITgcm OBCS package conventions.  Boundaries are
         ignored for any index vector that is identically zero, and defaults to
         edge tracer cell indices if not provided. Negative indices supported.""")
-    parser.add_argument('--OB_Jsouth', type=int, help="""
+    parser.add_argument('--OB_Jsouth', type=int, nargs='+', help="""
         South boundary vector of length ni_regional containing boundary tracer
         cell j indices (See --OB_JNorth comments)""")
-    parser.add_argument('--OB_Ieast', type=int, help="""
+    parser.add_argument('--OB_Ieast', type=int, nargs='+', help="""
         East boundary vector of length nj_regional containing boundary tracer
         cell i indices (See --OB_JNorth comments)""")
-    parser.add_argument('--OB_Iwest', type=int, help="""
+    parser.add_argument('--OB_Iwest', type=int, nargs='+', help="""
         West boundary vector of length nj_regional containing boundary tracer
         cell i indices (See --OB_JNorth comments)""")
-    parser.add_argument('--resultsdir', required=True, help="""
+    parser.add_argument('--resultsdir', help="""
         directory in which to store resulting open boundary condition matrices.
         Defaults to parent_resultsdir+'_obcs' if not provided.""")
     parser.add_argument('-s','--strict',action='store_true', help="""
-- 
2.43.0


From 219bd16e3aa45b5476490114cc2569d40e92512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:04 +0000
Subject: [PATCH 12/40] fix: wrmds ignored write errors (e.g., disk full) on
 its data file

---
 simplegrid/mds.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 4b2da70..3a59ca1 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -601,5 +601,7 @@ def wrmds(fbase, arr, itr=None, dataprec='float32', ndims=None, nrecords=None,
                 f.write("\n")
             f.write(" };\n")
 
-    arr.astype(tp).tofile(fbase + '.data')
+    # (not arr.tofile(), which loses write errors, e.g., disk full):
+    with open(fbase + '.data', 'wb') as f:
+        f.write(arr.astype(tp).tobytes())
 
-- 
2.43.0


From 22ea10850670148f427dfa2992fd0c6d242ab012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:22 +0000
Subject: [PATCH 13/40] fix: spherical area was NaN for cells with two
 coincident corners, e.g. at a pole

---
 simplegrid/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simplegrid/util.py b/simplegrid/util.py
index 3891c05..6b35e01 100644
--- a/simplegrid/util.py
+++ b/simplegrid/util.py
@@ -122,6 +122,8 @@ def squad_uarea( cart):
             A1 = np.arccos((ca-cb*cc)/(sb*sc))
             B1 = np.arccos((cb-ca*cc)/(sa*sc))
             C1 = np.arccos((cc-ca*cb)/(sa*sb))
+            if max(ca,cb,cc)>=1.:   # coincident corners, e.g. at a pole: no area
+                A1,B1,C1 = np.pi,0.,0.
 
             # interior angles of second subtriangle:
             at,bt,ct = ptA, ptC, ptD
@@ -130,6 +132,8 @@ def squad_uarea( cart):
             A2 = np.arccos((ca-cb*cc)/(sb*sc))
             B2 = np.arccos((cb-ca*cc)/(sa*sc))
             C2 = np.arccos((cc-ca*cb)/(sa*sb))
+            if max(ca,cb,cc)>=1.:   # coincident corners, e.g. at a pole: no area
+                A2,B2,C2 = np.pi,0.,0.
 
             # area:
             area[x_idx,y_idx] = A1+B1+C1 + A2+B2+C2 - 2*np.pi
-- 
2.43.0


From 9d1a515d0ca414895c6b0a4fe0702360dadc5f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 14/40] fix: sgmkgrid without, e.g., --lat1 wrote a grid of
 NaNs and reported success

---
 simplegrid/mkgrid.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/simplegrid/mkgrid.py b/simplegrid/mkgrid.py
index 645dfe0..793a59f 100644
--- a/simplegrid/mkgrid.py
+++ b/simplegrid/mkgrid.py
@@ -21,21 +21,21 @@ def create_parser():
             simply for orientation purposes. Either way, the output grid will be
             aligned such that 'northwest' is at min i, max j, and 'southeast' is
             at max i, min j.""")
-    parser.add_argument('--lon1', type=float, help="""
+    parser.add_argument('--lon1', type=float, required=True, help="""
         longitude of northwest corner point""")
-    parser.add_argument('--lat1', type=float, help="""
+    parser.add_argument('--lat1', type=float, required=True, help="""
         latitude of northwest corner point""")
-    parser.add_argument('--lon2', type=float, help="""
+    parser.add_argument('--lon2', type=float, required=True, help="""
         longitude of southeast corner point""")
-    parser.add_argument('--lat2', type=float, help="""
+    parser.add_argument('--lat2', type=float, required=True, help="""
         latitude of southeast corner point""")
-    parser.add_argument('--lon_subscale', type=int, help="""
+    parser.add_argument('--lon_subscale', type=int, required=True, help="""
         number of longitudinal subdivisions in the resulting grid (number of
         x-direction tracer cells)""")
-    parser.add_argument('--lat_subscale', type=int, help="""
+    parser.add_argument('--lat_subscale', type=int, required=True, help="""
         number of latitudinal subdivisions in the resulting grid (number of
         y-direction tracer cells)""")
-    parser.add_argument('--outfile', help="""
+    parser.add_argument('--outfile', required=True, help="""
         file to which grid matrices will be written (mitgridfile format)""")
     parser.add_argument('-v','--verbose',action='store_true',help="""
         verbose output""")
-- 
2.43.0


From 31a7812dc79aeb1208f08b6ce36610a15ada0d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 15/40] fix: lonlat2cart ignored rad, the radius of the sphere

---
 simplegrid/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simplegrid/util.py b/simplegrid/util.py
index 6b35e01..28a021e 100644
--- a/simplegrid/util.py
+++ b/simplegrid/util.py
@@ -34,6 +34,7 @@ def lonlat2cart( lons, lats, rad=1.):
     cart[:,:,0] = np.cos(np.radians(lons))*np.cos(np.radians(lats)) # x
     cart[:,:,1] = np.sin(np.radians(lons))*np.cos(np.radians(lats)) # y
     cart[:,:,2] = np.sin(np.radians(lats))                          # z
+    cart *= rad
 
     return cart
 
-- 
2.43.0


From c2c25175a31b35fc5f636ce78453855b64339743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 16/40] fix: rdmds with usememmap extended data files that are
 too short

np.memmap opens files for writing by default, and fills them up with zeros:
incomplete data files were changed and read as if complete, and read-only
files couldn't be read at all.
---
 simplegrid/mds.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 3a59ca1..666bb8c 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -265,10 +265,6 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
     """
     import functools
     usememmap = usememmap or mm
-    if usememmap:
-        readdata = np.memmap
-    else:
-        readdata = fromfileshape
 
     # add iteration number to file name unless itrs is -1
     additrs = itrs != -1
@@ -306,7 +302,8 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
 
     if usememmap:
         recsatonce = True
-        readdata = np.memmap
+        # (read only; the default, 'r+', extends files that are too short)
+        readdata = functools.partial(np.memmap, mode='r')
     else:
         recsatonce = allrec
         readdata = fromfileshape
-- 
2.43.0


From 29b511ab19c57a6eed9a7085463512bdc1f5dfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 17/40] fix: rdmds didn't recognize NaN or Inf other than the
 very np.nan, np.inf objects

---
 simplegrid/mds.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 666bb8c..2f9c021 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -268,13 +268,14 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
 
     # add iteration number to file name unless itrs is -1
     additrs = itrs != -1
-    if itrs is np.nan:
+    isnumber = np.isscalar(itrs) and not isinstance(itrs,str)
+    if isnumber and np.isnan(itrs):
         # all iterations
         itrs = scanforfiles(fnamearg)
         if verbose: warning('Reading {0} time levels: '.format(len(itrs)), *itrs)
         returnits = True
         itrsislist = True
-    elif itrs is np.inf:
+    elif isnumber and np.isinf(itrs):
         # last iteration
         itrs = scanforfiles(fnamearg)
         if len(itrs):
-- 
2.43.0


From a792772cfecb180754fc83bc00c413cae0993490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 18/40] fix: rdmds with squeeze=False failed for files of
 several records

---
 simplegrid/mds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 2f9c021..e04b604 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -463,7 +463,8 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
             squeezed = tuple( d for d in dims if d > 1 )
         else:
             # squeeze all that came from scalar arguments
-            keepers = [itrsislist, np.iterable(rec)] + [np.iterable(l) for l in lev]
+            # (several records of rec=None aren't singleton)
+            keepers = [itrsislist, np.iterable(rec) or allrec and nrecords > 1] + [np.iterable(l) for l in lev]
             squeezed = tuple( d for d,keep in zip(dims, keepers) if keep )
 
         arr = arr.reshape(squeezed+arr.shape[2+nlev:])
-- 
2.43.0


From dd20b159e82b262c5e3c1f5e6b999a7eddebcdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 19/40] fix: rdmds found no iterations of tiled files without
 the first tile

---
 simplegrid/mds.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index e04b604..b425a5f 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -158,16 +158,15 @@ def fromfileshape(filename,dtype,shape=None,**kwargs):
 def scanforfiles(fname):
     """ return list of iteration numbers for which metafiles with base fname exist """
     import glob
-    allfiles = glob.glob(fname + '.' + 10*'[0-9]' + '.001.001.meta')
+    # (any tile will do, the first one may be blank)
+    allfiles = glob.glob(fname + '.' + 10*'[0-9]' + 2*('.' + 3*'[0-9]') + '.meta')
     if len(allfiles) == 0:
         allfiles = glob.glob(fname + '.' + 10*'[0-9]' + '.meta')
         off = -5
     else:
         off = -13
 
-    itrs = [ int(s[off-10:off]) for s in allfiles ]
-    itrs.sort()
-    return itrs
+    return sorted(set([ int(s[off-10:off]) for s in allfiles ]))
 
 
 def readmeta(f):
-- 
2.43.0


From 70a77595304a6da8c357e8a087839b107547fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 20/40] fix: mds2mitgrid took grid files that can't be read for
 absent

A truncated or otherwise damaged file gave a grid without that field, without
any error.
---
 simplegrid/mds2mitgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simplegrid/mds2mitgrid.py b/simplegrid/mds2mitgrid.py
index 3696226..87baffc 100644
--- a/simplegrid/mds2mitgrid.py
+++ b/simplegrid/mds2mitgrid.py
@@ -28,13 +28,13 @@ def mds2mitgrid(rundir='./',verbose=False):
     for (name,ni_del,nj_del) in zip(mgf.names,mgf.ni_delta_sizes,mgf.nj_delta_sizes):
 
         # MITgcm may not have generated all standard grid files; just ignore
-        # those that aren't present:
+        # those that aren't present (but not those that can't be read):
 
         try:
             if verbose:
                 print('reading {0:>3s}...'.format(name),end='')
             tmp = mds.rdmds(rundir+os.sep+name).T
-        except:
+        except IOError:
             if verbose:
                 print('............no data')
             continue
-- 
2.43.0


From 09141588bb66d86e1b646098ad87941db64a257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 21/40] fix: getobcs without a parent grid raised
 AttributeError instead of ValueError

---
 simplegrid/getobcs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index cca16bd..d517a9a 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -200,6 +200,9 @@ def getobcs( strict=False, verbose=False, **kwargs):
             print('{0} {1}...'.format(readmsg,parent_resultsdir))
         (parent_mitgrid, ni_parent, nj_parent) = mds2mitgrid.mds2mitgrid(
             parent_resultsdir,verbose)
+        if parent_mitgrid['XG'] is None or parent_mitgrid['YG'] is None:
+            raise ValueError(
+                "Either parent_mitgridfile or parent_mitgrid_matrices must be provided.")
     if verbose:
         print('...successfully read {0}x{1} grid.'.format(ni_parent,nj_parent))
 
-- 
2.43.0


From 706260c3c3fe2003681fa08cfc2c8614489200a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 22/40] fix: getobcs accepted index vectors that don't fit the
 grid

A single index was silently used for the first column's result at all points,
and indices below -Nx, -Ny silently wrapped around.
---
 simplegrid/getobcs.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index d517a9a..b5a9ad6 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -268,6 +268,15 @@ def getobcs( strict=False, verbose=False, **kwargs):
 
     ob_jnorth, ob_jsouth, ob_ieast, ob_iwest = [np.atleast_1d(ob)
         for ob in (ob_jnorth, ob_jsouth, ob_ieast, ob_iwest)]
+    for (name,do_ob,ob,npoints,ncells) in (
+        ('OB_Jnorth', do_ob_jnorth, ob_jnorth, ni_regional, nj_regional),
+        ('OB_Jsouth', do_ob_jsouth, ob_jsouth, ni_regional, nj_regional),
+        ('OB_Ieast',  do_ob_ieast,  ob_ieast,  nj_regional, ni_regional),
+        ('OB_Iwest',  do_ob_iwest,  ob_iwest,  nj_regional, ni_regional)):
+        if do_ob and (len(ob)!=npoints or np.any(np.abs(ob)>ncells)):
+            raise ValueError(
+                '{0} must consist of {1} indices between {2} and {3}.'.format(
+                name,npoints,-ncells,ncells))
     if do_ob_jnorth:
         ob_jnorth = np.array([nj_regional+1+j if j<0 else j for j in ob_jnorth]) - 1
     if do_ob_jsouth:
-- 
2.43.0


From fb79be6311632427d02faea310af7fda3974b8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 23/40] fix: mds2mitgrid took grid files without their data
 file for absent

---
 simplegrid/mds2mitgrid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simplegrid/mds2mitgrid.py b/simplegrid/mds2mitgrid.py
index 87baffc..4a7b10a 100644
--- a/simplegrid/mds2mitgrid.py
+++ b/simplegrid/mds2mitgrid.py
@@ -1,4 +1,5 @@
 
+import glob
 import numpy as np
 import os
 
@@ -35,6 +36,9 @@ def mds2mitgrid(rundir='./',verbose=False):
                 print('reading {0:>3s}...'.format(name),end='')
             tmp = mds.rdmds(rundir+os.sep+name).T
         except IOError:
+            base = rundir+os.sep+name
+            if glob.glob(base+'.meta') or glob.glob(base+'.???.???.meta'):
+                raise
             if verbose:
                 print('............no data')
             continue
-- 
2.43.0


From 4de0f3439f2c91bd9891ff6d0ee6d3cdd28fb020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 24/40] fix: mds2mitgrid found nothing in a directory whose
 name has glob characters

---
 simplegrid/mds2mitgrid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simplegrid/mds2mitgrid.py b/simplegrid/mds2mitgrid.py
index 4a7b10a..8f00a27 100644
--- a/simplegrid/mds2mitgrid.py
+++ b/simplegrid/mds2mitgrid.py
@@ -26,6 +26,10 @@ def mds2mitgrid(rundir='./',verbose=False):
     mitgrid = {key:None for key in mgf.names}
     ni = nj = 0
 
+    # names are patterns to rdmds; that of an existing directory stands for itself:
+    if os.path.isdir(rundir):
+        rundir = glob.escape(rundir)
+
     for (name,ni_del,nj_del) in zip(mgf.names,mgf.ni_delta_sizes,mgf.nj_delta_sizes):
 
         # MITgcm may not have generated all standard grid files; just ignore
-- 
2.43.0


From 2bd01b114de013da52f22fe72fbd2fffb5d61024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 25/40] fix: getobcs found no results in a directory whose name
 has glob characters

---
 simplegrid/getobcs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index b5a9ad6..8f20cfb 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -358,6 +358,9 @@ def getobcs( strict=False, verbose=False, **kwargs):
     #
 
     # get integer time steps from filenames:
+    # (names are patterns here; that of an existing directory stands for itself):
+    if os.path.isdir(parent_resultsdir):
+        parent_resultsdir = glob.escape(parent_resultsdir)
     re_time = re.compile('\d+')
     # (once only, if there is more than one tile file per time step):
     times = sorted( set([int(re_time.findall(os.path.basename(f))[0])
-- 
2.43.0


From 62c85cf31ae8e6e810225b85938a1792a1ff06a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 26/40] fix: rdmds lost apostrophes at the ends of simulation
 names

---
 simplegrid/mds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index b425a5f..abe10a5 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -126,7 +126,8 @@ def parsemeta(metafile):
             val = [ parse1(s) for s in re.split(r'[, ] *',line) ]
         else:
             # {} can only contain single quote-delimited strings separated by space
-            val = [ s.rstrip() for s in re.split(r"'  *'", line.strip("'")) ]
+            # (strip delimiters only, not apostrophes at the ends of strings)
+            val = [ s.rstrip() for s in re.split(r"'  *'", re.sub(r"^'|'$", "", line)) ]
 
         d[key] = val
 
-- 
2.43.0


From b20dad72d5a7951f8981676abbe10f306afe42eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:47 +0000
Subject: [PATCH 27/40] fix: rdmds took too many levels under python -O

---
 simplegrid/mds.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index abe10a5..76ea2b2 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -362,7 +362,9 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
                     if rj0 < 0: rj0 += gdims[-2]
                     if rje < 0: rje += gdims[-2]
 
-                assert nlev+2 <= len(gdims)
+                # (not assert, without effect in python -O)
+                if nlev+2 > len(gdims):
+                    raise ValueError('More levels given than there are dimensions')
                 rdims = levdims + gdims[len(levdims):-2] + (rje-rj0,rie-ri0)
                 # always include itrs and rec dimensions and squeeze later
                 arr = np.empty((len(itrs),len(reclist))+rdims, astype)
-- 
2.43.0


From d78188b72106b911fde86f8a9d7d4b0f488ab52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 28/40] fix: tiles that touch a pole, or share two edges
 (rings), were not matched

---
 simplegrid/matchedges.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/simplegrid/matchedges.py b/simplegrid/matchedges.py
index 2285868..66eb8f2 100644
--- a/simplegrid/matchedges.py
+++ b/simplegrid/matchedges.py
@@ -100,6 +100,23 @@ def matchedges( aXG, aYG, bXG, bYG, geod, verbose=False):
     a_to_b_closest = np.less_equal(a_to_b_dist,nom_diag*config.POINTS_ARE_CLOSE_ENOUGH)
     b_to_a_closest = np.less_equal(b_to_a_dist,nom_diag*config.POINTS_ARE_CLOSE_ENOUGH)
 
+    # more corners than those of the common edge coincide if both tiles touch a
+    # pole (where an edge is but a point), or have two edges in common (in a
+    # ring); it's those of opposite edges that agree in all points that count:
+
+    for a_slice,b_slice in (
+            (np.s_[0,:],np.s_[-1,:]), (np.s_[-1,:],np.s_[0,:]),
+            (np.s_[:,0],np.s_[:,-1]), (np.s_[:,-1],np.s_[:,0])):
+        if aXG[a_slice].shape==bXG[b_slice].shape:
+            _,_,dist = geod.inv(
+                aXG[a_slice], aYG[a_slice], bXG[b_slice], bYG[b_slice])
+            if np.amax(dist) <= nom_diag*config.POINTS_ARE_CLOSE_ENOUGH:
+                a_to_b_closest[:] = False
+                a_to_b_closest[a_slice] = True
+                b_to_a_closest[:] = False
+                b_to_a_closest[b_slice] = True
+                break
+
     if np.all(a_to_b_closest[0,:]):
         a_edge          = W
         a_edge_slice    = (np.s_[0],np.s_[:])
-- 
2.43.0


From dd2b470793d17ffc4834e14bb6516c05ca148e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 29/40] fix: wrmds worked out iterations a step too early, e.g.
 for time 0.3 at steps of 0.1

---
 simplegrid/mds.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 76ea2b2..cee9179 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -552,7 +552,12 @@ def wrmds(fbase, arr, itr=None, dataprec='float32', ndims=None, nrecords=None,
 
     if deltat is not None:
         if itr is None:
-            itr = int(times[-1]//deltat)
+            # (times of whole steps needn't be whole multiples of deltat in
+            # floating point, e.g., 0.3 of 0.1)
+            itr = times[-1]/deltat
+            if np.isclose(itr,np.round(itr),rtol=1.e-12,atol=0.):
+                itr = np.round(itr)
+            itr = int(np.floor(itr))
         elif times is None:
             times = [ deltat*itr ]
         else:
-- 
2.43.0


From 83fa6518f3288bc38dda43b8f47db7f5e873e969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:47 +0000
Subject: [PATCH 30/40] fix: rdmds refused arrays of iteration numbers

---
 simplegrid/mds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index cee9179..7c75ccc 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -267,7 +267,7 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
     usememmap = usememmap or mm
 
     # add iteration number to file name unless itrs is -1
-    additrs = itrs != -1
+    additrs = np.iterable(itrs) or itrs != -1
     isnumber = np.isscalar(itrs) and not isinstance(itrs,str)
     if isnumber and np.isnan(itrs):
         # all iterations
-- 
2.43.0


From 16e2b59706708eb00bf6b50208bb403531eb618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:41 +0000
Subject: [PATCH 31/40] fix: regrid never ended for points beyond the poles, or
 not finite

---
 simplegrid/regrid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simplegrid/regrid.py b/simplegrid/regrid.py
index e295abf..95ffe2b 100644
--- a/simplegrid/regrid.py
+++ b/simplegrid/regrid.py
@@ -176,6 +176,10 @@ def regrid( strict=False, verbose=False, **kwargs):
     i_nw,j_nw,_ = util.nearest(lon1,lat1,mitgrid['XG'],mitgrid['YG'],geod)
     i_se,j_se,_ = util.nearest(lon2,lat2,mitgrid['XG'],mitgrid['YG'],geod)
 
+    # (nothing is near to a point that is not on the globe):
+    if i_nw<0 or i_se<0:
+        raise ValueError("lon/lat input pairs must be points on the globe.")
+
     # make sure diagonal corners and not degenerate sides have been input:
     if i_nw==i_se or j_nw==j_se:
         raise ValueError("lon/lat input pairs must be diagonally-opposed.")
-- 
2.43.0


From dff97b1ea19fce08b76ab4a5452dbbfabfc4bd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:41 +0000
Subject: [PATCH 32/40] fix: mkgrid made grids of NaNs for points left out,
 beyond the poles, or not finite

---
 simplegrid/mkgrid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simplegrid/mkgrid.py b/simplegrid/mkgrid.py
index 793a59f..805c07e 100644
--- a/simplegrid/mkgrid.py
+++ b/simplegrid/mkgrid.py
@@ -82,6 +82,10 @@ def mkgrid( verbose=False, **kwargs):
     lon_subscale= kwargs.get('lon_subscale')
     lat_subscale= kwargs.get('lat_subscale')
 
+    corners = np.array([lon1,lat1,lon2,lat2],dtype=float)   # (None is NaN)
+    if not np.all(np.isfinite(corners)) or np.any(np.abs(corners[1::2])>90.):
+        raise ValueError("lon/lat input pairs must be points on the globe.")
+
     # for now, assume spherical geoid (perhaps user-specified later):
     geod = pyproj.Geod(ellps='sphere')
 
-- 
2.43.0


From dc7b1678cfc466753e50fca039a89b9b7f99b5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:41 +0000
Subject: [PATCH 33/40] fix: tiles were matched along edges with points that
 are NaN

---
 simplegrid/matchedges.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplegrid/matchedges.py b/simplegrid/matchedges.py
index 66eb8f2..1e291bf 100644
--- a/simplegrid/matchedges.py
+++ b/simplegrid/matchedges.py
@@ -178,7 +178,7 @@ def matchedges( aXG, aYG, bXG, bYG, geod, verbose=False):
     _,_,edge_dist = geod.inv(
         aXG[a_edge_slice], aYG[a_edge_slice],
         bXG[b_edge_slice], bYG[b_edge_slice])
-    if np.amax(edge_dist) > nom_diag*config.POINTS_ARE_CLOSE_ENOUGH:
+    if not np.amax(edge_dist) <= nom_diag*config.POINTS_ARE_CLOSE_ENOUGH:
         raise ValueError('Input grid edges coincide at their end points only')
 
     if verbose:
-- 
2.43.0


From 993abb8ecc52df43d368ae46488a0f68842be23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:57 +0000
Subject: [PATCH 34/40] fix: read_mitgridfile and regrid took negative counts,
 and made them up

---
 simplegrid/gridio.py | 5 +++++
 simplegrid/regrid.py | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/simplegrid/gridio.py b/simplegrid/gridio.py
index b721614..f0d48fb 100644
--- a/simplegrid/gridio.py
+++ b/simplegrid/gridio.py
@@ -27,6 +27,7 @@ def read_mitgridfile(filename,ni,nj,strict=False,verbose=False):
 
     Raises:
         RuntimeError: If strict=True flags nonzero terms (see strict).
+        ValueError: If ni or nj are less than 1.
 
     Comments:
         - Nominal "north-south"/"east-west" directions depend on the particular
@@ -75,6 +76,10 @@ def read_mitgridfile(filename,ni,nj,strict=False,verbose=False):
                 -112.0900639 , -111.86579135]])
 
     """
+    # (negative dimensions would have numpy infer them):
+    if ni<1 or nj<1:
+        raise ValueError("ni, nj must be at least 1")
+
     # read raw data:
     slice_size = (ni+1)*(nj+1)
 
diff --git a/simplegrid/regrid.py b/simplegrid/regrid.py
index 95ffe2b..7a4eea5 100644
--- a/simplegrid/regrid.py
+++ b/simplegrid/regrid.py
@@ -144,6 +144,9 @@ def regrid( strict=False, verbose=False, **kwargs):
     elif xg_file and yg_file:
         mitgrid = {key:None for key in mitgridfilefields.names}
         if ni and nj:
+            # (negative dimensions would have numpy infer them):
+            if ni<1 or nj<1:
+                raise ValueError("ni, nj must be at least 1")
             # read .csv or binary column-ordered data (each file according to
             # its own extension), store in dictionary fields that
             # read_mitgridfile would have produced:
-- 
2.43.0


From ca313c4f04889761a738e328050e70abe4cedfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:19 +0000
Subject: [PATCH 35/40] fix: regrid and getobcs refused grids that go all the
 way around the globe

---
 simplegrid/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simplegrid/util.py b/simplegrid/util.py
index 28a021e..0ab0848 100644
--- a/simplegrid/util.py
+++ b/simplegrid/util.py
@@ -74,7 +74,12 @@ def nearest(lon,lat,lons,lats,geod):
             lon,lat,
             lons[it.multi_index[0],it.multi_index[1]],
             lats[it.multi_index[0],it.multi_index[1]])
-        if distance<dist:
+        # (of points at one place, e.g. longitudes 0 and 360, take the one that
+        # was asked for):
+        if distance<dist or (
+                distance==dist
+                and lons[it.multi_index]==lon and lats[it.multi_index]==lat
+                and not (lons[i,j]==lon and lats[i,j]==lat)):
             i,j,dist = it.multi_index[0],it.multi_index[1],distance
         it.iternext()
 
-- 
2.43.0


From ff43b8ad3ad1ce1aa5c0493db031933e0035c55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:57 +0000
Subject: [PATCH 36/40] fix: wrmds took numbers of dimensions that the array
 does not have, and wrote metadata to match

---
 simplegrid/mds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 7c75ccc..0389ff8 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -532,6 +532,9 @@ def wrmds(fbase, arr, itr=None, dataprec='float32', ndims=None, nrecords=None,
             assert n == nrecords
             ndims = len(dims)
 
+    if not 0 < ndims <= arr.ndim:
+        raise ValueError('ndims must be between 1 and the number of dimensions of arr')
+
     dims = arr.shape[-1:-ndims-1:-1]
     nrec = np.prod(arr.shape[:-ndims], dtype=int)
     if nrecords is not None and nrecords != nrec:
-- 
2.43.0


From aa91dc86c567d18f21387c5782750703de0cebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:28 +0000
Subject: [PATCH 37/40] fix: wrmds, if interrupted, left previous data with new
 metadata

---
 simplegrid/mds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 0389ff8..1f50295 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -569,6 +569,9 @@ def wrmds(fbase, arr, itr=None, dataprec='float32', ndims=None, nrecords=None,
     if itr is not None:
         fbase = fbase + '.{:010d}'.format(itr)
 
+    # (if interrupted, there mustn't be previous data with new metadata):
+    open(fbase + '.data', 'wb').close()
+
     with open(fbase + '.meta', 'w') as f:
         if simulation is not None:
             f.write(" simulation = { '" + simulation + "' };\n")
-- 
2.43.0


From 49f8d11ddea64b3a8c7a3d613b24aa6acf9252fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:58 +0000
Subject: [PATCH 38/40] fix: regrid took .csv data of other dimensions than ni,
 nj

---
 simplegrid/regrid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simplegrid/regrid.py b/simplegrid/regrid.py
index 7a4eea5..e1476b4 100644
--- a/simplegrid/regrid.py
+++ b/simplegrid/regrid.py
@@ -160,6 +160,9 @@ def regrid( strict=False, verbose=False, **kwargs):
             else:
                 YG_raw = np.fromfile(yg_file,mitgridfilefields.datatype)
                 mitgrid['YG'] = np.reshape(YG_raw,(ni+1,nj+1),order='F')
+            # (.csv data come with dimensions of their own):
+            if not (mitgrid['XG'].shape==mitgrid['YG'].shape==(ni+1,nj+1)):
+                raise ValueError("xg/yg_file data do not match ni, nj")
         else:
             raise ValueError("ni, nj required if xg/yg_file specified")
     elif mitgrid_matrices:
-- 
2.43.0


From bc3cb02a96fb356b176a7eb64eda355e00690e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:34 +0000
Subject: [PATCH 39/40] fix: areas of small cells in grids with larger ones
 were off, or negative, from round-off

---
 simplegrid/util.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/simplegrid/util.py b/simplegrid/util.py
index 0ab0848..35930e9 100644
--- a/simplegrid/util.py
+++ b/simplegrid/util.py
@@ -86,6 +86,12 @@ def nearest(lon,lat,lons,lats,geod):
     return i,j,dist
 
 
+def _spherical_excess(a,b,c):
+    """Spherical excess of a triangle of any size (a, b, c: unit vectors)."""
+    return 2.*np.arctan2( np.abs(np.dot(a,np.cross(b-a,c-a))),
+        1.+np.dot(a,b)+np.dot(b,c)+np.dot(c,a))
+
+
 # some geometries are poorly conditioned:
 @np.errstate(divide='ignore',invalid='ignore')
 def squad_uarea( cart):
@@ -103,10 +109,10 @@ def squad_uarea( cart):
     Note:
         One of many possible approaches, the algorithm implemented here is based
         on Girard's spherical excess formula, with direct calculation of angles
-        using the spherical law of cosines.  Note that, due to numerical
-        round-off, its results can be inaccurate for small angles/areas (edge
-        lengths less than roughly 5km on the scaled sphere).  In such cases,
-        pquad_uarea is recommended.
+        using the spherical law of cosines.  Since, due to numerical round-off,
+        its results are inaccurate for small angles/areas (edge lengths less
+        than roughly 5km on the scaled sphere), subtriangles with sides that
+        short are computed from their corner points instead.
 
     """
 
@@ -128,8 +134,9 @@ def squad_uarea( cart):
             A1 = np.arccos((ca-cb*cc)/(sb*sc))
             B1 = np.arccos((cb-ca*cc)/(sa*sc))
             C1 = np.arccos((cc-ca*cb)/(sa*sb))
-            if max(ca,cb,cc)>=1.:   # coincident corners, e.g. at a pole: no area
-                A1,B1,C1 = np.pi,0.,0.
+            E1 = 0.
+            if max(ca,cb,cc)>1.-1.e-6:  # short, or (e.g. at a pole) no sides: round-off
+                A1,B1,C1,E1 = np.pi,0.,0.,_spherical_excess(at,bt,ct)
 
             # interior angles of second subtriangle:
             at,bt,ct = ptA, ptC, ptD
@@ -138,11 +145,12 @@ def squad_uarea( cart):
             A2 = np.arccos((ca-cb*cc)/(sb*sc))
             B2 = np.arccos((cb-ca*cc)/(sa*sc))
             C2 = np.arccos((cc-ca*cb)/(sa*sb))
-            if max(ca,cb,cc)>=1.:   # coincident corners, e.g. at a pole: no area
-                A2,B2,C2 = np.pi,0.,0.
+            E2 = 0.
+            if max(ca,cb,cc)>1.-1.e-6:  # short, or (e.g. at a pole) no sides: round-off
+                A2,B2,C2,E2 = np.pi,0.,0.,_spherical_excess(at,bt,ct)
 
             # area:
-            area[x_idx,y_idx] = A1+B1+C1 + A2+B2+C2 - 2*np.pi
+            area[x_idx,y_idx] = A1+B1+C1 + A2+B2+C2 - 2*np.pi + E1+E2
 
     return area
 
-- 
2.43.0


From c56fa2c5b5122ad064b5ab84fae1dbbeea11fefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:24 +0000
Subject: [PATCH 40/40] fix: rdmds raised for more levels, some repeated, than
 the file has

---
 simplegrid/mds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 1f50295..a8f811e 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -396,7 +396,8 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
                 else:
                     raise NotImplementedError('Region selection is not implemented for map2glob != [0,1]')
 
-            sl = tuple( slice(i0,ie) for i0,ie in zip(i0s,ies) )
+            # (levels have been selected already)
+            sl = nlev*(slice(None),) + tuple( slice(i0,ie) for i0,ie in zip(i0s[nlev:],ies[nlev:]) )
             if map2gl is None:
                 # part of arr that will receive tile (all records)
                 arrtile = arr[(iit,slice(None))+sl]
-- 
2.43.0

