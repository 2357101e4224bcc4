From 83fec39f69087a9b5fa63bcfb50247ac51bec29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:53 +0000
Subject: [PATCH 01/14] fix: diff_1d_samesize read one element past the end of
 its input

The last difference was computed from x[x.size] (out of bounds) before being
overwritten by NaN.
---
 neutralocean/ppinterp/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/ppinterp/lib.py b/neutralocean/ppinterp/lib.py
index 5e57af9..ddf5760 100644
--- a/neutralocean/ppinterp/lib.py
+++ b/neutralocean/ppinterp/lib.py
@@ -11,7 +11,7 @@ def diff_1d_samesize(x):
     """
 
     d = np.empty(x.size, dtype=x.dtype)
-    for i in range(d.size):
+    for i in range(d.size - 1):
         d[i] = x[i + 1] - x[i]
     d[-1] = np.nan
     return d
-- 
2.43.0


From 87ffb4b7f34dc8a70c580ff27845c0ff8b72e312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:53 +0000
Subject: [PATCH 02/14] fix: veronis() always failed with current numpy, which
 has no np.trapz

---
 neutralocean/label.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutralocean/label.py b/neutralocean/label.py
index ce2b67b..8f31653 100644
--- a/neutralocean/label.py
+++ b/neutralocean/label.py
@@ -263,7 +263,8 @@ def _int_x_k(p, k, dp, P, Sppc, Tppc, eos_s_t):
 
     rs_, rt_ = eos_s_t(s_, t_, p_)
     y_ = rs_ * dsdp_ + rt_ * dtdp_
-    return np.trapz(y_, x=p_)
+    # Trapezoidal integration; np.trapz does not exist in numpy >= 2.4
+    return 0.5 * np.sum((y_[1:] + y_[:-1]) * (p_[1:] - p_[:-1]))
 
 
 # TODO
-- 
2.43.0


From 476191f6494ec78090a313459b98492d7d34437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:53 +0000
Subject: [PATCH 03/14] fix: do not swallow KeyboardInterrupt in bare except
 clauses

An interrupt that arrived in _xrs_in was lost altogether (the call went on and
returned p without name and attributes); elsewhere it was turned into a
ValueError or TypeError about the arguments.
---
 neutralocean/grid/xgcm.py         | 2 +-
 neutralocean/lib.py               | 6 +++---
 neutralocean/surface/isopycnal.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/neutralocean/grid/xgcm.py b/neutralocean/grid/xgcm.py
index 22143d9..056f95e 100644
--- a/neutralocean/grid/xgcm.py
+++ b/neutralocean/grid/xgcm.py
@@ -205,7 +205,7 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
     # Get index of tile in dims
     try:
         t = dims.index(tile)
-    except:
+    except ValueError:
         raise ValueError(
             f"Expected to find '{tile}' (the key from `face_connections`) in `dims` == {dims}."
         )
diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 4ab301e..0be3bc3 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -231,7 +231,7 @@ def _xrs_in(S, T, P, vert_dim):
         try:
             pxr.attrs.update(P.attrs)
             pxr.name = P.name
-        except:
+        except AttributeError:
             pxr.attrs.clear()
             pxr.name = None
 
@@ -253,7 +253,7 @@ def _process_vert_dim(vert_dim, S):
     if isinstance(vert_dim, str) and hasattr(S, "dims"):
         try:
             vert_dim = S.dims.index(vert_dim)
-        except:
+        except ValueError:
             raise ValueError(f"vert_dim = {vert_dim} not found in S.dims")
 
     return np.mod(vert_dim, S.ndim)
@@ -328,7 +328,7 @@ def _process_wrap(wrap, s=None, diags=False):
         try:
             # Convert dim names to tuple of bool
             wrap = tuple(x in wrap for x in s.dims)
-        except:
+        except AttributeError:
             raise TypeError(
                 "With wrap provided as strings, s must have a .dims attribute"
             )
diff --git a/neutralocean/surface/isopycnal.py b/neutralocean/surface/isopycnal.py
index 09ef93b..ad1ea7c 100644
--- a/neutralocean/surface/isopycnal.py
+++ b/neutralocean/surface/isopycnal.py
@@ -448,7 +448,7 @@ def _check_ref(ans_type, ref, isoval, pin_cast, pin_p, S):
     if not isinstance(pin_cast, (type(None), dict)):
         try:
             S[pin_cast]
-        except:
+        except Exception:
             raise ValueError(
                 'If provided, "pin_cast" must be able to index all but the'
                 " vertical dimension of S"
-- 
2.43.0


From 7fb9bb842e20c8718af599d59050a4afcb7d0a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:53 +0000
Subject: [PATCH 04/14] fix: val_at with an int index returned a view of T, and
 wrote NaN into T for k < 0

---
 neutralocean/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 0be3bc3..fdaac0e 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -186,7 +186,7 @@ def val_at(T, k):
     """
     if isinstance(k, int) or T.ndim == 1:
         # select the k'th element along the last dimension of T
-        Tk = T[..., k]
+        Tk = np.array(T[..., k])  # a copy, not a view of the input
     elif T.ndim == k.ndim + 1:
         # if k[i,j] == 0, this will index T[i,j,-1] which will be nan, so T_bot[i,j] == nan.
         Tk = np.take_along_axis(T, k[..., None], -1).squeeze()
-- 
2.43.0


From 5e978b9586535fee7ab21f659907697077e76b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:53 +0000
Subject: [PATCH 05/14] fix: graph.build_grid returned one array as both 'dist'
 and 'distperp'

---
 neutralocean/grid/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutralocean/grid/graph.py b/neutralocean/grid/graph.py
index bbf5456..fb257c7 100644
--- a/neutralocean/grid/graph.py
+++ b/neutralocean/grid/graph.py
@@ -238,7 +238,8 @@ def build_grid(G):
         a, b, _ = find(G)
 
         grid["edges"] = (a, b)
-        grid["dist"] = grid["distperp"] = np.ones(len(a))
+        grid["dist"] = np.ones(len(a))
+        grid["distperp"] = np.ones(len(a))
 
     return grid
 
-- 
2.43.0


From ab011f17709ba8f0567b966416f328d3eeb8b3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:11 +0000
Subject: [PATCH 06/14] fix: stabilize_ST lost its result unless vert_dim was
 last and data was float64

_process_casts copies data whose vertical dimension is not last, which is not
C-contiguous or not float64; the perturbations were then applied to the copy
and the caller's S and T silently kept their instabilities.
---
 neutralocean/stability.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/neutralocean/stability.py b/neutralocean/stability.py
index 933306f..d085b3e 100644
--- a/neutralocean/stability.py
+++ b/neutralocean/stability.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.optimize import minimize
 
-from neutralocean.lib import _process_casts
+from neutralocean.lib import _process_casts, _process_vert_dim, xr_to_np
 from neutralocean.ppinterp import valid_range_1
 
 
@@ -157,6 +157,11 @@ def stabilize_ST(S, T, P, eos, **kw):
     verbose = kw.pop("verbose", True)
     options = kw.pop("options", {"maxiter" : 1000})
 
+    # Views of the caller's data with the vertical dimension last.  `S` and `T`
+    # from `_process_casts` can be copies, so results must be written back here.
+    vert_axis = _process_vert_dim(vert_dim, S)
+    S_out, T_out = (np.moveaxis(xr_to_np(X), vert_axis, -1) for X in (S, T))
+
     S, T, P = _process_casts(S, T, P, vert_dim)
 
     hshape = S.shape[0:-1]
@@ -223,8 +228,8 @@ def stabilize_ST(S, T, P, eos, **kw):
             if res.success:
                 ΔS = res.x[0:n]
                 ΔT = res.x[n:]
-                S[c][k:K] += ΔS
-                T[c][k:K] += ΔT
+                S_out[c][k:K] = S1 + ΔS
+                T_out[c][k:K] = T1 + ΔT
             else:
                 raise RuntimeError(f"Cast {c} stabilization failed.")
 
-- 
2.43.0


From 08ec4e617041e9e2b78bcb91a638b0d49edc6b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 07/14] fix: an interrupt could leave a cast half-stabilised (S
 perturbed but T not)

Such a cast is neither the caller's data nor the stabilised data, and running
stabilize_ST again does not give the result of an undisturbed run.
---
 neutralocean/stability.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/neutralocean/stability.py b/neutralocean/stability.py
index d085b3e..d52148d 100644
--- a/neutralocean/stability.py
+++ b/neutralocean/stability.py
@@ -228,8 +228,16 @@ def stabilize_ST(S, T, P, eos, **kw):
             if res.success:
                 ΔS = res.x[0:n]
                 ΔT = res.x[n:]
-                S_out[c][k:K] = S1 + ΔS
-                T_out[c][k:K] = T1 + ΔT
+                S_new, T_new = S1 + ΔS, T1 + ΔT
+                S_old, T_old = S1.copy(), T1.copy()
+                try:
+                    S_out[c][k:K] = S_new
+                    T_out[c][k:K] = T_new
+                except BaseException:
+                    # Interrupted: do not leave S perturbed but T not.
+                    S_out[c][k:K] = S_old
+                    T_out[c][k:K] = T_old
+                    raise
             else:
                 raise RuntimeError(f"Cast {c} stabilization failed.")
 
-- 
2.43.0


From 95be5288c431f1dfac1d4b5f5ccb9ca6acbcaed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 08/14] fix: omega_surf dropped the diagnostics of its last
 iteration

The i'th elements of the diagnostics describe the i'th iteration, with element 0
for the initial surface, so there are iter_ + 1 of them; all but e_MAV and e_RMS
were trimmed to iter_, losing what the last iteration did although it had been
printed.  Also, ITER_MAX = 0 raised UnboundLocalError.
---
 neutralocean/surface/omega.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 473296b..ee23665 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -374,6 +374,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
     # --- Begin iterations
     # Note: the surface exists wherever p is non-nan.  The nan structure of s
     # and t is made to match that of p when the vertical solve step is done.
+    iter_ = 0  # ensure this is defined; needed if ITER_MAX == 0
     Δp_RMS = 0.0  # ensure this is defined; needed if TOL_P_CHANGE_RMS == 0
     for iter_ in range(1, ITER_MAX + 1):
         timer = time()
@@ -463,7 +464,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
     if diags:
         # Trim diagnostics
         for k, v in d.items():
-            d[k] = v[0 : iter_ + (k in ("e_MAV", "e_RMS"))]
+            d[k] = v[0 : iter_ + 1]
 
     # Reshape (from 1D arrays) and put into DataArrays if appropriate
     s, t, p = (
-- 
2.43.0


From 735e8abecda139bffda5999d80e469720f4c2b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 09/14] fix: tripolar.edgedata_to_maps returned views of its
 input

---
 neutralocean/grid/tripolar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutralocean/grid/tripolar.py b/neutralocean/grid/tripolar.py
index 0f5978b..88df2df 100644
--- a/neutralocean/grid/tripolar.py
+++ b/neutralocean/grid/tripolar.py
@@ -182,7 +182,7 @@ def edgedata_to_maps(edgedata, dims):
 
     nj, ni = dims
     Ej = ni * nj  # number of edges in j dimension
-    v = np.reshape(edgedata[:Ej], dims)
-    u = np.reshape(edgedata[Ej:], dims)
+    v = np.array(np.reshape(edgedata[:Ej], dims))  # a copy, not a view of the input
+    u = np.array(np.reshape(edgedata[Ej:], dims))
 
     return v, u
-- 
2.43.0


From 64ebd6d5e81078c0af188d297cab8d449d8dd4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 10/14] fix: anomaly_surf returned the caller's own ref list in
 d['ref']

---
 neutralocean/surface/isopycnal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neutralocean/surface/isopycnal.py b/neutralocean/surface/isopycnal.py
index ad1ea7c..61b9f5f 100644
--- a/neutralocean/surface/isopycnal.py
+++ b/neutralocean/surface/isopycnal.py
@@ -369,6 +369,8 @@ def _isopycnal(ans_type, S, T, P, **kwargs):
     # Error checking on (ref, isoval, pin_cast, pin_p), then convert this
     # selection to (ref, isoval) pair
     _check_ref(ans_type, ref, isoval, pin_cast, pin_p, S)
+    if isinstance(ref, list):
+        ref = tuple(ref)  # d["ref"] is documented as a tuple; do not return the caller's list
     ref, isoval = _choose_ref_isoval(
         ans_type, ref, isoval, pin_cast, pin_p, eos, S, T, P, ppc_fn
     )
-- 
2.43.0


From 82bc869cfe60af4fa47e7905db7fb59788b9ff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:33 +0000
Subject: [PATCH 11/14] fix: neutral_trajectory from a cast without data read
 and wrote out of bounds

With fewer than two valid bottles on the first cast, the interpolants were
built and evaluated on (nearly) empty arrays: out-of-bounds accesses in
compiled code, and p[0] = p0 with s[0] = t[0] = NaN.
---
 neutralocean/traj.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/neutralocean/traj.py b/neutralocean/traj.py
index 49c5c1d..4f831af 100644
--- a/neutralocean/traj.py
+++ b/neutralocean/traj.py
@@ -277,10 +277,13 @@ def neutral_trajectory(
 
         if c == 0:
             # Evaluate S and T on first cast at p0
-            Sppc = ppc_fn(Pc[k:K], Sc[k:K])
-            Tppc = ppc_fn(Pc[k:K], Tc[k:K])
-            s[0], t[0] = ppval_1_nonan_two(p0, Pc[k:K], Sppc, Tppc)
-            p[0] = p0
+            # (not possible with less than two valid data sites, or p0 out of range)
+            if K - k > 1:
+                Sppc = ppc_fn(Pc[k:K], Sc[k:K])
+                Tppc = ppc_fn(Pc[k:K], Tc[k:K])
+                s[0], t[0] = ppval_1_nonan_two(p0, Pc[k:K], Sppc, Tppc)
+            if np.isfinite(s[0]):
+                p[0] = p0
         else:
             # Make a neutral connection from previous bottle to the cast (S[c,:], T[c,:], P[c,:])
             s[c], t[c], p[c] = _ntp_bottle_to_cast(
-- 
2.43.0


From 0ac25a76b0382ce42cbf2dffa8ae48df3d709d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:33 +0000
Subject: [PATCH 12/14] fix: diff_1d_samesize wrote before the start of an
 empty array

Building an interpolant on a cast with no valid data (k == K), as when the
pinning cast has no data, wrote NaN to d[-1] of a size-0 array.
---
 neutralocean/ppinterp/lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutralocean/ppinterp/lib.py b/neutralocean/ppinterp/lib.py
index ddf5760..b98b348 100644
--- a/neutralocean/ppinterp/lib.py
+++ b/neutralocean/ppinterp/lib.py
@@ -13,7 +13,8 @@ def diff_1d_samesize(x):
     d = np.empty(x.size, dtype=x.dtype)
     for i in range(d.size - 1):
         d[i] = x[i + 1] - x[i]
-    d[-1] = np.nan
+    if d.size > 0:
+        d[-1] = np.nan
     return d
 
 
-- 
2.43.0


From 54c26a2c77e4eb89b9b5fd575cc1737d94c0fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:33 +0000
Subject: [PATCH 13/14] fix: isopycnal surface pinned on a cast without data
 had p but no s, t

p[pin_cast] was set to pin_p even when s and t could not be evaluated there.
---
 neutralocean/surface/isopycnal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/surface/isopycnal.py b/neutralocean/surface/isopycnal.py
index 61b9f5f..fd7c184 100644
--- a/neutralocean/surface/isopycnal.py
+++ b/neutralocean/surface/isopycnal.py
@@ -384,12 +384,12 @@ def _isopycnal(ans_type, S, T, P, **kwargs):
         # Adjust the surface at the pinning cast slightly, to match the pinning
         # pressure / depth.  This fixes small deviations of order `TOL_P_SOLVER`
         n = pin_cast
-        p[n] = pin_p
         Sn, Tn, Pn = S[n], T[n], P[n]
         k, K = valid_range_1(Sn + Pn)  # Sn and Tn have same nan-structure
         Sppcn = ppc_fn(Pn[k:K], Sn[k:K])
         Tppcn = ppc_fn(Pn[k:K], Tn[k:K])
         s[n], t[n] = ppval_1_two(pin_p, Pn[k:K], Sppcn, Tppcn)
+        p[n] = pin_p if np.isfinite(s[n]) else np.nan
 
     d = dict()
     d["ref"] = ref
-- 
2.43.0


From 541fb6434589dd9aa85464bafe22c127a0f8bd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:34 +0000
Subject: [PATCH 14/14] fix: guess_to_bounds never returned when the initial
 guess was NaN

---
 neutralocean/fzero.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neutralocean/fzero.py b/neutralocean/fzero.py
index 3f3b6a2..dac8479 100644
--- a/neutralocean/fzero.py
+++ b/neutralocean/fzero.py
@@ -178,6 +178,10 @@ def guess_to_bounds(f, x, A, B, args=()):
         Lower and upper bounds within which `f(x)` changes sign.
     """
 
+    # Protection against bad initial guess, which would lead to an infinite loop below
+    if np.isnan(x):
+        return (np.nan, np.nan)
+
     # Check value of f at bounds
     if f(A, *args) == 0.0:
         return (A, A)
-- 
2.43.0

