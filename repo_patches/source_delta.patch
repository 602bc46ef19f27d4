From 4835b6cc7b33f6214a39d9432e8a738081c940c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:53 +0000
Subject: [PATCH 001/119] fix: OnOff.pnsig(0) returned the whole array, and
 pnsig() exposed its cache

n=0 is a valid count but was taken for 'no argument'; and a numpy slice is a
view, so altering the returned array altered the cached probabilities.
---
 package/inference/count/onoff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index 03efa77..cb09826 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -202,12 +202,12 @@ class OnOff(object):
         if self.p_signal is None:
             self.p_signal = sigctp(self.on_cts, self.on_intvl,
                                    self.off_cts, self.off_intvl)
-        if n:
+        if n is not None:
             if n < 0 or n > self.on_cts:
                 raise ValueError('Number of source counts must be <= on_cts!')
             return self.p_signal[n]
         else:
-            return self.p_signal[:]  # return copy so cache can't be altered
+            return self.p_signal.copy()  # return copy so cache can't be altered
 
 
 # Interim documentation for the underlying Fortran extension module.
-- 
2.43.0


From 93a4e0bd1c7dbdac4a0b63fe292915385d323fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:53 +0000
Subject: [PATCH 002/119] fix: OnOff.siglml and sigmp truncated their results
 for integer signal arrays

The results were stored in an array of the argument's type.
---
 package/inference/count/onoff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index cb09826..65bd2d9 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -9,7 +9,7 @@ By Tom Loredo
 """
 
 
-from numpy import zeros_like
+from numpy import zeros
 from ._cbmlike import sigctp, psigc, slml_offset, vslml_offset, slmlike, \
     vslmlike, slmliked
 
@@ -106,7 +106,7 @@ class OnOff(object):
         except TypeError:
             if len(s.shape) != 1:
                 raise ValueError('sigll handles only 1-D arrays!')
-            llvals = zeros_like(s)
+            llvals = zeros(len(s))
             for i, sval in enumerate(s):
                 llvals[i], nt, err = slmlike(sval, self.on_cts, self.on_intvl,
                                              self.off_cts, self.off_intvl, self.offset, self.cutoff)
@@ -164,7 +164,7 @@ class OnOff(object):
         except TypeError:
             if len(s.shape) != 1:
                 raise ValueError('sigll handles only 1-D arrays!')
-            llvals = zeros_like(s)
+            llvals = zeros(len(s))
             for i, sval in enumerate(s):
                 llvals[i] = psigc(sval, self.on_intvl, self.p_signal)
             return llvals
-- 
2.43.0


From c204f3d5456926104341f1d77efb9aed2c074937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:54 +0000
Subject: [PATCH 003/119] fix: slmlike left its value undefined on
 under/overflow

vslmlike drops the error flag, so it returned whatever was on the stack.  Return
the log of the largest term, which is within log(nt) of the log likelihood.
---
 package/inference/count/_cbmlike.f | 1 +
 1 file changed, 1 insertion(+)

diff --git a/package/inference/count/_cbmlike.f b/package/inference/count/_cbmlike.f
index 7c7d2e7..bd0dd35 100644
--- a/package/inference/count/_cbmlike.f
+++ b/package/inference/count/_cbmlike.f
@@ -352,6 +352,7 @@ c---  the likelihood extremely far from the peak.  It should
 c---  never overflow, but we check anyway.
         if (lterm .lt. -700. .or. lterm .gt. 700.) then
             slike = 0.
+            slmlike = lterm
             print *, 'Under/overflow lterm in slike:'
             write(*,'(g12.4,2i6,2g12.4)') s, n_on, n_off, t_on, t_off
             ierr = 1
-- 
2.43.0


From 8bbd14f3445fa1a8ddf82906543fa2ed0575cd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:12 +0000
Subject: [PATCH 004/119] fix: xvalues wrote past the end of its result at an
 upward crossing too many

---
 package/inference/grid/_gridquad.f | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/package/inference/grid/_gridquad.f b/package/inference/grid/_gridquad.f
index 94366de..349021d 100644
--- a/package/inference/grid/_gridquad.f
+++ b/package/inference/grid/_gridquad.f
@@ -102,6 +102,10 @@ cf2py intent(out) xvals, nx, ok
 	do 20 i=1, n-1
 	    if (yarr(i) .lt. ycrit .and. yarr(i+1) .gt. ycrit) then
 	        nx = nx + 1
+	        if (nx .gt. nxvmax) then
+	            ok = .false.
+	            return
+	        endif
 	        xvals(nx) = xarr(i) + (xarr(i+1)-xarr(i)) *
      *            (ycrit - yarr(i)) / (yarr(i+1) - yarr(i))
 	    else if (yarr(i+1) .lt. ycrit .and. yarr(i) .gt. ycrit) then
-- 
2.43.0


From 64ddb28fc6237411b48c4e701ffbe7b25d2dee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:12 +0000
Subject: [PATCH 005/119] fix: xvalues lost a crossing that falls exactly on a
 grid point

---
 package/inference/grid/_gridquad.f | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/_gridquad.f b/package/inference/grid/_gridquad.f
index 349021d..749cf83 100644
--- a/package/inference/grid/_gridquad.f
+++ b/package/inference/grid/_gridquad.f
@@ -100,7 +100,7 @@ cf2py intent(out) xvals, nx, ok
 	ok = .true.
 	nx = 0
 	do 20 i=1, n-1
-	    if (yarr(i) .lt. ycrit .and. yarr(i+1) .gt. ycrit) then
+	    if (yarr(i) .lt. ycrit .and. yarr(i+1) .ge. ycrit) then
 	        nx = nx + 1
 	        if (nx .gt. nxvmax) then
 	            ok = .false.
@@ -108,7 +108,7 @@ cf2py intent(out) xvals, nx, ok
 	        endif
 	        xvals(nx) = xarr(i) + (xarr(i+1)-xarr(i)) *
      *            (ycrit - yarr(i)) / (yarr(i+1) - yarr(i))
-	    else if (yarr(i+1) .lt. ycrit .and. yarr(i) .gt. ycrit) then
+	    else if (yarr(i+1) .lt. ycrit .and. yarr(i) .ge. ycrit) then
 	        nx = nx + 1
 	        if (nx .gt. nxvmax) then
 	            ok = .false.
-- 
2.43.0


From 68989eeb643331cdd6e15b85c58886a558dddc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:12 +0000
Subject: [PATCH 006/119] fix: normal density ratios were wrong for more than
 one dimension

The density of an n-dim normal at nsig standard deviations is exp(-nsig**2/2)
times its peak, whatever n is.
---
 package/inference/grid/hpd.py     | 6 +++---
 package/inference/grid/hpdgrid.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index c783d9f..2997ddc 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -52,7 +52,7 @@ def prob2dens(nd, p):
     The n-dim normal PDF density bounding an HPD credible region of content p.
     """
     nsig = prob2sig(nd, p)
-    return exp(-0.5*nd * nsig**2)/rt2pi**nd
+    return exp(-0.5 * nsig**2)/rt2pi**nd
 
 
 def prob2ratio(nd, p):
@@ -61,7 +61,7 @@ def prob2ratio(nd, p):
     of content p (relative to the peak density).
     """
     nsig = prob2sig(nd, p)
-    return exp(-0.5*nd * nsig**2)
+    return exp(-0.5 * nsig**2)
 
 
 def sig2ratio(nd, nsig):
@@ -69,7 +69,7 @@ def sig2ratio(nd, nsig):
     The relative normal PDF density bounding an HPD credible region
     spanning nsig std deviations (relative to the peak density).
     """
-    return exp(-0.5*nd * nsig**2)
+    return exp(-0.5 * nsig**2)
 
 
 class HPD1D(object):
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index 5a4338c..d0f8ec5 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -52,7 +52,7 @@ def prob2dens(nd, p):
     The n-dim normal PDF density bounding an HPD credible region of content p.
     """
     nsig = prob2sig(nd, p)
-    return exp(-0.5*nd * nsig**2)/rt2pi**nd
+    return exp(-0.5 * nsig**2)/rt2pi**nd
 
 
 def prob2ratio(nd, p):
@@ -61,7 +61,7 @@ def prob2ratio(nd, p):
     of content p (relative to the peak density).
     """
     nsig = prob2sig(nd, p)
-    return exp(-0.5*nd * nsig**2)
+    return exp(-0.5 * nsig**2)
 
 
 def sig2ratio(nd, nsig):
@@ -69,7 +69,7 @@ def sig2ratio(nd, nsig):
     The relative normal PDF density bounding an HPD credible region
     spanning nsig std deviations (relative to the peak density).
     """
-    return exp(-0.5*nd * nsig**2)
+    return exp(-0.5 * nsig**2)
 
 
 class HPDGrid1D(object):
-- 
2.43.0


From e9790baab7d5de1801c27cb97722b737137b0c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:12 +0000
Subject: [PATCH 007/119] fix: HPD2D did not store yhi

---
 package/inference/grid/hpd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index 2997ddc..fc54add 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -221,7 +221,7 @@ class HPD2D(object):
             self.dx = log(xhi/xlo)/(self.nx-1)
         else:
             raise ValueError('Invalid xstep type!')
-        self.ylo, selfyxhi = ylo, yhi
+        self.ylo, self.yhi = ylo, yhi
         self.ny = logpdf.shape[1]
         if ystep == 'linear' or ystep == 'lin':
             self.ylinstep = True
-- 
2.43.0


From 11777e93f777ae702f75c39ddc540ed96a636904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:12 +0000
Subject: [PATCH 008/119] fix: HPD norms left out intervals where the PDF stays
 at its minimum

The quadrature counts what lies strictly above the level given to it, so with
the minimum as the level a flat floor counted as zero (and a flat PDF had norm
zero).
---
 package/inference/grid/hpd.py     | 4 ++--
 package/inference/grid/hpdgrid.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index fc54add..4395c3f 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -128,7 +128,7 @@ class HPD1D(object):
             for i, x in enumerate(self.xvals):
                 self.spdf[i] = self.spdf[i]*x
         # Find the overall normalization for spdf.
-        self.snorm = qgt1d(self.spdf, self.spdf.min())*self.dx
+        self.snorm = qgt1d(self.spdf, -1.)*self.dx
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.snorm) + self.max
         self.probs = []
@@ -243,7 +243,7 @@ class HPD2D(object):
             for j, y in enumerate(self.yvals):
                 self.spdf[:,j] = self.spdf[:,j]*y
         # Find the overall normalization for spdf.
-        self.norm = qgt2d(self.spdf, self.spdf.min())*self.dx*self.dy
+        self.norm = qgt2d(self.spdf, -1.)*self.dx*self.dy
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.norm) + self.max
         self.probs = []
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index d0f8ec5..2b71597 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -137,7 +137,7 @@ class HPDGrid1D(object):
             for i, x in enumerate(self.xvals):
                 self.spdf[i] = self.spdf[i]*x
         # Find the overall normalization for spdf.
-        self.snorm = qgt1d(self.spdf, self.spdf.min())*self.dx
+        self.snorm = qgt1d(self.spdf, -1.)*self.dx
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.snorm) + self.max
         self.probs = []
@@ -261,7 +261,7 @@ class HPDGrid2D(object):
             for j, y in enumerate(self.yvals):
                 self.spdf[:,j] = self.spdf[:,j]*y
         # Find the overall normalization for spdf.
-        self.norm = qgt2d(self.spdf, self.spdf.min())*self.dx*self.dy
+        self.norm = qgt2d(self.spdf, -1.)*self.dx*self.dy
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.norm) + self.max
         self.probs = []
-- 
2.43.0


From a9905ef18a4d60fe636fcfbc77aaae33ef00df60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:12 +0000
Subject: [PATCH 009/119] fix: critlevel failed to bracket the level of a PDF
 that varies little

With both guesses below the lowest density the difference is the same at both,
and the bracket was expanded the wrong way.
---
 package/inference/grid/hpd.py     | 6 ++++++
 package/inference/grid/hpdgrid.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index 4395c3f..4202bad 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -169,6 +169,9 @@ class HPD1D(object):
         lr2 = lr1 - 0.1
         # print 'Guesses:', lr1, lr2
         self._target = p
+        # If the guesses lie below the whole PDF, bracket from the mode.
+        if self.fracgt(lr1) >= 1.:
+            lr1 = 0.
         lr1, lr2 = zbracket(self._diff, lr1, lr2)
         # print 'Bracket:', lr1, lr2
         logratio = float(brentq(self._diff, lr1, lr2, xtol=tol))
@@ -275,6 +278,9 @@ class HPD2D(object):
         lr2 = lr1 - 0.1
         # print 'Guesses:', lr1, lr2
         self._target = p
+        # If the guesses lie below the whole PDF, bracket from the mode.
+        if self.fracgt(lr1) >= 1.:
+            lr1 = 0.
         lr1, lr2 = zbracket(self._diff, lr1, lr2)
         # print 'Bracket:', lr1, lr2
         logratio = float(brentq(self._diff, lr1, lr2, xtol=tol))
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index 2b71597..ca1d27b 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -179,6 +179,9 @@ class HPDGrid1D(object):
         lr2 = lr1 - 0.1
         # print 'Guesses:', lr1, lr2
         self._target = p
+        # If the guesses lie below the whole PDF, bracket from the mode.
+        if self.fracgt(lr1) >= 1.:
+            lr1 = 0.
         lr1, lr2 = zbracket(self._diff, lr1, lr2)
         # print 'Bracket:', lr1, lr2
         logratio = float(brentq(self._diff, lr1, lr2, xtol=tol))
@@ -293,6 +296,9 @@ class HPDGrid2D(object):
         lr2 = lr1 - 0.1
         # print 'Guesses:', lr1, lr2
         self._target = p
+        # If the guesses lie below the whole PDF, bracket from the mode.
+        if self.fracgt(lr1) >= 1.:
+            lr1 = 0.
         lr1, lr2 = zbracket(self._diff, lr1, lr2)
         # print 'Bracket:', lr1, lr2
         logratio = float(brentq(self._diff, lr1, lr2, xtol=tol))
-- 
2.43.0


From 5f78e5af94097068cb3d7e36c76c334fa5f282e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:12 +0000
Subject: [PATCH 010/119] fix: HPD regions on logarithmic grids

The regions are for p(log x), but levels were taken relative to the peak of
p(x), and the boundaries were those of p(x) at the level found for x*p(x).
---
 package/inference/grid/hpd.py     | 24 ++++++++++++------------
 package/inference/grid/hpdgrid.py | 28 ++++++++++++++--------------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index 4202bad..18491fc 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -121,12 +121,13 @@ class HPD1D(object):
             self.dx = log(xhi/xlo)/(self.nx-1)
         else:
             raise ValueError('Invalid step type!')
-        self.max = logpdf.max()
-        self.spdf = exp(logpdf-self.max)  # scaled PDF
         # For log steps, change variables to log(x).
-        if not self.linstep:
-            for i, x in enumerate(self.xvals):
-                self.spdf[i] = self.spdf[i]*x
+        if self.linstep:
+            self.lpdf = logpdf
+        else:
+            self.lpdf = logpdf + log(self.xvals)
+        self.max = self.lpdf.max()
+        self.spdf = exp(self.lpdf-self.max)  # scaled PDF
         # Find the overall normalization for spdf.
         self.snorm = qgt1d(self.spdf, -1.)*self.dx
         # lml is the log marginal likelihood if logpdf = prior*like.
@@ -180,7 +181,7 @@ class HPD1D(object):
         self.deltas.append(logratio)
         self.levels.append(self.max+logratio)
         # 10 is the max # boundaries; it should handle pretty bumpy PDFs!
-        bounds, nb, ok = xvalues(self.xvals, self.logpdf-self.max, logratio, 10)
+        bounds, nb, ok = xvalues(self.xvals, self.lpdf-self.max, logratio, 10)
         if not ok:
             raise RuntimeError('Too many boundary points in PDF!')
         bounds = bounds[:nb]
@@ -236,15 +237,14 @@ class HPD2D(object):
             self.dy = log(yhi/ylo)/(self.ny-1)
         else:
             raise ValueError('Invalid ystep type!')
-        self.max = logpdf.max()
-        self.spdf = exp(logpdf-self.max)  # Scaled PDF
         # For log steps, change variables to log(x or y).
+        self.lpdf = logpdf
         if not self.xlinstep:
-            for i, x in enumerate(self.xvals):
-                self.spdf[i,:] = self.spdf[i,:]*x
+            self.lpdf = self.lpdf + log(self.xvals)[:,None]
         if not self.ylinstep:
-            for j, y in enumerate(self.yvals):
-                self.spdf[:,j] = self.spdf[:,j]*y
+            self.lpdf = self.lpdf + log(self.yvals)
+        self.max = self.lpdf.max()
+        self.spdf = exp(self.lpdf-self.max)  # Scaled PDF
         # Find the overall normalization for spdf.
         self.norm = qgt2d(self.spdf, -1.)*self.dx*self.dy
         # lml is the log marginal likelihood if logpdf = prior*like.
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index ca1d27b..03334be 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -130,12 +130,13 @@ class HPDGrid1D(object):
         for i, x in enumerate(self.xvals):
             logpdf[i] = log_pdf(x)
         self.logpdf = logpdf
-        self.max = logpdf.max()
-        self.spdf = exp(logpdf-self.max)  # scaled PDF
         # For log steps, change variables to log(x).
-        if not self.linstep:
-            for i, x in enumerate(self.xvals):
-                self.spdf[i] = self.spdf[i]*x
+        if self.linstep:
+            self.lpdf = logpdf
+        else:
+            self.lpdf = logpdf + log(self.xvals)
+        self.max = self.lpdf.max()
+        self.spdf = exp(self.lpdf-self.max)  # scaled PDF
         # Find the overall normalization for spdf.
         self.snorm = qgt1d(self.spdf, -1.)*self.dx
         # lml is the log marginal likelihood if logpdf = prior*like.
@@ -190,7 +191,7 @@ class HPDGrid1D(object):
         self.deltas.append(logratio)
         self.levels.append(self.max+logratio)
         # 10 is the max # boundaries; it should handle pretty bumpy PDFs!
-        bounds, nb, ok = xvalues(self.xvals, self.logpdf-self.max, logratio, 10)
+        bounds, nb, ok = xvalues(self.xvals, self.lpdf-self.max, logratio, 10)
         if not ok:
             raise RuntimeError('Too many boundary points in PDF!')
         bounds = bounds[:nb]
@@ -204,7 +205,7 @@ class HPDGrid1D(object):
         return self.fracgt(logratio) - self._target
 
     def plot(self):
-        pl.plot(self.xvals, exp(self.logpdf))
+        pl.plot(self.xvals, exp(self.lpdf))
         xl, xu = self.xvals[0], self.xvals[-1]
         for level in self.levels:
             plevel = exp(level)
@@ -254,15 +255,14 @@ class HPDGrid2D(object):
             for j,y in enumerate(self.yvals):
                 logpdf[i,j] = log_pdf(x,y)
         self.logpdf = logpdf
-        self.max = logpdf.max()
-        self.spdf = exp(logpdf-self.max)  # Scaled PDF
         # For log steps, change variables to log(x or y).
+        self.lpdf = logpdf
         if not self.xlinstep:
-            for i, x in enumerate(self.xvals):
-                self.spdf[i,:] = self.spdf[i,:]*x
+            self.lpdf = self.lpdf + log(self.xvals)[:,None]
         if not self.ylinstep:
-            for j, y in enumerate(self.yvals):
-                self.spdf[:,j] = self.spdf[:,j]*y
+            self.lpdf = self.lpdf + log(self.yvals)
+        self.max = self.lpdf.max()
+        self.spdf = exp(self.lpdf-self.max)  # Scaled PDF
         # Find the overall normalization for spdf.
         self.norm = qgt2d(self.spdf, -1.)*self.dx*self.dy
         # lml is the log marginal likelihood if logpdf = prior*like.
@@ -315,4 +315,4 @@ class HPDGrid2D(object):
     def plot(self):
         x,y = pl.meshgrid(self.xvals,self.yvals)
         pl.figure()
-        pl.contour(x,y,self.logpdf,self.levels)
+        pl.contour(x,y,self.lpdf,self.levels)
-- 
2.43.0


From b71baf93e346c1d04bed75cf0dbc7bf480343944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:35 +0000
Subject: [PATCH 011/119] fix: xvalues gave NaN where the log PDF rises from
 -infinity

Interpolate an upward crossing from its upper end, as for a downward one.
---
 package/inference/grid/_gridquad.f | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/_gridquad.f b/package/inference/grid/_gridquad.f
index 749cf83..3f9111f 100644
--- a/package/inference/grid/_gridquad.f
+++ b/package/inference/grid/_gridquad.f
@@ -106,8 +106,8 @@ cf2py intent(out) xvals, nx, ok
 	            ok = .false.
 	            return
 	        endif
-	        xvals(nx) = xarr(i) + (xarr(i+1)-xarr(i)) *
-     *            (ycrit - yarr(i)) / (yarr(i+1) - yarr(i))
+	        xvals(nx) = xarr(i+1) - (xarr(i+1)-xarr(i)) *
+     *            (yarr(i+1) - ycrit) / (yarr(i+1) - yarr(i))
 	    else if (yarr(i+1) .lt. ycrit .and. yarr(i) .ge. ycrit) then
 	        nx = nx + 1
 	        if (nx .gt. nxvmax) then
-- 
2.43.0


From 63dceb4af0d84b7771dc264f38786648baef4804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:35 +0000
Subject: [PATCH 012/119] fix: LogSummer gave NaN for the std dev'n of equal
 values

---
 package/inference/utils/numutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/numutils.py b/package/inference/utils/numutils.py
index 71340db..c1a7d0a 100644
--- a/package/inference/utils/numutils.py
+++ b/package/inference/utils/numutils.py
@@ -143,7 +143,7 @@ class LogSummer:
             dif = 2*lmean - l2
             lsig = 0.5*l2
             if dif > -40:	# Otherwise the (-mean**2) part is below roundoff.
-                lsig += 0.5*log(1. - exp(dif))
+                lsig += 0.5*log(max(1. - exp(dif), 0.))
             return self.n, self.logSum, self.sigSum, lmean, lsig
         else:
             return self.n, self.logSum, lmean
-- 
2.43.0


From 6ce8b4ed97a521be6bc7f4ffaa1e83a21ef656be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:23 +0000
Subject: [PATCH 013/119] fix: stepfunc could leave the grid's range by
 roundoff at the endpoint

The endpoint was set and then overwritten; point() reports it the same way now.
---
 package/inference/grid/grid1d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 39f8fe7..5b84a0c 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -514,7 +514,7 @@ class BasicGrid1D:
         for i in range(self.n):
             if i == self.n-1:  # Avoid roundoff error at the endpoint.
                 x = self.hi
-            if self.isLin:
+            elif self.isLin:
                 x = self.lo + i*self.step
             else:
                 x = self.lo * exp(i*self.step)
@@ -648,7 +648,9 @@ class BasicGrid1D:
         # Get abscissa value, using a stored value if available.  If the ordinates
         # have been calculated, get the ordinate; otherwise use None.
         if (self.absc is None):
-            if self.isLin:
+            if i == self.n-1:
+                x = self.hi
+            elif self.isLin:
                 x = self.lo + i*self.step
             else:
                 x = self.lo * exp(i*self.step)
-- 
2.43.0


From c65894ba8fa53f8cd2bdaec672dfced78af7f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:23 +0000
Subject: [PATCH 014/119] fix: vecfunc never recorded maxima in a list that
 started empty

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 5b84a0c..7681d6b 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -595,7 +595,7 @@ class BasicGrid1D:
 
         # Now look for local maxima, with special treatment for
         # possible "half peaks" at the ends.
-        if self.lml:
+        if self.lml is not None:
             for i in range(2,self.n):
                 if self.valSeq:
                     y3 = self.vals[i-2:i+1, select]
-- 
2.43.0


From 1b05b5074651dead4958c8e42b1a0f08868152d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:23 +0000
Subject: [PATCH 015/119] fix: Grid1D could not be iterated over

---
 package/inference/grid/grid1d.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 7681d6b..bea6a04 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -872,13 +872,8 @@ class Grid1D:
         return self.glist[i].point(indx)
 
     def __iter__(self):
-        i = 0
-        while 1:
-            try:
-                yield self.__getitem__[i]
-            except IndexError:
-                raise StopIteration
-            i += 1
+        for i in range(self.totpts):
+            yield self[i]
 
     def firstpass(self, f, select=None, notify=None):
         """Apply func on the base grid."""
-- 
2.43.0


From de0a9c47ae4453e51965bb0911371302d186a83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:23 +0000
Subject: [PATCH 016/119] fix: Grid1D.logtrapzd_mom without moments called a
 method that does not exist

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index bea6a04..2ab6393 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -965,7 +965,7 @@ class Grid1D:
         the 1st and/or 2nd moments."""
 
         if not nmom:
-            return self.trapzd_log(select)
+            return self.logtrapzd(select)
 
         # Sum over the refined grids taking care to avoid overflows.
         vals = []
-- 
2.43.0


From 5b003e5656d6cda7288d05ab89f8dacfec41b6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:23 +0000
Subject: [PATCH 017/119] fix: elements of a LabeledMaxList could not be
 deleted

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 2ab6393..fef75ab 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -67,7 +67,7 @@ class LabeledMaxList:
     def __setitem__(self, n, val):
         self.list[n] = val
 
-    def __delitem__(self, n, val):
+    def __delitem__(self, n):
         del self.list[n]
 
     def __repr__(self):
-- 
2.43.0


From 92fd6258dce478b0944d59f31ec2a2236e11d2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:23 +0000
Subject: [PATCH 018/119] fix: LabeledMaxList.limitRange failed on an empty
 list

---
 package/inference/grid/grid1d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index fef75ab..448b74c 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -113,6 +113,8 @@ class LabeledMaxList:
         range.  This presumes the elements are the *logarithms* of the
         quantity of interest."""
 
+        if not self.list:
+            return
         logrange = log(dynrange)
         top = self.list[0][0]
         i = 1
-- 
2.43.0


From d892b8f5ba0b218aa7e11e5f8e8983c71917b3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:01 +0000
Subject: [PATCH 019/119] fix: refinement of logarithmic grids

Refined intervals of a logarithmic interval list were made linear, so that their
steps could not be compared with the base grid's, and some were never evaluated.
---
 package/inference/grid/grid1d.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 448b74c..4511d26 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -183,6 +183,7 @@ class BasicInterval:
             self.step = (self.hi-self.lo) / (n-1.)
         else:
             self.step = log(self.hi/self.lo) / (n-1.)
+            self.fac = exp(self.step)
 
 
 ################################################################################
@@ -218,6 +219,7 @@ class RefinedIntervalList1D:
                 raise ValueError("Zero boundary for log interval!")
         else:
             raise ValueError("Interval stype must be Lin or Log!")
+        self.stype = stype
         self.base = BasicInterval(self.lo, self.hi, n, stype=stype)
 
         # Initialize the list with the base interval.
@@ -312,7 +314,7 @@ class RefinedIntervalList1D:
             hi = hi_int[2]
         # Test if resolved.  Use lo_int rather than hi_int, because if
         # hi happens to hit an endpoint, hi_int's lo == its hi.
-        if 5*step > (lo_int[2]-lo_int[1]):  # resolved
+        if 5*step > self._stepSize(lo_int[1], lo_int[2], 2):  # resolved
             n = self._numPts(lo, hi, step)
         step = self._stepSize(lo, hi, n)
 
@@ -325,12 +327,12 @@ class RefinedIntervalList1D:
             self._del(nlo)
             if lo > int_lo.lo:
                 m = self._numPts(int_lo.lo, lo, int_lo.step)
-                self._insert(nlo, BasicInterval(int_lo.lo, lo, m))
+                self._insert(nlo, BasicInterval(int_lo.lo, lo, m, self.stype))
                 nlo = nlo + 1
-            self._insert(nlo, BasicInterval(lo, hi, n))
+            self._insert(nlo, BasicInterval(lo, hi, n, self.stype))
             if int_lo.hi > hi:
                 m = self._numPts(hi, int_lo.hi, int_lo.step)
-                self._insert(nlo+1, BasicInterval(hi, int_lo.hi, m))
+                self._insert(nlo+1, BasicInterval(hi, int_lo.hi, m, self.stype))
             self.merge()
             return
 
@@ -340,19 +342,19 @@ class RefinedIntervalList1D:
             self._del(nlo)
             if lo > int_lo.lo:
                 m = self._numPts(int_lo.lo, lo, int_lo.step)
-                self._insert(nlo, BasicInterval(int_lo.lo, lo, m))
+                self._insert(nlo, BasicInterval(int_lo.lo, lo, m, self.stype))
                 nlo = nlo + 1
                 nhi = nhi + 1        # Shift nhi since we're adding an intvl.
             m = self._numPts(lo, int_lo.hi, step)
-            self._insert(nlo, BasicInterval(lo, int_lo.hi, m))
+            self._insert(nlo, BasicInterval(lo, int_lo.hi, m, self.stype))
             nlo = nlo + 1
         if step < int_hi.step:
             self._del(nhi)
             m = self._numPts(int_hi.lo, hi, step)
-            self._insert(nhi, BasicInterval(int_hi.lo, hi, m))
+            self._insert(nhi, BasicInterval(int_hi.lo, hi, m, self.stype))
             if int_hi.hi > hi:
                 m = self._numPts(hi, int_hi.hi, int_hi.step)
-                self._insert(nhi+1, BasicInterval(hi, int_hi.hi, m))
+                self._insert(nhi+1, BasicInterval(hi, int_hi.hi, m, self.stype))
                 # We needn't update nhi here since range won't include it.
         for i in range(nlo, nhi):
             if self.ilist[i].step > step:
@@ -383,7 +385,7 @@ class RefinedIntervalList1D:
                 n = self.ilist[i].n + self.ilist[i+1].n - 1
                 self._del(i)
                 self._del(i)
-                self._insert(i, BasicInterval(lo, hi, n))
+                self._insert(i, BasicInterval(lo, hi, n, self.stype))
                 self.cumpts[i] = self.cumpts[i+1]
                 del self.cumpts[-1]
             else:
@@ -920,7 +922,7 @@ class Grid1D:
         if notify is not None:
             print("Refining among ",len(self.glist), " subgrids:")
         for grid in self.glist:
-            if grid.step != self.base.step:
+            if grid.vals is None:
                 if notify is not None:
                     print(">>>Refining over [",grid.lo,", ",grid.hi,"]...")
                 grid.stepfunc(self.func, select=self.select, notify=notify)
-- 
2.43.0


From 3cbcb34d2535dfa29dad84a68511877bd3d401f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:55 +0000
Subject: [PATCH 020/119] fix: roundoff in BasicInterval.locate led to sliver
 intervals and failures

The end of an interval came out an ulp off, so that refining next to it inserted
intervals of zero or roundoff width.
---
 package/inference/grid/grid1d.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 4511d26..5d5300f 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -163,16 +163,20 @@ class BasicInterval:
         number and endpoints (i, l, h).  This assumes x is
         in fact in the interval.  If x=hi, then i=n, and l=h=hi."""
 
+        # Roundoff must not put an x < hi at or past the endpoint, or give
+        # an endpoint that differs from hi.
+        if x >= self.hi:
+            return (self.n-1, self.hi, self.hi)
         if self.isLin:
-            i = int(floor((x-self.lo)/self.step))
+            i = min(int(floor((x-self.lo)/self.step)), self.n-2)
             l = self.lo + i*self.step
-            h = l + self.step
+            h = self.lo + (i+1)*self.step
         else:
-            i = int(floor(log(x/self.lo)/self.step))
+            i = min(int(floor(log(x/self.lo)/self.step)), self.n-2)
             l = self.lo * exp(i*self.step)
-            h = l * self.fac
-        if (i == self.n-1):
-            h = l
+            h = self.lo * exp((i+1)*self.step)
+        if i == self.n-2:
+            h = self.hi
         return (i, l, h)
 
     def resample(self, n):
-- 
2.43.0


From 15011d8fd69a28274f6c8d47336bb1e4c1df8768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:53 +0000
Subject: [PATCH 021/119] fix: adapt_vec used float workspace sizes, so that
 every call failed

---
 package/inference/integrate/adapt_vec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/integrate/adapt_vec.py b/package/inference/integrate/adapt_vec.py
index ff8f1e6..01c7384 100644
--- a/package/inference/integrate/adapt_vec.py
+++ b/package/inference/integrate/adapt_vec.py
@@ -39,14 +39,14 @@ def adapt_vec(nfuncs, vfunc, lower, upper, releps,
         num = 127
     elif (key == 0 and ndim >= 3) or key == 3:
         num = 1 + 8*ndim + 2*ndim*(ndim-1) + 4*ndim*(ndim-1) + \
-            4*ndim*(ndim-1)*(ndim-2)/3 + 2**ndim
+            4*ndim*(ndim-1)*(ndim-2)//3 + 2**ndim
     elif key == 4:
         num = 1 + 6*ndim + 2*ndim*(ndim-1) + 2**ndim
     else:
         raise ValueError('Illegal key value!')
 
     # Calculate the max number of subregions, and workspace size.
-    maxsub = (maxpts-num)/(2*num) + 1
+    maxsub = (maxpts-num)//(2*num) + 1
     nw = maxsub*(2*ndim+2*nfuncs+2) + 17*nfuncs + 1
     work = zeros(nw, float)
     print('Rule size, max subregions, workspace size:', num, maxsub, nw)
-- 
2.43.0


From b7f3859e5168fbf621735f26cb487392bc28a1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:10 +0000
Subject: [PATCH 022/119] fix: adapt ignored maxfac and wrkfac, and returned
 None for a bad dimension

---
 package/inference/integrate/adapt.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/package/inference/integrate/adapt.py b/package/inference/integrate/adapt.py
index 241ee2d..85536e7 100644
--- a/package/inference/integrate/adapt.py
+++ b/package/inference/integrate/adapt.py
@@ -60,7 +60,7 @@ def adapt_sizes(ndim, maxfac=100):
   """
   rulcls = 2**ndim + 2*ndim**2 + 6*ndim + 1
   minpts, maxpts = rulcls, maxfac*rulcls
-  lenwrk = (2*ndim + 3) * (1 + maxfac) / 2
+  lenwrk = (2*ndim + 3) * (1 + maxfac) // 2
   return minpts, maxpts, lenwrk
 
 
@@ -82,7 +82,10 @@ def adapt(func, lower, upper, relacc, maxfac=100, wrkfac=1):
     err = estimate of relative error of result
     ntps = # of function evaluations used
   """
-  minpts, maxpts, lenwrk = adapt_sizes(len(lower))
+  ndim = len(lower)
+  minpts, maxpts, lenwrk = adapt_sizes(ndim, maxfac)
+  # ADAPT stores 2*ndim+3 numbers per region, plus two totals.
+  lenwrk = max(int(wrkfac*lenwrk), 2*ndim + 5)
   npts, err, result, ifail = _adapt.adapt(lower, upper, minpts, maxpts,
                                           func, relacc, lenwrk)
   if ifail == 0:
@@ -91,3 +94,5 @@ def adapt(func, lower, upper, relacc, maxfac=100, wrkfac=1):
     raise RuntimeError('Failed to achieve specified accuracy; increase maxfac!')
   elif ifail == 2:
     raise RuntimeError('Failed to achieve specified accuracy; increase wrkfac!')
+  else:
+    raise ValueError('Need 2 to 20 dimensions, and maxfac >= 1!')
-- 
2.43.0


From c2d612217d0d20f2ce9ceed4519cd50a3d55fee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:01 +0000
Subject: [PATCH 023/119] fix: three plane cubature rules were not of their
 stated degree

The circularly symmetric rules e2r2_9_19a, e2r2_11_28c and e2r2_13_41 had all of
their polygons in the same orientation; some must be rotated by half of their
angle for the rules to be exact beyond degree 3 (11_28c), 5 (9_19a) and 9 (13_41).
---
 expt/integrate/make_ECF_rules.py           | 19 ++++---
 package/inference/integrate/_cub2d_auto.py | 64 +++++++++++-----------
 2 files changed, 44 insertions(+), 39 deletions(-)

diff --git a/expt/integrate/make_ECF_rules.py b/expt/integrate/make_ECF_rules.py
index b56f069..97645c6 100644
--- a/expt/integrate/make_ECF_rules.py
+++ b/expt/integrate/make_ECF_rules.py
@@ -154,7 +154,10 @@ def struct_handler(line_gen, result, arg):
             row = line_gen.next().split()
             n = int(row[1])
             r, w = float(row[2]), float(row[3])
-            result.circ_spec.append((n, r, w))
+            # The ECF listing leaves out the orientation of the polygons; a
+            # trailing 'rotated' marks ones rotated by half of their angle.
+            rotated = row[4:] == ['rotated']
+            result.circ_spec.append((n, r, w, rotated))
             npts += n
 
 @event_handler(r'^Rule struct:\s*(?P<arg>.*?)\s*$')
@@ -317,7 +320,7 @@ def ${name}(func):
             raise ValueError('Circularly symmetric rules valid only for 2-D!')
         self.abscissas = []
         self.weights = []
-        for n, r, wt in self.circ_spec:
+        for n, r, wt, rotated in self.circ_spec:
             if n == 1:
                 if r != 0.:
                     raise ValueError('Nonzero radius in 1-pt circular rule!')
@@ -327,6 +330,8 @@ def ${name}(func):
                 # Note we need a grid over n+1 angles; the 1st and last
                 # points correspond so we drop the last.
                 angles = linspace(0., 2*pi, n+1)[:-1]
+                if rotated:
+                    angles += pi/n
                 xvals, yvals = r*cos(angles), r*sin(angles)
                 for x, y in zip(xvals, yvals):
                     self.abscissas.append(array([x,y]))
@@ -578,7 +583,7 @@ Degree: 9
 Points: 19 [ 6-gon ] 
 Structure: Circular symmetric
 i	r(i)	w(i)
-1	6	2.E0 	2.4543692606170259E-2
+1	6	2.E0 	2.4543692606170259E-2 	rotated
 2	6	1.1024690870412086E0 	3.2447320274634297E-1
 3	6	2.3752273089667399E0 	5.5031089588349583E-3
 4	1	0.E0 	1.0144726277217040E0
@@ -591,9 +596,9 @@ Degree: 11
 Points: 28 [ 4-gon ] 
 Structure: Circular symmetric 
 i	r(i)	w(i)
-1	8	2.2360679774997896E0 	7.5398223686155037E-3
-2	4	1.3765979318520745E0 	1.5137267598023796E-1
-3	4	2.6825150931410771E0 	1.0294743039068897E-3
+1	8	2.2360679774997896E0 	7.5398223686155037E-3 	rotated
+2	4	1.3765979318520745E0 	1.5137267598023796E-1 	rotated
+3	4	2.6825150931410771E0 	1.0294743039068897E-3 	rotated
 4	4	6.1791116665497929E-1 	5.2680403237854616E-1
 5	4	1.5261898960020960E0 	9.0730267409198283E-2
 6	4	2.9220203379272203E0 	3.8206858832799763E-4
@@ -606,7 +611,7 @@ Degree: 13
 Points: 41 [ 10-gon ] 
 Structure: Circular symmetric
 i	r(i)	w(i)
-1	10	2.4494897427831780E0 	2.4240684055476799E-3
+1	10	2.4494897427831780E0 	2.4240684055476799E-3 	rotated
 2	10	9.2897653516474092E-1 	1.9404444552734862E-1
 3	10	1.7162505238049738E0 	4.4486553170629952E-2
 4	10	3.0727002354041088E0 	1.1853582819051242E-4
diff --git a/package/inference/integrate/_cub2d_auto.py b/package/inference/integrate/_cub2d_auto.py
index c80c7ad..1ab94f5 100644
--- a/package/inference/integrate/_cub2d_auto.py
+++ b/package/inference/integrate/_cub2d_auto.py
@@ -292,16 +292,16 @@ def e2r2_5_9a(func):
 
 
 e2r2_13_41_absc = array(
-    [[   2.4494897427831779e+00,    0.0000000000000000e+00],
-     [   1.9816788294587098e+00,    1.4397739464496353e+00],
-     [   7.5693395806712094e-01,    2.3296031814720810e+00],
-     [  -7.5693395806712049e-01,    2.3296031814720810e+00],
-     [  -1.9816788294587093e+00,    1.4397739464496355e+00],
-     [  -2.4494897427831779e+00,    2.9997597730436923e-16],
-     [  -1.9816788294587100e+00,   -1.4397739464496351e+00],
-     [  -7.5693395806712116e-01,   -2.3296031814720810e+00],
-     [   7.5693395806712016e-01,   -2.3296031814720810e+00],
-     [   1.9816788294587091e+00,   -1.4397739464496360e+00],
+    [[   2.3296031814720810e+00,    7.5693395806712060e-01],
+     [   1.4397739464496353e+00,    1.9816788294587098e+00],
+     [   1.4998798865218462e-16,    2.4494897427831779e+00],
+     [  -1.4397739464496351e+00,    1.9816788294587098e+00],
+     [  -2.3296031814720810e+00,    7.5693395806712094e-01],
+     [  -2.3296031814720815e+00,   -7.5693395806711938e-01],
+     [  -1.4397739464496355e+00,   -1.9816788294587093e+00],
+     [  -4.4996396595655380e-16,   -2.4494897427831779e+00],
+     [   1.4397739464496349e+00,   -1.9816788294587100e+00],
+     [   2.3296031814720810e+00,   -7.5693395806712116e-01],
      [   9.2897653516474088e-01,    0.0000000000000000e+00],
      [   7.5155780432383135e-01,    5.4603870709559477e-01],
      [   2.8706953674146096e-01,    8.8350918725372063e-01],
@@ -365,12 +365,12 @@ def e2r2_13_41(func):
 
 
 e2r2_9_19a_absc = array(
-    [[   2.0000000000000000e+00,    0.0000000000000000e+00],
-     [   1.0000000000000002e+00,    1.7320508075688772e+00],
-     [  -9.9999999999999967e-01,    1.7320508075688774e+00],
-     [  -2.0000000000000000e+00,    2.4492935982947064e-16],
-     [  -1.0000000000000009e+00,   -1.7320508075688767e+00],
-     [   9.9999999999999867e-01,   -1.7320508075688781e+00],
+    [[   1.7320508075688774e+00,    9.9999999999999989e-01],
+     [   1.2246467991473532e-16,    2.0000000000000000e+00],
+     [  -1.7320508075688774e+00,    9.9999999999999989e-01],
+     [  -1.7320508075688776e+00,   -9.9999999999999944e-01],
+     [  -3.6739403974420594e-16,   -2.0000000000000000e+00],
+     [   1.7320508075688767e+00,   -1.0000000000000009e+00],
      [   1.1024690870412086e+00,    0.0000000000000000e+00],
      [   5.5123454352060441e-01,    9.5476623626472401e-01],
      [  -5.5123454352060408e-01,    9.5476623626472423e-01],
@@ -405,22 +405,22 @@ def e2r2_9_19a(func):
 
 
 e2r2_11_28c_absc = array(
-    [[   2.2360679774997898e+00,    0.0000000000000000e+00],
-     [   1.5811388300841895e+00,    1.5811388300841898e+00],
-     [   1.3691967456605067e-16,    2.2360679774997898e+00],
-     [  -1.5811388300841895e+00,    1.5811388300841898e+00],
-     [  -2.2360679774997898e+00,    2.7383934913210134e-16],
-     [  -1.5811388300841902e+00,   -1.5811388300841893e+00],
-     [  -4.1075902369815199e-16,   -2.2360679774997898e+00],
-     [   1.5811388300841893e+00,   -1.5811388300841902e+00],
-     [   1.3765979318520745e+00,    0.0000000000000000e+00],
-     [   8.4292312547775463e-17,    1.3765979318520745e+00],
-     [  -1.3765979318520745e+00,    1.6858462509555093e-16],
-     [  -2.5287693764332635e-16,   -1.3765979318520745e+00],
-     [   2.6825150931410771e+00,    0.0000000000000000e+00],
-     [   1.6425667612398419e-16,    2.6825150931410771e+00],
-     [  -2.6825150931410771e+00,    3.2851335224796838e-16],
-     [  -4.9277002837195262e-16,   -2.6825150931410771e+00],
+    [[   2.0658574377159642e+00,    8.5570616863128390e-01],
+     [   8.5570616863128401e-01,    2.0658574377159642e+00],
+     [  -8.5570616863128379e-01,    2.0658574377159642e+00],
+     [  -2.0658574377159642e+00,    8.5570616863128413e-01],
+     [  -2.0658574377159646e+00,   -8.5570616863128368e-01],
+     [  -8.5570616863128512e-01,   -2.0658574377159638e+00],
+     [   8.5570616863128446e-01,   -2.0658574377159642e+00],
+     [   2.0658574377159638e+00,   -8.5570616863128524e-01],
+     [   9.7340173257997875e-01,    9.7340173257997864e-01],
+     [  -9.7340173257997864e-01,    9.7340173257997875e-01],
+     [  -9.7340173257997886e-01,   -9.7340173257997864e-01],
+     [   9.7340173257997842e-01,   -9.7340173257997886e-01],
+     [   1.8968246129953188e+00,    1.8968246129953186e+00],
+     [  -1.8968246129953186e+00,    1.8968246129953188e+00],
+     [  -1.8968246129953192e+00,   -1.8968246129953186e+00],
+     [   1.8968246129953183e+00,   -1.8968246129953192e+00],
      [   6.1791116665497925e-01,    0.0000000000000000e+00],
      [   3.7836146620071352e-17,    6.1791116665497925e-01],
      [  -6.1791116665497925e-01,    7.5672293240142704e-17],
-- 
2.43.0


From 8c17ecc9562dec4ca608e4591d9297a32aa10769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:30 +0000
Subject: [PATCH 024/119] fix: dllsteps and obsinfo could alter the caller's
 arrays

The step guesses were overwritten with the result, and the mle was left
displaced when the search failed or loglike raised an exception.
---
 package/inference/deriv/obsinfo.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/package/inference/deriv/obsinfo.py b/package/inference/deriv/obsinfo.py
index 74ab0b4..f464685 100644
--- a/package/inference/deriv/obsinfo.py
+++ b/package/inference/deriv/obsinfo.py
@@ -3,6 +3,8 @@ obsinfo - Tools for calculating the observed Fisher information matrix
 from log-likelihood functions.
 """
 
+from numpy import array
+
 from ._obsinfo import pk_scales, ninfol
 
 __all__ = ['dllsteps', 'obsinfo']
@@ -23,6 +25,8 @@ def dllsteps(loglike, mle, guess, dll=1., maxll=None, maxiter=20, tol=0.01):
     maxiter =   maximum number of iterations
     tol     =   tolerance (% of dll) for convergence
     """
+    # Work with copies; the Fortran code alters its arguments.
+    mle, guess = array(mle, float), array(guess, float)
     if maxll is None:
         maxll = loglike(mle)
     deltas, status = pk_scales(loglike, mle, maxll, dll, guess, maxiter, tol)
@@ -64,6 +68,9 @@ def obsinfo(loglike, mle, deltas, maxll=None, niter=2):
     # Note ninfol interprets # of iterations as # of sets of 2nd differences
     # to use, not # of Richardson extrapolation steps (i.e., #=1 corresponds
     # to plain 2nd differences, with no extrapolation).
+    # Work with a copy; the Fortran code alters its argument, and does not
+    # restore it if loglike raises an exception.
+    mle = array(mle, float)
     if maxll is None:
         maxll = loglike(mle)
     return ninfol(loglike, mle, maxll, deltas, niter+1)
-- 
2.43.0


From 6136811cd4919f031ace5b11b001453d7fe54a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:30 +0000
Subject: [PATCH 025/119] fix: dllsteps never returned for a parameter the log
 likelihood ignores

---
 package/inference/deriv/_obsinfo.f | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/package/inference/deriv/_obsinfo.f b/package/inference/deriv/_obsinfo.f
index acfe4ee..3bb59c6 100644
--- a/package/inference/deriv/_obsinfo.f
+++ b/package/inference/deriv/_obsinfo.f
@@ -80,6 +80,11 @@ c            print *, 'guess: ', i, x0, x(i), fnew
             endif
             del = fmax - fnew
             if (del .le. 0.) then
+c>>>  Give up if f does not depend on x(i).
+                if (s .gt. 1.d30) then
+                    status = 3
+                    return
+                endif
                 s = 1.3 * s
                 go to 10
             endif
-- 
2.43.0


From 37f87d3109558fffd98d655fc49cabfeefa45a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 026/119] fix: obsinfo read past its work arrays for negative
 niter

---
 package/inference/deriv/obsinfo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/deriv/obsinfo.py b/package/inference/deriv/obsinfo.py
index f464685..0e544ba 100644
--- a/package/inference/deriv/obsinfo.py
+++ b/package/inference/deriv/obsinfo.py
@@ -68,6 +68,8 @@ def obsinfo(loglike, mle, deltas, maxll=None, niter=2):
     # Note ninfol interprets # of iterations as # of sets of 2nd differences
     # to use, not # of Richardson extrapolation steps (i.e., #=1 corresponds
     # to plain 2nd differences, with no extrapolation).
+    if niter < 0:
+        raise ValueError('niter must not be negative!')
     # Work with a copy; the Fortran code alters its argument, and does not
     # restore it if loglike raises an exception.
     mle = array(mle, float)
-- 
2.43.0


From 40853ff2ea1692977bff670261be308fdee76261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:01 +0000
Subject: [PATCH 027/119] fix: dllsteps took a NaN log likelihood for
 convergence

---
 package/inference/deriv/_obsinfo.f | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/deriv/_obsinfo.f b/package/inference/deriv/_obsinfo.f
index 3bb59c6..44bab7e 100644
--- a/package/inference/deriv/_obsinfo.f
+++ b/package/inference/deriv/_obsinfo.f
@@ -104,7 +104,8 @@ c       write(9,'(i5,2(1pg12.4))') nit, x(i), fnew
                 status = 3
                 return
             endif
-            if (abs(fnew-f_c) .gt. tol) then
+c>>>  Test so that a NaN does not pass for convergence.
+            if (.not. (abs(fnew-f_c) .le. tol)) then
                 x(i) = x(i) + s*dx(i)
                 fp = f(n, x)
                 if (fp .gt. fmax) then
-- 
2.43.0


From d32648832b34c4d3d17408568672763bc14b68d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:28 +0000
Subject: [PATCH 028/119] fix: sigctp wrote outside its array for negative
 counts

---
 package/inference/count/_cbmlike.pyf | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/count/_cbmlike.pyf b/package/inference/count/_cbmlike.pyf
index 96a4c44..3325692 100644
--- a/package/inference/count/_cbmlike.pyf
+++ b/package/inference/count/_cbmlike.pyf
@@ -4,9 +4,9 @@
 python module _cbmlike ! in 
     interface  ! in :_cbmlike
         subroutine sigctp(n_on,t_on,n_off,t_off,c) ! in :_cbmlike:_cbmlike.f
-            integer intent(in) :: n_on
+            integer intent(in),check(n_on>=0) :: n_on
             real*8 intent(in) :: t_on
-            integer intent(in) :: n_off
+            integer intent(in),check(n_off>=0) :: n_off
             real*8 intent(in) :: t_off
             real*8 dimension(n_on + 1),intent(out),depend(n_on) :: c
         end subroutine sigctp
-- 
2.43.0


From d2b28bd8177e793bf98d26ecd57343f368167f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:50 +0000
Subject: [PATCH 029/119] fix: obsinfo returned an undefined value where the
 log likelihood is NaN

---
 package/inference/deriv/_obsinfo.f | 1 +
 1 file changed, 1 insertion(+)

diff --git a/package/inference/deriv/_obsinfo.f b/package/inference/deriv/_obsinfo.f
index 44bab7e..c49218c 100644
--- a/package/inference/deriv/_obsinfo.f
+++ b/package/inference/deriv/_obsinfo.f
@@ -307,6 +307,7 @@ C        if (n .gt. nmax) pause 'zextrap2:  n too big!'
         con2 = con * con
         hh = h
         a(1,1) = y(n)
+        result = y(n)
         err = big
 
         do 60 i=2, n
-- 
2.43.0


From ba399ad5e7f9b20d62e70c787a2094002acaccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:50 +0000
Subject: [PATCH 030/119] fix: MinBracket never returned for functions that
 level off or have no minimum

---
 package/inference/utils/nrmin.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/package/inference/utils/nrmin.py b/package/inference/utils/nrmin.py
index 7dbd9e2..66774e5 100644
--- a/package/inference/utils/nrmin.py
+++ b/package/inference/utils/nrmin.py
@@ -10,6 +10,7 @@ class MinBracket:
         GOLD = 1.618034
         TINY = 1.e-20
         MAXMAG = 100.
+        HUGE = 1.e200
         self.x1 = x1
         self.f1 = f(x1)
         self.xm = x2
@@ -20,8 +21,11 @@ class MinBracket:
         self.x2 = self.xm + GOLD*(self.xm - self.x1)
         self.f2 = f(self.x2)
         while 1:
-            if (self.fm < self.f2):
+            if (self.fm <= self.f2):
                 break
+            # A function with no minimum leads to infinity.
+            if not abs(self.x2) < HUGE:
+                raise IterErr('Failed to bracket a minimum!')
             d1 = (self.xm - self.x1)
             d2 = (self.xm - self.x2)
             r = d1*(self.fm - self.f2)
-- 
2.43.0


From fc4782a542c0315b63af228a075e504e9e7ca373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:50 +0000
Subject: [PATCH 031/119] fix: powell altered the caller's directions

---
 package/inference/utils/nrmin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/utils/nrmin.py b/package/inference/utils/nrmin.py
index 66774e5..4439bef 100644
--- a/package/inference/utils/nrmin.py
+++ b/package/inference/utils/nrmin.py
@@ -186,7 +186,8 @@ def powell(f, p, drxns=None, ftol=1.e-6, maxit=200, nlog=None, shuffle=False):
     n = len(p)
     if drxns is None:
         drxns = identity(n)
-        drxns = array(drxns, float)
+    # Work with a copy; the directions get altered below.
+    drxns = array(drxns, float)
     if shuffle:
         vec = drxns[0].copy()  # must copy!
         for i in range(n-1):
-- 
2.43.0


From 30810bbe4c1509be3a10484d9d5e49acc556d74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:50 +0000
Subject: [PATCH 032/119] fix: del_listener always failed

---
 package/inference/pie/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/pie/param.py b/package/inference/pie/param.py
index f8a3113..a427767 100644
--- a/package/inference/pie/param.py
+++ b/package/inference/pie/param.py
@@ -164,7 +164,7 @@ class ParamHandler(object):
 
     def del_listener(self, listener):
         try:
-            self.listener.remove(listener)
+            self.listeners.remove(listener)
         except ValueError:
             pass
 
-- 
2.43.0


From 6d99216386168e5b2f8bde9264aba32e71a49de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:17 +0000
Subject: [PATCH 033/119] fix: stepping over a parameter's range failed, and
 left it half changed

---
 package/inference/pie/realparam.py | 34 +++++++++++++++---------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index df6e6ed..1e0d434 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -125,17 +125,17 @@ class RealParamHandler(ScalarParamHandler):
         if self.bounded and hi != None:
             if hi < self.lo or hi > self.hi:
                 raise ParamRangeError("hi step out of parameter's allowed range!")
-        self.stype = lin_steps
+        if (lo is None or hi is None) and not self.bounded:
+            raise ValueError('Need a range for stepping parameter!')
         if lo is None:
-            self.slo = self.lo
-        else:
-            self.slo = lo
+            lo = self.lo
         if hi is None:
-            self.shi = self.hi
-        else:
-            self.shi = hi
-        self.steps = n
+            hi = self.hi
+        # Nothing is changed before all is known to be valid.
         self.delta = (hi-lo)/(n-1.)
+        self.stype = lin_steps
+        self.slo, self.shi = lo, hi
+        self.steps = n
         self.step_num = 0
         self._set_value(lo)
         self._set_status(stepping)
@@ -152,19 +152,19 @@ class RealParamHandler(ScalarParamHandler):
         if self.bounded and hi != None:
             if hi < self.lo or hi > self.hi:
                 raise ParamRangeError("hi step out of parameter's allowed range!")
+        if (lo is None or hi is None) and not self.bounded:
+            raise ValueError('Need a range for stepping parameter!')
+        if lo is None:
+            lo = self.lo
+        if hi is None:
+            hi = self.hi
         if lo*hi <= 0.:
             raise ValueError('Illegal (lo,hi) for log stepping (need same sign)!')
+        # Nothing is changed before all is known to be valid.
+        self.fac = exp(log(hi/lo)/(n-1.))
         self.stype = log_steps
-        if lo:
-            self.slo = lo
-        else:
-            self.slo = self.lo
-        if hi:
-            self.shi = hi
-        else:
-            self.shi = self.hi
+        self.slo, self.shi = lo, hi
         self.steps = n
-        self.fac = exp(log(hi/lo)/(n-1.))
         self.step_num = 0
         self._set_value(lo)
         self._set_status(stepping)
-- 
2.43.0


From fb890598adb72010a15f4b58b4d9082a60ae2b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:17 +0000
Subject: [PATCH 034/119] fix: vary left a parameter varying, with a new range,
 when it refused the start value

---
 package/inference/pie/realparam.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index 1e0d434..c526e92 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -227,23 +227,26 @@ class RealParamHandler(ScalarParamHandler):
         return self.step_num
 
     def vary(self, start=None, delta=None, range=None):
+        # Verify everything before changing anything.
         if not range:
             if not self.bounded:
                 raise ValueError('Need a range for varying parameter!')
+            lo, hi = self.lo, self.hi
         else:
-            self.range(range)
-        if delta is not None:
-            self.delta = delta
-        else:  # *** Perhaps use a default delta (& warn if so)?
+            lo, hi = float(min(range)), float(max(range))
+        if delta is None:  # *** Perhaps use a default delta (& warn if so)?
             if self.delta == None:
                 raise ValueError('Need a delta for varying parameter!')
+            delta = self.delta
+        value = self._value if start is None else start
+        if not (value >= lo and value <= hi):
+            raise ParamRangeError("Value out of parameter's allowed range!")
+        if range:
+            self.range(range)
+        self.delta = delta
         self._set_status(varying)
-        # *** Can harm be done by setting status before verifying
-        # the start value?
-        if start != None:
-            self.set_value(start)  # Note: this will verify in range.
-        elif self._value == None:
-            raise ValueError('Need a start value for varying parameter!')
+        if start is not None:
+            self.set_value(start)
 
     def check(self, percent=1.):
         if self.status != varying:
-- 
2.43.0


From fc3b770a3d39e67f8fb5f2489f9f8ad8e1b50bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:17 +0000
Subject: [PATCH 035/119] fix: a model's parameters were added to those of its
 base class

---
 package/inference/pie/param.py     | 7 ++++---
 package/inference/pie/predictor.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/package/inference/pie/param.py b/package/inference/pie/param.py
index a427767..51f5e31 100644
--- a/package/inference/pie/param.py
+++ b/package/inference/pie/param.py
@@ -85,10 +85,11 @@ class Param(AutoNamed):
         self.value_name = '__' + name + '_val'
         self.handler_name = '__' + name + '_hndlr'
         # Keep a list of param names in the class dict.
-        try:
+        # Don't share the list with a base class.
+        if 'param_names' not in cls.__dict__:
+            cls.param_names = list(getattr(cls, 'param_names', []))
+        if name not in cls.param_names:
             cls.param_names.append(name)
-        except AttributeError:
-            cls.param_names = [name]
 
     def __get__(self, inst, owner):
         # On access (via an Inference instance), the arguments will be:
diff --git a/package/inference/pie/predictor.py b/package/inference/pie/predictor.py
index be542d3..252140d 100644
--- a/package/inference/pie/predictor.py
+++ b/package/inference/pie/predictor.py
@@ -59,10 +59,11 @@ class Predictor(AutoNamed):
         self.name = name
         self.handler_name = '__' + name + '_hndlr'
         # Keep a list of predictor names in the class dict.
-        try:
+        # Don't share the list with a base class.
+        if 'predictor_names' not in cls.__dict__:
+            cls.predictor_names = list(getattr(cls, 'predictor_names', []))
+        if name not in cls.predictor_names:
             cls.predictor_names.append(name)
-        except AttributeError:
-            cls.predictor_names = [name]
 
     def clone(self):
         # ??? Can this be abstracted here?
-- 
2.43.0


From f9c247f1a70ae30ad24eae3ab344b6e3c3347b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:00 +0000
Subject: [PATCH 036/119] fix: inferences defined interactively, or with
 subclassed or unusually spaced models, failed or lost their parameters

---
 package/inference/pie/inference_base.py | 104 +++---------------------
 1 file changed, 11 insertions(+), 93 deletions(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 3e96ac2..a81312d 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -2,8 +2,6 @@
 Utilities and base class for inferences.
 """
 
-import inspect
-
 from .param import *
 from .autoname import HasAutoNamed
 from .signalmodel import SignalModel, StopStepping
@@ -85,101 +83,21 @@ class Inference(HasAutoNamed):
         # *** Provide hooks for storing state or calculating candidate state
         # before storing it, to facilitate MCMC.
 
-        # Reorder the param names associated with this inference to reflect
-        # the order in the source code (the metaclass will order them in a
-        # shuffled order, the order of keys in the class dict).
-        # First, get the SignalModel and Predictors mixin classes.
-        for cls in self.__class__.__bases__:
-            if SignalModel in cls.__bases__:
+        # Find the SignalModel and PredictorSet mixin classes.
+        for cls in reversed(self.__class__.__mro__):
+            if issubclass(cls, Inference):
+                continue
+            if issubclass(cls, SignalModel):
                 self.signal_class = cls
-            elif PredictorSet in cls.__bases__:
+            elif issubclass(cls, PredictorSet):
                 self.pred_class = cls
-        # Get the names of params and predictors from the mixins.
-        # Get them from source if available, to preserve the order
-        # in which the user defined them.
+        # Get the names of params and predictors from the mixins; they are in
+        # the order in which the user defined them.
         # Be careful gathering params; the PredictorSet mixin class
         # may have params.
-        try:
-            unordered = self.signal_class.param_names[:]
-            self.params = self._get_signal_names(unordered)
-        except:
-            self.params = []
-        try:
-            unordered = self.pred_class.param_names[:]
-        except:
-            unordered = []
-        oparams, self.predictors = self._get_pred_names(unordered)
-        self.params.extend(oparams)
-        # Make sure params are unique; i.e., that the Predictors class
-        # hasn't duplicated a param name.
-        if len(set(self.params)) != len(self.params):
-            raise InferenceError('A parameter name is duplicated within this inference!')
-
-    def _get_signal_names(self, signal_params):
-        """Use the source for the SignalModel and Predictors mixins to
-        fix the order of param and predictor names.  If source is
-        unavailable, just grab the names from the mixin class dicts."""
-        # Be careful gathering params; the Predictors mixin class
-        # may have params.
-        oparams = []
-        try:
-            source = inspect.getsourcelines(self.signal_class)[0]
-            for line in source:
-                line = line.strip()
-                for param in signal_params:
-                    # *** Use a regexp here to match any white space b/4 '='.
-                    if line.startswith(param+' =') or line.startswith(param+'='):
-                        oparams.append(param)
-                        signal_params.remove(param)
-            if signal_params != []:
-                raise InferenceError('Some params not defined in SignalModel source!')
-        except IOError:  # Only in the unlikely event of interactive model def'n
-            print('Could not locate SignalModel source; proceeding with unordered params.')
-            oparams = self.signal_class.param_names
-        except TypeError:  # This is needed due to an apparent bug in inspect (failure can raise TypeError).
-            print('Could not locate SignalModel source; proceeding with unordered params.')
-            print('(Note: This may be due to a bug in inspect.py)')
-            oparams = self.signal_class.param_names
-        return oparams
-
-    def _get_pred_names(self, pred_params):
-        """Use the source for the SignalModel and Predictors mixins to
-        fix the order of param and predictor names.  If source is
-        unavailable, just grab the names from the mixin class dicts."""
-        # Be careful gathering params; the Predictors mixin class
-        # may have params.
-        oparams = []
-        try:
-            source = inspect.getsourcelines(self.pred_class)[0]
-            if pred_params:
-                for line in source:
-                    line = line.strip()
-                    for param in pred_params:
-                        if line.startswith(param+' =') or line.startswith(param+'='):
-                            oparams.append(param)
-                            pred_params.remove(param)
-                if pred_params != []:
-                    raise InferenceError('Some params not defined in Predictors source!')
-            # Now do the same to get the Predictor order.
-            opreds = []
-            preds = self.pred_class.predictor_names[:]
-            for line in source:
-                line = line.strip()
-                for pred in preds:
-                    if line.startswith(pred+' =') or line.startswith(pred+'='):
-                        opreds.append(pred)
-                        preds.remove(pred)
-            if preds != []:
-                raise InferenceError('Some Predictor(s) not defined in Predictors source!')
-        except IOError:  # Only in the unlikely event of interactive pred. def'n
-            print('Could not locate PredictorSet source; proceeding with unordered params.')
-            oparams.extend(self.pred_class.param_names)
-            opreds = self.pred_class.predictor_names
-        except:  # This is needed due to an apparent bug in inspect (failure can raise TypeError).
-            print('Could not locate PredictorSet source; proceeding with unordered params.')
-            oparams.extend(self.pred_class.param_names)
-            opreds = self.pred_class.predictor_names
-        return oparams, opreds
+        self.params = list(getattr(self.signal_class, 'param_names', []))
+        self.params.extend(getattr(self.pred_class, 'param_names', []))
+        self.predictors = list(self.pred_class.predictor_names)
         # Make sure params are unique; i.e., that the Predictors class
         # hasn't duplicated a param name.
         if len(set(self.params)) != len(self.params):
-- 
2.43.0


From 272a86b492b0799778e93bb83e2f4e4bc9078488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:00 +0000
Subject: [PATCH 037/119] fix: do_grid left out the points before the current
 step

---
 package/inference/pie/inference_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index a81312d..3fa4173 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -331,6 +331,8 @@ class Inference(HasAutoNamed):
         collected and returned as a SimpleVectorGrid.  The method and
         tol arguments get passed to the resulting optimize() calls.
         """
+        # Start at the first point, wherever earlier stepping has led.
+        self.reset_steps()
         results = ScalarGrid(self.stepping_params)
         vdim = len(self.varying_params)
         # if vargrid and (vdim == 0):
-- 
2.43.0


From d526b0fa24925502a912441a49b5657ab350bd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:00 +0000
Subject: [PATCH 038/119] fix: do_grid failed with vargrid and no varying
 parameters

---
 package/inference/pie/inference_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 3fa4173..a0776b8 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -337,7 +337,8 @@ class Inference(HasAutoNamed):
         vdim = len(self.varying_params)
         # if vargrid and (vdim == 0):
         #    raise InferenceError, 'vargrid argument invalid with no varying params!'
-        if self.varying_params and vargrid:
+        vargrid = vargrid and vdim > 0
+        if vargrid:
             vresults = VectorGrid(self.stepping_params, self.varying_params)
         opt_val = None
         nstep = 0
-- 
2.43.0


From 6c115051dd6c4cdfe66135364446e9ac6a08a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:00 +0000
Subject: [PATCH 039/119] fix: optimize ignored its tolerance

---
 package/inference/pie/inference_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index a0776b8..2860a87 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -409,6 +409,7 @@ class Inference(HasAutoNamed):
         if tol is None:
             if self.min_tol is None:
                 raise InferenceError('No minimization tolerance has been specified!')
+            tol = self.min_tol
         # Most methods require a vector of starting param values and
         # a scale for each; collect this info here (transformed if necessary).
         p, d = [], []
@@ -446,7 +447,7 @@ class Inference(HasAutoNamed):
             # subspace.
             dd = 0.2 * identity(len(d)) * array(d, float)
             params, extremum, extra = powell(self._score, params[:], drxns=dd,
-                                             ftol=1.e-3, maxit=200, shuffle=True)
+                                             ftol=tol, maxit=200, shuffle=True)
         else:
             raise InferenceError('Invalid minimization method specified!')
         if self.extremize == maximize:  # adjust for sign reversal
-- 
2.43.0


From acfdf32ac3ffd8d22bbd2a996aeb2b57189c465e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:00 +0000
Subject: [PATCH 040/119] fix: optimize left the parameters, and with mapped
 bounds reported them, at the last point tried

---
 package/inference/pie/inference_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 2860a87..e0d07c1 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -450,6 +450,8 @@ class Inference(HasAutoNamed):
                                              ftol=tol, maxit=200, shuffle=True)
         else:
             raise InferenceError('Invalid minimization method specified!')
+        # Leave the params at the optimum; the last point tried need not be it.
+        extremum = self._score(params)
         if self.extremize == maximize:  # adjust for sign reversal
             extremum = -extremum
         if self.use_unbounded:  # Convert unbounded values back to normal.
-- 
2.43.0


From 3cde2ed31a37bbb0ee591c0723d1a61697d87ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:00 +0000
Subject: [PATCH 041/119] fix: fits with mapped bounds failed for a parameter
 at its boundary

---
 package/inference/pie/realparam.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index c526e92..93d691f 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -263,14 +263,10 @@ class RealParamHandler(ScalarParamHandler):
         if not self.bounded:
             raise ValueError('No bounds defined for parameter!')
         else:
-            # Handle roundoff error near boundaries.
-            # *** Make the constants platform-independent.
-            # if self._value <= self.lo:
-            # return -1.e-323
-            # elif self._value >= self.hi:
-            # return 1.e308
-            # else:
-            return log(self._value-self.lo) - log(self.hi-self._value)
+            # Keep off the boundaries, which map to infinity.
+            tiny = 1.e-10*(self.hi - self.lo)
+            value = min(max(self._value, self.lo+tiny), self.hi-tiny)
+            return log(value-self.lo) - log(self.hi-value)
 
     def _unbounded_set_value(self, uvalue):
         """Set a varying param's value via a transformed parameter that has
-- 
2.43.0


From dddfa3f2837e1c51201f5fdf13db941902fd2727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:00 +0000
Subject: [PATCH 042/119] fix: obs_info left the parameters displaced from the
 mode

---
 package/inference/pie/bayes.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/package/inference/pie/bayes.py b/package/inference/pie/bayes.py
index 07abfc2..5fc504a 100644
--- a/package/inference/pie/bayes.py
+++ b/package/inference/pie/bayes.py
@@ -69,7 +69,7 @@ class BayesianInference(Inference):
         """
         # *** Expand docstring.
         # Treat the current state as the mode.
-        logp_max = self._log_like + self._log_prior
+        logp_max = self.score()
         mode = []
         for param in self.varying_params:
             mode.append(param.get_value())
@@ -82,9 +82,13 @@ class BayesianInference(Inference):
                 deltas.append(param.delta)
         else:
             deltas = steps
-        deltas = dllsteps(self._logp_func, mode, deltas, dlogp, logp_max)
-        # Use those step sizes for estimating the observed info matrix.
-        info, ierr = obsinfo(self._logp_func, mode, deltas, logp_max, niter=n)
+        try:
+            deltas = dllsteps(self._logp_func, mode, deltas, dlogp, logp_max)
+            # Use those step sizes for estimating the observed info matrix.
+            info, ierr = obsinfo(self._logp_func, mode, deltas, logp_max, niter=n)
+        finally:
+            # Return to the mode.
+            self._logp_func(mode)
         if err:
             return info, ierr
         else:
-- 
2.43.0


From 230625ead295cfed58786ca7fe688efbc27aaff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:54 +0000
Subject: [PATCH 043/119] fix: mapped bounds could take a parameter out of its
 range

---
 package/inference/pie/realparam.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index 93d691f..758c4f8 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -284,10 +284,10 @@ class RealParamHandler(ScalarParamHandler):
                 else:
                     self._set_value(self.lo)
             else:
-                # Use _set_value, since this should be in range.  In fact,
-                # I've found just-barely out-of-range results (presumably due
-                # to roundoff at limits) that trigger exceptions using set_value.
-                self._set_value((self.lo + self.hi*expv)/(1. + expv))
+                # Use _set_value, since this is in range (apart from roundoff at
+                # the limits).
+                value = self.lo + (self.hi - self.lo)*(expv/(1. + expv))
+                self._set_value(min(max(value, self.lo), self.hi))
 
     def show(self):
         """Return a string containing the name, value, and doc for the param."""
-- 
2.43.0


From ab26f08d8e16d0e0a0b14d0d93ba5fef01c0d6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:54 +0000
Subject: [PATCH 044/119] fix: set_params changed some parameters before
 refusing a stepping one

---
 package/inference/pie/inference_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index e0d07c1..04c47cd 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -256,14 +256,15 @@ class Inference(HasAutoNamed):
         This is valid only if all params are either fixed or varying."""
         # *** Should this just skip stepped params rather than quit?
         # *** Should it check there are no "extras" in the passed pv?
+        for name in self.params:
+            if getattr(self, name).status not in (fixed, varying):
+                raise ParamError('Use set_params only when params are fixed or varying!')
         for name in self.params:
             param = getattr(self, name)
             if param.status == fixed:
                 param.fix(getattr(pv,name))
             elif param.status == varying:
                 param.vary(getattr(pv,name))
-            else:
-                raise ParamError('Use set_params only when params are fixed or varying!')
 
     # *** Make versions of show*() that return strings.
 
-- 
2.43.0


From eaeeb157aede31da9502b81ae233f109b5d84d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:54 +0000
Subject: [PATCH 045/119] fix: SampledGaussian failed for a single data array,
 rows of data, and multidimensional locations

---
 package/inference/pie/gaussian.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 3192bf1..482865b 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -255,9 +255,9 @@ class SampledGaussian(Predictor):
             all = args[0]
             try:
                 rows, cols = all.shape
-                self.locns = all[:,0]
-                self.vals = all[:,1]
-                self.sigmas = all[:,2]
+                self._locns = all[:,0]
+                self._vals = all[:,1]
+                self._sigmas = all[:,2]
             except AttributeError:
             # If *all* is not an array, treat it as a list.
             # Only the list format can handle >1-d locns using
@@ -268,9 +268,9 @@ class SampledGaussian(Predictor):
                     self._locns.append(row[0])
                     self._vals.append(row[1])
                     self._sigmas.append(row[2])
-                self._locns = array(self.locns)
-                self._vals = array(self.vals)
-                self._sigmas = array(self.sigmas)
+                self._locns = array(self._locns)
+                self._vals = array(self._vals)
+                self._sigmas = array(self._sigmas)
             except:
                 raise DataError('Bad data array format!')
                 # *** Should ndata, dimen be _ndata...?  Or eliminate _...?
@@ -279,6 +279,6 @@ class SampledGaussian(Predictor):
         if len(self._locns.shape) == 1:
             self.dimen = 1
         elif len(self._locns.shape) == 2:
-            self.dimen = self.locns.shape[1]
+            self.dimen = self._locns.shape[1]
         else:
             raise DataError('Locations should be scalars or 1-d arrays!')
-- 
2.43.0


From 65ff5d93c0a97b6ef217628afe19c998acfa2904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:54 +0000
Subject: [PATCH 046/119] fix: simulated data were truncated where the original
 data were integers

---
 package/inference/pie/gaussian.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 482865b..80674e1 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -38,13 +38,11 @@ class SampledGaussianHandler(PredictorHandler):
 	    than references to it (e.g., to the original data stored in class
 	    rather than instance variables).
 	    """
-        # Note this presumes the data have a copy method (as do numpy
-        # arrays).  For other data types we might need to use the copy
-        # or deepcopy modules.
+        # The copies are floats, lest simulated values get truncated.
         if self._using_globals:
-            self.locns = self.locns.copy()
-            self.vals = self.vals.copy()
-            self.sigmas = self.sigmas.copy()
+            self.locns = array(self.locns, float)
+            self.vals = array(self.vals, float)
+            self.sigmas = array(self.sigmas, float)
             self._using_globals = False
         
     def changing_data(self):
-- 
2.43.0


From 317a8a89bfd115da7e8f0d5228d0fbedd3c2aa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:54 +0000
Subject: [PATCH 047/119] fix: sim failed for arrays, and kept the old number
 of data

---
 package/inference/pie/gaussian.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 80674e1..b65e3ed 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -108,19 +108,20 @@ class SampledGaussianHandler(PredictorHandler):
         """
         self.changing_data()
         # Change the data locns/sigmas if necessary.
-        if locns and sigmas:
+        if locns is not None and sigmas is not None:
             if len(locns) != len(sigmas):
                 raise ValueError('locns/sigmas length mismatch!')
-            self.locns = locns
-            self.sigmas = sigmas
-        elif locns:
+            self.locns = array(locns, float)
+            self.sigmas = array(sigmas, float)
+            self.ndata = len(self.locns)
+        elif locns is not None:
             if len(locns) != self.ndata:
                 raise ValueError('Incorrect number of locns!')
-            self.locns = locns
-        elif sigmas:
+            self.locns = array(locns, float)
+        elif sigmas is not None:
             if len(sigmas) != self.ndata:
                 raise ValueError('Incorrect number of sigmas!')
-            self.sigmas = sigmas
+            self.sigmas = array(sigmas, float)
         self.get_prdxns()
         # Sample data via Gaussians.
         self.vals = self.prdxns + self.sigmas*stdnorm.rvs(self.ndata)
-- 
2.43.0


From 0ed06b98e22c8f8153c9fa5189f202429d21345f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:54 +0000
Subject: [PATCH 048/119] fix: sim1 ignored a location of zero

---
 package/inference/pie/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index b65e3ed..1855407 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -137,10 +137,10 @@ class SampledGaussianHandler(PredictorHandler):
         location and/or sigma for the datum.
         """
         self.changing_data()
-        if locn:
+        if locn is not None:
             # *** Verify locn dimension!
             self.locns[n] = locn
-        if sigma:
+        if sigma is not None:
             self.sigmas[n] = sigma
         self.get_prdxns()
         # Sample datum via Gaussian.
-- 
2.43.0


From 31cf9ec9b3766cb6b68f9310185255ee0e54c319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:54 +0000
Subject: [PATCH 049/119] fix: add_sim did not simulate any values, and
 miscounted the data

---
 package/inference/pie/gaussian.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 1855407..af5c755 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -158,25 +158,28 @@ class SampledGaussianHandler(PredictorHandler):
         """
         self.changing_data()
         # First adjust locns and sigmas.
-        if locn and sigma:
-            self.ndata += 1
+        old = self.ndata
+        if locn is not None and sigma is not None:
             self.locns = concatenate( (self.locns, (locn,)) )
             self.sigmas = concatenate( (self.sigmas, (sigma,)) )
-        elif locns and sigmas:
+        elif locns is not None and sigmas is not None:
             if len(locns) != len(sigmas):
                 raise ValueError('locns/sigmas length mismatch!')
-            self.ndata += len(locns)
             self.locns = concatenate( (self.locns, locns) )
             self.sigmas = concatenate( (self.sigmas, sigmas) )
-        self.ndata += len(self.locns)
+        self.ndata = len(self.locns)
         if len(self.locns.shape) == 1:
             self.dimen = 1
-        elif len(self._locns.shape) == 2:
+        elif len(self.locns.shape) == 2:
             self.dimen = self.locns.shape[1]
         else:
             raise DataError('Locations should be scalars or 1-d arrays!')
         # Update predictions.
         self.get_prdxns()
+        # Sample the new data via Gaussians.
+        new = array(self.prdxns)[old:] + \
+            self.sigmas[old:]*stdnorm.rvs(self.ndata - old)
+        self.vals = concatenate( (self.vals, new) )
         
 
 # *** Add method to restore to original (not simulated) data?
-- 
2.43.0


From 82cd9a9d3a05bd18cf512a2d97cce0055e4c46df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:48 +0000
Subject: [PATCH 050/119] fix: set_params changed some parameters before
 refusing an out-of-range one

---
 package/inference/pie/inference_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 04c47cd..6b91cd5 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -256,9 +256,13 @@ class Inference(HasAutoNamed):
         This is valid only if all params are either fixed or varying."""
         # *** Should this just skip stepped params rather than quit?
         # *** Should it check there are no "extras" in the passed pv?
+        # Verify everything before changing anything.
         for name in self.params:
-            if getattr(self, name).status not in (fixed, varying):
+            param, value = getattr(self, name), getattr(pv, name)
+            if param.status not in (fixed, varying):
                 raise ParamError('Use set_params only when params are fixed or varying!')
+            if param.bounded and not (value >= param.lo and value <= param.hi):
+                raise ParamRangeError("Value out of parameter's allowed range!")
         for name in self.params:
             param = getattr(self, name)
             if param.status == fixed:
-- 
2.43.0


From 00e15826fbcbdf955224f264a675863444163ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:32 +0000
Subject: [PATCH 051/119] fix: stores were not loaded from a file name with its
 extension

---
 package/inference/utils/ioutils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index ea9e41b..3741c8b 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -109,7 +109,7 @@ class ArrayStore(object):
         if fname:
             if not fname.endswith('.npz'):
                 fname = fname + '.npz'
-                self._npz = load(fname)
+            self._npz = load(fname)
         else:
             self._npz = None
         self._fname = fname
@@ -239,9 +239,9 @@ class AttrStore(object):
         if fname:
             if not fname.endswith('.pkl'):
                 fname = fname + '.pkl'
-                ifile = open(fname, 'rb')
-                self._archive = pkl.load(ifile)
-                ifile.close()
+            ifile = open(fname, 'rb')
+            self._archive = pkl.load(ifile)
+            ifile.close()
         else:
             self._archive = None
         self._fname = fname
-- 
2.43.0


From 12747e704e314fd041760c0d74b7e438426fcacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:32 +0000
Subject: [PATCH 052/119] fix: contents of stores listed values for new names,
 and repeated reassigned ones

---
 package/inference/utils/ioutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 3741c8b..0cdcdb2 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -201,7 +201,7 @@ class ArrayStore(object):
         names = []
         if self._npz:
             names.extend(self._npz.files)  # archive file names will be array names
-        names.extend(list(self._new.values()))
+        names.extend([name for name in self._new if name not in names])
         return names
 
 
@@ -335,7 +335,7 @@ class AttrStore(object):
         names = []
         if self._archive:
             names.extend(list(self._archive.keys()))
-        names.extend(list(self._new.values()))
+        names.extend([name for name in self._new if name not in names])
         return names
 
 
-- 
2.43.0


From 65e8c617737c9016b370fbe2bb3d6626186322f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:32 +0000
Subject: [PATCH 053/119] fix: safe_open dropped the opener's keyword arguments

---
 package/inference/utils/ioutils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 0cdcdb2..d38e0d1 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -33,10 +33,7 @@ def safe_open(fname, binary=False, opener=None, *args, **kwds):
     """
     backup(fname)
     if opener:
-        if args:
-            fobj = opener(fname, *args, **kwds)
-        else:
-            fobj = opener(fname)
+        fobj = opener(fname, *args, **kwds)
     else:
         if binary is True or binary == 'b':
             fobj = open(fname, 'wb')
-- 
2.43.0


From f3aca2f6ffad25f4a5a9295d2ee0861d383b611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:32 +0000
Subject: [PATCH 054/119] fix: read_column_vectors used an undefined name

---
 package/inference/utils/ioutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index d38e0d1..46b6502 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -1,7 +1,7 @@
 import os
 import os.path as path
 import pickle as pkl
-from numpy import ndarray, savez, load
+from numpy import array, ndarray, savez, load
 
 __all__ = ['backup', 'safe_open', 'ArrayStore', 'AttrStore']
 
-- 
2.43.0


From a1d6d933047e5e0f4c1ee1687450459b2ddf945e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:32 +0000
Subject: [PATCH 055/119] fix: object arrays saved by an ArrayStore could not
 be read

---
 package/inference/utils/ioutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 46b6502..1bc1a0b 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -106,7 +106,7 @@ class ArrayStore(object):
         if fname:
             if not fname.endswith('.npz'):
                 fname = fname + '.npz'
-            self._npz = load(fname)
+            self._npz = load(fname, allow_pickle=True)  # for object arrays
         else:
             self._npz = None
         self._fname = fname
-- 
2.43.0


From 812419f3406e4150f9769142845a02cdca41d6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:57 +0000
Subject: [PATCH 056/119] fix: failed saves of stores pushed good versions out
 of the backups

---
 package/inference/utils/ioutils.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 1bc1a0b..8766178 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -186,9 +186,17 @@ class ArrayStore(object):
                     arrays[name] = self._npz[name]
         for name, val in list(self._new.items()):
             arrays[name] = val
-        # Backup any existing file, and save the arrays to a new file.
+        # Save the arrays to a new file, and only then backup any existing file;
+        # failures to save must not push good versions out of the backups.
+        tname = fname + '~'
+        try:
+            with open(tname, 'wb') as ofile:
+                savez(ofile, **arrays)
+        except:
+            os.remove(tname)
+            raise
         backup(fname)
-        savez(fname, **arrays)
+        os.rename(tname, fname)
 
     def contents(self):
         """
@@ -319,9 +327,12 @@ class AttrStore(object):
                     attrs[name] = self._archive[name]
         for name, val in list(self._new.items()):
             attrs[name] = val
-        # Backup any existing file, and save the attrs to a new file.
+        # Backup any existing file, and save the attrs to a new file.  Pickle
+        # beforehand; failures to do so must not push good versions out of the
+        # backups.
+        data = pkl.dumps(attrs, -1)  # use highest protocol
         ofile = safe_open(fname, 'b')
-        pkl.dump(attrs, ofile, -1)  # use highest protocol
+        ofile.write(data)
         ofile.close()
 
     def contents(self):
-- 
2.43.0


From 011ee2b730368d0491600e40db346fd547efa731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:57 +0000
Subject: [PATCH 057/119] fix: an ArrayStore with an array named file could not
 be saved

---
 package/inference/utils/ioutils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 8766178..6eb2bae 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -1,7 +1,9 @@
 import os
 import os.path as path
 import pickle as pkl
-from numpy import array, ndarray, savez, load
+from zipfile import ZipFile
+from numpy import array, ndarray, load
+from numpy.lib.format import write_array
 
 __all__ = ['backup', 'safe_open', 'ArrayStore', 'AttrStore']
 
@@ -190,8 +192,11 @@ class ArrayStore(object):
         # failures to save must not push good versions out of the backups.
         tname = fname + '~'
         try:
-            with open(tname, 'wb') as ofile:
-                savez(ofile, **arrays)
+            # This does the work of savez, which can't take an array named "file".
+            with ZipFile(tname, 'w') as ofile:
+                for name, val in arrays.items():
+                    with ofile.open(name + '.npy', 'w', force_zip64=True) as afile:
+                        write_array(afile, val)
         except:
             os.remove(tname)
             raise
-- 
2.43.0


From b85acd563c7c05d437baf7ea2d39a2d046dc7c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:49 +0000
Subject: [PATCH 058/119] fix: save_rng and restore_rng opened their files in
 text mode, and failed

---
 package/inference/utils/rng.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/rng.py b/package/inference/utils/rng.py
index 80d1e94..e02dd28 100644
--- a/package/inference/utils/rng.py
+++ b/package/inference/utils/rng.py
@@ -24,7 +24,7 @@ def save_rng(fname='.numpy-rng-state'):
             fname2 = fname + '.2'
             os.rename(fname1, fname2)
         os.rename(fname, fname1)
-    ofile = open(fname, 'w')
+    ofile = open(fname, 'wb')
     pickle.dump((id, state), ofile)
     ofile.close()
     
@@ -35,7 +35,7 @@ def restore_rng(fname='.numpy-rng-state', notify=True):
     The default file name is '.numpy-rng-state'.
     """
     if os.access(fname, os.R_OK | os.W_OK):
-        rng_file = open(fname, 'r')
+        rng_file = open(fname, 'rb')
         id, state = pickle.load(rng_file)
         rng_file.close()
         if id == MT_id:
-- 
2.43.0


From 81ded7b45550384272b37f8431174324c1615a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:49 +0000
Subject: [PATCH 059/119] fix: save_rng dropped a pending normal deviate, so
 that sequences were not repeated

---
 package/inference/utils/rng.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/rng.py b/package/inference/utils/rng.py
index e02dd28..32ebe0b 100644
--- a/package/inference/utils/rng.py
+++ b/package/inference/utils/rng.py
@@ -15,7 +15,8 @@ def save_rng(fname='.numpy-rng-state'):
     """
     state = random.get_state()
     if state[0] == MT_id:
-        id, state = state[0], (state[1], state[2]) # (ID, (key, pos)) for MT
+        # (ID, (key, pos, has_gauss, cached_gaussian)) for MT
+        id, state = state[0], tuple(state[1:])
     else:
         raise RuntimeError('numpy.random using unrecognized RNG type!')
     if path.exists(fname):
@@ -43,7 +44,7 @@ def restore_rng(fname='.numpy-rng-state', notify=True):
             if notify:
                 print('Recovered RNG state:  %s [%s %s ...] %i' %\
             	    (id, repr(state[0][0]), repr(state[0][1]), state[1]))
-            random.set_state((id, state[0], state[1]))
+            random.set_state((id,) + tuple(state))
         else:
             raise ValueError('Invalid ID for RNG in %s!' % fname)
     else:
-- 
2.43.0


From 5a485d407a1bf067b1102433d32b75e962fec6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:49 +0000
Subject: [PATCH 060/119] fix: zbracket failed where the last expansion
 brackets the zero

---
 package/inference/utils/numutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/numutils.py b/package/inference/utils/numutils.py
index c1a7d0a..d5c772a 100644
--- a/package/inference/utils/numutils.py
+++ b/package/inference/utils/numutils.py
@@ -191,10 +191,12 @@ def zbracket(func, x1, x2, vals=None, args=None, maxtries=50, expand=1.6):
     else:
         f1, f2 = func(x1), func(x2)
     tries = 0
-    while tries < maxtries:
-        tries += 1
+    while True:
         if f1*f2 < 0.:
             return x1, x2
+        if tries >= maxtries:
+            break
+        tries += 1
         if abs(f1) < abs(f2):
             x1 += expand*(x1-x2)
             if args:
-- 
2.43.0


From ab66b03c1332397af99bd4d23ae1a4e2dd318539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:49 +0000
Subject: [PATCH 061/119] fix: zbracket missed brackets where the product of
 the values underflows

---
 package/inference/utils/numutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/numutils.py b/package/inference/utils/numutils.py
index d5c772a..f950efc 100644
--- a/package/inference/utils/numutils.py
+++ b/package/inference/utils/numutils.py
@@ -192,7 +192,7 @@ def zbracket(func, x1, x2, vals=None, args=None, maxtries=50, expand=1.6):
         f1, f2 = func(x1), func(x2)
     tries = 0
     while True:
-        if f1*f2 < 0.:
+        if (f1 < 0. and f2 > 0.) or (f1 > 0. and f2 < 0.):
             return x1, x2
         if tries >= maxtries:
             break
-- 
2.43.0


From 2703f28f5d9e49f5d676e7a0e6e1d519954a3ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:49 +0000
Subject: [PATCH 062/119] fix: plot_bivar failed with cross hairs

---
 package/inference/utils/plot_bivar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/plot_bivar.py b/package/inference/utils/plot_bivar.py
index 9e67c73..c756dd5 100644
--- a/package/inference/utils/plot_bivar.py
+++ b/package/inference/utils/plot_bivar.py
@@ -121,8 +121,8 @@ def plot_bivar(x, y, logpdf, iorder='xy', levels=None, plevels=None, cross=None,
 
     if cross:
         xc, yc = cross
-        xlo, xhi = xlim()
-        ylo, yhi = ylim()
+        xlo, xhi = pl.xlim()
+        ylo, yhi = pl.ylim()
         pl.hlines(yc, xlo, xhi, 'teal')
         pl.vlines(xc, ylo, yhi, 'teal')
     # This makes the original colorbar look a bit out of place,
-- 
2.43.0


From 5427ab8d2ab894e710e79a93e48895b0fd7f6bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:58 +0000
Subject: [PATCH 063/119] fix: plot_bivar passed contour levels in decreasing
 order, which Matplotlib refuses

---
 package/inference/utils/plot_bivar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/package/inference/utils/plot_bivar.py b/package/inference/utils/plot_bivar.py
index c756dd5..b741dc1 100644
--- a/package/inference/utils/plot_bivar.py
+++ b/package/inference/utils/plot_bivar.py
@@ -90,6 +90,11 @@ def plot_bivar(x, y, logpdf, iorder='xy', levels=None, plevels=None, cross=None,
     else:
         # Treat levels as *absolute* levels (not relative to max).
         levels = array(levels) - logmax
+    # Matplotlib requires increasing levels; keep the color of each.
+    order = argsort(levels)
+    levels = levels[order]
+    if isinstance(colors, (list, tuple)):
+        colors = [colors[i % len(colors)] for i in order]
 
     # Plot a grayscale image displaying tails beyond the lowest level.
     if gscale:
-- 
2.43.0


From 53a978ca88b935a1b2335259fdcae212b1713383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:31 +0000
Subject: [PATCH 064/119] fix: plot_bivar mislocated grid values in axes wider
 than the grid

---
 package/inference/utils/plot_bivar.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/package/inference/utils/plot_bivar.py b/package/inference/utils/plot_bivar.py
index b741dc1..c90eaca 100644
--- a/package/inference/utils/plot_bivar.py
+++ b/package/inference/utils/plot_bivar.py
@@ -126,10 +126,8 @@ def plot_bivar(x, y, logpdf, iorder='xy', levels=None, plevels=None, cross=None,
 
     if cross:
         xc, yc = cross
-        xlo, xhi = pl.xlim()
-        ylo, yhi = pl.ylim()
-        pl.hlines(yc, xlo, xhi, 'teal')
-        pl.vlines(xc, ylo, yhi, 'teal')
+        pl.hlines(yc, *pl.xlim(), 'teal')
+        pl.vlines(xc, *pl.ylim(), 'teal')
     # This makes the original colorbar look a bit out of place,
     # so let's improve its position.
     #l,b,w,h = gca().get_position().bounds
-- 
2.43.0


From c5f3155817d4911ea74900af9c1801b1f4c01997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:31 +0000
Subject: [PATCH 065/119] fix: ScalarGrid.plot ignored gscale

---
 package/inference/pie/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/pie/containers.py b/package/inference/pie/containers.py
index 6113ccd..8539198 100644
--- a/package/inference/pie/containers.py
+++ b/package/inference/pie/containers.py
@@ -111,7 +111,7 @@ class ScalarGrid(object):
                 except:
                     pl.figure()  # start a new figure by default
                 plot_bivar(xvals, yvals, self.values, xlabel=x_name,
-                           ylabel=y_name, **kwds)
+                           ylabel=y_name, gscale=gscale, **kwds)
             else:
                 raise NotImplementedError('Plotting log steps not yet implemented!')
         else:
-- 
2.43.0


From ece4bd0da71a2927e4e2da648bd9df30a0941ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:46 +0000
Subject: [PATCH 066/119] fix: the signal rate posterior was NaN for rates far
 above the data

---
 package/inference/count/_cbmlike.f | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/package/inference/count/_cbmlike.f b/package/inference/count/_cbmlike.f
index bd0dd35..802adca 100644
--- a/package/inference/count/_cbmlike.f
+++ b/package/inference/count/_cbmlike.f
@@ -577,6 +577,11 @@ cf2py   intent(in) n, dm
             else
                 ppois = 0.
             endif
+        else if (dm .gt. 700.) then
+c           Here exp(-dm) may underflow, and dm**n overflow.
+            dnfac = gammln(dble(n)+1.)
+            arg = n * log(dm) - dm - dnfac
+            ppois = exp(arg)
         else if (n .le. ntop) then
             dnfac = a(n+1)
             ppois = dm**n * exp(-dm) / dnfac
-- 
2.43.0


From f9c2a710367771eed2d50b4faf56833b11b3094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:11 +0000
Subject: [PATCH 067/119] fix: the tolerance of dllsteps was not relative to
 the change asked for

---
 package/inference/deriv/obsinfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/deriv/obsinfo.py b/package/inference/deriv/obsinfo.py
index 0e544ba..03c65dc 100644
--- a/package/inference/deriv/obsinfo.py
+++ b/package/inference/deriv/obsinfo.py
@@ -29,7 +29,7 @@ def dllsteps(loglike, mle, guess, dll=1., maxll=None, maxiter=20, tol=0.01):
     mle, guess = array(mle, float), array(guess, float)
     if maxll is None:
         maxll = loglike(mle)
-    deltas, status = pk_scales(loglike, mle, maxll, dll, guess, maxiter, tol)
+    deltas, status = pk_scales(loglike, mle, maxll, dll, guess, maxiter, tol*dll)
     if status == 3:
         raise RuntimeError('Failed to converge in solving for dll scale!')
     elif status == 2:
-- 
2.43.0


From e09fb0022b18ecf26ea776085c382bbb6597eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:34 +0000
Subject: [PATCH 068/119] fix: HPDGrid2D.plot drew the transposed density, with
 levels out of order

The grid values are indexed [x, y] but contour takes rows of constant y: the
plot failed for nx != ny and was transposed otherwise; levels are stored in the
order they were found, but contour requires them to increase.
---
 package/inference/grid/hpdgrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index 03334be..e11681e 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -315,4 +315,5 @@ class HPDGrid2D(object):
     def plot(self):
         x,y = pl.meshgrid(self.xvals,self.yvals)
         pl.figure()
-        pl.contour(x,y,self.lpdf,self.levels)
+        # Matplotlib wants rows of constant y, and increasing levels.
+        pl.contour(x, y, self.lpdf.transpose(), sorted(set(self.levels)))
-- 
2.43.0


From b96c2baef5b4c29b38d892ed7bf48a5a5c7c5a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:26 +0000
Subject: [PATCH 069/119] fix: Grid1D.firstpass kept the peaks and refinements
 of an earlier function

---
 package/inference/grid/grid1d.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 5d5300f..f5a27d3 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -537,6 +537,7 @@ class BasicGrid1D:
                     self.valSeq = len(f)
                     self.vals = zeros((self.n, self.valSeq), float)
                 else:
+                    self.valSeq = None
                     self.vals = zeros((self.n), float)
                 self.vals[i] = f
             else:
@@ -886,6 +887,12 @@ class Grid1D:
     def firstpass(self, f, select=None, notify=None):
         """Apply func on the base grid."""
 
+        # Start over if an earlier function was evaluated on this grid.
+        del self.lml.list[:]
+        self.ilist = RefinedIntervalList1D(self.base.lo, self.base.hi,
+                                           self.base.n, self.stype)
+        self.totpts = self.base.n
+        self.glist = [self.base]
         self.func = f
         self.select = select
         self.base.stepfunc(f, select=select, notify=notify)
-- 
2.43.0


From 4a5211dcd8bbd9c5a1e860d0fc15f637ccf6a173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:55 +0000
Subject: [PATCH 070/119] fix: adapt did not count the evaluation at the centre
 of each region

---
 package/inference/integrate/adapt_py.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/integrate/adapt_py.f b/package/inference/integrate/adapt_py.f
index 7e615ad..715feb7 100644
--- a/package/inference/integrate/adapt_py.f
+++ b/package/inference/integrate/adapt_py.f
@@ -271,7 +271,7 @@ c      write(9,'(3(1pg12.4))') z(1), z(2), F(S,Z)
    40  CONTINUE
        IF (SUM0.EQ.SUM0+DIFMAX/TWO) DIVAXN = MOD(DIVAXO,S) + 1
       BASEST = INTVLS(MINORD)
-      FUNCLS = INTCLS + 4*S
+      FUNCLS = INTCLS + 4*S + 1
       RETURN
       END
 c-----------------------------------------------------------------------
-- 
2.43.0


From c4d1f692c254a743b13bff6bb0beac09652ab60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:15 +0000
Subject: [PATCH 071/119] fix: BA and BAObj mixed the models of failed
 parameters with the last fit

A basis function that raised, or a degenerate basis, left modvals changed while
the memoized parameters, amplitudes and statistics were those of the fit before:
residuals of that fit were then wrong.
---
 package/inference/gauss/vecba.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/package/inference/gauss/vecba.py b/package/inference/gauss/vecba.py
index b2f336a..0b152f7 100644
--- a/package/inference/gauss/vecba.py
+++ b/package/inference/gauss/vecba.py
@@ -98,14 +98,16 @@ class BA:
             args = list(args)
             args.append(aux)
             args = tuple(args)
+        modvals = zeros((self.M, self.N), float)
         for a in range(self.M):
             g = self.basis[a]
-            self.modvals[a,:] = g(*args) / self.sigs
+            modvals[a,:] = g(*args) / self.sigs
 
 #...    Calculate the metric and various derived quantities.  Store them
 #...    for possible future use before returning.
         self.metric, self.L, self.Jac, self.proj, self.ampl, self.suf =\
-            vba.metricAnalysis(self.modvals, self.std_smpls)
+            vba.metricAnalysis(modvals, self.std_smpls)
+        self.modvals = modvals
         self.Q = self.dsqr - self.suf
         self.pars = params
         self.Jac = 1. / self.Jac
@@ -229,13 +231,15 @@ class BAObj:
 #...    Evaluate the standardized models on the data, first calling the setup
 #...    function.
         self.obj.set_nonlin(*params)
+        modvals = zeros((self.M, self.N), float)
         for a in range(self.M):
-            self.modvals[a,:] = self.obj.std_basis[a]()
+            modvals[a,:] = self.obj.std_basis[a]()
 
 #...    Calculate the metric and various derived quantities.  Store them
 #...    for possible future use before returning.
         self.metric, self.L, self.Jac, self.proj, self.ampl, self.suf =\
-            vba.metricAnalysis(self.modvals, self.obj.std_smpls)
+            vba.metricAnalysis(modvals, self.obj.std_smpls)
+        self.modvals = modvals
         self.Q = self.dsqr - self.suf
         self.pars = params
         self.Jac = 1. / self.Jac
-- 
2.43.0


From de4a6a3e389861eae128d97213ce3a39fede0508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:15 +0000
Subject: [PATCH 072/119] fix: vba.covar read and wrote past a factor that is
 not square

---
 package/inference/gauss/vbamodule.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/package/inference/gauss/vbamodule.c b/package/inference/gauss/vbamodule.c
index a1d7076..f879936 100644
--- a/package/inference/gauss/vbamodule.c
+++ b/package/inference/gauss/vbamodule.c
@@ -293,6 +293,12 @@ vba_covar (PyObject *self, PyObject *args) {
             PyArray_ContiguousFromAny(input, PyArray_DOUBLE, 2, 2);
     if (cfmetric == NULL) goto FAIL;
 
+/** Check that it is square. */
+    if (cfmetric->dimensions[0] != cfmetric->dimensions[1]) {
+        PyErr_SetString(PyExc_ValueError, "Cholesky factor must be square!");
+            goto FAIL;
+    }
+
 /** Copy the matrix and gather needed info. */
     covar = (PyArrayObject *)PyArray_Copy(cfmetric);
     if (covar == NULL) goto FAIL;
-- 
2.43.0


From 9e7c8a3a920f92eb7ffa00f0e6a8d9364431fa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:17 +0000
Subject: [PATCH 073/119] fix: Population subsets: pass the generator state as
 the sampler takes it, import arange

---
 package/inference/mc/population.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index 3e105cf..9d32088 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -6,7 +6,7 @@ Classes and functions for describing and sampling discrete populations.
 
 __author__ = "Tom Loredo"
 
-from numpy import array, random
+from numpy import arange, array, random
 from _ppssampler import _ppssampler, equalprob
 from _ppssampler import set_rng_state, get_rng_state
 from inference.utils.pl import pl
@@ -93,7 +93,8 @@ class Population(object):
         # Copy the whole population if nsamp = npopn.
         if nsamp == self.npopn:
             return [item for item in self.items]
-        set_rng_state(*random.get_state())
+        rng_state = random.get_state()
+        set_rng_state(*rng_state[:3])
         if self.equiprob:
             pool = arange(self.npopn)
             indices = equalprob(nsamp, pool)
@@ -125,7 +126,7 @@ class Population(object):
             self.ntry, sindices = self.sampler.samplenr()
             indices = [self.sort_indices[i] for i in sindices]
         result = [self.items[i] for i in indices]
-        random.set_state(get_rng_state())
+        random.set_state(get_rng_state() + rng_state[3:])
         return result
 
     def subset_pps5(self, nsamp):
@@ -140,7 +141,8 @@ class Population(object):
         # Copy the whole population if nsamp = npopn.
         if nsamp == self.npopn:
             return [item for item in self.items]
-        set_rng_state(*random.get_state())
+        rng_state = random.get_state()
+        set_rng_state(*rng_state[:3])
         if self.equiprob:
             pool = arange(self.npopn)
             indices = equalprob(nsamp, pool)
@@ -178,7 +180,7 @@ class Population(object):
             # Note the 5-table version returns unsorted indices.
             # indices = [self.sort_indices[i] for i in sindices]
         result = [self.items[i] for i in indices]
-        random.set_state(get_rng_state())
+        random.set_state(get_rng_state() + rng_state[3:])
         return result
 
 
-- 
2.43.0


From 9d64d7125080b460190a9cf6054291e017e1e6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:02 +0000
Subject: [PATCH 074/119] fix: _ppssampler.prepwts: read the sorting indices as
 the integers they are

---
 package/inference/mc/_ppssampler.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/package/inference/mc/_ppssampler.c b/package/inference/mc/_ppssampler.c
index d877610..5978c60 100644
--- a/package/inference/mc/_ppssampler.c
+++ b/package/inference/mc/_ppssampler.c
@@ -224,9 +224,10 @@ static PyObject *
 prepwts (PyObject *self, PyObject *args, PyObject *keywords) {
     int npopn;
     PyObject *win;
-    PyArrayObject *wts, *sorted, *cumwt, *indices;
+    PyArrayObject *wts, *sorted, *cumwt, *indices, *order;
     PyArrayObject *no_out=NULL;
     npy_intp dims[1];
+    npy_intp *ndata;
     int *idata;
     int i, j, itemp;
     double *wdata, *sdata, tot;
@@ -237,6 +238,7 @@ prepwts (PyObject *self, PyObject *args, PyObject *keywords) {
     sorted = NULL;
     cumwt = NULL;
     indices = NULL;
+    order = NULL;
 
 /* Parse the input weights. */
     Py_TRY(PyArg_ParseTuple(args, "O", &win));
@@ -249,8 +251,15 @@ prepwts (PyObject *self, PyObject *args, PyObject *keywords) {
     if (sorted == NULL) goto FAIL;
 
 /* Sort and reverse the weights. */
-	indices = (PyArrayObject *) PyArray_ArgSort(wts, 0, PyArray_QUICKSORT);
+	order = (PyArrayObject *) PyArray_ArgSort(wts, 0, PyArray_QUICKSORT);
+	if (order == NULL) goto FAIL;
+	indices = (PyArrayObject *)PyArray_SimpleNew(1, dims, NPY_INT);
+	if (indices == NULL) goto FAIL;
+	ndata = (npy_intp *) PyArray_DATA(order);  /* Argsort gives intp, not int. */
 	idata = IDATA(indices);
+	for (i=0; i<npopn; i++) idata[i] = ndata[i];
+	Py_DECREF(order);
+	order = NULL;
 
 /*
 	if (1==1) return Py_BuildValue("NN", PyArray_Return(indices), PyArray_Return(cumwt));
@@ -286,6 +295,7 @@ FAIL:
     Py_XDECREF(sorted);
     Py_XDECREF(cumwt);
     Py_XDECREF(indices);
+    Py_XDECREF(order);
     return NULL;
 }
 
-- 
2.43.0


From 4aa938eb98fc19abeb5d37eff9b837c9ef91f898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:02 +0000
Subject: [PATCH 075/119] fix: subsets use the generator whose state is passed
 in, not rand()

---
 package/inference/mc/_ppssampler.c | 5 ++---
 package/inference/mc/sampford.c    | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/package/inference/mc/_ppssampler.c b/package/inference/mc/_ppssampler.c
index 5978c60..04e063d 100644
--- a/package/inference/mc/_ppssampler.c
+++ b/package/inference/mc/_ppssampler.c
@@ -29,7 +29,6 @@
  *       without replacement.
  *
  * TODO:
- *   Convert equalprob/i to use RandomKit.
  *   Make the 5-table version of SampfordPPS.
  *
  * License: BSD-style (see LICENSE.txt at root of scipy tree)
@@ -719,7 +718,7 @@ equalprobi (PyObject *self, PyObject *args) {
 /* Pick from the pool at random; shuffle the last item down to replace the 
    one picked. */
     for (i=0; i<nsamp; i++) {
-   		pick = npopn * (1.*rand())/(RAND_MAX+1.);  /* Always < npopn. */
+   		pick = (int) rk_interval(npopn-1, &rng_state);  /* Always < npopn. */
 /*    		PySys_WriteStdout("pick, npopn: %i  %i  %i\n", pick, pdata[pick], npopn); */
    		sdata[i] = pdata[pick];
    		npopn--;  /* Now points to the last item (at npopn-1). */
@@ -784,7 +783,7 @@ equalprob (PyObject *self, PyObject *args) {
 /* Pick from the pool at random; shuffle the last item down to replace the 
    one picked. */
     for (i=0; i<nsamp; i++) {
-   		pick = npopn * (1.*rand())/(RAND_MAX+1.);  /* Always < npopn. */
+   		pick = (int) rk_interval(npopn-1, &rng_state);  /* Always < npopn. */
 /*    		PySys_WriteStdout("pick, npopn: %i  %i  %i\n", pick, pdata[pick], npopn); */
    		sdata[i] = pdata[pick];
    		npopn--;  /* Now points to the last item (at npopn-1). */
diff --git a/package/inference/mc/sampford.c b/package/inference/mc/sampford.c
index 00663ee..7389443 100644
--- a/package/inference/mc/sampford.c
+++ b/package/inference/mc/sampford.c
@@ -110,7 +110,7 @@ sampford_pps(Sampford* sampford, int* sample, rk_state* rng_state_ptr) {
         duplicate = 0;
         tot = sampford->cumratios[npopn-1];
         for (j=1; j<nsamp; j++) {
-            val = tot * (1.*rand())/(RAND_MAX+1.);
+            val = tot * rk_double(rng_state_ptr);
             for (i=0; i<npopn; i++) {
                 if (val <= sampford->cumratios[i]) break;
             }
-- 
2.43.0


From 1da88e36d1ab342dc571fb312b51e24172133288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:02 +0000
Subject: [PATCH 076/119] fix: weights that sum to zero are an error, not a
 crash

---
 package/inference/mc/_ppssampler.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/mc/_ppssampler.c b/package/inference/mc/_ppssampler.c
index 04e063d..a952136 100644
--- a/package/inference/mc/_ppssampler.c
+++ b/package/inference/mc/_ppssampler.c
@@ -148,7 +148,8 @@ PPSSampler_init(PPSSampler *self, PyObject *args, PyObject *kwds)
     self->pSampler = init_sampler5tbl((double*) pmf_table->data, k);
     if (self->pSampler == NULL)
     {
-        Py_DECREF(self);
+        PyErr_SetString(PyExc_ValueError,
+                        "the sum of the weights must be positive");
         return -1;
     }
     
-- 
2.43.0


From 77a9f75691c8010ec1e11cf949a59593279046ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:02 +0000
Subject: [PATCH 077/119] fix: Population subsets: refuse sizes below one (a
 size of zero wrote past the sample)

---
 package/inference/mc/population.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index 9d32088..b7147e9 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -90,6 +90,8 @@ class Population(object):
         without replacement with probability proportional to size (PPS)
         according to Sampford's sampling scheme.
         """
+        if nsamp < 1:
+            raise ValueError('nsamp must be positive!')
         # Copy the whole population if nsamp = npopn.
         if nsamp == self.npopn:
             return [item for item in self.items]
@@ -138,6 +140,8 @@ class Population(object):
         5-table lookup samplers are used within Sampford's algorithm to
         accelerate the sampling for large populations.
         """
+        if nsamp < 1:
+            raise ValueError('nsamp must be positive!')
         # Copy the whole population if nsamp = npopn.
         if nsamp == self.npopn:
             return [item for item in self.items]
-- 
2.43.0


From 77aa398cb2a928a1a2279f807d39ddb80cccdb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:02 +0000
Subject: [PATCH 078/119] fix: Population1D: take sequences, and errors given
 as arrays

---
 package/inference/mc/population.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index b7147e9..2b86cc8 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -196,10 +196,11 @@ class Population1D(Population):
     """
 
     def __init__(self, vals, weights, err=None):
-        indices = array(vals).argsort()
+        vals = array(vals)
+        indices = vals.argsort()
         self.vals = vals[indices].copy()
         self.weights = array(weights)[indices].copy()
-        if err == None:
+        if err is None:
             self.err = None
         else:
             self.err = array(err)[indices].copy()
@@ -229,7 +230,7 @@ class Population1D(Population):
         # The last step is zero.
         absc.append(end)
         ord.append(0.)
-        if self.err == None:
+        if self.err is None:
             return array(absc), array(ord)
         else:
             # For error bars, just copy the stored errors in the middle of
@@ -252,10 +253,10 @@ class Population1D(Population):
             start = self.vals[0]
         if end is None:
             end = self.vals[-1]
-        if self.err == None:
+        if self.err is None:
             a, o = self.haz_pts(start, end)
         else:
             a, o, ea, eo, ee = self.haz_pts(start, end)
         pl.plot(a, o, 'b-', linewidth=2)
-        if self.err != None:
+        if self.err is not None:
             pl.errorbar(ea, eo, ee, fmt='o', markersize=0)
-- 
2.43.0


From a2a45d92baf6e8949708523afe8273e1aa42f756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:02 +0000
Subject: [PATCH 079/119] fix: Population1D: the descending distribution
 accumulates from the greatest value down

---
 package/inference/mc/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index 2b86cc8..743f46c 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -206,7 +206,7 @@ class Population1D(Population):
             self.err = array(err)[indices].copy()
         Population.__init__(self, self.vals, self.weights)
         self.cdf = self.weights.cumsum()
-        self.hazard = self.cdf[::-1].copy()
+        self.hazard = self.weights[::-1].cumsum()[::-1].copy()
 
     def haz_pts(self, start=None, end=None):
         """
-- 
2.43.0


From 570b3aaf4b515a14a24b0431cd9ea208bf4849b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:02 +0000
Subject: [PATCH 080/119] fix: Population.max_subset of an equal-probability
 population

---
 package/inference/mc/population.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index 743f46c..2eb86c0 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -79,6 +79,8 @@ class Population(object):
         sample (of course, they will all have inclusion probability of
         unity, regardless of size).
         """
+        if self.equiprob:
+            return self.npopn
         if self.did_Sampford_init:
             return int(1./self.max_wt)
         else:
-- 
2.43.0


From 7b71f1ab13b09d988149a1093812603c61f43450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:02 +0000
Subject: [PATCH 081/119] fix: PWLinear: take sequences and integers as values,
 as documented

---
 package/inference/mc/pwlinear.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/package/inference/mc/pwlinear.py b/package/inference/mc/pwlinear.py
index 398334f..1ce09c6 100644
--- a/package/inference/mc/pwlinear.py
+++ b/package/inference/mc/pwlinear.py
@@ -1,4 +1,4 @@
-from numpy import linspace, concatenate, zeros, sqrt, log, exp
+from numpy import array, linspace, concatenate, zeros, sqrt, log, exp
 from numpy import iterable, empty, any
 from numpy.random import rand
 from .population import Population
@@ -40,6 +40,7 @@ class PWLinear(object):
             maximum density will be treated as zero.  Must be nonzero if
             `logvals` is True.
         """
+        vals = array(vals, float)
         # Define the domain and abscissas.
         if not (lo is None) and not (hi is None):
             if step != 'lin':
@@ -55,7 +56,7 @@ class PWLinear(object):
             if len(absc) != self.n:
                 raise ValueError('Length mismatch between absc and vals!')
             self.lo, self.hi = absc[0], absc[-1]
-            self.absc = absc
+            self.absc = array(absc, float)
             self.step = None  # indicates arbitrary step sizes
 
         # Define and select the non-negligible values, 'weight values.'
-- 
2.43.0


From 20b70d2920e8042ad91021c57cfdd173f4481ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:02 +0000
Subject: [PATCH 082/119] fix: PWLinear: values below the cutoff are treated as
 zero, as documented and as with logvals

---
 package/inference/mc/pwlinear.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/package/inference/mc/pwlinear.py b/package/inference/mc/pwlinear.py
index 1ce09c6..ac310ac 100644
--- a/package/inference/mc/pwlinear.py
+++ b/package/inference/mc/pwlinear.py
@@ -69,6 +69,7 @@ class PWLinear(object):
         else:
             wvals = vals/max(vals)
             selected = (wvals > cut).nonzero()[0]
+            wvals[wvals <= cut] = 0.
 
         # Break up the selection into contiguous regions.
         # First get lists of indices to nonzero values in each region.
-- 
2.43.0


From bc05bc61545a5651dd0ec6b34ef79e41897f3d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:02 +0000
Subject: [PATCH 083/119] fix: PWLinear.pdf at the upper end of its domain

---
 package/inference/mc/pwlinear.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/package/inference/mc/pwlinear.py b/package/inference/mc/pwlinear.py
index ac310ac..051978c 100644
--- a/package/inference/mc/pwlinear.py
+++ b/package/inference/mc/pwlinear.py
@@ -209,7 +209,9 @@ class PWLinear(object):
             raise NotImplementedError
         # Handle even step size case.
         elif self.step == 'lin':
-            i = region[0] + int((x - region[2])/self.delta)
+            # The last interval of the region includes its upper boundary.
+            i = inside[0] + int((x - inside[2])/self.delta)
+            i = min(i, inside[1]-1)
             return self.pdf_vals[i] + \
                 (self.pdf_vals[i+1]-self.pdf_vals[i]) * \
                 (x - self.absc[i])/(self.absc[i+1] - self.absc[i])
-- 
2.43.0


From a3ecf3397eebc66fe77d36b0c941ff293d877e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:24 +0000
Subject: [PATCH 084/119] fix: PWLinear.sample: samples of nearly flat
 intervals fell outside them

---
 package/inference/mc/pwlinear.py | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/package/inference/mc/pwlinear.py b/package/inference/mc/pwlinear.py
index 051978c..3850764 100644
--- a/package/inference/mc/pwlinear.py
+++ b/package/inference/mc/pwlinear.py
@@ -144,28 +144,19 @@ class PWLinear(object):
             index = self.popn.sample(1)[0]
             lo, hi = self.nz_intvls[index]
             plo, phi = self.nz_pdf[index]
-            if plo==phi:  # handle flat intervals
-                # print 'flat:', index, lo, hi, lo + (hi-lo)*rand()
-                return lo + (hi-lo)*rand()
-            else:
-                r = (hi-lo)/(phi-plo)
-                return lo - r*plo + r*sqrt(plo**2 + (phi**2 - plo**2)*rand())
-                # return self.nz_centers[index]
+            u = 1. - rand()  # in (0,1]
+            # Invert the quadratic CDF in a form that is also accurate for
+            # (nearly) flat intervals.
+            return lo + (hi-lo)*u*(plo + phi)/(plo + sqrt(plo**2 + (phi**2 - plo**2)*u))
+            # return self.nz_centers[index]
         else:
             indices = self.popn.sample(n)
             lo, hi = self.nz_intvls[indices,0], self.nz_intvls[indices,1]
             plo, phi = self.nz_pdf[indices,0], self.nz_pdf[indices,1]
-            flat = (phi==plo).nonzero()[0]  # id the flat intervals
-            r = (hi-lo)/(phi-plo)  # will be NaN for flat intervals
-            u = rand(n)
-#             if len(flat) != 0:
-#                 print plo**2 + (phi**2 - plo**2)*u
-#                 print r
-#                 print indices
-#                 print phi-plo
-            vals = lo - r*plo + r*sqrt(plo**2 + (phi**2 - plo**2)*u)
-            if len(flat) != 0:
-                vals[flat] = lo[flat] + (hi[flat]-lo[flat])*u[flat]
+            u = 1. - rand(n)  # in (0,1]
+            # Invert the quadratic CDF in a form that is also accurate for
+            # (nearly) flat intervals.
+            vals = lo + (hi-lo)*u*(plo + phi)/(plo + sqrt(plo**2 + (phi**2 - plo**2)*u))
             return vals
             # return self.nz_centers[indices]
 
-- 
2.43.0


From 3b9ecab502e714012de1412801aa7ab4559c07ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:11 +0000
Subject: [PATCH 085/119] fix: Population subsets with certain members never
 ended, or read tables that were not there

---
 package/inference/mc/population.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index 2eb86c0..f0c4c6c 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -86,6 +86,21 @@ class Population(object):
         else:
             return int(sum(self.weights)/self.weights.max())
 
+    def _subset_certain(self, nsamp, method):
+        """
+        Return a PPS sample when the largest inclusion probability is unity.
+
+        The weight ratios diverge for members that are certain to be included,
+        so take those, and sample the rest of the population without them.
+        """
+        certain = nsamp*(self.weights/self.tot_wt) == 1
+        result = [self.items[i] for i in certain.nonzero()[0]]
+        rest = (~certain).nonzero()[0]
+        if len(result) < nsamp:
+            others = Population([self.items[i] for i in rest], self.weights[rest])
+            result.extend(getattr(others, method)(nsamp - len(result)))
+        return result
+
     def subset_pps(self, nsamp):
         """
         Return a sample of nsamp distinct items from the population, sampled 
@@ -117,6 +132,8 @@ class Population(object):
                 self.nsamp = 0
                 self.did_Sampford_init = True
                 self.did_Sampford_tables = False
+            if nsamp*self.max_wt == 1:
+                return self._subset_certain(nsamp, 'subset_pps')
             # This part has to be done when sample size changes.
             if self.nsamp != nsamp:
                 print('Initing ratios...')
@@ -166,6 +183,8 @@ class Population(object):
                 self.max_wt = self.sort_wts[0]/self.tot_wt  # Max wt, normed
                 self.nsamp = 0
                 self.did_Sampford_init = True
+            if nsamp*self.max_wt == 1:
+                return self._subset_certain(nsamp, 'subset_pps5')
             # This part has to be done when sample size changes.
             if self.nsamp != nsamp:
                 print('Initing ratios...')
-- 
2.43.0


From 75b3a8e2d2f3b890546297a7ec15397c41a59fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:11 +0000
Subject: [PATCH 086/119] fix: Population subsets with equal probabilities:
 pool of C ints

---
 package/inference/mc/population.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index f0c4c6c..c7e0e63 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -6,7 +6,7 @@ Classes and functions for describing and sampling discrete populations.
 
 __author__ = "Tom Loredo"
 
-from numpy import arange, array, random
+from numpy import arange, array, intc, random
 from _ppssampler import _ppssampler, equalprob
 from _ppssampler import set_rng_state, get_rng_state
 from inference.utils.pl import pl
@@ -115,7 +115,7 @@ class Population(object):
         rng_state = random.get_state()
         set_rng_state(*rng_state[:3])
         if self.equiprob:
-            pool = arange(self.npopn)
+            pool = arange(self.npopn, dtype=intc)
             indices = equalprob(nsamp, pool)
         else:
             # This part of setup has to be done before any sampling.
@@ -167,7 +167,7 @@ class Population(object):
         rng_state = random.get_state()
         set_rng_state(*rng_state[:3])
         if self.equiprob:
-            pool = arange(self.npopn)
+            pool = arange(self.npopn, dtype=intc)
             indices = equalprob(nsamp, pool)
         else:
             # This part of setup has to be done before any sampling.
-- 
2.43.0


From 0289c8bf04138c785ac8ee87edadb9d22f9c2be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:00 +0000
Subject: [PATCH 087/119] fix: kepler: Orbit anomalies use the elements of the
 orbit

---
 sandbox/signals/kepler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sandbox/signals/kepler.py b/sandbox/signals/kepler.py
index 9a96962..7b60ce9 100755
--- a/sandbox/signals/kepler.py
+++ b/sandbox/signals/kepler.py
@@ -1,5 +1,5 @@
 from numpy import sin, cos, zeros
-import fkepler
+from . import fkepler
 
 fkepler.settol(1.e-5)
 
@@ -65,14 +65,14 @@ class Orbit:
     def ecc_anom(self, times):
         """Calculate the cosine & sine of the eccentric anomaly for a vector
                 of observing times."""
-        fkepler.setup_Tp(tau, e, T0)
+        fkepler.setup_Tp(self.tau, self.e, self.T0)
         self.cs_EA = fkepler.vt2EA(times)
         return self.cs_EA
 
     def true_anom(self, times):
         """Calculate the cosine & sine of the true anomaly for a vector
                 of observing times."""
-        fkepler.setup_Tp(tau, e, T0)
+        fkepler.setup_Tp(self.tau, self.e, self.T0)
         self.cs_TA = fkepler.vt2TA(times)
         return self.cs_TA
 
-- 
2.43.0


From 9dfbbc77354cc1abbf63686f24357c7423ddcdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:00 +0000
Subject: [PATCH 088/119] fix: kepler.v_rad: arrays of times, and the sign of
 the sine term

---
 sandbox/signals/kepler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sandbox/signals/kepler.py b/sandbox/signals/kepler.py
index 7b60ce9..2c86066 100755
--- a/sandbox/signals/kepler.py
+++ b/sandbox/signals/kepler.py
@@ -1,4 +1,4 @@
-from numpy import sin, cos, zeros
+from numpy import sin, cos, zeros, ndim
 from . import fkepler
 
 fkepler.settol(1.e-5)
@@ -23,11 +23,11 @@ def v_rad(K, tau, e, long, T0, v0, times):
     K can use a different unit of time (typically m/s).
     """
     fkepler.setup_Tp(tau, e, T0)
-    if type(times) == float:
+    if ndim(times) == 0:
         c, s = fkepler.t2TA(times)  # Get cos, sin of true anomaly
     else:
-        c, s = fkepler.vt2TA(times)
-    return v0 + K*cos(long)*(e+c) + K*sin(long)*s
+        c, s = fkepler.vt2TA(times).transpose()
+    return v0 + K*cos(long)*(e+c) - K*sin(long)*s
 
 
 class Orbit:
-- 
2.43.0


From 425add0f44cda9e7395f39b9c401fe22ab48762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:26 +0000
Subject: [PATCH 089/119] fix: fkepler: raise when Kepler's equation is not
 solved instead of returning -1

---
 sandbox/signals/fkeplermodule.c | 51 +++++++++++++++------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/sandbox/signals/fkeplermodule.c b/sandbox/signals/fkeplermodule.c
index e3577c5..fccbff8 100644
--- a/sandbox/signals/fkeplermodule.c
+++ b/sandbox/signals/fkeplermodule.c
@@ -26,9 +26,9 @@
 
 /* Prototypes for functions defined and used in this extension file that aren't 
    taken care of in an include file. */
-static void t2TA (double t, double *c, double *s);
-static void t2EA (double t, double *c, double *s);
-static void t2anoms (double t, double *cea, double *sea, 
+static int t2TA (double t, double *c, double *s);
+static int t2EA (double t, double *c, double *s);
+static int t2anoms (double t, double *cea, double *sea, 
                      double *cta, double *sta);
 void initfkepler (void);
 
@@ -240,8 +240,8 @@ fkepler_t2EA (PyObject *self, PyObject *args) {
         if (fabs(dE) < err || EA == EA_p)
             return Py_BuildValue("d", EA);
     }
-    /* printf("t2EA did not converge!"); */
-    return Py_BuildValue("d", -99.);
+    PyErr_SetString(PyExc_RuntimeError, "t2EA did not converge!");
+    return NULL;
 
 /** Misbehavior ends up here! */
 FAIL:
@@ -297,7 +297,7 @@ fkepler_t2TA (PyObject *self, PyObject *args) {
         }
         if (fabs(dE) < err || EA == EA_p) goto TACalc;
     }
-    PySys_WriteStdout("t2EA did not converge in t2TA!");
+    PyErr_SetString(PyExc_RuntimeError, "t2EA did not converge in t2TA!");
     return NULL;
 
 /*** Now get cos & sin of TA directly from tan(phi/2). */
@@ -365,7 +365,7 @@ fkepler_vt2EA (PyObject *self, PyObject *args) {
     t_vec = DDATA(t_array);
     EA_vec = DDATA(EA_array);
     for (i=0; i<n; i++) {
-        t2EA(*(t_vec+i), &c, &s);
+        Py_TRY(t2EA(*(t_vec+i), &c, &s));
         *(EA_vec + 2*i) = c;
         *(EA_vec + 2*i + 1) = s;
     }
@@ -418,7 +418,7 @@ fkepler_t2EA_store (PyObject *self, PyObject *args) {
     t_vec = DDATA(t_array);
     EA_vec = DDATA(EA_array);
     for (i=0; i<n; i++) {
-        t2EA(*(t_vec+i), &c, &s);
+        Py_TRY(t2EA(*(t_vec+i), &c, &s));
         *(EA_vec + 2*i) = c;
         *(EA_vec + 2*i + 1) = s;
     }
@@ -440,7 +440,7 @@ FAIL:
 . This "helper" function does the actual computations; it isn't directly
 . accessed by Python.
 ..............................................................................*/
-static void t2EA (double t, double *c, double *s) {
+static int t2EA (double t, double *c, double *s) {
     double f, cf, hi, lo, EA, W, EA_p, dE;
     int i;
     double imodf;
@@ -477,15 +477,14 @@ static void t2EA (double t, double *c, double *s) {
         }
         if (fabs(dE) < err || EA == EA_p) goto EACalc;
     }
-    PySys_WriteStdout("t2EA did not converge in t2EA!");
-    *c = -1.;
-    *s = -1.;
-    return;
+    PyErr_SetString(PyExc_RuntimeError, "t2EA did not converge in t2EA!");
+    return 0;
 
 /*** Now get cos & sin of TA directly from tan(phi/2). */
 EACalc:
 	*c = cos(EA);
 	*s = sin(EA);
+	return 1;
 }
 
 
@@ -530,7 +529,7 @@ fkepler_vt2TA (PyObject *self, PyObject *args) {
     t_vec = DDATA(t_array);
     TA_vec = DDATA(TA_array);
     for (i=0; i<n; i++) {
-        t2TA(*(t_vec+i), &c, &s);
+        Py_TRY(t2TA(*(t_vec+i), &c, &s));
         *(TA_vec + 2*i) = c;
         *(TA_vec + 2*i + 1) = s;
     }
@@ -583,7 +582,7 @@ fkepler_t2TA_store (PyObject *self, PyObject *args) {
     t_vec = DDATA(t_array);
     TA_vec = DDATA(TA_array);
     for (i=0; i<n; i++) {
-        t2TA(*(t_vec+i), &c, &s);
+        Py_TRY(t2TA(*(t_vec+i), &c, &s));
         *(TA_vec + 2*i) = c;
         *(TA_vec + 2*i + 1) = s;
     }
@@ -605,7 +604,7 @@ FAIL:
 . This "helper" function does the actual computations; it isn't directly
 . accessed by Python.
 ..............................................................................*/
-static void t2TA (double t, double *c, double *s) {
+static int t2TA (double t, double *c, double *s) {
     double f, hi, lo, EA, W, EA_p, dE;
     int i;
     double imodf;
@@ -659,10 +658,8 @@ static void t2TA (double t, double *c, double *s) {
         }
         if (fabs(dE) < err || EA == EA_p) goto TACalc;
     }
-    PySys_WriteStdout("t2EA did not converge in t2TA!"); /* *** change to an exception! *** */
-    *c = -1.;
-    *s = -1.;
-    return;
+    PyErr_SetString(PyExc_RuntimeError, "t2EA did not converge in t2TA!");
+    return 0;
 
 /*** Now get cos & sin of TA directly from tan(phi/2). */
 TACalc:
@@ -680,6 +677,7 @@ TACalc:
         *c = (1.-th2)/(1.+th2);
         *s = (1.-*c)/th;
     }
+    return 1;
 }
 
 
@@ -728,7 +726,7 @@ fkepler_t2anoms (PyObject *self, PyObject *args) {
     TA_vec = DDATA(TA_array);
     for (i=0; i<n; i++) {
         /* PySys_WriteStdout("t2anoms: %i %f\n", i, *(t_vec+i)); */
-        t2anoms(*(t_vec+i), &c, &s, &cta, &sta);
+        Py_TRY(t2anoms(*(t_vec+i), &c, &s, &cta, &sta));
         *(EA_vec + 2*i) = c;
         *(EA_vec + 2*i + 1) = s;
         *(TA_vec + 2*i) = cta;
@@ -754,7 +752,7 @@ FAIL:
 . This "helper" function does the actual computations; it isn't directly
 . accessed by Python.
 ..............................................................................*/
-static void t2anoms (double t, double *cea, double *sea, 
+static int t2anoms (double t, double *cea, double *sea, 
                      double *cta, double *sta) {
     double f, hi, lo, EA, W, EA_p, dE;
     int i;
@@ -809,12 +807,8 @@ static void t2anoms (double t, double *cea, double *sea,
         }
         if (fabs(dE) < err || EA == EA_p) goto TACalc;
     }
-    PySys_WriteStdout("t2anoms did not converge in t2TA!"); /* *** change to an exception! *** */
-    *cea = -1.;
-    *sea = -1.;
-    *cta = -1.;
-    *sta = -1.;
-    return;
+    PyErr_SetString(PyExc_RuntimeError, "t2anoms did not converge in t2TA!");
+    return 0;
 
 /*** Now get cos & sin of TA directly from tan(phi/2). */
 TACalc:
@@ -834,6 +828,7 @@ TACalc:
         *cta = (1.-th2)/(1.+th2);
         *sta = (1.-*cta)/th;
     }
+    return 1;
 }
 
 
-- 
2.43.0


From d0d9b88b089d938651c7485a15d614e4fc7d319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:41 +0000
Subject: [PATCH 090/119] fix: fkepler: results reach any array provided for
 them, wrong arguments raise

---
 sandbox/signals/fkeplermodule.c | 55 +++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/sandbox/signals/fkeplermodule.c b/sandbox/signals/fkeplermodule.c
index fccbff8..e05aeb0 100644
--- a/sandbox/signals/fkeplermodule.c
+++ b/sandbox/signals/fkeplermodule.c
@@ -35,6 +35,11 @@ void initfkepler (void);
 /* Error handler macro for use in any extension; adapted from Dubois & Yang. */
 #define Py_TRY(BOOLEAN) {if (!(BOOLEAN)) goto FAIL;}
 
+/* Macro for access to an array provided for results (n x 2, double); if the
+   array isn't contiguous, results are copied back by PyArray_ResolveWritebackIfCopy. */
+#define STORE_ARRAY(p) PyArray_FromAny(p, PyArray_DescrFromType(NPY_DOUBLE), 2, 2, \
+                                       NPY_ARRAY_INOUT_ARRAY2, NULL)
+
 /* Macro to cast SciPy array data to a 1-d double array. */
 #define DDATA(p) ((double *) (((PyArrayObject *)p)->data))
 
@@ -346,6 +351,7 @@ fkepler_vt2EA (PyObject *self, PyObject *args) {
 /** Initialize objects to NULL that we may have to XDECREF if a constructor
  ** fails so that XDECREF has an argument to work with.  Strictly, this
  ** isn't needed for every object. */
+     t_array = NULL;
      EA_array = NULL;
 
 /** Parse the argument; make it contiguous. */
@@ -394,8 +400,8 @@ static char fkepler_t2EA_store_doc[] =
 static PyObject *
 fkepler_t2EA_store (PyObject *self, PyObject *args) {
     PyObject *input1, *input2;
-    PyArrayObject *t_array;
-    PyArrayObject *EA_array;
+    PyArrayObject *t_array = NULL;
+    PyArrayObject *EA_array = NULL;
     int n, i;
     double c, s;
     double *t_vec, *EA_vec;
@@ -406,13 +412,12 @@ fkepler_t2EA_store (PyObject *self, PyObject *args) {
             PyArray_ContiguousFromAny(input1, PyArray_DOUBLE, 1, 1);
     if (t_array == NULL) goto FAIL;
     EA_array = (PyArrayObject *)
-            PyArray_ContiguousFromAny(input2, PyArray_DOUBLE, 2, 2);
+            STORE_ARRAY(input2);
     if (EA_array == NULL) goto FAIL;
 
 /** Check consistency of arrays. */
     n = t_array->dimensions[0];
-    if (EA_array->dimensions[0] != n) goto FAIL;
-    if (EA_array->dimensions[1] != 2) goto FAIL;
+    if (EA_array->dimensions[0] != n || EA_array->dimensions[1] != 2) goto MISMATCH;
 
 /** Step through the times. */
     t_vec = DDATA(t_array);
@@ -424,13 +429,17 @@ fkepler_t2EA_store (PyObject *self, PyObject *args) {
     }
 
 /** Clean up and return. */
+    PyArray_ResolveWritebackIfCopy(EA_array);
     Py_DECREF(t_array);
     Py_DECREF(EA_array);
     Py_INCREF(Py_None);
     return Py_None;
 
+MISMATCH:
+    PyErr_SetString(PyExc_ValueError, "results need an array of shape (number of times, 2)!");
 /** Misbehavior ends up here! */
 FAIL:
+    if (EA_array != NULL) PyArray_DiscardWritebackIfCopy(EA_array);
     Py_XDECREF(t_array);
     Py_XDECREF(EA_array);
     return NULL;
@@ -510,6 +519,7 @@ fkepler_vt2TA (PyObject *self, PyObject *args) {
 /** Initialize objects to NULL that we may have to XDECREF if a constructor
  ** fails so that XDECREF has an argument to work with.  Strictly, this
  ** isn't needed for every object. */
+     t_array = NULL;
      TA_array = NULL;
 
 /** Parse the argument; make it contiguous. */
@@ -558,8 +568,8 @@ static char fkepler_t2TA_store_doc[] =
 static PyObject *
 fkepler_t2TA_store (PyObject *self, PyObject *args) {
     PyObject *input1, *input2;
-    PyArrayObject *t_array;
-    PyArrayObject *TA_array;
+    PyArrayObject *t_array = NULL;
+    PyArrayObject *TA_array = NULL;
     int n, i;
     double c, s;
     double *t_vec, *TA_vec;
@@ -570,13 +580,12 @@ fkepler_t2TA_store (PyObject *self, PyObject *args) {
             PyArray_ContiguousFromAny(input1, PyArray_DOUBLE, 1, 1);
     if (t_array == NULL) goto FAIL;
     TA_array = (PyArrayObject *)
-            PyArray_ContiguousFromAny(input2, PyArray_DOUBLE, 2, 2);
+            STORE_ARRAY(input2);
     if (TA_array == NULL) goto FAIL;
 
 /** Check consistency of arrays. */
     n = t_array->dimensions[0];
-    if (TA_array->dimensions[0] != n) goto FAIL;
-    if (TA_array->dimensions[1] != 2) goto FAIL;
+    if (TA_array->dimensions[0] != n || TA_array->dimensions[1] != 2) goto MISMATCH;
 
 /** Step through the times. */
     t_vec = DDATA(t_array);
@@ -588,13 +597,17 @@ fkepler_t2TA_store (PyObject *self, PyObject *args) {
     }
 
 /** Clean up and return. */
+    PyArray_ResolveWritebackIfCopy(TA_array);
     Py_DECREF(t_array);
     Py_DECREF(TA_array);
     Py_INCREF(Py_None);
     return Py_None;
 
+MISMATCH:
+    PyErr_SetString(PyExc_ValueError, "results need an array of shape (number of times, 2)!");
 /** Misbehavior ends up here! */
 FAIL:
+    if (TA_array != NULL) PyArray_DiscardWritebackIfCopy(TA_array);
     Py_XDECREF(t_array);
     Py_XDECREF(TA_array);
     return NULL;
@@ -694,9 +707,9 @@ static char fkepler_t2anoms_doc[] =
 static PyObject *
 fkepler_t2anoms (PyObject *self, PyObject *args) {
     PyObject *input1, *input2, *input3;
-    PyArrayObject *t_array;
-    PyArrayObject *EA_array;
-    PyArrayObject *TA_array;
+    PyArrayObject *t_array = NULL;
+    PyArrayObject *EA_array = NULL;
+    PyArrayObject *TA_array = NULL;
     int n, i;
     double c, s, cta, sta;
     double *t_vec, *EA_vec, *TA_vec;
@@ -707,18 +720,16 @@ fkepler_t2anoms (PyObject *self, PyObject *args) {
             PyArray_ContiguousFromAny(input1, PyArray_DOUBLE, 1, 1);
     if (t_array == NULL) goto FAIL;
     EA_array = (PyArrayObject *)
-            PyArray_ContiguousFromAny(input2, PyArray_DOUBLE, 2, 2);
+            STORE_ARRAY(input2);
     if (EA_array == NULL) goto FAIL;
     TA_array = (PyArrayObject *)
-            PyArray_ContiguousFromAny(input3, PyArray_DOUBLE, 2, 2);
+            STORE_ARRAY(input3);
     if (TA_array == NULL) goto FAIL;
 
 /** Check consistency of arrays. */
     n = t_array->dimensions[0];
-    if (EA_array->dimensions[0] != n) goto FAIL;
-    if (EA_array->dimensions[1] != 2) goto FAIL;
-    if (TA_array->dimensions[0] != n) goto FAIL;
-    if (TA_array->dimensions[1] != 2) goto FAIL;
+    if (EA_array->dimensions[0] != n || EA_array->dimensions[1] != 2) goto MISMATCH;
+    if (TA_array->dimensions[0] != n || TA_array->dimensions[1] != 2) goto MISMATCH;
 
 /** Step through the times. */
     t_vec = DDATA(t_array);
@@ -734,14 +745,20 @@ fkepler_t2anoms (PyObject *self, PyObject *args) {
     }
 
 /** Clean up and return. */
+    PyArray_ResolveWritebackIfCopy(EA_array);
+    PyArray_ResolveWritebackIfCopy(TA_array);
     Py_DECREF(t_array);
     Py_DECREF(EA_array);
     Py_DECREF(TA_array);
     Py_INCREF(Py_None);
     return Py_None;
 
+MISMATCH:
+    PyErr_SetString(PyExc_ValueError, "results need an array of shape (number of times, 2)!");
 /** Misbehavior ends up here! */
 FAIL:
+    if (EA_array != NULL) PyArray_DiscardWritebackIfCopy(EA_array);
+    if (TA_array != NULL) PyArray_DiscardWritebackIfCopy(TA_array);
     Py_XDECREF(t_array);
     Py_XDECREF(EA_array);
     Py_XDECREF(TA_array);
-- 
2.43.0


From 945f635d3f94763777d0e076d922eff8ddcf88be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:41 +0000
Subject: [PATCH 091/119] fix: fkepler: a refused setup leaves the orbit as it
 was

---
 sandbox/signals/fkeplermodule.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sandbox/signals/fkeplermodule.c b/sandbox/signals/fkeplermodule.c
index e05aeb0..8ad5e12 100644
--- a/sandbox/signals/fkeplermodule.c
+++ b/sandbox/signals/fkeplermodule.c
@@ -120,8 +120,11 @@ static char fkepler_setup_Tp_doc[] =
 static PyObject *
 fkepler_setup_Tp (PyObject *self, PyObject *args) {
 
+    double tau_, e_, Tp_;
+
 /*--- Parse the 3 double arguments. */
-    Py_TRY(PyArg_ParseTuple(args, "ddd", &tau, &e, &Tp));
+    Py_TRY(PyArg_ParseTuple(args, "ddd", &tau_, &e_, &Tp_));
+    tau = tau_, e = e_, Tp = Tp_;
     Mp = twopi*Tp/tau;
     M0 = -Mp;
 
@@ -141,8 +144,11 @@ static char fkepler_setup_M0_doc[] =
 static PyObject *
 fkepler_setup_M0 (PyObject *self, PyObject *args) {
 
+    double tau_, e_, M0_;
+
 /*--- Parse the 3 double arguments. */
-    Py_TRY(PyArg_ParseTuple(args, "ddd", &tau, &e, &M0));
+    Py_TRY(PyArg_ParseTuple(args, "ddd", &tau_, &e_, &M0_));
+    tau = tau_, e = e_, M0 = M0_;
     Tp = -tau*M0/twopi;
 
     /* Return None, counting the new reference. */
@@ -161,8 +167,11 @@ static char fkepler_setup_Mp_doc[] =
 static PyObject *
 fkepler_setup_Mp (PyObject *self, PyObject *args) {
 
+    double tau_, e_, Mp_;
+
 /*--- Parse the 3 double arguments. */
-    Py_TRY(PyArg_ParseTuple(args, "ddd", &tau, &e, &Mp));
+    Py_TRY(PyArg_ParseTuple(args, "ddd", &tau_, &e_, &Mp_));
+    tau = tau_, e = e_, Mp = Mp_;
     Tp = tau*Mp/twopi;
     M0 = -Mp;
 
-- 
2.43.0


From 8bc84bd42a7e65bcc7a77d9243cf5e1129275077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:59 +0000
Subject: [PATCH 092/119] fix: periodic: import the extensions from the
 package, allow settings given later

---
 sandbox/point/periodic/periodic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sandbox/point/periodic/periodic.py b/sandbox/point/periodic/periodic.py
index 80f94e5..5632a23 100644
--- a/sandbox/point/periodic/periodic.py
+++ b/sandbox/point/periodic/periodic.py
@@ -1,7 +1,7 @@
 from numpy import pi, zeros, log, linspace
 from scipy.special import gammaln
-import _pcperiodic as gl  # aka "Gregory-Loredo algorithm"
-from _rayleigh import rayleigh, rsgrid, lml_wk
+from . import _pcperiodic as gl  # aka "Gregory-Loredo algorithm"
+from ._rayleigh import rayleigh, rsgrid, lml_wk
 
 __all__ = ['PCModel', 'rayleigh', 'rsgrid', 'lml_wk']
 
@@ -46,6 +46,7 @@ class PCModel(object):
         if nbins is not None:
             self.set_nbins(nbins)
         else:
+            self.nbins = None
             self.bins = None
         self.offset = None # Offset for logs to avoid over/underflow
         self.w = None
@@ -64,7 +65,7 @@ class PCModel(object):
         # nbins-dependent part of the Ockham factor:
         self.logbfac = gammaln(nbins) + self.ndata*log(nbins) + \
                        gammaln(self.ndata+1) - gammaln(self.ndata+nbins)
-        if self.qpts > 0:
+        if self.qpts:
             self.absc = gl.trap_absc(self.qpts, nbins)
         else:
             self.absc = None
-- 
2.43.0


From e5067d1f4160ac0c3ea3f72cd1ee496b9ae4dc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:59 +0000
Subject: [PATCH 093/119] fix: periodic: rate_est works for scalar and array
 times

---
 sandbox/point/periodic/periodic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sandbox/point/periodic/periodic.py b/sandbox/point/periodic/periodic.py
index 5632a23..2b68fb2 100644
--- a/sandbox/point/periodic/periodic.py
+++ b/sandbox/point/periodic/periodic.py
@@ -1,4 +1,4 @@
-from numpy import pi, zeros, log, linspace
+from numpy import pi, zeros, log, linspace, array
 from scipy.special import gammaln
 from . import _pcperiodic as gl  # aka "Gregory-Loredo algorithm"
 from ._rayleigh import rayleigh, rsgrid, lml_wk
@@ -207,7 +207,7 @@ class PCModel(object):
             ret_phases = False
             len(phases)
             phases = array(phases)
-        except AttributeError:  # Raised if len(phases) fails
+        except TypeError:  # Raised if len(phases) fails
             # phases is an int
             ret_phases = True
             phases = linspace(0., twopi, phases)
-- 
2.43.0


From e859c7a362b17a6289918e612175553a1425bfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:59 +0000
Subject: [PATCH 094/119] fix: periodic: fold times before the epoch and beyond
 the integer range into the bins

---
 sandbox/point/periodic/_pcperiodic.f | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sandbox/point/periodic/_pcperiodic.f b/sandbox/point/periodic/_pcperiodic.f
index bb066f3..73260a3 100644
--- a/sandbox/point/periodic/_pcperiodic.f
+++ b/sandbox/point/periodic/_pcperiodic.f
@@ -202,7 +202,9 @@ c---  to perform a modulo (use of the mod function is much slower!).
 	phi1 = phi / twopi
 	do 20 n=1, ndat
 	    phase = phases(n) + phi1
-	    phase = phase - int(phase)
+	    phase = phase - aint(phase)
+	    if (phase .lt. zero) phase = phase + one
+	    if (phase .ge. one) phase = zero
 	    j = nbins*phase
 	    j = j + 1
 	    bins(j) = bins(j) + 1
-- 
2.43.0


From f3a7154e3be04baf8c28cbf38a25654009168a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:59 +0000
Subject: [PATCH 095/119] fix: periodic: rate estimate: normalization, bins
 crossed within a step, uncertainty

---
 sandbox/point/periodic/_pcperiodic.f | 30 ++++++++++++++++------------
 sandbox/point/periodic/periodic.py   |  1 -
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/sandbox/point/periodic/_pcperiodic.f b/sandbox/point/periodic/_pcperiodic.f
index 73260a3..2208d1b 100644
--- a/sandbox/point/periodic/_pcperiodic.f
+++ b/sandbox/point/periodic/_pcperiodic.f
@@ -615,11 +615,11 @@ cf2py intent(inplace) phibins, bins
 
 c---  Locals:
 	integer n, j
-	real*8 del, arg, dphi, phi, norm, rc, r2c
+	real*8 del, arg, dphi, phi, norm, rc, r2c, step, step1, x
 cb	real*8 binf(nbmax), logS
-	real*8 plimult, one, two, twopi
+	real*8 plimult, zero, one, two, twopi
 	parameter (twopi = 6.2831853071795862d0)
-	parameter (one = 1.d0, two = 2.d0)
+	parameter (zero = 0.d0, one = 1.d0, two = 2.d0)
 
 c---  Do the integral over phi exactly.
 	norm = 0.
@@ -638,19 +638,23 @@ cb	    arg = plimult(ndat, nbins, bins) - lndfac + logS + lfac
      *                    bins, dphi)
 	    arg = plimult(ndat, nbins, bins) - lndfac + lfac
 	    arg = exp(arg)
-	    norm = norm + arg*dphi
+	    step = min(dphi, del-phi)
+	    norm = norm + arg*step
 	    npts = npts + 1
 	    do 60 n=1, nt
-	        j = one + nbins*mod(rphases(n) + phi, twopi)/twopi
+c---  The phase may cross to the next bin within the step.
+	        x = nbins*mod(rphases(n) + phi, twopi)/twopi
+	        j = min(one + x, one*nbins)
+	        step1 = min((j-x)*del, step)
 	        rc = nbins * (bins(j)+one)/(ndat+nbins)
 	        r2c = rc * nbins * (bins(j)+two)/(ndat+nbins+one)
-	        if (phi+dphi .lt. del) then
-	            r(n) = r(n) + rc*arg*dphi
-	            r2(n) = r2(n) + r2c*arg*dphi
-	        else
-	            r(n) = r(n) + rc*arg*(del-phi)
-	            r2(n) = r2(n) + r2c*arg*(del-phi)
-	        endif
+	        r(n) = r(n) + rc*arg*step1
+	        r2(n) = r2(n) + r2c*arg*step1
+	        j = mod(j, nbins) + 1
+	        rc = nbins * (bins(j)+one)/(ndat+nbins)
+	        r2c = rc * nbins * (bins(j)+two)/(ndat+nbins+one)
+	        r(n) = r(n) + rc*arg*(step-step1)
+	        r2(n) = r2(n) + r2c*arg*(step-step1)
 60	    continue
 	    if (phi+dphi .lt. del) then
 	        phi = phi + dphi
@@ -658,7 +662,7 @@ cb	    arg = plimult(ndat, nbins, bins) - lndfac + logS + lfac
 	    endif
 	do 100 n=1, nt
 	    r(n) = r(n)/norm
-	    r2(n) = r2(n)/norm
+	    r2(n) = sqrt(max(r2(n)/norm - r(n)**2, zero))
 c	    write(*,'(i3,5(1pg13.4))') nbins,rphases(n),r(n),r2(n),norm,lfac
 100	continue
 
diff --git a/sandbox/point/periodic/periodic.py b/sandbox/point/periodic/periodic.py
index 2b68fb2..a5009a7 100644
--- a/sandbox/point/periodic/periodic.py
+++ b/sandbox/point/periodic/periodic.py
@@ -213,7 +213,6 @@ class PCModel(object):
             phases = linspace(0., twopi, phases)
         rate, uncert = gl.rate_wb(self.lndfac, self.phases, self.phibins,
                        self.bins, self.offset, phases)
-        # *** Is uncert a variance or std devn?
         if ret_phases:
             return phases, rate, uncert
         else:
-- 
2.43.0


From 5bc32f6ce48e632648d762b1051d0409b214ce9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:59 +0000
Subject: [PATCH 096/119] fix: periodic: trapezoid abscissas in double
 precision

---
 sandbox/point/periodic/_pcperiodic.f | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sandbox/point/periodic/_pcperiodic.f b/sandbox/point/periodic/_pcperiodic.f
index 2208d1b..c64c9d7 100644
--- a/sandbox/point/periodic/_pcperiodic.f
+++ b/sandbox/point/periodic/_pcperiodic.f
@@ -361,6 +361,7 @@ cf2py intent(out) absc
 c---  Locals:
 	real*8 twopi
 	parameter (twopi = 6.2831853071795862d0)
+	real*8 del
 
 	del = twopi / nbins / (npts-1)
 	do np=1, npts
-- 
2.43.0


From 551bb29e78864d495d969ac50ccf03fedd4eee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:59 +0000
Subject: [PATCH 097/119] fix: periodic: log likelihood at a phase uses the log
 of the number of bins

---
 sandbox/point/periodic/_pcperiodic.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sandbox/point/periodic/_pcperiodic.f b/sandbox/point/periodic/_pcperiodic.f
index c64c9d7..d0874ee 100644
--- a/sandbox/point/periodic/_pcperiodic.f
+++ b/sandbox/point/periodic/_pcperiodic.f
@@ -305,7 +305,7 @@ c---  Locals:
 	ll_wpb = factln(arg)
 	arg = ndat + arg
 	ll_wpb = ll_wpb - factln(arg)
-	ll_wpb = ll_wpb + (1.*ndat)*nbins +factln(ndat) +
+	ll_wpb = ll_wpb + ndat*log(1.d0*nbins) + factln(ndat) +
      +           limult(ndat, nbins, bins)
 
 	return
-- 
2.43.0


From 7300b08ebfc07d7d730f96fbb1419c56eeb6fd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:59 +0000
Subject: [PATCH 098/119] fix: periodic: refuse settings with which the phase
 cannot be marginalized

---
 sandbox/point/periodic/periodic.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sandbox/point/periodic/periodic.py b/sandbox/point/periodic/periodic.py
index a5009a7..bfa8f90 100644
--- a/sandbox/point/periodic/periodic.py
+++ b/sandbox/point/periodic/periodic.py
@@ -34,7 +34,7 @@ class PCModel(object):
         if qpts is None:
             self.qpts = None
             self.absc = None
-        elif qpts >= 0:
+        elif qpts == 0 or qpts > 1:
             self.qpts = qpts
             if nbins and qpts > 0:
                 # This depends on nbins b/c we integ. over one bin width.
@@ -42,7 +42,7 @@ class PCModel(object):
             else:
                 self.absc = None
         else:
-            raise ValueError('qpts must be a positive integer!')
+            raise ValueError('qpts must be 0 or an integer > 1!')
         if nbins is not None:
             self.set_nbins(nbins)
         else:
@@ -71,14 +71,14 @@ class PCModel(object):
             self.absc = None
 
     def set_qpts(self, n):
-        if n >= 0:
+        if n == 0 or n > 1:
             self.qpts = n
             if self.nbins and n > 0:
                 self.absc = gl.trap_absc(n, self.nbins)
             else:
                 self.absc = None
         else:
-            raise ValueError('qpts must be a positive integer!')
+            raise ValueError('qpts must be 0 or an integer > 1!')
 
     def _set_offset(self):
         # Bin data with current w params, and find the
@@ -157,6 +157,8 @@ class PCModel(object):
         the integral minus self.offset is the log of the full marginal
         likelihood.
         """
+        if self.qpts is None:
+            raise ValueError('Must specify qpts for marginalizing over phase!')
         self._update_params(w, wdot, wddot)
         if self.offset is None: self._set_offset()
         if self.qpts==0:
@@ -171,6 +173,8 @@ class PCModel(object):
         """
         Phase-averaged chi**2 vs. frequency parameters.
         """
+        if self.qpts is None:
+            raise ValueError('Must specify qpts for marginalizing over phase!')
         self._update_params(w, wdot, wddot)
         if self.offset is None: self._set_offset()
         if self.qpts==0:
-- 
2.43.0


From 3d0ecf1a63f313bb80ae27ca6742623955458936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:36 +0000
Subject: [PATCH 099/119] fix: regress: Python 3 syntax, float for numpy's
 Float

---
 sandbox/regress/regress.py | 46 +++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/sandbox/regress/regress.py b/sandbox/regress/regress.py
index e6d1d45..c5a9900 100755
--- a/sandbox/regress/regress.py
+++ b/sandbox/regress/regress.py
@@ -1,4 +1,4 @@
-from numpy import array, sqrt, ones, Float
+from numpy import array, sqrt, ones
 import _regress
 
 
@@ -14,11 +14,11 @@ def bistats(x, y):
     covar is the covariance
     rho is Pearson's linear correlation coefficient
     """
-    if len(x) != len(y): raise ValueError, 'x, y length mismatch!'
-    if len(x) < 2: raise ValueError, 'Need at least n=2!'
+    if len(x) != len(y): raise ValueError('x, y length mismatch!')
+    if len(x) < 2: raise ValueError('Need at least n=2!')
     xbar, xstd, ybar, ystd, covar, rho, ierr = _regress.datstt(x,y)
     if ierr == 0:
-        raise ValueError, 'Input data has zero Sum(x-xbar)(y-ybar)!'
+        raise ValueError('Input data has zero Sum(x-xbar)(y-ybar)!')
     xstd = sqrt(xstd)
     ystd = sqrt(ystd)
     return xbar, xstd, ybar, ystd, covar, rho
@@ -41,8 +41,8 @@ class BiStats(object):
     """
 
     def __init__(self, x, y, nocopy=None):
-        if len(x) != len(y): raise ValueError, 'x, y length mismatch!'
-        if len(x) < 2: raise ValueError, 'Need at least n=2!'
+        if len(x) != len(y): raise ValueError('x, y length mismatch!')
+        if len(x) < 2: raise ValueError('Need at least n=2!')
         # Handle copying first so the datstt call doesn't duplicate
         # any needed conversion of a sequence to an array.
         if nocopy:
@@ -57,7 +57,7 @@ class BiStats(object):
         self.xbar, self.xstd, self.ybar, self.ystd, \
             self.covar, self.rho, error = _regress.datstt(self.x, self.y)
         if error == 0:
-            raise ValueError, 'Input data has zero Sum(x-xbar)(y-ybar)!'
+            raise ValueError('Input data has zero Sum(x-xbar)(y-ybar)!')
         self.xstd = sqrt(self.xstd)
         self.ystd = sqrt(self.ystd)
 
@@ -113,13 +113,13 @@ def wlss(x, y, yerr):
     # Make a vector of yerr values if yerr is a scalar.
     try:
         if len(yerr) != npts:
-            raise ValueError, 'x, yerr length mismatch!'
+            raise ValueError('x, yerr length mismatch!')
     except TypeError:
-        yerr = yerr * ones(npts, Float)
+        yerr = yerr * ones(npts, float)
     # Check input sizes.
     if len(y) != npts:
-        raise ValueError, 'x, y length mismatch!'
-    if npts < 2: raise ValueError, 'Need  npts >= 2!'
+        raise ValueError('x, y length mismatch!')
+    if npts < 2: raise ValueError('Need  npts >= 2!')
     # _regress.wlss alters x, y (but not yerr) so copy them twice.
     try:
         x, y = x.copy(), y.copy()
@@ -134,7 +134,7 @@ def wlss(x, y, yerr):
         yerr = array(yerr)
     inter, ierr, slope, serr, scat, error = _regress.wlss(x2, y2, yerr)
     if error == 0:
-        raise ValueError, 'Input data has zero Sum(x-xbar)(y-ybar)!'
+        raise ValueError('Input data has zero Sum(x-xbar)(y-ybar)!')
     x, y = x.copy(), y.copy()
     result = LinRegResult('wlss', slope, inter, sqrt(serr), sqrt(ierr),\
              x, y, yerr=yerr)
@@ -167,35 +167,35 @@ class BCES(object):
         # If a vector is provided, copy it.
         try:
             if len(xerr) != npts:
-                raise ValueError, 'x, xerr length mismatch!'
+                raise ValueError('x, xerr length mismatch!')
             try:
                 xerr = xerr.copy()
             except AttributeError:
                 xerr = array(xerr)
         except TypeError:
-            xerr = xerr * ones(npts, Float)
+            xerr = xerr * ones(npts, float)
         try:
             if len(yerr) != npts:
-                raise ValueError, 'x, yerr length mismatch!'
+                raise ValueError('x, yerr length mismatch!')
             try:
                 yerr = yerr.copy()
             except AttributeError:
                 yerr = array(yerr)
         except TypeError:
-            yerr = yerr * ones(npts, Float)
+            yerr = yerr * ones(npts, float)
         try:
             if len(covar) != npts:
-                raise ValueError, 'x, covar length mismatch!'
+                raise ValueError('x, covar length mismatch!')
             try:
                 covar = covar.copy()
             except AttributeError:
                 covar = array(covar)
         except TypeError:
-            covar = covar * ones(npts, Float)
+            covar = covar * ones(npts, float)
         # Check input sizes.
         if len(y) != npts:
-            raise ValueError, 'x, y length mismatch!'
-        if npts < 2: raise ValueError, 'Need  npts >= 2!'
+            raise ValueError('x, y length mismatch!')
+        if npts < 2: raise ValueError('Need  npts >= 2!')
         # Handle copying x, y here so the bess call doesn't duplicate
         # any needed conversion of a sequence to an array.
         try:
@@ -241,8 +241,8 @@ class SixLin(object):
         npts = len(x)
         # Check input sizes.
         if len(y) != npts:
-            raise ValueError, 'x, y length mismatch!'
-        if npts < 2: raise ValueError, 'Need  npts >= 2!'
+            raise ValueError('x, y length mismatch!')
+        if npts < 2: raise ValueError('Need  npts >= 2!')
         # Handle copying x, y here so the sixlin call doesn't duplicate
         # any needed conversion of a sequence to an array.
         try:
@@ -258,7 +258,7 @@ class SixLin(object):
         # Do the regressions.
         inter, ierr, slope, serr, error = _regress.sixlin(x2, y2)
         if error == 0:
-            raise ValueError, 'Input data has zero Sum(x-xbar)(y-ybar)!'
+            raise ValueError('Input data has zero Sum(x-xbar)(y-ybar)!')
         # Store results.
         self.yonx = LinRegResult('SixLin-yonx', slope[0], inter[0],
             serr[0], ierr[0], x, y)
-- 
2.43.0


From c52bf6f05654c9abc97e44325c4bd427dc20d74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:36 +0000
Subject: [PATCH 100/119] fix: regress: sequences become arrays, although lists
 have copy methods too

---
 sandbox/regress/regress.py | 46 ++++++++------------------------------
 1 file changed, 9 insertions(+), 37 deletions(-)

diff --git a/sandbox/regress/regress.py b/sandbox/regress/regress.py
index c5a9900..aa9adba 100755
--- a/sandbox/regress/regress.py
+++ b/sandbox/regress/regress.py
@@ -49,11 +49,7 @@ class BiStats(object):
             self.x = x
             self.y = y
         else:
-            try:
-                self.x = x.copy()
-                self.y = y.copy()
-            except AttributeError:
-                self.x, self.y = array(x), array(y)
+            self.x, self.y = array(x), array(y)
         self.xbar, self.xstd, self.ybar, self.ystd, \
             self.covar, self.rho, error = _regress.datstt(self.x, self.y)
         if error == 0:
@@ -121,17 +117,11 @@ def wlss(x, y, yerr):
         raise ValueError('x, y length mismatch!')
     if npts < 2: raise ValueError('Need  npts >= 2!')
     # _regress.wlss alters x, y (but not yerr) so copy them twice.
-    try:
-        x, y = x.copy(), y.copy()
-    except AttributeError:
-        x, y = array(x), array(y)
+    x, y = array(x), array(y)
     x2, y2 = x.copy(), y.copy()
     # Handle copying yerr here so the wlss call doesn't duplicate
     # any needed conversion of a sequence to an array.
-    try:
-        yerr = yerr.copy()
-    except AttributeError:
-        yerr = array(yerr)
+    yerr = array(yerr)
     inter, ierr, slope, serr, scat, error = _regress.wlss(x2, y2, yerr)
     if error == 0:
         raise ValueError('Input data has zero Sum(x-xbar)(y-ybar)!')
@@ -168,28 +158,19 @@ class BCES(object):
         try:
             if len(xerr) != npts:
                 raise ValueError('x, xerr length mismatch!')
-            try:
-                xerr = xerr.copy()
-            except AttributeError:
-                xerr = array(xerr)
+            xerr = array(xerr)
         except TypeError:
             xerr = xerr * ones(npts, float)
         try:
             if len(yerr) != npts:
                 raise ValueError('x, yerr length mismatch!')
-            try:
-                yerr = yerr.copy()
-            except AttributeError:
-                yerr = array(yerr)
+            yerr = array(yerr)
         except TypeError:
             yerr = yerr * ones(npts, float)
         try:
             if len(covar) != npts:
                 raise ValueError('x, covar length mismatch!')
-            try:
-                covar = covar.copy()
-            except AttributeError:
-                covar = array(covar)
+            covar = array(covar)
         except TypeError:
             covar = covar * ones(npts, float)
         # Check input sizes.
@@ -198,10 +179,7 @@ class BCES(object):
         if npts < 2: raise ValueError('Need  npts >= 2!')
         # Handle copying x, y here so the bess call doesn't duplicate
         # any needed conversion of a sequence to an array.
-        try:
-            x, y = x.copy(), y.copy()
-        except AttributeError:
-            x, y = array(x), array(y)
+        x, y = array(x), array(y)
         # Do the regressions.
         inter, slope, ierr, serr, serr_IFAB = \
             _regress.bess(x, xerr, y, yerr, covar)
@@ -245,15 +223,9 @@ class SixLin(object):
         if npts < 2: raise ValueError('Need  npts >= 2!')
         # Handle copying x, y here so the sixlin call doesn't duplicate
         # any needed conversion of a sequence to an array.
-        try:
-            x, y = x.copy(), y.copy()
-        except AttributeError:
-            x, y = array(x), array(y)
+        x, y = array(x), array(y)
         # sixlin alters x, y so copy them twice.
-        try:
-            x, y = x.copy(), y.copy()
-        except AttributeError:
-            x, y = array(x), array(y)
+        x, y = array(x), array(y)
         x2, y2 = x.copy(), y.copy()
         # Do the regressions.
         inter, ierr, slope, serr, error = _regress.sixlin(x2, y2)
-- 
2.43.0


From 82c6b38f92be2780ab9ea7bbbabd3dacce4f29a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:36 +0000
Subject: [PATCH 101/119] fix: regress: results keep the errors used, as
 documented

---
 sandbox/regress/regress.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sandbox/regress/regress.py b/sandbox/regress/regress.py
index aa9adba..0b0c7ca 100755
--- a/sandbox/regress/regress.py
+++ b/sandbox/regress/regress.py
@@ -80,6 +80,7 @@ class LinRegResult(object):
         self.serr = serr
         self.ierr = ierr
         self.x, self.y = x, y
+        self.xerr, self.yerr = xerr, yerr
         self.npts = len(self.x)
         if xerr is None:
             self.xmin, self.xmax = min(x), max(x)
-- 
2.43.0


From 4af093ff88ff7877d68dc5cf2fdd6bf54f8ad3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:36 +0000
Subject: [PATCH 102/119] fix: regress: wlss: no intrinsic scatter when the
 errors explain it all

---
 sandbox/regress/_regress.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sandbox/regress/_regress.f b/sandbox/regress/_regress.f
index 963bcf8..2b87eec 100644
--- a/sandbox/regress/_regress.f
+++ b/sandbox/regress/_regress.f
@@ -218,7 +218,7 @@ c
  30   continue
       sig22var = sig22var/dfloat(npts)
       resvar = resvar/dfloat(npts)
-      evar = resvar - sig22var
+      evar = max(resvar - sig22var, 0.d0)
 c     
 c     Prepare for b and a calculation
 c     
-- 
2.43.0


From 5b624abe082532e8fa483f4585efed1a4ebfda56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:36 +0000
Subject: [PATCH 103/119] fix: regress: sixlin: intercept error of the
 orthogonal line for negative slopes

---
 sandbox/regress/_regress.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sandbox/regress/_regress.f b/sandbox/regress/_regress.f
index 2b87eec..7c2e5cf 100644
--- a/sandbox/regress/_regress.f
+++ b/sandbox/regress/_regress.f
@@ -445,7 +445,7 @@ C
      +        *Gam1*Xavg*Rn - Y(I) + B(3)*X(I))**2
          Siga(4) = Siga(4) + ((X(I)*(Y(I) - B(1)*X(I))/Sxx
      +        + Y(I)*(Y(I) - B(2)*X(I))*(B(1)**2)/Sxy)*Gam2
-     +        *Xavg*Rn/Dsqrt(B(1)**2) - Y(I) + B(4)*X(I))**2
+     +        *Xavg*Rn/B(1) - Y(I) + B(4)*X(I))**2
          Siga(5) = Siga(5) + ((X(I)*(Y(I)
      +        - B(1)*X(I))*Dsqrt(B(2)/B(1))/Sxx
      +        + Y(I)*(Y(I) - B(2)*X(I))*Dsqrt(B(1)/B(2))/Sxy)
-- 
2.43.0


From 4a476542766e7ae053005a75b657f547c9943799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:36 +0000
Subject: [PATCH 104/119] fix: regress: bess: intercept error of the orthogonal
 line for negative slopes

---
 sandbox/regress/_regress.f | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sandbox/regress/_regress.f b/sandbox/regress/_regress.f
index 7c2e5cf..28a4f53 100644
--- a/sandbox/regress/_regress.f
+++ b/sandbox/regress/_regress.f
@@ -95,8 +95,8 @@ c
      &        ((b(1)+b(2))*sqrt((1.+b(1)**2)*(1.+b(2)**2)))
          zeta(i,3) = y2(i) - b(3)*y1(i) - y1av*xi(i,3)
          xi(i,4) = xi(i,1) * 
-     &        b(4)/(b(1)**2*sqrt(4.+(b(2)-1./b(1))**2)) +
-     &        xi(i,2)*b(4)/sqrt(4.+(b(2)-1./b(1))**2)
+     &        sign*b(4)/(b(1)**2*sqrt(4.+(b(2)-1./b(1))**2)) +
+     &        xi(i,2)*sign*b(4)/sqrt(4.+(b(2)-1./b(1))**2)
          zeta(i,4) = y2(i) - b(4)*y1(i) - y1av*xi(i,4)
  15   continue
 c      
-- 
2.43.0


From ed46349b3ab59bc9b6d9f3b208ac3f47d3a4b8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:36 +0000
Subject: [PATCH 105/119] fix: regress: bess: standard errors take account of
 correlated errors

---
 sandbox/regress/_regress.f | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sandbox/regress/_regress.f b/sandbox/regress/_regress.f
index 28a4f53..54cb942 100644
--- a/sandbox/regress/_regress.f
+++ b/sandbox/regress/_regress.f
@@ -82,10 +82,11 @@ c     with text.)
 c
       do 15 i=1,npts
          xi(i,1) = ( (y1(i)-y1av) * (y2(i)-b(1)*y1(i)-a(1)) + 
-     &        b(1)*y1err(i)**2 ) / (y1var-sig11var)
+     &        b(1)*y1err(i)**2 - cerr(i) ) / (y1var-sig11var)
          zeta(i,1) = y2(i) - b(1)*y1(i) - y1av*xi(i,1)
          xi(i,2) = ( (y2(i)-y2av) * (y2(i)-b(2)*y1(i)-a(2)) - 
-     &        y2err(i)**2 ) / covar_y1y2
+     &        y2err(i)**2 + b(2)*cerr(i) ) /
+     &        (covar_y1y2 - sig12var)
          zeta(i,2) = y2(i) - b(2)*y1(i) - y1av*xi(i,2)
          xi(i,3) = xi(i,1) * 
      &        (1.+b(2)**2)*b(3) / 
-- 
2.43.0


From 83f8d34f5e72683ac152d2090d6379d893c89abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:57 +0000
Subject: [PATCH 106/119] fix: drxn: Python 3 syntax, import the extension from
 the package

---
 sandbox/drxn/drxn.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/sandbox/drxn/drxn.py b/sandbox/drxn/drxn.py
index 6dd7080..85d7dbd 100755
--- a/sandbox/drxn/drxn.py
+++ b/sandbox/drxn/drxn.py
@@ -1,5 +1,5 @@
 from numpy import array, zeros, dot, sin, cos, log, pi, sqrt
-import fisher_coinc as fc
+from . import fisher_coinc as fc
 
 __all__ = ['Direction', 'FDirection',
            'doublet_lbf', 'triplet_lbf', 'multiplet_lbf',
@@ -26,13 +26,13 @@ class Direction(object):
         if uvec is not None:
             if lng is not None or lat is not None or ra is not None \
                or dec is not None:  # Don't test deg so subclasses can use it
-                raise ValueError, 'Specify only one type of direction!'
+                raise ValueError('Specify only one type of direction!')
             self.uvec = uvec
             self.long, self.lat = None, None
             self.ra, self.dec = None, None
         elif lng is not None and lat is not None:
             if ra is not None or dec is not None:
-                raise ValueError, 'Use only long/lat OR ra/dec!'
+                raise ValueError('Use only long/lat OR ra/dec!')
             if deg:
                 lng, lat = pi*lng/180., pi*lat/180.
             self.long, self.lat = lng, lat
@@ -44,7 +44,7 @@ class Direction(object):
             self.uvec[2] = sin(lat)
         elif ra is not None and dec is not None:
             if lng is not None or lat is not None:
-                raise ValueError, 'Use only long/lat OR ra/dec!'
+                raise ValueError('Use only long/lat OR ra/dec!')
             if deg:
                 ra, dec = pi*ra/180., pi*dec/180.
             self.ra, self.dec = ra, dec
@@ -55,8 +55,7 @@ class Direction(object):
             self.uvec[1] = sin(ra) * cdec
             self.uvec[2] = sin(dec)
         else:
-            print lng, lat, ra, dec
-            raise ValueError, 'Illegal set of arguments!'
+            raise ValueError('Illegal set of arguments!')
 
     def __mul__(self, drxn):
         """The dot product between direction unit vectors."""
@@ -113,11 +112,11 @@ class FDirection(Direction):
         for this FDrxn instance."""
         if drxn:
             if lng or lat or ra or dec or uvec:
-                raise ValueError, 'Use only drxn or long/lat OR ra/dec OR uvec!'
+                raise ValueError('Use only drxn or long/lat OR ra/dec OR uvec!')
             uvec = drxn.uvec
         if lng is not None and lat is not None:
             if ra is not None or dec is not None or uvec is not None:
-                raise ValueError, 'Use only long/lat OR ra/dec OR uvec!'
+                raise ValueError('Use only long/lat OR ra/dec OR uvec!')
             uvec = zeros(3,float)
             clat = cos(lat)
             uvec[0] = cos(lng) * clat
@@ -125,7 +124,7 @@ class FDirection(Direction):
             uvec[2] = sin(lat)
         elif ra is not None and dec is not None:
             if lng is not None or lat is not None or uvec is not None:
-                raise ValueError, 'Use only long/lat OR ra/dec OR uvec!'
+                raise ValueError('Use only long/lat OR ra/dec OR uvec!')
             uvec = zeros(3,float)
             cdec = cos(dec)
             uvec[0] = cos(ra) * cdec
@@ -133,7 +132,7 @@ class FDirection(Direction):
             uvec[2] = sin(dec)
         elif uvec:
             if long or lat or ra or dec:
-                raise ValueError, 'Use only long/lat OR ra/dec OR uvec!'
+                raise ValueError('Use only long/lat OR ra/dec OR uvec!')
         return self.kappa*dot(uvec,self.uvec) - self.const
 
     def __str__(self):
-- 
2.43.0


From 0c9f8e652c6e3863c16cd3dd19a7eab777d5af67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:57 +0000
Subject: [PATCH 107/119] fix: drxn: llike works for a direction or a unit
 vector, and refuses two

---
 sandbox/drxn/drxn.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sandbox/drxn/drxn.py b/sandbox/drxn/drxn.py
index 85d7dbd..24789fd 100755
--- a/sandbox/drxn/drxn.py
+++ b/sandbox/drxn/drxn.py
@@ -110,11 +110,12 @@ class FDirection(Direction):
     def llike(self, drxn=None, lng=None, lat=None, ra=None, dec=None, uvec=None):
         """The log-likelihood that the given direction is the true direction
         for this FDrxn instance."""
-        if drxn:
-            if lng or lat or ra or dec or uvec:
+        if drxn is not None:
+            if lng is not None or lat is not None or ra is not None \
+               or dec is not None or uvec is not None:
                 raise ValueError('Use only drxn or long/lat OR ra/dec OR uvec!')
             uvec = drxn.uvec
-        if lng is not None and lat is not None:
+        elif lng is not None and lat is not None:
             if ra is not None or dec is not None or uvec is not None:
                 raise ValueError('Use only long/lat OR ra/dec OR uvec!')
             uvec = zeros(3,float)
@@ -130,9 +131,9 @@ class FDirection(Direction):
             uvec[0] = cos(ra) * cdec
             uvec[1] = sin(ra) * cdec
             uvec[2] = sin(dec)
-        elif uvec:
-            if long or lat or ra or dec:
-                raise ValueError('Use only long/lat OR ra/dec OR uvec!')
+        elif uvec is None or lng is not None or lat is not None \
+             or ra is not None or dec is not None:
+            raise ValueError('Use only long/lat OR ra/dec OR uvec!')
         return self.kappa*dot(uvec,self.uvec) - self.const
 
     def __str__(self):
-- 
2.43.0


From 99008ed409b4504bbf015de1b81fc0f4316834ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:57 +0000
Subject: [PATCH 108/119] fix: drxn: lsinhc: correct for small arguments, in
 double precision

---
 sandbox/drxn/fisher_coinc.f | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sandbox/drxn/fisher_coinc.f b/sandbox/drxn/fisher_coinc.f
index c1ab2bc..e8ef1c9 100644
--- a/sandbox/drxn/fisher_coinc.f
+++ b/sandbox/drxn/fisher_coinc.f
@@ -196,10 +196,14 @@ c+++  Arguments:
 
 c+++  Locals:
 	real*8 log2
-	parameter (log2 = 0.6931471805599453)
+	parameter (log2 = 0.6931471805599453d0)
 
-	lsinhc = x - log2 - log(x)
-	if (x .lt. 20.) lsinhc = lsinhc - exp(-2.*x)
+	if (x .lt. 0.05d0) then
+	    lsinhc = x**2/6. - x**4/180. + x**6/2835.
+	else
+	    lsinhc = x - log2 - log(x)
+	    if (x .lt. 20.) lsinhc = lsinhc + log(1. - exp(-2.*x))
+	endif
 
 	return
 	end
-- 
2.43.0


From a56809a41e1f6b837383e5f91c7534a344312e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:57 +0000
Subject: [PATCH 109/119] fix: drxn: sig_to_kappa converges for wide regions,
 raises instead of pausing

---
 sandbox/drxn/drxn.py        |  2 ++
 sandbox/drxn/fisher_coinc.f | 19 +++++++++++--------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/sandbox/drxn/drxn.py b/sandbox/drxn/drxn.py
index 24789fd..8fd7e4c 100755
--- a/sandbox/drxn/drxn.py
+++ b/sandbox/drxn/drxn.py
@@ -104,6 +104,8 @@ class FDirection(Direction):
             if deg: sig = pi*sig/180.
             self.sig = sig
             self.kappa = fc.sig_to_kappa(sig)
+            if not self.kappa > 0.:
+                raise ValueError('No Fisher distribution has such a sig!')
         self.lsk = fc.lsinhc(self.kappa)
         self.const = self.lsk + self.log4pi
 
diff --git a/sandbox/drxn/fisher_coinc.f b/sandbox/drxn/fisher_coinc.f
index e8ef1c9..5f80a2b 100644
--- a/sandbox/drxn/fisher_coinc.f
+++ b/sandbox/drxn/fisher_coinc.f
@@ -5,7 +5,8 @@ c---	"SIGMA TO KAPPA for fisher dist'n"
 c
 c	Sets the kappa parameter defining the Fisher dist'n for
 c	the direction uncertainty for a burst.  sig is the 68.3%
-c	confidence region angular radius in radians.
+c	confidence region angular radius in radians.  kappa is -1 if
+c	there is none (no region is that large).
 
 c+++  Arguments:
 	real*8 sig, kappa
@@ -19,19 +20,21 @@ cf2py intent(out) kappa
 c+++  Locals:
 	real*8 one, minus, C, C1, eps
 	integer nrmax
-	parameter (one = 1., minus = -1., C = 0.683, C1 = 1.-C)
+	parameter (one = 1., minus = -1., C = 0.683d0, C1 = 1.-C)
 	parameter (eps = 1.e-5, nrmax = 25)
 	integer iter
-	real*8 kold, f, csig, arg, ekc, ekk, num, den
+	real*8 kold, f, arg, ekc, ekk, num, den
 
 c---  Find kappa burst using Newton-Raphson.  Use
 c---  the Gaussian (small angle) approximation as a starting guess.
 	kold = 2.297707 / sig**2
-	csig = cos(sig)
 	iter = 0
 10	continue
-	if (iter .ge. nrmax) pause 'Too many iters for kappa!'
-	arg = csig - 1.
+	if (iter .ge. nrmax) then
+	    kappa = -1.
+	    return
+	endif
+	arg = -2.*sin(0.5*sig)**2
 	ekc = exp(kold*arg)
 	if (kold .lt. 250.) then
 	    ekk = exp(-2.*kold)
@@ -42,9 +45,9 @@ c---  the Gaussian (small angle) approximation as a starting guess.
 	num = 1. - ekc
 	f = num / den - C
 	kappa = kold -
-     *          f * den / (2.*num*ekk/den - arg*ekc)
+     *          f * den / (-2.*num*ekk/den - arg*ekc)
 	iter = iter + 1
-	if (abs(kappa-kold)/kappa .gt. eps) then
+	if (abs(kappa-kold) .gt. eps*abs(kappa)) then
 	    kold = kappa
 	    goto 10
 	endif
-- 
2.43.0


From 0fbd1b11bfe112b8d9bee48c51e758422363e6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:57 +0000
Subject: [PATCH 110/119] fix: drxn: a concentration of zero is one; sig and
 kappa together are refused

---
 sandbox/drxn/drxn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sandbox/drxn/drxn.py b/sandbox/drxn/drxn.py
index 8fd7e4c..5a99caa 100755
--- a/sandbox/drxn/drxn.py
+++ b/sandbox/drxn/drxn.py
@@ -97,7 +97,9 @@ class FDirection(Direction):
         Only one of (long,lat) or (ra,dec) or uvec may be provided.
         """
         Direction.__init__(self, lng, lat, ra, dec, deg, uvec)
-        if kappa:
+        if (sig is None) == (kappa is None):
+            raise ValueError('Specify one of sig and kappa!')
+        if kappa is not None:
             self.kappa = kappa
             self.sig = None
         else:
-- 
2.43.0


From 33c8733cc1acf5de133a7d84683682e26e5b3294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:28 +0000
Subject: [PATCH 111/119] fix: bha: Python 3 syntax, numpy's real FFT and
 integer lengths

---
 sandbox/bha/USTimeSeries.py | 39 ++++++++--------
 sandbox/bha/bha.py          | 92 ++++++++++++++++++-------------------
 2 files changed, 66 insertions(+), 65 deletions(-)

diff --git a/sandbox/bha/USTimeSeries.py b/sandbox/bha/USTimeSeries.py
index 23c08da..04ac765 100644
--- a/sandbox/bha/USTimeSeries.py
+++ b/sandbox/bha/USTimeSeries.py
@@ -1,4 +1,5 @@
-from scipy import *
+from numpy import *
+from numpy.fft import rfft
 
 __all__ = ['FreqList', 'USTimeSeries']
 
@@ -27,11 +28,11 @@ class USTimeSeries:
 		Store the sampled values and the sampling info.
 		"""
 		if len(shape(samples)) != 1:
-			raise NotImplementedError, 'Must be 1-d time series!'
+			raise NotImplementedError('Must be 1-d time series!')
 		self.samples = samples
 		self.dt = dt
 		self.t0 = t0
-		if t0: raise ValueError, 'Nonzero t0 not yet implemented!'
+		if t0: raise ValueError('Nonzero t0 not yet implemented!')
 		self.n = len(samples)
 		self.did_fft = False
 
@@ -40,12 +41,12 @@ class USTimeSeries:
 		Perform an FFT of the samples, oversampling by the factor oversamp
 		(by zero-padding the data before the FFT).
 		"""
-		if oversamp < 1: raise ValueError, "Oversample factor must be > 1!"
+		if oversamp < 1: raise ValueError("Oversample factor must be > 1!")
 		self.n_fft = int(self.n*oversamp)
-		self.n_freq = self.n_fft/2 + 1	# This count includes f=0
+		self.n_freq = self.n_fft//2 + 1	# This count includes f=0
 		padded = zeros((self.n_fft))
 		padded[0:self.n] = self.samples
-		self.fft = fftpack.real_fft(padded)
+		self.fft = rfft(padded)
 		self.real = self.fft.real
 		self.imag = self.fft.imag
 		self.f_vals = FreqList(self.n_fft, self.dt)
@@ -56,14 +57,14 @@ class USTimeSeries:
 		Return info about the frequency range spanned by the FFT:
 			(n_freq, df, f_max).
 		"""
-		if not self.did_fft: raise RuntimeError, 'Must call transform first!'
+		if not self.did_fft: raise RuntimeError('Must call transform first!')
 		return self.n_freq, 1./(self.n_fft*self.dt), 0.5/self.dt
 
 	def f_index(self, f):
 		"""
 		Return the index for the frequency nearest to f in the transform.
 		"""
-		if not self.did_fft: raise RuntimeError, 'Must call transform first!'
+		if not self.did_fft: raise RuntimeError('Must call transform first!')
 		return int(round(self.n_fft*f*self.dt))
 
 	def f_info(self, f):
@@ -71,7 +72,7 @@ class USTimeSeries:
 		Return info about the frequency nearest to f in the transform:
 			(f_fft, real, imag, PSD).
 		"""
-		if not self.did_fft: raise RuntimeError, 'Must call transform first!'
+		if not self.did_fft: raise RuntimeError('Must call transform first!')
 		i = int(round(self.n_fft*f*self.dt))
 		f_fft = i/(self.dt*self.n_fft)
 		return f_fft, self.real[i], self.imag[i], \
@@ -113,7 +114,7 @@ class USTimeSeries:
 		"""
 		Write the FFT to file as (f, real, imag, dB(PSD)).
 		"""
-		if not self.did_fft: raise RuntimeError, 'Must call transform first!'
+		if not self.did_fft: raise RuntimeError('Must call transform first!')
 		for i in range(self.n_freq):
 			f_fft = i/(self.dt*self.n_fft)
 			rl, im = self.real[i], self.imag[i]
@@ -143,19 +144,19 @@ def test():
 
 	usts = USTimeSeries(data, dt)
 	usts.transform(8)
-	print 'f range: ', usts.f_range()
+	print('f range: ', usts.f_range())
 	f, c, s, p = usts.f_info(1.6e3)
-	print 'Near 1.k: ', f
-	print 'Fast:  ', c, s, p
+	print('Near 1.k: ', f)
+	print('Fast:  ', c, s, p)
 	rd, id = usts.realDTFT(f), usts.imagDTFT(f)
 	pd = 2*(c**2 + s**2)
-	print 'Slow:  ', rd, id, pd
-	print 'First f: ', usts.f_vals[0], usts.fft[0]
-	print usts.f_info(usts.f_vals[0])
+	print('Slow:  ', rd, id, pd)
+	print('First f: ', usts.f_vals[0], usts.fft[0])
+	print(usts.f_info(usts.f_vals[0]))
 	n = usts.f_range()[0]
-	print 'Last f:  ', usts.f_vals[n-1], usts.fft[n-1]
-	print usts.f_info(usts.f_vals[n-1])
-	print '==============='
+	print('Last f:  ', usts.f_vals[n-1], usts.fft[n-1])
+	print(usts.f_info(usts.f_vals[n-1]))
+	print('===============')
 
 if __name__ == '__main__':
 	test()
diff --git a/sandbox/bha/bha.py b/sandbox/bha/bha.py
index b58f37c..1c9780e 100644
--- a/sandbox/bha/bha.py
+++ b/sandbox/bha/bha.py
@@ -6,9 +6,9 @@ __all__ = ['Harmonics', 'Multiplet']
 def qinterp(x, xvals, yvals):
 	"""Quadratically interpolate f(x) from 3 values yvals[i] = f(xvals[i])."""
 	if len(xvals) != 3 or len(yvals) !=3:
-		raise ValueError, 'Need exactly 3 values!'
+		raise ValueError('Need exactly 3 values!')
 	if x < xvals[0] or x > xvals[2]:
-		raise ValueError, 'x out of range---dangerous to extrapolate!'
+		raise ValueError('x out of range---dangerous to extrapolate!')
 	d = x - xvals
 	x01 = xvals[0] - xvals[1]
 	x02 = xvals[0] - xvals[2]
@@ -25,8 +25,8 @@ def test_qinterp():
 	yvals = array(yvals)
 	xi = .4 + .5*arange(15)
 	for x in xi:
-		print x, f(x), qinterp(x, xvals, yvals)
-	print '===== test_qinterp ====='
+		print(x, f(x), qinterp(x, xvals, yvals))
+	print('===== test_qinterp =====')
 
 #test_qinterp()
 
@@ -41,7 +41,7 @@ class Harmonics:
 		"""Initialize with number of harmonics (incl. fundamental) & a USTimeSeries 
 		instance.  The time series should already be transformed (preferably 
 		significantly oversampled)."""
-		if not usts.did_fft: raise ValueError, 'Must transform time series first!'
+		if not usts.did_fft: raise ValueError('Must transform time series first!')
 		self.nharm = nharm
 		self.usts = usts
 		self.var = sigma**2
@@ -58,7 +58,7 @@ class Harmonics:
 		for i in range(2,self.nharm+1):
 			fh = i*self.f
 			fh, rl, im, p = self.usts.f_info(fh)
-			print 'harm: ', i, i*self.f, fh
+			print('harm: ', i, i*self.f, fh)
 			self.prjxns[2*i-2], self.prjxns[2*i-1] = rl, -im
 		gamma = 2*pi*self.f*self.usts.dt
 		self.metric, self.L, self.jac, self.amps, self.suf = \
@@ -74,7 +74,7 @@ class Harmonics:
 	def amplitudes(self):
 		"""Return the amplitudes of the harmonics."""
 		
-		if self.f == None: raise RuntimeError, 'Need to call analyze first!'
+		if self.f == None: raise RuntimeError('Need to call analyze first!')
 		return self.hamps
 
 #...............................................................................
@@ -83,7 +83,7 @@ class Harmonics:
 
 #...	If we haven't already done the metric calculations, complain!
 		if self.f == None:
-			raise RuntimeError, 'Must call analyze first!'
+			raise RuntimeError('Must call analyze first!')
 
 		return bhacalc.covar(self.L) * self.var
 
@@ -93,7 +93,7 @@ class Harmonics:
 
 #...	If we haven't already done the metric calculations, complain!
 		if self.f == None:
-			raise RuntimeError, 'Must call analyze first!'
+			raise RuntimeError('Must call analyze first!')
 
 		covars = bhacalc.covar(self.L) * self.var
 		sigs = zeros((self.nharm))
@@ -113,7 +113,7 @@ class Multiplet:
 		"""Initialize with number of harmonics (incl. fundamental) & a USTimeSeries 
 		instance.  The time series should already be transformed (preferably 
 		significantly oversampled)."""
-		if not usts.did_fft: raise ValueError, 'Must transform time series first!'
+		if not usts.did_fft: raise ValueError('Must transform time series first!')
 		self.usts = usts
 		self.dsqr = sum(usts.samples**2)
 		self.n = usts.n
@@ -147,9 +147,9 @@ class Multiplet:
 				ivals = - ivals
 				self.prjxns[2*i] = qinterp(gammas[i], fvals, rvals)
 				self.prjxns[2*i+1] = qinterp(gammas[i], fvals, ivals)
-				print i, gammas[i], fvals
-				print '  --> ', rvals, self.prjxns[2*i]
-				print '  --> ', ivals, self.prjxns[2*i+1]
+				print(i, gammas[i], fvals)
+				print('  --> ', rvals, self.prjxns[2*i])
+				print('  --> ', ivals, self.prjxns[2*i+1])
 		else:
 			for i in range(self.nf):
 				f, rl, im, p = self.usts.f_info(gammas[i])
@@ -170,20 +170,20 @@ class Multiplet:
 			try:
 				self.hamps[i] = sqrt(self.amps[2*i]**2 + self.amps[2*i+1]**2)
 			except:
-				print flist, self.amps[2*i], self.amps[2*i+1]
+				print(flist, self.amps[2*i], self.amps[2*i+1])
 
 #...............................................................................
 	def amplitudes(self):
 		"""Return the amplitudes of the harmonics."""
 		
-		if self.f_in == None: raise RuntimeError, 'Need to call analyze first!'
+		if self.f_in == None: raise RuntimeError('Need to call analyze first!')
 		return self.hamps
 
 #...............................................................................
 	def noiseEst(self):
 		"""Return the estimated noise rms level and its error."""
 		
-		if self.f_in == None: raise RuntimeError, 'Need to call analyze first!'
+		if self.f_in == None: raise RuntimeError('Need to call analyze first!')
 		return sqrt(self.varest), 0.5*sqrt(self.varest)*sqrt(2./(self.dof-4.))
 
 #...............................................................................
@@ -192,7 +192,7 @@ class Multiplet:
 
 #...	If we haven't already done the metric calculations, complain!
 		if self.f_in == None:
-			raise RuntimeError, 'Must call analyze first!'
+			raise RuntimeError('Must call analyze first!')
 
 		if self.var:
 			return bhacalc.covar(self.L) * self.var
@@ -205,7 +205,7 @@ class Multiplet:
 
 #...	If we haven't already done the metric calculations, complain!
 		if self.f_in == None:
-			raise RuntimeError, 'Must call analyze first!'
+			raise RuntimeError('Must call analyze first!')
 
 		if self.var:
 			covars = bhacalc.covar(self.L) * self.var
@@ -246,34 +246,34 @@ def test_harmonics(m):
 	
 	usts = USTimeSeries(data, dt)
 	usts.transform(8)
-	print 'f range: ', usts.f_range()
+	print('f range: ', usts.f_range())
 
 	harm = Harmonics(m, usts, sig)
 	harm.analyze(f)
-	print 'prjxns: ', harm.prjxns
+	print('prjxns: ', harm.prjxns)
 	#print "metric: \n", harm.metric
 	#print "Lower triangle:\n", harm.L
-	print "Jac: ", harm.jac
-	print 'Suff. stat: ', harm.suf
+	print("Jac: ", harm.jac)
+	print('Suff. stat: ', harm.suf)
 	amps = harm.amplitudes()
-	print 'Amps:  ', amps
-	print 'Sigs:  ', harm.sigmas()
-	print 'Ratio: ', amps/harm.sigmas()
+	print('Amps:  ', amps)
+	print('Sigs:  ', harm.sigmas())
+	print('Ratio: ', amps/harm.sigmas())
 
 	# Now try it with multiplet.
-	print '... Multiplet version:'
+	print('... Multiplet version:')
 	mult = Multiplet(usts, sig)
 	flist = []
 	for i in range(m):
 		flist.append((i+1)*f)
-	print 'flist: ', flist
+	print('flist: ', flist)
 	mult.analyze(flist)
-	print "Jac: ", mult.jac
-	print 'Suff. stat: ', mult.suf
+	print("Jac: ", mult.jac)
+	print('Suff. stat: ', mult.suf)
 	amps = mult.amplitudes()
-	print 'Amps:  ', amps
-	print 'Sigs:  ', mult.sigmas()
-	print 'Ratio: ', amps/mult.sigmas()
+	print('Amps:  ', amps)
+	print('Sigs:  ', mult.sigmas())
+	print('Ratio: ', amps/mult.sigmas())
 
 	# Now estimate the amplitudes using a nonpadded FFT.
 	usts.transform()
@@ -281,8 +281,8 @@ def test_harmonics(m):
 	A_fund = sqrt( amps[0]**2 + amps[1]**2 )
 	for i in range(1,m+1):
 		f, rl, im, p = usts.f_info(i*fund)
-		print i, i*harm.f, amps[i-1]/amps[0], f, sqrt(p/p_fund)
-	print "Done!\n==============="
+		print(i, i*harm.f, amps[i-1]/amps[0], f, sqrt(p/p_fund))
+	print("Done!\n===============")
 
 #test_harmonics(3)
 
@@ -313,31 +313,31 @@ def test_multiplet():
 	
 	usts = USTimeSeries(data, dt)
 	usts.transform()
-	print 'unpadded f range: ', usts.f_range()
+	print('unpadded f range: ', usts.f_range())
 	usts.transform(16)
-	print 'padded f range: ', usts.f_range()
+	print('padded f range: ', usts.f_range())
 
 	# Try it with multiplet.
-	print '... Multiplet version:'
+	print('... Multiplet version:')
 	mult = Multiplet(usts, sig, exact=1)
 	flist = (f1, f2)
-	print 'flist: ', flist
+	print('flist: ', flist)
 	mult.analyze(flist)
-	print 'used:  ', mult.flist
-	print "Jac: ", mult.jac
-	print 'Suff. stat: ', mult.suf
+	print('used:  ', mult.flist)
+	print("Jac: ", mult.jac)
+	print('Suff. stat: ', mult.suf)
 	amps = mult.amplitudes()
-	print 'Amps:  ', amps
-	print 'Sigs:  ', mult.sigmas()
-	print 'Ratio: ', amps/mult.sigmas()
+	print('Amps:  ', amps)
+	print('Sigs:  ', mult.sigmas())
+	print('Ratio: ', amps/mult.sigmas())
 
 	# Now estimate the amplitudes using a nonpadded FFT.
 	usts.transform()
 	fund, rl, im, p_fund = usts.f_info(flist[0])
 	for i in range(nf):
 		f, rl, im, p = usts.f_info(flist[i])
-		print i, flist[i], mult.flist[i], amps[i]/amps[0], f, sqrt(p/p_fund)
-	print "Done!\n==============="
+		print(i, flist[i], mult.flist[i], amps[i]/amps[0], f, sqrt(p/p_fund))
+	print("Done!\n===============")
 
 #test_multiplet()
 
-- 
2.43.0


From 372daec6874a1850b948961aafc9a480c7752434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:28 +0000
Subject: [PATCH 112/119] fix: bha: test for an earlier analysis by identity,
 so that arrays of frequencies work

---
 sandbox/bha/bha.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sandbox/bha/bha.py b/sandbox/bha/bha.py
index 1c9780e..4683d98 100644
--- a/sandbox/bha/bha.py
+++ b/sandbox/bha/bha.py
@@ -74,7 +74,7 @@ class Harmonics:
 	def amplitudes(self):
 		"""Return the amplitudes of the harmonics."""
 		
-		if self.f == None: raise RuntimeError('Need to call analyze first!')
+		if self.f is None: raise RuntimeError('Need to call analyze first!')
 		return self.hamps
 
 #...............................................................................
@@ -82,7 +82,7 @@ class Harmonics:
 		"""Return the covariance matrix for the best-fit cos & sin amplitudes."""
 
 #...	If we haven't already done the metric calculations, complain!
-		if self.f == None:
+		if self.f is None:
 			raise RuntimeError('Must call analyze first!')
 
 		return bhacalc.covar(self.L) * self.var
@@ -92,7 +92,7 @@ class Harmonics:
 		"""Return the standard deviations for the best-fit harmonic amplitudes."""
 
 #...	If we haven't already done the metric calculations, complain!
-		if self.f == None:
+		if self.f is None:
 			raise RuntimeError('Must call analyze first!')
 
 		covars = bhacalc.covar(self.L) * self.var
@@ -176,14 +176,14 @@ class Multiplet:
 	def amplitudes(self):
 		"""Return the amplitudes of the harmonics."""
 		
-		if self.f_in == None: raise RuntimeError('Need to call analyze first!')
+		if self.f_in is None: raise RuntimeError('Need to call analyze first!')
 		return self.hamps
 
 #...............................................................................
 	def noiseEst(self):
 		"""Return the estimated noise rms level and its error."""
 		
-		if self.f_in == None: raise RuntimeError('Need to call analyze first!')
+		if self.f_in is None: raise RuntimeError('Need to call analyze first!')
 		return sqrt(self.varest), 0.5*sqrt(self.varest)*sqrt(2./(self.dof-4.))
 
 #...............................................................................
@@ -191,7 +191,7 @@ class Multiplet:
 		"""Return the covariance matrix for the best-fit cos & sin amplitudes."""
 
 #...	If we haven't already done the metric calculations, complain!
-		if self.f_in == None:
+		if self.f_in is None:
 			raise RuntimeError('Must call analyze first!')
 
 		if self.var:
@@ -204,7 +204,7 @@ class Multiplet:
 		"""Return the standard deviations for the best-fit harmonic amplitudes."""
 
 #...	If we haven't already done the metric calculations, complain!
-		if self.f_in == None:
+		if self.f_in is None:
 			raise RuntimeError('Must call analyze first!')
 
 		if self.var:
-- 
2.43.0


From 0b4f27a98a1ca5ad486632c5b01848918f6c5ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:28 +0000
Subject: [PATCH 113/119] fix: bha: uncertainties of amplitudes include the
 covariance of the cosine and sine parts

---
 sandbox/bha/bha.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sandbox/bha/bha.py b/sandbox/bha/bha.py
index 4683d98..5bf39c9 100644
--- a/sandbox/bha/bha.py
+++ b/sandbox/bha/bha.py
@@ -100,7 +100,8 @@ class Harmonics:
 		for i in range(self.nharm):
 			i1, i2 = 2*i, 2*i+1
 			sigs[i] = (self.amps[i1]/self.hamps[i])**2 * covars[i1][i1] + \
-					  (self.amps[i2]/self.hamps[i])**2 * covars[i2][i2]
+					  (self.amps[i2]/self.hamps[i])**2 * covars[i2][i2] + \
+					  2*self.amps[i1]*self.amps[i2]/self.hamps[i]**2 * covars[i1][i2]
 		return sqrt(sigs)
 
 ################################################################################
@@ -215,7 +216,8 @@ class Multiplet:
 		for i in range(self.nf):
 			i1, i2 = 2*i, 2*i+1
 			sigs[i] = (self.amps[i1]/self.hamps[i])**2 * covars[i1][i1] + \
-					  (self.amps[i2]/self.hamps[i])**2 * covars[i2][i2]
+					  (self.amps[i2]/self.hamps[i])**2 * covars[i2][i2] + \
+					  2*self.amps[i1]*self.amps[i2]/self.hamps[i]**2 * covars[i1][i2]
 		return sqrt(sigs)
 
 ################################################################################
-- 
2.43.0


From b415adc4eff645391f1f49454336b415e198de04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:28 +0000
Subject: [PATCH 114/119] fix: bha: two amplitudes for each sinusoid in the
 degrees of freedom

---
 sandbox/bha/bha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sandbox/bha/bha.py b/sandbox/bha/bha.py
index 5bf39c9..cd3b6cf 100644
--- a/sandbox/bha/bha.py
+++ b/sandbox/bha/bha.py
@@ -132,7 +132,7 @@ class Multiplet:
 		to f."""
 		self.nf = len(flist)
 		self.f_in = flist
-		self.dof = self.n - self.nf
+		self.dof = self.n - 2*self.nf	# 2 amplitudes per sinusoid
 
 		# Get projections on the grid or by interpolating; adjust flist if
 		# fixed to the grid.
-- 
2.43.0


From c1d6687bf50561164be71ca17e2f5b6920f59f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:28 +0000
Subject: [PATCH 115/119] fix: bha: refuse a metric that is not a number, for
 frequencies of zero or given twice

---
 sandbox/bha/bhacalc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sandbox/bha/bhacalc.c b/sandbox/bha/bhacalc.c
index 9cad0bc..bfae2dd 100644
--- a/sandbox/bha/bhacalc.c
+++ b/sandbox/bha/bhacalc.c
@@ -234,7 +234,7 @@ bha_harmonicAnalysis (PyObject *self, PyObject *args) {
                 sum -= *(cfdata+an+m) * *(cfdata+bn+m);
             }
             if (a == b) {
-                if (sum <= 0.) {
+                if (!(sum > 0.)) {
                     PyErr_SetString(PyExc_ValueError,
                         "metric is not positive definite!");
                     goto FAIL;
@@ -403,7 +403,7 @@ bha_multipletAnalysis (PyObject *self, PyObject *args) {
                 sum -= *(cfdata+an+m) * *(cfdata+bn+m);
             }
             if (a == b) {
-                if (sum <= 0.) {
+                if (!(sum > 0.)) {
                     PyErr_SetString(PyExc_ValueError,
                         "metric is not positive definite!");
                     goto FAIL;
-- 
2.43.0


From e605f57d1a00b5b615ca0dd3840e08ccc44be7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:28 +0000
Subject: [PATCH 116/119] fix: bha: let go of the frequencies given to
 multipletAnalysis

---
 sandbox/bha/bhacalc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sandbox/bha/bhacalc.c b/sandbox/bha/bhacalc.c
index bfae2dd..66ffabe 100644
--- a/sandbox/bha/bhacalc.c
+++ b/sandbox/bha/bhacalc.c
@@ -320,6 +320,7 @@ bha_multipletAnalysis (PyObject *self, PyObject *args) {
  ** fails so that XDECREF has an argument to work with.  Strictly, this
  ** isn't needed for every object. */
     metric = NULL;
+    gammas = NULL;
     proj = NULL;
     cfmetric = NULL;
     amps = NULL;
@@ -454,6 +455,7 @@ bha_multipletAnalysis (PyObject *self, PyObject *args) {
 
 /** Clean up and return everything in a tuple. */
     free(diag);
+    Py_DECREF(gammas);
     Py_DECREF(proj);
     return Py_BuildValue("NNfNf",PyArray_Return(metric),
         PyArray_Return(cfmetric),rdet,
@@ -462,6 +464,7 @@ bha_multipletAnalysis (PyObject *self, PyObject *args) {
 /** Misbehavior ends up here! */
 FAIL:
     Py_XDECREF(metric);
+    Py_XDECREF(gammas);
     Py_XDECREF(proj);
     Py_XDECREF(cfmetric);
     Py_XDECREF(amps);
-- 
2.43.0


From b3649893dfd268805469b806f0fcf530054182b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:17 +0000
Subject: [PATCH 117/119] fix: mc: release arrays and tables that samplers
 hold, so that draws do not use up memory

---
 package/inference/mc/_ppssampler.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/package/inference/mc/_ppssampler.c b/package/inference/mc/_ppssampler.c
index a952136..036df9e 100644
--- a/package/inference/mc/_ppssampler.c
+++ b/package/inference/mc/_ppssampler.c
@@ -89,6 +89,8 @@ static void PPSSampler_destroy(PPSSampler* self)
         destroy_sampler5tbl(self->pSampler);
     if (self->pSampford != NULL)
         destroy_sampford(self->pSampford);
+    if (self->pRatioSampler != NULL)
+        destroy_sampler5tbl(self->pRatioSampler);
     self->ob_type->tp_free((PyObject*)self);
     // printf("[Finished destroying sampler]\n");
 }
@@ -283,8 +285,11 @@ prepwts (PyObject *self, PyObject *args, PyObject *keywords) {
 	tot = wdata[npopn-1];
 
 /* Copy the info to this instance. */
+    if (((PPSSampler*)self)->pSampford != NULL)
+        destroy_sampford(((PPSSampler*)self)->pSampford);
     ((PPSSampler*)self)->pSampford = init_sampford(npopn, DDATA(cumwt), idata);
     Py_XDECREF(cumwt);
+    Py_DECREF(wts);
 
 /* Return the sorted indices, weights and total weight. */
     return Py_BuildValue("NNf", PyArray_Return(indices), PyArray_Return(sorted), tot);
@@ -352,6 +357,7 @@ prepratios (PyObject *self, PyObject *args, PyObject *keywords) {
 
 /* Return the cumulative ratios array. */
 	Py_XDECREF(ratios);
+	Py_DECREF(wts);
     return PyArray_Return(cumrat);
 
 /** Misbehavior ends up here! */
@@ -420,6 +426,8 @@ prepratiotables (PyObject *self, PyObject *args, PyObject *keywords) {
    Sampford ratios are stored in *sorted* order. */
     npopn = ((PPSSampler*)self)->pSampford->npopn;
     rdata = ((PPSSampler*)self)->pSampford->ratios;
+    if (((PPSSampler*)self)->pRatioSampler != NULL)
+        destroy_sampler5tbl(((PPSSampler*)self)->pRatioSampler);
     ((PPSSampler*)self)->pRatioSampler = init_sampler5tbl(rdata, npopn);
     if ( ((PPSSampler*)self)->pRatioSampler == NULL ) goto FAIL;
 
@@ -578,6 +586,7 @@ set_rng_state (PyObject *self, PyObject *args) {
 /* Copy the state data and return. */
     memcpy(rng_state.key, (void*)(key->data), RK_STATE_LEN*sizeof(unsigned long));
     rng_state.pos = pos;
+    Py_DECREF(key);
     Py_INCREF(Py_None);
     return Py_None;
 
@@ -727,6 +736,7 @@ equalprobi (PyObject *self, PyObject *args) {
     }
 
 /* Return the sample. */
+    Py_DECREF(pool);
     return PyArray_Return(sample);
 
 /** Misbehavior ends up here! */
@@ -792,6 +802,7 @@ equalprob (PyObject *self, PyObject *args) {
     }
 
 /* Return the sample. */
+    Py_DECREF(pool);
     return PyArray_Return(sample);
 
 /** Misbehavior ends up here! */
-- 
2.43.0


From d0e9806ef61972169527d5a1c8415a81ba2d37ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:58 +0000
Subject: [PATCH 118/119] fix: mc: refuse compiled sampling steps out of order
 instead of crashing

---
 package/inference/mc/_ppssampler.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/package/inference/mc/_ppssampler.c b/package/inference/mc/_ppssampler.c
index 036df9e..1dce09a 100644
--- a/package/inference/mc/_ppssampler.c
+++ b/package/inference/mc/_ppssampler.c
@@ -333,6 +333,15 @@ prepratios (PyObject *self, PyObject *args, PyObject *keywords) {
             PyArray_ContiguousFromAny(win, NPY_DOUBLE, 1, 1);
     if (wts == NULL) goto FAIL;
     npopn = wts->dimensions[0];
+    if (((PPSSampler*)self)->pSampford == NULL ||
+        ((PPSSampler*)self)->pSampford->npopn != npopn) {
+        PyErr_SetString(PyExc_ValueError, "Call prepwts for these weights first!");
+        goto FAIL;
+    }
+    if (nsamp <= 0) {
+        PyErr_SetString(PyExc_ValueError, "Requested sample size must be > 0!");
+        goto FAIL;
+    }
     /* Note that the nsamp=npopn case can fail; handle this in Python. */
     if (nsamp >= npopn) {
     	PyErr_SetString(PyExc_ValueError, "Requested sample size >= population!");
@@ -388,6 +397,11 @@ samplenr(PyObject *self, PyObject *args, PyObject *keywords)
 
     /* Parse the arguments. */
     Py_TRY(PyArg_ParseTuple(args, ""));
+    if (((PPSSampler*)self)->pSampford == NULL ||
+        ((PPSSampler*)self)->pSampford->nsamp == 0) {
+        PyErr_SetString(PyExc_ValueError, "Call prepwts and prepratios first!");
+        goto FAIL;
+    }
 
     /* Make an array to hold the sample. */
     dims[0] = ((PPSSampler*)self)->pSampford->nsamp;
@@ -420,6 +434,11 @@ prepratiotables (PyObject *self, PyObject *args, PyObject *keywords) {
 
 /* No inputs... */
     Py_TRY(PyArg_ParseTuple(args, ""));
+    if (((PPSSampler*)self)->pSampford == NULL ||
+        ((PPSSampler*)self)->pSampford->nsamp == 0) {
+        PyErr_SetString(PyExc_ValueError, "Call prepwts and prepratios first!");
+        goto FAIL;
+    }
 
 /* Build a 5-table sampler for the weight ratios.
    Note that the weight sampler is in *unsorted* order, but the
@@ -461,6 +480,12 @@ samplenr5(PyObject *self, PyObject *args, PyObject *keywords)
 
     /* Parse the arguments. */
     Py_TRY(PyArg_ParseTuple(args, ""));
+    if (((PPSSampler*)self)->pSampford == NULL ||
+        ((PPSSampler*)self)->pSampford->nsamp == 0 ||
+        ((PPSSampler*)self)->pRatioSampler == NULL) {
+        PyErr_SetString(PyExc_ValueError, "Call prepratios and prepratiotables first!");
+        goto FAIL;
+    }
 
     /* Make an array to hold the sample. */
     dims[0] = ((PPSSampler*)self)->pSampford->nsamp;
-- 
2.43.0


From 37d25c72b7cf9c9a0d6898a2f8c295be5bcb3ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:51 +0000
Subject: [PATCH 119/119] fix: mc: refuse a generator position outside its key

---
 package/inference/mc/_ppssampler.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/package/inference/mc/_ppssampler.c b/package/inference/mc/_ppssampler.c
index 1dce09a..2a4b5bd 100644
--- a/package/inference/mc/_ppssampler.c
+++ b/package/inference/mc/_ppssampler.c
@@ -607,6 +607,10 @@ set_rng_state (PyObject *self, PyObject *args) {
         PyErr_SetString(PyExc_ValueError, "Input key length incorrect!");
             goto FAIL;
     }
+    if (pos < 0 || pos > RK_STATE_LEN) {
+        PyErr_SetString(PyExc_ValueError, "Input position is outside the key!");
+            goto FAIL;
+    }
 
 /* Copy the state data and return. */
     memcpy(rng_state.key, (void*)(key->data), RK_STATE_LEN*sizeof(unsigned long));
-- 
2.43.0

