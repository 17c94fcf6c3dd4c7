From 192420aeefdb6d5ef418d08c511ac8c080c9d373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 01/49] fix: zfind pads coefficients across targets before
 stacking tables

A target without chi2 minima for the widest template made vstack fail and the
results of every other target were lost.
---
 py/redrock/zfind.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index e2fd2fd..e638c87 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -617,6 +617,15 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             # Here convert to astropy table
             allzfit.append(astropy.table.Table(tzfit))
 
+        # Targets without minima for the template with the most coefficients
+        # have a narrower coeff column; zero-pad so that the tables can be stacked
+        maxncoeff = max([tmp['coeff'].shape[1] for tmp in allzfit])
+        for tmp in allzfit:
+            nx, n = tmp['coeff'].shape
+            if n < maxncoeff:
+                c = np.append(tmp['coeff'], np.zeros((nx, maxncoeff-n)), axis=1)
+                tmp.replace_column('coeff', c)
+
         allzfit = astropy.table.vstack(allzfit)
         #print(allzfit['targetid', 'z', 'zwarn', 'chi2', 'deltachi2','spectype','subtype'])
         # Cosmetic: move TARGETID to be first column as primary key
-- 
2.43.0


From 349773228f0db95cd499075fba50d98b5a61dec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 02/49] fix: keep local target ids and data in the same order
 in the redshift scan

---
 py/redrock/targets.py | 2 ++
 py/redrock/zscan.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 9a4780e..964a222 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -559,6 +559,8 @@ class DistTargetsCopy(DistTargets):
         self._my_data = None
         if comm is None:
             self._my_data = targets
+            # local IDs must be in the same order as the local data
+            self._my_targets = [ tg.id for tg in targets ]
         else:
             tbuf = dict()
             for tg in targets:
diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 51f383f..83404c8 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -1054,7 +1054,9 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
                 if len(mpdist[i]) == 0:
                     continue
                 target_ids = mpdist[i]
+                # target_data must be in the same order as target_ids
                 target_data = [ x for x in targets.local() if x.id in mpdist[i] ]
+                target_data.sort(key=lambda x: target_ids.index(x.id))
                 p = mp.Process(target=_mp_calc_zchi2,
                     args=(i, target_ids, target_data, t, use_gpu, qout, qprog))
                 procs.append(p)
-- 
2.43.0


From c24c5ff8bb91504596c29b1f28c1d5fe6accaa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 03/49] fix: zfind with chi2_scan keeps only the local targets
 of the stored scan

---
 py/redrock/zfind.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index e638c87..0b01a0d 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -290,6 +290,8 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
         results = calc_zchi2_targets(targets, templates, mp_procs=mp_procs, use_gpu=use_gpu)
     else:
         results = read_zscan_redrock(chi2_scan)
+        # the scan file has all targets; each process only works on its own
+        results = { tid : results[tid] for tid in targets.local_target_ids() }
     elapsed(start_zscan, "Scanning redshifts", comm=targets.comm)
 
     if (use_gpu):
-- 
2.43.0


From d96e71cfa703aa98a4ec3b8488d00788bbc0334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 04/49] fix: allow more MPI processes than template redshifts

---
 py/redrock/templates.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index a12a86b..c1e25d8 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -571,6 +571,12 @@ class DistTemplate(object):
             self._distredshifts = np.array_split(self._template.redshifts,
                 self._comm_size)
             myz = self._distredshifts[self._comm_rank]
+            if len(myz) == 0:
+                #More processes than redshifts; nothing to rebin here
+                data = { k : np.zeros((0, len(w), template.nbasis))
+                         for k, w in self._dwave.items() }
+                self._piece = DistTemplatePiece(self._comm_rank, myz, data)
+                return
 
         # In the case of not using MPI (comm == None), one process is rebinning
         # all the templates.  In that scenario, use multiprocessing
-- 
2.43.0


From baea13d4ec5bb74ba2d155a2574d784e5bd61aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 05/49] fix: cosmic ray rejection in Target.compute_coadd

Use the per-pixel weighted mean gradient, weight the resolution with the same
masked weights as the flux, and allow exposures without any good pixel.
---
 py/redrock/targets.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 964a222..43e6b08 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -293,21 +293,22 @@ class Target(object):
             ivar=[] # references
             grad=[] # gradients, copy
             gradvar=[]
+            gradindex=[] # index of spectrum for each gradient
+            Rdata=[] # references
             for s in self.spectra:
                 if s.wavehash != key: continue
                 nspec += 1
                 current_band = s.band
                 if wave is None :
                     wave = s.wave
-                    Rdiags = s.R.data * s.ivar
                     offsets = s.R.offsets
                 else :
                     assert len(s.wave) == len(wave)
-                    Rdiags += s.R.data * s.ivar
+                Rdata.append(s.R.data)
                 flux.append(s.flux)
                 ivar.append(s.ivar)
 
-                if cosmics_nsig > 0 :
+                if cosmics_nsig > 0 and np.any(s.ivar>0) :
                     # interpolate over bad measurements
                     # to be able to compute gradient next
                     # to a bad pixel and identify oulier
@@ -330,6 +331,7 @@ class Target(object):
                     tflux[0]  = 0
                     grad.append(tflux)
                     gradvar.append(tvar)
+                    gradindex.append(nspec-1)
 
             flux=np.array(flux)
             ivar=np.array(ivar)
@@ -338,17 +340,21 @@ class Target(object):
                 # detect outliers by comparing spectra
                 grad=np.array(grad)
                 gradivar=1/np.array(gradvar)
-                nspec=grad.shape[0]
-                meangrad=np.sum(gradivar*grad,axis=0)/np.sum(gradivar)
+                ngrad=grad.shape[0]
+                meangrad=np.sum(gradivar*grad,axis=0)/np.sum(gradivar,axis=0)
                 deltagrad=grad-meangrad
-                chi2=np.sum(gradivar*deltagrad**2,axis=0)/(nspec-1)
+                chi2=np.sum(gradivar*deltagrad**2,axis=0)/(ngrad-1)
 
                 jj=np.where(chi2>cosmics_nsig**2)[0]
                 for j in jj :
                     k=np.argmax(gradivar[:,j]*deltagrad[:,j]**2)
                     #k=np.argmax(flux[:,j])
                     #print("masking spec",k,"wave=",wave[j],"flux=",flux[k,j])
-                    ivar[k][j]=0.
+                    ivar[gradindex[k]][j]=0.
+
+            # resolution weighted consistently with the flux, i.e. after
+            # cosmics rejection
+            Rdiags = np.sum([Ri*iv for Ri, iv in zip(Rdata, ivar)], axis=0)
 
             unweightedflux = np.sum(flux,axis=0)
             weights        = np.sum(ivar,axis=0)
-- 
2.43.0


From 482fbd91dac4ebf24f85e50611d10589cf8ee560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 06/49] fix: keep Target.bands in step with the coadded spectra

---
 py/redrock/targets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 43e6b08..b088ef6 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -178,7 +178,7 @@ class Target(object):
         self._gpulegendre = None
         self.nleg = 0
         self.bands = []
-        for s in spectra:
+        for s in self.spectra:
             self.bands.append(s.band)
 
     def eval_model(self, bestfit, templates, archetypes=None, nleg=None):
@@ -376,6 +376,7 @@ class Target(object):
 
         # swap the coadds into place.
         self.spectra = coadd
+        self.bands = [s.band for s in self.spectra]
         return
 
     def sharedmem_pack(self):
-- 
2.43.0


From 045a2a86265b1cb4802ee98c07561331df18e1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 07/49] fix: Inoue14 Lyman continuum of the forest below z=1.2
 and at the break wavelength

---
 py/redrock/igm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/igm.py b/py/redrock/igm.py
index 48afdfa..69f33c3 100644
--- a/py/redrock/igm.py
+++ b/py/redrock/igm.py
@@ -212,13 +212,13 @@ class Inoue14(object):
         y0 = x0 & (zS[:,None] < z1LAF)
         tLCLAF_value[y0] = 0.3248 * (power(lobs[y0]/lamL, 1.2) - (power(1.0+zS[:,None], -9e-1)*y0)[y0] * power(lobs[y0]/lamL, 2.1))
 
-        y0 = x0 & (zS[:,None] < z2LAF)
+        y0 = x0 & (zS[:,None] >= z1LAF) & (zS[:,None] < z2LAF)
         x1 = lobs >= lamL*(1+z1LAF)
         tLCLAF_value[y0 & x1] = 2.545e-2 * ((power(1.0+zS[:,None], 1.6)*y0)[y0 & x1] * power(lobs[y0 & x1]/lamL, 2.1) - power(lobs[y0 & x1]/lamL, 3.7))
         tLCLAF_value[y0 & ~x1] = 2.545e-2 * (power(1.0+zS[:,None], 1.6)*y0)[y0 & ~x1] * power(lobs[y0 & ~x1]/lamL, 2.1) + 0.3248 * power(lobs[y0 & ~x1]/lamL, 1.2) - 0.2496 * power(lobs[y0 & ~x1]/lamL, 2.1)
 
         y0 = x0 & (zS[:,None] >= z2LAF)
-        x1 = lobs > lamL*(1.+z2LAF)
+        x1 = lobs >= lamL*(1.+z2LAF)
         x2 = (lobs >= lamL*(1.+z1LAF)) & (lobs < lamL*(1.+z2LAF))
         x3 = lobs < lamL*(1.+z1LAF)
 
-- 
2.43.0


From 3deae8dfbe04a9d165c22c5385f65cc099fdcd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 08/49] fix: read_zscan of results obtained with archetypes

---
 py/redrock/results.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index 151d6cd..359daa6 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -157,14 +157,20 @@ def read_zscan(filename, select_targetids=None, upper=False, nozfit=False):
 
         #- Add zfit information too
         zfit = read_zfit(filename, select_targetids=select_targetids, upper=upper)
+        targetid_col = 'targetid'
+        spectype_col = 'spectype'
+        subtype_col = 'subtype'
+
+        #- zscan is keyed by the templates that were scanned; archetype fits
+        #- have these in pca_spectype, pca_subtype
+        if 'pca_spectype' in zfit.colnames or 'PCA_SPECTYPE' in zfit.colnames:
+            spectype_col = 'pca_spectype'
+            subtype_col = 'pca_subtype'
+
         if upper:
-            targetid_col = 'TARGETID'
-            spectype_col = 'SPECTYPE'
-            subtype_col = 'SUBTYPE'
-        else:
-            targetid_col = 'targetid'
-            spectype_col = 'spectype'
-            subtype_col = 'subtype'
+            targetid_col = targetid_col.upper()
+            spectype_col = spectype_col.upper()
+            subtype_col = subtype_col.upper()
 
         for zfit_tid in zfit.group_by( (targetid_col, spectype_col, subtype_col) ).groups:
             targetid = zfit_tid[targetid_col][0]
@@ -199,8 +205,9 @@ def read_zfit(filename, select_targetids=None, upper=False):
 
         zfit = [fx[f'zfit/{tid}/zfit'][:] for tid in select_targetids]
         zfit = Table(np.hstack(zfit))
-        zfit.replace_column('spectype', encode_column(zfit['spectype']))
-        zfit.replace_column('subtype', encode_column(zfit['subtype']))
+        for colname in ('spectype', 'subtype', 'pca_spectype', 'pca_subtype'):
+            if colname in zfit.colnames:
+                zfit.replace_column(colname, encode_column(zfit[colname]))
 
     if upper:
         for colname in list(zfit.colnames):
-- 
2.43.0


From 3c2fc21000f2e471e4d5c07fdabba7c6969cd210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 09/49] fix: apply MASK to the right spectra when some bands or
 files have no MASK HDU

---
 py/redrock/external/desi.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index e319478..a60a033 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -582,15 +582,16 @@ class DistTargetsDESI(DistTargets):
                 if comm is not None:
                     hdata = comm.bcast(hdata, root=0)
 
-                if hdata is not None:
-                    toff = 0
-                    for t in self._my_targets:
-                        if t in self._target_specs[sfile]:
-                            for trow in self._target_specs[sfile][t]:
+                #- MASK is optional; keep counting spectra even without it
+                toff = 0
+                for t in self._my_targets:
+                    if t in self._target_specs[sfile]:
+                        for trow in self._target_specs[sfile][t]:
+                            if hdata is not None:
                                 self._my_data[toff].spectra[tspec_mask[t]]\
                                     .ivar *= (hdata[trow] == 0)
-                                tspec_mask[t] += 1
-                        toff += 1
+                            tspec_mask[t] += 1
+                    toff += 1
 
                 extname = "{}_{}".format(b.upper(), "RESOLUTION")
                 hdata = None
-- 
2.43.0


From df54d218f63ab3fe53ecd631670d203bf8a5b83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 10/49] fix: allow first_target without n_target in
 DistTargetsDESI

---
 py/redrock/external/desi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index a60a033..d7ecfca 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -360,7 +360,7 @@ class DistTargetsDESI(DistTargets):
                     format(first_target))
 
             if n_target is None:
-                nkeep = len(keep_targetids)
+                nkeep = len(keep_targetids) - first_target
             else:
                 nkeep = n_target
 
-- 
2.43.0


From af36ef5418e9d7eb7255d9cd3cc60d2d62cbfb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 11/49] fix: keep selected targetids in file order, aligned
 with the fibermap

---
 py/redrock/external/desi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index d7ecfca..3e699fd 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -348,7 +348,9 @@ class DistTargetsDESI(DistTargets):
             if targetids is None:
                 keep_targetids = coadd_fmap["TARGETID"]
             else:
-                keep_targetids = targetids
+                # keep the targets of this file, in the order of the file
+                keep_targetids = coadd_fmap["TARGETID"]
+                keep_targetids = keep_targetids[np.isin(keep_targetids, targetids)]
 
             # Select a subset of the target range from each file if desired.
 
-- 
2.43.0


From 4fd9a5b819209f4475e8f9bb860cd3600a3fd5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 12/49] fix: rrdesi --model without --outfile crashed for lack
 of zbest

---
 py/redrock/external/desi.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 3e699fd..32f368c 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -1157,7 +1157,7 @@ def rrdesi(options=None, comm=None):
                 write_zscan(args.details, scandata, zfit, clobber=True)
             stop = elapsed(start, "Writing zscan data took", comm=comm)
 
-        if args.outfile:
+        if args.outfile or args.model is not None:
             start = elapsed(None, "", comm=comm)
             if comm_rank == 0:
                 zbest = zfit[zfit['znum'] == 0]
@@ -1187,11 +1187,12 @@ def rrdesi(options=None, comm=None):
                 subtype_len = max(3, max_subtype_len)
                 zbest['SUBTYPE'] = zbest['SUBTYPE'].astype(f'U{subtype_len}')
 
-                write_zbest(args.outfile, zbest,
-                        targets.fibermap, targets.exp_fibermap,
-                        targets.tsnr2,
-                        templates, archetypes=archetypes,
-                        spec_header=targets.header0, secondary_headers=targets.secondary_headers)
+                if args.outfile:
+                    write_zbest(args.outfile, zbest,
+                            targets.fibermap, targets.exp_fibermap,
+                            targets.tsnr2,
+                            templates, archetypes=archetypes,
+                            spec_header=targets.header0, secondary_headers=targets.secondary_headers)
 
             if comm is not None:
                 zbest = comm.bcast(zbest, root=0)
-- 
2.43.0


From 9ff2bedfe7fe9306a8aa2ceed6300c1f15976dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 13/49] fix: read_zscan of targets without data when no GALAXY
 template was scanned

---
 py/redrock/results.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index 359daa6..41acbeb 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -177,7 +177,9 @@ def read_zscan(filename, select_targetids=None, upper=False, nozfit=False):
             spectype = zfit_tid[spectype_col][0]
             subtype = zfit_tid[subtype_col][0]
             fulltype = make_fulltype(spectype, subtype)
-            zscan[targetid][fulltype]['zfit'] = zfit_tid
+            #- targets without data are set to GALAXY, even if not scanned
+            if fulltype in zscan[targetid]:
+                zscan[targetid][fulltype]['zfit'] = zfit_tid
 
         return zscan, zfit
 
-- 
2.43.0


From b9c39513894d35c0dd5948bb85ee71b45d1829f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 14/49] fix: archetype fits without a Legendre prior

---
 py/redrock/archetypes.py | 4 ++--
 py/redrock/fitz.py       | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index dae679a..89c96d7 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -361,8 +361,8 @@ class Archetype():
         # because prior was defined based on n_nearest argument..
         # this logic is needed because the first fitting is done with just one archetype
         #and then nearest neighbour approach is implemented
-        if n_nearest is not None:
-            nnearest_prior = prior.copy() # prior corresponding to nearest_nbh method
+        nnearest_prior = prior # prior corresponding to nearest_nbh method
+        if n_nearest is not None and prior is not None:
             prior = prior[n_nearest-1:,][:,n_nearest-1:] # removing first rows/columns corresponding to the nearest_archetypes, and keeping just one row for one archetype
 
         for hs, wave in dwave.items():
diff --git a/py/redrock/fitz.py b/py/redrock/fitz.py
index 82bb65d..0c110f6 100644
--- a/py/redrock/fitz.py
+++ b/py/redrock/fitz.py
@@ -331,11 +331,11 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
                 chi2=chi2min, zz=zz, zzchi2=zzchi2,
                 coeff=coeff, fitmethod=template.method))
         else:
+            if per_camera:
+                ncamera = len(list(dwave.keys())) # number of cameras, for e.g. DESI has three cameras
+            else:
+                ncamera = 1
             if prior_sigma is not None:
-                if per_camera:
-                    ncamera = len(list(dwave.keys())) # number of cameras, for e.g. DESI has three cameras
-                else:
-                    ncamera = 1
                 if n_nearest is None:
                     prior = prior_on_coeffs(1, deg_legendre, prior_sigma, ncamera)
                 else:
-- 
2.43.0


From e8592b56bdf690dff2ee283c668cc9ecbef0501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 15/49] fix: nearest archetypes with Legendre terms shared by
 all cameras

---
 py/redrock/archetypes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index 89c96d7..6016ba4 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -284,7 +284,13 @@ class Archetype():
             (zzchi2, zzcoeff) = per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux, nleg, 1, method='bvls', n_nbh=n_nearest, prior=prior, use_gpu=False, bands=target.bands)
         else:
             #Use CPU mode for calc_zchi2 since small tdata
-            (zzchi2, zzcoeff) = calc_zchi2_batch(spectra, tdata, weights, flux, wflux, 1, nbasis, use_gpu=False)
+            # archetype coefficients must be non-negative; Legendre terms are unbounded
+            bounds = np.zeros((2, nbasis))
+            bounds[0][n_nearest:] = -np.inf
+            bounds[1] = np.inf
+            (zzchi2, zzcoeff) = calc_zchi2_batch(spectra, tdata, weights, flux, wflux, 1, nbasis,
+                                                 solve_matrices_algorithm='BVLS', solver_args={'bounds':bounds},
+                                                 use_gpu=False)
 
         sstype = ['%s'%(self._subtype[k]) for k in iBest] # subtypes of best archetypes
         fsstype = ';'.join(sstype)
-- 
2.43.0


From 47c14dcc48843c2942fc9c8a2fb7d8b2d8854b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 16/49] fix: per-camera archetype fits with several spectra per
 camera

---
 py/redrock/targets.py | 7 +++++--
 py/redrock/zscan.py   | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index b088ef6..4743ee3 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -220,10 +220,13 @@ class Target(object):
             #- Archetype fits have N nearest neighbor archetype coeffs saved in COEFF keyword
             narchetypes = len(subtype.split(';'))
             archcoeff, legcoeff = coeff[0:narchetypes], bestfit["LEGCOEFF"]
+            bands = list(dict.fromkeys([sp.band for sp in self.spectra]))
             if legcoeff.ndim==1:
-                legcoeff = [legcoeff for i in range(len(self.spectra))]
+                legcoeff = [legcoeff for band in bands]
             ax = archetypes[spectype]
-            for i, sp in enumerate(self.spectra):
+            for sp in self.spectra:
+                #- per-camera coefficients are per unique band, in the order of the spectra
+                i = bands.index(sp.band)
                 self.model[sp.wavehash] = ax.eval(subtype, archcoeff, sp.wave, z, R=sp.Rcsr, legcoeff=legcoeff[i])
 
         else:
diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 83404c8..e4baec9 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -272,6 +272,7 @@ def per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux
     ### TODO - implement BVLS on GPU
     # number of cameras in DESI: b, r, z
     spectra = target.spectra
+    bands = list(dict.fromkeys(bands)) # unique bands, if there are multiple spectra per band
     ncam = len(bands)
     nbasis = n_nbh+nleg*ncam # n_nbh : for actual physical archetype(s), nleg: number of legendre polynomials, ncamera: number of cameras
 
-- 
2.43.0


From cd7826024cb4af375de2d388d6770ec08cf8c563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 17/49] fix: model of an archetype fit with zero archetype
 coefficient

---
 py/redrock/targets.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 4743ee3..3794b3a 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -212,7 +212,12 @@ class Target(object):
         fitmethod = bestfit['FITMETHOD']
 
         self.model = dict()
-        if np.all(coeff == 0.0):
+        allzero = np.all(coeff == 0.0)
+        if fitmethod == 'ARCH':
+            # archetype coeff=0 could still have non-zero Legendre terms
+            allzero = allzero and np.all(bestfit["LEGCOEFF"] == 0.0)
+
+        if allzero:
             # entirely masked data has coeffs=0
             for sp in self.spectra:
                 self.model[sp.wavehash] = np.zeros(len(sp.wave), dtype=np.float32)
-- 
2.43.0


From dcde271cc05f2c7e4ad4d3486a1d292ff1d35fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 18/49] fix: archetypes for only some spectypes, or a single
 Legendre term

---
 py/redrock/zfind.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 0b01a0d..d14bab1 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -530,26 +530,34 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             ## Equivalent of astropy.table.vstack(tzfit) - vstack each array
 
             tzfit2 = dict()
-            for k in tzfit[0].keys():
+            # archetypes might be applied to only some of the spectypes;
+            # use the columns of one of those if there is one
+            reffit = tzfit[0]
+            for tmp in tzfit:
+                if len(tmp.keys()) > len(reffit.keys()):
+                    reffit = tmp
+
+            for k in reffit.keys():
                 tzfit2[k] = list()
-                ref = tzfit[0][k]  # reference array
+                ref = reffit[k]  # reference array
                 for i in range(len(tzfit)):
                     if k in tzfit[i].keys():
                         val = tzfit[i][k]
-                        if archetypes and k in pca_map:
-                            # this is to make sure in case of archetypes for multiple spectype we have uniform size for arrays
-                            val = np.pad(val, ((0,0),(0, max(0, ref.shape[1] - val.shape[1]))), constant_values=0)[:, :ref.shape[1]]
                     else:
                         row = tzfit[i]
                         if archetypes and k in pca_map and pca_map[k] in row:
                             val = row[pca_map[k]]
-                            val = np.pad(val, ((0,0),(0, max(0, ref.shape[1] - val.shape[1]))), constant_values=0)[:, :ref.shape[1]]
                         elif k in zero_like_keys:
-                            val = np.zeros_like(ref)
+                            val = np.zeros((len(row['chi2']),)+ref.shape[1:], dtype=ref.dtype)
                     tzfit2[k].append(val)
 
+                if archetypes and k in pca_map:
+                    # this is to make sure in case of archetypes for multiple spectype we have uniform size for arrays
+                    width = max([val.shape[1] for val in tzfit2[k]])
+                    tzfit2[k] = [np.pad(val, ((0,0),(0, width - val.shape[1])), constant_values=0) for val in tzfit2[k]]
+
                 tzfit2[k] = np.vstack(tzfit2[k])
-                if (k != 'coeff') and (tzfit2[k].shape[1] == 1):
+                if (k not in ('coeff', 'legcoeff')) and (tzfit2[k].shape[1] == 1):
                     tzfit2[k] = tzfit2[k].flatten()
             tzfit = tzfit2
 
-- 
2.43.0


From 9777f6417b7d35458c4a7bdf07690a3156ffe8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 19/49] fix: coefficients at the reported redshift when the
 parabola fit fails

---
 py/redrock/fitz.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/redrock/fitz.py b/py/redrock/fitz.py
index 0c110f6..03f3ea4 100644
--- a/py/redrock/fitz.py
+++ b/py/redrock/fitz.py
@@ -312,6 +312,9 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
             imin = np.where(zzchi2 == np.min(zzchi2))[0][0]
             zbest = zz[imin]
             chi2min = zzchi2[imin]
+            coeff = zzcoeff[imin:imin+1]
+            pca_coeff = zzcoeff[imin]
+            trans = None   # was for zmin, not zbest
 
         #- Initial minimum or best fit too close to edge of redshift range
         if zbest < redshifts[1] or zbest > redshifts[-2]:
-- 
2.43.0


From a4b79ed1bc688c1a79d3ff61cfc6b2b98ac17465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 20/49] fix: IGM model of archetypes that differs from the
 template

---
 py/redrock/fitz.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/redrock/fitz.py b/py/redrock/fitz.py
index 03f3ea4..bd2c299 100644
--- a/py/redrock/fitz.py
+++ b/py/redrock/fitz.py
@@ -345,6 +345,9 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
                     prior = prior_on_coeffs(n_nearest, deg_legendre, prior_sigma, ncamera)
             else:
                 prior=None
+            if archetype.igm_model != template.igm_model:
+                # template transmission doesn't apply to this archetype
+                trans = None
             chi2min, coeff, fulltype = archetype.get_best_archetype(target,weights,flux,wflux,dwave,zbest, per_camera, n_nearest, trans=trans, use_gpu=use_gpu, prior=prior)
             del trans
             subtype = parse_fulltype(fulltype)[1]
-- 
2.43.0


From 94f44fe3635514224d0d9d03ea27784cf3ef25a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:00 +0000
Subject: [PATCH 21/49] fix: apply the IGM transmission of the fit when
 evaluating template models

---
 py/redrock/templates.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index c1e25d8..e56e663 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -266,6 +266,12 @@ class Template(object):
         coeff = coeff[0:self.nbasis]
         flux = self.flux.T.dot(coeff).T
         model = trapz_rebin(self.wave*(1+z), flux, wave)
+
+        # same Lyman-series correction as applied to the templates when fitting
+        T = transmission_Lyman(z, wave, always_return_array=False, model=self.igm_model)
+        if T is not None:
+            model = model * T
+
         if R is not None:
             model = R.dot(model)
 
-- 
2.43.0


From 6b33c317951a7c182bfaef676ee1825a5ab1a493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:00 +0000
Subject: [PATCH 22/49] fix: templates.eval_model without a resolution matrix

---
 py/redrock/templates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index e56e663..f923fc9 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -839,7 +839,8 @@ def eval_model(data, wave, R=None, templates=None):
         tx = templates[(data['SPECTYPE'][i], data['SUBTYPE'][i])]
         coeff = data['COEFF'][i][0:tx.nbasis]
         z = data['Z'][i]
-        models[i] = tx.eval(coeff, wave, z, R=R[i])
+        Ri = None if R is None else R[i]
+        models[i] = tx.eval(coeff, wave, z, R=Ri)
 
     return models
 
-- 
2.43.0


From 83dd98a677a79a02517d36f0e91d84c7832b4d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:00 +0000
Subject: [PATCH 23/49] fix: plot the template model at the flux scale of the
 fit, without (1+z)

---
 py/redrock/plotspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/plotspec.py b/py/redrock/plotspec.py
index ffdc60e..14f611c 100644
--- a/py/redrock/plotspec.py
+++ b/py/redrock/plotspec.py
@@ -166,7 +166,7 @@ class PlotSpec(object):
             if self.archetypes:
                 mx = tp.eval(zz['subtype'], zz['coeff'][0:zz['ncoeff']], spec.wave, zz['z'], legcoeff=zz['legcoeff'])
             else:
-                mx = tp.eval(coeff[0:tp.nbasis], spec.wave, zz['z']) * (1+zz['z'])
+                mx = tp.eval(coeff[0:tp.nbasis], spec.wave, zz['z'])
             model = spec.R.dot(mx)
             flux = spec.flux.copy()
             isbad = (spec.ivar == 0)
-- 
2.43.0


From 150c1c6ad0e384874418b8d65c6f51c0d58acc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:00 +0000
Subject: [PATCH 24/49] fix: plotting archetype fits with per-camera Legendre
 terms or types without archetypes

---
 py/redrock/plotspec.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/py/redrock/plotspec.py b/py/redrock/plotspec.py
index 14f611c..17ac4c5 100644
--- a/py/redrock/plotspec.py
+++ b/py/redrock/plotspec.py
@@ -106,9 +106,12 @@ class PlotSpec(object):
         coeff = zz['coeff']
 
         fulltype = make_fulltype(zz['spectype'], zz['subtype'])
-        if self.archetypes:
-            dwave = { s.wavehash:s.wave for s in target.spectra }
+        #- spectypes without archetypes keep their template fit
+        isarch = bool(self.archetypes) and zz['spectype'] in self.archetypes.archetypes
+        if isarch:
             tp = self.archetypes.archetypes[zz['spectype']]
+            #- per-camera coefficients are per unique band, in the order of the spectra
+            bands = list(dict.fromkeys([s.band for s in target.spectra]))
         else:
             tp = self.templates[fulltype]
             if tp.template_type != zz['spectype']:
@@ -163,8 +166,11 @@ class PlotSpec(object):
         ymin = ymax = 0.0
         specs_to_read = target.spectra
         for spec in specs_to_read:
-            if self.archetypes:
-                mx = tp.eval(zz['subtype'], zz['coeff'][0:zz['ncoeff']], spec.wave, zz['z'], legcoeff=zz['legcoeff'])
+            if isarch:
+                legcoeff = zz['legcoeff']
+                if legcoeff.ndim > 1:
+                    legcoeff = legcoeff[bands.index(spec.band)]
+                mx = tp.eval(zz['subtype'], zz['coeff'][0:zz['ncoeff']], spec.wave, zz['z'], legcoeff=legcoeff)
             else:
                 mx = tp.eval(coeff[0:tp.nbasis], spec.wave, zz['z'])
             model = spec.R.dot(mx)
-- 
2.43.0


From 77279b3e0b1ece62679eecc2d19489605b48895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 25/49] fix: accept pathlib paths to template files and lists
 of templates

---
 py/redrock/templates.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index f923fc9..88b1164 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -328,7 +328,10 @@ def find_templates(template_path=None):
     Returns list of template files to use
     """
     template_path = get_template_dir(template_path)
-    if isinstance(template_path, (str, pathlib.PosixPath)) and not os.path.exists(template_path):
+    if isinstance(template_path, pathlib.PurePath):
+        template_path = str(template_path)
+
+    if isinstance(template_path, str) and not os.path.exists(template_path):
         raise ValueError("ERROR: can't find template_path, $RR_TEMPLATE_DIR, or (rrcode)/data/templates/")
     else:
         print(f'DEBUG: Reading templates from {template_path}')
@@ -460,7 +463,7 @@ def load_templates(template_path=None, zscan_galaxy=None, zscan_star=None, zscan
     Note: this always returns a list/dict, even if template_path is a path to a
     single template file.
     """
-    if isinstance(template_path, (str, type(None))):
+    if isinstance(template_path, (str, pathlib.PurePath, type(None))):
         template_path = find_templates(template_path)
 
     print(f'Reading templates from {template_path}')
-- 
2.43.0


From 7e8eaa01e64da5e08e7d21262a8bed3fee415b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:09 +0000
Subject: [PATCH 26/49] fix: BOSS target ids overflow for 32 bit fiber numbers

---
 py/redrock/external/boss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 6e215aa..96d3587 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -39,7 +39,8 @@ from ..archetypes import All_archetypes
 
 
 def platemjdfiber2targetid(plate, mjd, fiber):
-    return plate*1000000000 + mjd*10000 + fiber
+    # in 64 bits, also for smaller numpy integers
+    return plate*np.int64(1000000000) + mjd*np.int64(10000) + fiber
 
 
 def targetid2platemjdfiber(targetid):
-- 
2.43.0


From 680d80edb9ff1f8e88ba49201d220d3e9e4e2df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:09 +0000
Subject: [PATCH 27/49] fix: np.in1d does not exist any more

---
 py/redrock/external/boss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 96d3587..63090c7 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -167,7 +167,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
             assert plate == h[0].read_header()["PLATEID"]
         fs = h[5]["FIBERID"][:]
         if fiberid is not None:
-            w = np.in1d(fs,fiberid)
+            w = np.isin(fs,fiberid)
             fs = fs[w]
 
         fl = h[0].read()
-- 
2.43.0


From c95aca3ef26ea276b4eca268d27570ba73a19b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:09 +0000
Subject: [PATCH 28/49] fix: BOSS frames without exposures of a camera

---
 py/redrock/external/boss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 63090c7..b7d44df 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -129,7 +129,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
             for c in cameras:
                 try:
                     nexp = spplate[0].read_header()["NEXP_{}".format(c.upper())]
-                except ValueError:
+                except (KeyError, ValueError):
                     print("DEBUG: spplate {} has no exposures in camera {} ".format(spplate_name,c))
                     continue
                 for i in range(1,nexp+1):
-- 
2.43.0


From ffc598a00f42096c15b0a753dd6fefe90fcffd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:09 +0000
Subject: [PATCH 29/49] fix: BOSS BRICKNAME loses part of the MJD

---
 py/redrock/external/boss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index b7d44df..82964a1 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -265,7 +265,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
         # will end up as extra columns in the output ZBEST HDU.
         tmeta = dict()
         tmeta["BRICKNAME"] = bricknames[targetid]
-        tmeta["BRICKNAME_datatype"] = "S8"
+        tmeta["BRICKNAME_datatype"] = "S{}".format(len(tmeta["BRICKNAME"]))
         if len(spectra) > 0:
             targets.append(Target(targetid, spectra, coadd=coadd, meta=tmeta))
         else:
@@ -280,7 +280,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
 
     metatable = Table()
     metatable['TARGETID'] = targetids
-    bx = np.array([bricknames[t] for t in targetids], dtype='S8')
+    bx = np.array([bricknames[t] for t in targetids], dtype='S')
     metatable['BRICKNAME'] = bx
 
     # metatable = Table(names=("TARGETID", "BRICKNAME"), dtype=("i8", "S8",))
-- 
2.43.0


From 83247a72b33444c16a6c76865dae832954fbb827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:09 +0000
Subject: [PATCH 30/49] fix: rrboss --archetypes passed a path instead of
 archetypes

---
 py/redrock/external/boss.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 82964a1..f222f2d 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -474,14 +474,21 @@ def rrboss(options=None, comm=None):
         dtemplates = load_dist_templates(dwave, templates=args.templates,
             comm=comm, mp_procs=mpprocs)
 
+        # All ranks read the archetypes
+
+        archetypes = None
+        if args.archetypes is not None:
+            archetypes = All_archetypes(archetypes_dir=args.archetypes).archetypes
+
         # Compute the redshifts, including both the coarse scan and the
         # refinement.  This function only returns data on the rank 0 process.
 
         start = elapsed(None, "", comm=comm)
 
         scandata, zfit = zfind(dtargets, dtemplates, mpprocs,
-            nminima=args.nminima, archetypes=args.archetypes,
-            priors=args.priors, chi2_scan=args.chi2_scan)
+            nminima=args.nminima, archetypes=archetypes,
+            priors=args.priors, chi2_scan=args.chi2_scan,
+            per_camera=False, deg_legendre=0)
 
         stop = elapsed(start, "Computing redshifts took", comm=comm)
 
@@ -508,8 +515,7 @@ def rrboss(options=None, comm=None):
 
                 template_version = {t._template.full_type:t._template._version for t in dtemplates}
                 archetype_version = None
-                if not args.archetypes is None:
-                    archetypes = All_archetypes(archetypes_dir=args.archetypes).archetypes
+                if archetypes is not None:
                     archetype_version = {name:arch._version for name, arch in archetypes.items() }
                 write_zbest(args.zbest, zbest, template_version, archetype_version)
 
-- 
2.43.0


From fd3b5c9c23cb4f9f004757356f1048fe3e165cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:09 +0000
Subject: [PATCH 31/49] fix: rrboss ignored --mintarget without --ntargets

---
 py/redrock/external/boss.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index f222f2d..a64ece9 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -450,9 +450,12 @@ def rrboss(options=None, comm=None):
             use_frames=args.use_frames, coadd=(not args.allspec),
             cache_Rcsr=True, use_andmask=args.use_andmask)
 
-        if args.ntargets is not None:
-            targets = targets[first_target:first_target+n_targets]
-            meta = meta[first_target:first_target+n_targets]
+        if first_target is not None:
+            last_target = None
+            if n_targets is not None:
+                last_target = first_target + n_targets
+            targets = targets[first_target:last_target]
+            meta = meta[first_target:last_target]
 
         stop = elapsed(start, "Read of {} targets"\
             .format(len(targets)), comm=comm)
-- 
2.43.0


From 0a56954b55455fe3aab1a9093bb09c79688bea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:09 +0000
Subject: [PATCH 32/49] fix: rrboss carried on after refusing its options

---
 py/redrock/external/boss.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index a64ece9..d976d18 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -389,6 +389,8 @@ def rrboss(options=None, comm=None):
             sys.stdout.flush()
             if comm is not None:
                 comm.Abort()
+            else:
+                sys.exit(1)
 
         if (args.targetids is not None) and ((args.mintarget is not None) \
             or (args.ntargets is not None)):
@@ -396,6 +398,8 @@ def rrboss(options=None, comm=None):
             sys.stdout.flush()
             if comm is not None:
                 comm.Abort()
+            else:
+                sys.exit(1)
 
     targetids = None
     if args.targetids is not None:
-- 
2.43.0


From 57565b7eb3eaa8cd6c850eac08417625b2ee0744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 33/49] fix: DistTargetsCopy needs the targets only on the root
 process

---
 py/redrock/targets.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 3794b3a..87d6725 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -554,18 +554,19 @@ class DistTargetsCopy(DistTargets):
             comm_size = comm.size
             comm_rank = comm.rank
 
+        # Distribute the targets among process weighted by the amount of work
+        # to do for each target.  Only the root process has the targets.
+
         self._alltargetids = list()
+        self._proc_targets = None
         if comm_rank == root:
             for tg in targets:
                 self._alltargetids.append(tg.id)
+            self._proc_targets = distribute_targets(targets, comm_size)
 
         if comm is not None:
             self._alltargetids = comm.bcast(self._alltargetids, root=root)
-
-        # Distribute the targets among process weighted by the amount of work
-        # to do for each target.
-
-        self._proc_targets = distribute_targets(targets, comm_size)
+            self._proc_targets = comm.bcast(self._proc_targets, root=root)
 
         self._my_targets = self._proc_targets[comm_rank]
 
@@ -578,7 +579,8 @@ class DistTargetsCopy(DistTargets):
             self._my_targets = [ tg.id for tg in targets ]
         else:
             tbuf = dict()
-            for tg in targets:
+            for i in range(len(self._alltargetids)):
+                tg = targets[i] if comm_rank == root else None
                 recv = comm.bcast(tg, root=root)
                 if recv.id in self._my_targets:
                     tbuf[recv.id] = recv
-- 
2.43.0


From 2c83f0d946ae504e3c844af5487e19a837b91ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:33 +0000
Subject: [PATCH 34/49] fix: GPU rebinning read past the end of the template
 when the last bin ends at its last sample

---
 py/redrock/rebin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/redrock/rebin.py b/py/redrock/rebin.py
index caa1b5c..b0adbca 100644
--- a/py/redrock/rebin.py
+++ b/py/redrock/rebin.py
@@ -59,6 +59,8 @@ cuda_source = r'''
                 //Calculate first sample beyond this bin edge
                 int j = idx[iidx];
                 int end_idx = idx[iidx+1];
+                //Stay inside x if the last bin ends exactly at the last sample
+                if (end_idx > nt-1) end_idx = nt-1;
                 double xj = x[j]*z;
                 double xj1 = x[j-1]*z;
                 int y_idx = j+ibasis*nt;
-- 
2.43.0


From 8efa37f100a165db2d891138c6a9d8b7330ea64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:33 +0000
Subject: [PATCH 35/49] fix: GPU archetype rebinning checked the rest-frame
 instead of the redshifted range

---
 py/redrock/archetypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index 6016ba4..72a7699 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -142,8 +142,8 @@ class Archetype():
         """
         if (use_gpu):
             import cupy as cp
-            xmin = self.minwave
-            xmax = self.maxwave
+            xmin = self.minwave*(1.+z)
+            xmax = self.maxwave*(1.+z)
             wave = self.gpuwave
             flux = self.gpuflux
         else:
-- 
2.43.0


From 52dec67e8d1ca31dcad8c80dd65e4cfcffd7278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:33 +0000
Subject: [PATCH 36/49] fix: GPU resolution product misread template data that
 is not C-ordered

---
 py/redrock/zscan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index e4baec9..13a2ae7 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -430,8 +430,10 @@ def _batch_dot_product_sparse_gpu(spectra, tdata):
         Rcsr_cols = cp.asarray(s.Rcsr.indices, cp.int32)
         Rcsr_indptr = cp.asarray(s.Rcsr.indptr, cp.int32)
         curr_tb = cp.empty((nt, ncols, nbasis))
+        #The kernel needs C-ordered template data
+        tb = cp.ascontiguousarray(tdata[key])
         #Launch kernel and syncrhronize
-        batch_dot_product_sparse_kernel((blocks,), (block_size,), (Rcsr_values, Rcsr_cols, Rcsr_indptr, tdata[key], curr_tb, nrows, ncols, nbasis, nt))
+        batch_dot_product_sparse_kernel((blocks,), (block_size,), (Rcsr_values, Rcsr_cols, Rcsr_indptr, tb, curr_tb, nrows, ncols, nbasis, nt))
 
         #Commented out synchronize - needed for timing kernels but we still
         #get execution of this kernel before data is needed for next kernel
-- 
2.43.0


From 65e7ed63776a30ddf3722a2ff4fb87d3a351d4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:33 +0000
Subject: [PATCH 37/49] fix: Target.legendre kept the GPU copy of another
 degree

---
 py/redrock/targets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 87d6725..cd940e1 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -255,6 +255,7 @@ class Target(object):
         dwave = { s.wavehash:s.wave for s in self.spectra }
         self._legendre = { hs:np.array([scipy.special.legendre(i)(reduced_wavelength(w)) for i in range(nleg)]) for hs, w in dwave.items() }
         self.nleg = nleg
+        self._gpulegendre = None # any previous copy has another nleg
         if (use_gpu):
             import cupy as cp
             self._gpulegendre = { hs:cp.asarray(self._legendre[hs]) for hs in self._legendre }
-- 
2.43.0


From e9633721bf37c7350870bf78bbd59dfe2469a943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:59 +0000
Subject: [PATCH 38/49] fix: keep target ids integers when collecting models
 from ranks without targets

---
 py/redrock/external/desi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 32f368c..522f228 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -1219,7 +1219,8 @@ def rrdesi(options=None, comm=None):
                 all_models = list(itertools.chain.from_iterable(all_models))
 
                 #- find sort orrder to match zbest
-                all_targetids = np.concatenate(all_targetids)
+                #- (keep integers, also when some ranks have no targets)
+                all_targetids = np.array(list(itertools.chain.from_iterable(all_targetids)))
                 xsorted = np.argsort(all_targetids)
                 ypos = np.searchsorted(all_targetids[xsorted], zbest['TARGETID'])
                 sort_indices = xsorted[ypos]
-- 
2.43.0


From a7b21e24bdf1143fe25fea6b9d968a46292dc1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:30 +0000
Subject: [PATCH 39/49] fix: archetype fits of targets that lack some of the
 cameras of others

---
 py/redrock/zfind.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index d14bab1..0c23630 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -636,6 +636,15 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
                 c = np.append(tmp['coeff'], np.zeros((nx, maxncoeff-n)), axis=1)
                 tmp.replace_column('coeff', c)
 
+        # Same for per-camera Legendre coefficients of targets lacking some cameras
+        if archetypes and per_camera:
+            maxncam = max([tmp['legcoeff'].shape[1] for tmp in allzfit if 'legcoeff' in tmp.colnames], default=0)
+            for tmp in allzfit:
+                if 'legcoeff' in tmp.colnames and tmp['legcoeff'].shape[1] < maxncam:
+                    n = maxncam - tmp['legcoeff'].shape[1]
+                    c = np.pad(tmp['legcoeff'], ((0, 0), (0, n), (0, 0)))
+                    tmp.replace_column('legcoeff', c)
+
         allzfit = astropy.table.vstack(allzfit)
         #print(allzfit['targetid', 'z', 'zwarn', 'chi2', 'deltachi2','spectype','subtype'])
         # Cosmetic: move TARGETID to be first column as primary key
-- 
2.43.0


From 3dc6ab63007ba7999bcf0f24d01baaaa2db6636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:30 +0000
Subject: [PATCH 40/49] fix: models of targets that lack some of the bands of
 others

---
 py/redrock/external/desi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 522f228..903b1db 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -1234,7 +1234,9 @@ def rrdesi(options=None, comm=None):
                 all_models_dict = dict()
                 wave_dict = targets.wavegrids()
                 for band in wave_dict:
-                    all_models_dict[band] = np.vstack([m[band] for m in all_models])[sort_indices]
+                    #- targets without data in this band (input files with other bands) have no model
+                    nomodel = np.zeros(len(wave_dict[band]), dtype=np.float32)
+                    all_models_dict[band] = np.vstack([m.get(band, nomodel) for m in all_models])[sort_indices]
 
                 write_bestmodel(args.model, zbest, all_models_dict, wave_dict,
                                 templates, archetypes, spec_header=targets.header0)
-- 
2.43.0


From d48720c72516c5bdeb2372e990b5e501f13b6273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:04 +0000
Subject: [PATCH 41/49] fix: Target.compute_coadd drops the GPU copies of the
 spectra it replaces

---
 py/redrock/targets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index cd940e1..76eb49a 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -386,6 +386,7 @@ class Target(object):
         # swap the coadds into place.
         self.spectra = coadd
         self.bands = [s.band for s in self.spectra]
+        self.gpuweights = None # any previous copy is of the replaced spectra
         return
 
     def sharedmem_pack(self):
-- 
2.43.0


From 6a5018369d36053b68131f1f95dee476c566deaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:34 +0000
Subject: [PATCH 42/49] fix: wrap-redrock runs rrdesi and rrboss with the
 options they have

rrdesi takes its input with --infiles, and rrboss has --zbest and
--output instead of --outfile and --details: every command failed.
---
 bin/wrap-redrock | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 767485d..28dd5db 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -319,12 +319,13 @@ def run_redrock(args, comm=None):
         sys.stdout.flush()
 
         if args.datatype == 'desi':
-            cmd = 'rrdesi {}'.format(specfiles[i])
+            cmd = 'rrdesi --infiles {}'.format(specfiles[i])
+            cmd += ' --outfile {} --details {}'.format(rrfiles[i], detailsfiles[i])
         elif args.datatype == 'boss':
             cmd = 'rrboss --spplate {}'.format(specfiles[i])
+            cmd += ' --zbest {} --output {}'.format(rrfiles[i], detailsfiles[i])
 
         cmd += ' --nminima {}'.format(args.nminima)
-        cmd += ' --outfile {} --details {}'.format(rrfiles[i], detailsfiles[i])
         logfile = rrfiles[i].replace('.fits', '.log')
         assert logfile != rrfiles[i]
 
-- 
2.43.0


From 6a33fbba560b2cbb566df960bb23b12b1a7a76fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:34 +0000
Subject: [PATCH 43/49] fix: wrap-redrock ends normally when there is nothing
 left to do

It printed that all files are processed and then failed an assertion.
---
 bin/wrap-redrock | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 28dd5db..1f8e896 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -307,6 +307,9 @@ def run_redrock(args, comm=None):
         groups = comm.bcast(groups, root=0)
         specfiles = comm.bcast(specfiles, root=0)
 
+    if len(specfiles) == 0:
+        return
+
     assert len(groups) == size
     assert len(np.concatenate(groups)) == len(specfiles)
 
-- 
2.43.0


From 15e02ff99c803b0607736f194b2420820595fcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:34 +0000
Subject: [PATCH 44/49] fix: wrap-redrock makes one group per rank for BOSS
 files

With more ranks than --maxnodes there were fewer groups than ranks and
the run failed an assertion.
---
 bin/wrap-redrock | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 1f8e896..92e1aa6 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -291,7 +291,7 @@ def run_redrock(args, comm=None):
     else:
         rank, size = comm.rank, comm.size
 
-    args.maxnodes = min(args.maxnodes, size)
+    args.maxnodes = size  #- one group per rank
 
     t0 = time.time()
     if rank == 0:
-- 
2.43.0


From e559eab2d362c42cc83b58011d4335d71b21eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:34 +0000
Subject: [PATCH 45/49] fix: wrap-redrock --plan for BOSS with few processes

The expected times were a list, which cannot be scaled.
---
 bin/wrap-redrock | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 92e1aa6..29cc59e 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -219,7 +219,7 @@ def plan(args, comm=None):
         #- BOSS files all have the same number of spectra, so no load balancing
         groups = np.array_split(np.arange(len(specfiles)), args.maxnodes)
         ntargets = [1000*len(x) for x in groups]
-        grouptimes = [30 + 250*len(x) for x in groups]
+        grouptimes = np.array([30 + 250*len(x) for x in groups])
     else:
         raise ValueError('Unknown --datatype {}'.format(args.datatype))
 
@@ -245,7 +245,7 @@ def plan(args, comm=None):
         #- scale longer if purposefullying using fewer cores (e.g. for memory)
         if args.mp < maxproc // 2:
             scale = (maxproc//2) / args.mp
-            grouptimes *= scale
+            grouptimes = grouptimes * scale
 
         jobtime = int(1.15 * (plantime + np.max(grouptimes)))
         jobhours = jobtime // 3600
-- 
2.43.0


From 5adf3872bc165cc74e0135753217c7543c73518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:34 +0000
Subject: [PATCH 46/49] fix: the job script of wrap-redrock --plan keeps the
 options of the plan

The data type, file prefix, number of minima and archetypes were
dropped, so a planned BOSS job looked for DESI files.
---
 bin/wrap-redrock | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 29cc59e..8896235 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -279,6 +279,10 @@ def plan(args, comm=None):
         print('nodes=$SLURM_JOB_NUM_NODES')
         rrcmd = '{} --mp {} --reduxdir {}'.format(
             os.path.abspath(__file__), args.mp, args.reduxdir)
+        rrcmd += ' --datatype {} --prefix {} --nminima {}'.format(
+            args.datatype, args.prefix, args.nminima)
+        if args.archetypes is not None:
+            rrcmd += ' --archetypes {}'.format(args.archetypes)
         if args.outdir is not None:
             rrcmd += ' --outdir {}'.format(os.path.abspath(args.outdir))
         print('srun -N $nodes -n $nodes -c {} {}'.format(maxproc, rrcmd))
-- 
2.43.0


From 5fe6def62693ec09779a8215b2a6f88fadc991eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:34 +0000
Subject: [PATCH 47/49] fix: find_specfiles skips the files of the directory to
 avoid, too

Only its subdirectories were skipped, and with a relative --reduxdir
not even those because the directory was compared as absolute path.
---
 bin/wrap-redrock | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 8896235..34212ea 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -103,11 +103,8 @@ def find_specfiles(reduxdir, outdir=None, prefix='spectra', avoiddir=None):
     specfiles = list()
     for dirpath, dirnames, filenames in os.walk(reduxdir, followlinks=True, topdown=True):
         if os.path.normpath(dirpath) == avoiddir:
-            while True:
-                try:
-                    dirnames.pop()
-                except IndexError:
-                    break
+            dirnames.clear()
+            continue
 
         for filename in filenames:
             if filename.startswith(prefix) and filename.endswith('.fits'):
@@ -196,7 +193,7 @@ def plan(args, comm=None):
 
     if rank == 0:
         if args.datatype == 'boss':
-            avoiddir = os.path.abspath(os.path.join(args.reduxdir, 'spectra'))
+            avoiddir = os.path.join(args.reduxdir, 'spectra')
         else:
             avoiddir = None
 
-- 
2.43.0


From 54d0d1e38325725e763f91bfccf944f8fc00c35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:34 +0000
Subject: [PATCH 48/49] fix: wrap-redrock names the output file that is missing

The message had the file in place of the pixel, and the catalog in
place of the missing file.
---
 bin/wrap-redrock | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 34212ea..d5b188c 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -361,7 +361,7 @@ def run_redrock(args, comm=None):
                     print('FINISHED pix {} rank {} try {} in {:.1f} sec'.format(pixels[i], rank, retry, dt1))
                     for outfile in [rrfiles[i], detailsfiles[i]]:
                         if not os.path.exists(outfile):
-                            print('ERROR pix {} missing {}'.format(outfile, rrfiles[i]))
+                            print('ERROR pix {} missing {}'.format(pixels[i], outfile))
                     break  #- don't need to retry
                 else:
                     print('FAILED pix {} rank {} try {} in {:.1f} sec error code {}'.format(pixels[i], rank, retry, dt1, err))
-- 
2.43.0


From 56ccd8a1b640af87e4f4179d7c95786c5afe45f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:40 +0000
Subject: [PATCH 49/49] fix: wrap-redrock runs spectra files in directories of
 any name

---
 bin/wrap-redrock | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index d5b188c..24d6b6a 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -314,7 +314,7 @@ def run_redrock(args, comm=None):
     assert len(groups) == size
     assert len(np.concatenate(groups)) == len(specfiles)
 
-    pixels = np.array([int(os.path.basename(os.path.dirname(x))) for x in specfiles])
+    pixels = [os.path.basename(os.path.dirname(x)) for x in specfiles]
     rrfiles = spectra2outfiles(specfiles, args.prefix, 'redrock', outdir=args.outdir)
     detailsfiles = spectra2outfiles(specfiles, args.prefix, 'rrdetails', outdir=args.outdir, ext='h5')
 
-- 
2.43.0

