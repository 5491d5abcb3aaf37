From 99af66e7c2891faba4aff5d8b6ff936af0f269a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 01/34] fix: EOS translator: c5 of b->s four-quark operators
 was a tuple, so every translation to EOS raised TypeError

---
 wilson/translate/wet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 6acf24c..696f3ba 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1026,7 +1026,7 @@ def _Fierz_to_EOS_V(Fsbuu,Fsbdd,Fsbcc,Fsbss,Fsbbb,parameters):
         - Fsbdd['Fsbdd4'] / 180 + Fsbss['Fsbss1'] / 54
         - Fsbss['Fsbss3'] / 60 - Fsbss['Fsbss4'] / 180
         + 5 * Fsbuu['Fsbuu1'] / 216 - Fsbuu['Fsbuu2'] / 216
-        - Fsbuu['Fsbuu3'] / 60 - Fsbuu['Fsbuu4'] / 180,
+        - Fsbuu['Fsbuu3'] / 60 - Fsbuu['Fsbuu4'] / 180
     )
     c6 = (
         + Fsbbb['Fsbbb1'] / 36 - Fsbbb['Fsbbb4'] / 30
-- 
2.43.0


From b2fad31b87152b5af4d77d207008355aa7abc97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 02/34] fix: EOS translator: multiply by the complex CKM
 prefactor before taking real/imaginary parts

---
 wilson/translate/wet.py | 79 ++++++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 41 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 696f3ba..21c5803 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1036,16 +1036,15 @@ def _Fierz_to_EOS_V(Fsbuu,Fsbdd,Fsbcc,Fsbss,Fsbbb,parameters):
         - Fsbuu['Fsbuu1'] / 36 + Fsbuu['Fsbuu2'] / 18
         - Fsbuu['Fsbuu4'] / 30
     )
-    dic = {
-        'b->s::c1' : np.real(c1),
-        'b->s::c2' : np.real(c2),
-        'b->s::c3' : np.real(c3),
-        'b->s::c4' : np.real(c4),
-        'b->s::c5' : np.real(c5),
-        'b->s::c6' : np.real(c6)
-    }
     prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
-    return {k: prefactor * v for k,v in dic.items()}
+    return {
+        'b->s::c1' : np.real(prefactor * c1),
+        'b->s::c2' : np.real(prefactor * c2),
+        'b->s::c3' : np.real(prefactor * c3),
+        'b->s::c4' : np.real(prefactor * c4),
+        'b->s::c5' : np.real(prefactor * c5),
+        'b->s::c6' : np.real(prefactor * c6)
+    }
 
 
 # semileptonic operators
@@ -1382,30 +1381,29 @@ def Fierz_to_EOS_lep(C, ddll, parameters):
     ind = ddll.replace('l_','').replace('nu_','')
     ind2 = ddll.replace('l_','').replace('nu_','')[2::]
     e = sqrt(4* pi * parameters['alpha_e'])
-    dic = {
-        'b->s' + ind2 + '::Re{c9}'   : np.real((16 * pi**2) / e**2 * C['F' + ind + '9'  ]),
-        'b->s' + ind2 + '::Im{c9}'   : np.imag((16 * pi**2) / e**2 * C['F' + ind + '9'  ]),
-        'b->s' + ind2 + "::Re{c9'}"  : np.real((16 * pi**2) / e**2 * C['F' + ind + '9p' ]),
-        'b->s' + ind2 + "::Im{c9'}"  : np.imag((16 * pi**2) / e**2 * C['F' + ind + '9p' ]),
-        'b->s' + ind2 + "::Re{c10}"  : np.real((16 * pi**2) / e**2 * C['F' + ind + '10' ]),
-        'b->s' + ind2 + "::Im{c10}"  : np.imag((16 * pi**2) / e**2 * C['F' + ind + '10' ]),
-        'b->s' + ind2 + "::Re{c10'}" : np.real((16 * pi**2) / e**2 * C['F' + ind + '10p']),
-        'b->s' + ind2 + "::Im{c10'}" : np.imag((16 * pi**2) / e**2 * C['F' + ind + '10p']),
-        'b->s' + ind2 + "::Re{cS}"   : np.real((16 * pi**2) / e**2 * C['F' + ind + 'S'  ]),
-        'b->s' + ind2 + "::Im{cS}"   : np.imag((16 * pi**2) / e**2 * C['F' + ind + 'S'  ]),
-        'b->s' + ind2 + "::Re{cS'}"  : np.real((16 * pi**2) / e**2 * C['F' + ind + 'Sp' ]),
-        'b->s' + ind2 + "::Im{cS'}"  : np.imag((16 * pi**2) / e**2 * C['F' + ind + 'Sp' ]),
-        'b->s' + ind2 + "::Re{cP}"   : np.real((16 * pi**2) / e**2 * C['F' + ind + 'P'  ]),
-        'b->s' + ind2 + "::Im{cP}"   : np.imag((16 * pi**2) / e**2 * C['F' + ind + 'P'  ]),
-        'b->s' + ind2 + "::Re{cP'}"  : np.real((16 * pi**2) / e**2 * C['F' + ind + 'Pp' ]),
-        'b->s' + ind2 + "::Im{cP'}"  : np.imag((16 * pi**2) / e**2 * C['F' + ind + 'Pp' ]),
-        'b->s' + ind2 + "::Re{cT}"   : np.real((16 * pi**2) / e**2 * C['F' + ind + 'T'  ]),
-        'b->s' + ind2 + "::Im{cT}"   : np.imag((16 * pi**2) / e**2 * C['F' + ind + 'T'  ]),
-        'b->s' + ind2 + "::Re{cT5}"  : np.real((16 * pi**2) / e**2 * C['F' + ind + 'T5' ]),
-        'b->s' + ind2 + "::Im{cT5}"  : np.imag((16 * pi**2) / e**2 * C['F' + ind + 'T5' ])
-    }
     prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
-    return {k: prefactor * v for k,v in dic.items()}
+    return {
+        'b->s' + ind2 + '::Re{c9}'   : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '9'  ]),
+        'b->s' + ind2 + '::Im{c9}'   : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '9'  ]),
+        'b->s' + ind2 + "::Re{c9'}"  : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '9p' ]),
+        'b->s' + ind2 + "::Im{c9'}"  : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '9p' ]),
+        'b->s' + ind2 + "::Re{c10}"  : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '10' ]),
+        'b->s' + ind2 + "::Im{c10}"  : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '10' ]),
+        'b->s' + ind2 + "::Re{c10'}" : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '10p']),
+        'b->s' + ind2 + "::Im{c10'}" : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '10p']),
+        'b->s' + ind2 + "::Re{cS}"   : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'S'  ]),
+        'b->s' + ind2 + "::Im{cS}"   : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'S'  ]),
+        'b->s' + ind2 + "::Re{cS'}"  : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'Sp' ]),
+        'b->s' + ind2 + "::Im{cS'}"  : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'Sp' ]),
+        'b->s' + ind2 + "::Re{cP}"   : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'P'  ]),
+        'b->s' + ind2 + "::Im{cP}"   : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'P'  ]),
+        'b->s' + ind2 + "::Re{cP'}"  : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'Pp' ]),
+        'b->s' + ind2 + "::Im{cP'}"  : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'Pp' ]),
+        'b->s' + ind2 + "::Re{cT}"   : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'T'  ]),
+        'b->s' + ind2 + "::Im{cT}"   : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'T'  ]),
+        'b->s' + ind2 + "::Re{cT5}"  : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'T5' ]),
+        'b->s' + ind2 + "::Im{cT5}"  : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'T5' ])
+    }
 
 def JMS_to_FormFlavor_lep(C, dd):
     """From JMS to semileptonic Fierz basis for Classes V.
@@ -1597,16 +1595,15 @@ def Fierz_to_EOS_chrom(C, dd, parameters):
     e = sqrt(4 * pi * parameters['alpha_e'])
     gs = sqrt(4 * pi * parameters['alpha_s'])
     mb = parameters['m_b']
-    dic = {
-        "b->s::Re{c7}"  : np.real(16 * pi**2 / mb / e  * C["F7gamma"  + dd]),
-        "b->s::Im{c7}"  : np.imag(16 * pi**2 / mb / e  * C["F7gamma"  + dd]),
-        "b->s::Re{c7'}" : np.real(16 * pi**2 / mb / e  * C["F7pgamma" + dd]),
-        "b->s::Im{c7'}" : np.imag(16 * pi**2 / mb / e  * C["F7pgamma" + dd]),
-        "b->s::c8"      : np.real(16 * pi**2 / mb / gs * C["F8g"      + dd]),
-        "b->s::c8'"     : np.real(16 * pi**2 / mb / gs * C["F8pg"     + dd])
-    }
     prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
-    return {k: prefactor * v for k,v in dic.items()}
+    return {
+        "b->s::Re{c7}"  : np.real(prefactor * 16 * pi**2 / mb / e  * C["F7gamma"  + dd]),
+        "b->s::Im{c7}"  : np.imag(prefactor * 16 * pi**2 / mb / e  * C["F7gamma"  + dd]),
+        "b->s::Re{c7'}" : np.real(prefactor * 16 * pi**2 / mb / e  * C["F7pgamma" + dd]),
+        "b->s::Im{c7'}" : np.imag(prefactor * 16 * pi**2 / mb / e  * C["F7pgamma" + dd]),
+        "b->s::c8"      : np.real(prefactor * 16 * pi**2 / mb / gs * C["F8g"      + dd]),
+        "b->s::c8'"     : np.real(prefactor * 16 * pi**2 / mb / gs * C["F8pg"     + dd])
+    }
 
 
 def JMS_to_FormFlavor_chrom(C, qq, parameters):
-- 
2.43.0


From 73cd30fe846b0f45bf185719d3c1a01a016cfc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 03/34] fix: FormFlavor translator: conjugate C2 and C3p
 consistently for Delta F=2 charm operators

---
 wilson/translate/wet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 21c5803..428c2c4 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -166,12 +166,12 @@ def _BernI_to_FormFlavor_I(C, qq):
     elif qq == 'cu':
         return {
             'CVLL_' + 2*qq: C["1" + 2*qq].conjugate(),
-            'CSLL_' + 2*qq: C["2" + 2*qq] + 1 / 2 * C["3" + 2*qq].conjugate(),
+            'CSLL_' + 2*qq: C["2" + 2*qq].conjugate() + 1 / 2 * C["3" + 2*qq].conjugate(),
             'CTLL_' + 2*qq: -1 / 8 * C["3" + 2*qq].conjugate(),
             'CVLR_' + 2*qq: -1 / 2 * C["5" + 2*qq].conjugate(),
             'CVRR_' + 2*qq: C["1p" + 2*qq].conjugate(),
             'CSRR_' + 2*qq: C["2p" + 2*qq].conjugate() + 1 / 2 * C["3p" + 2*qq].conjugate(),
-            'CTRR_' + 2*qq: -1 / 8 * C["3p" + 2*qq],
+            'CTRR_' + 2*qq: -1 / 8 * C["3p" + 2*qq].conjugate(),
             'CSLR_' + 2*qq: C["4" + 2*qq].conjugate()
             }
     else:
-- 
2.43.0


From 150545bee15bec4600140ab245cb00306f95e9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 04/34] fix: FormFlavor translator: lepton dipole CAL is
 normalised to e, not to g_s

---
 wilson/translate/wet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 428c2c4..d4a1f1c 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1625,7 +1625,7 @@ def JMS_to_FormFlavor_chrom(C, qq, parameters):
         l2 = llflav[qq[1]]
         return {
             'CAR_' + qq : C['egamma'][l1, l2] / e,
-            'CAL_' + qq : C['egamma'][l2, l1].conj() / gs,
+            'CAL_' + qq : C['egamma'][l2, l1].conj() / e,
                 }
     if qq[0] in uflav.keys():
         u = uflav[qq[0]]
-- 
2.43.0


From 168a84e777944eb156166d6863179de9d2ca248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 05/34] fix: FormFlavor translator: CVLL_sdnn/CVRL_sdnn were
 overwritten by b->d coefficients

---
 wilson/translate/wet.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index d4a1f1c..0c8670c 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1422,12 +1422,12 @@ def JMS_to_FormFlavor_lep(C, dd):
         'CSRL_' + dd + 'mm' : C["SedRL"][1, 1, b, s].conj(),
         'CTLL_' + dd + 'mm' : C["TedRR"][1, 1, b, s].conj(),
         'CTRR_' + dd + 'mm' : C["TedRR"][1, 1, s, b],
-        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLL"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLL"][2, 2, s-1, s],
-        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLR"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLR"][2, 2, s-1, s]
+        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, 0, 1]
+                      + 1 / 3 * C["VnudLL"][1, 1, 0, 1]
+                      + 1 / 3 * C["VnudLL"][2, 2, 0, 1],
+        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, 0, 1]
+                      + 1 / 3 * C["VnudLR"][1, 1, 0, 1]
+                      + 1 / 3 * C["VnudLR"][2, 2, 0, 1]
             }
 
 # chromomagnetic operators
-- 
2.43.0


From f956b0fe3a7da2be4ed82a1d605c876eed281d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 06/34] fix: match_run within SMEFT ignored the user's
 parameters in the final basis translation

---
 wilson/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 379d3dd..e43e1a1 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -236,7 +236,7 @@ class Wilson(ConfigurableClass):
             if eft == 'SMEFT':
                 smeft = SMEFT(self.wc.translate('Warsaw', sectors=translate_sectors, parameters=self.parameters))
                 # if input and output EFT ist SMEFT, just run.
-                wc_out = smeft.run(scale, accuracy=smeft_accuracy).translate(basis)
+                wc_out = smeft.run(scale, accuracy=smeft_accuracy).translate(basis, parameters=self.parameters)
                 self._set_cache('all', scale, 'SMEFT', wc_out.basis, wc_out)
                 return wc_out
             else:
-- 
2.43.0


From 405d21c0571f65bca1848f79caa9117fb016d80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 07/34] fix: Wilson.__hash__ hashed only the option names, not
 their values

---
 wilson/classes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index e43e1a1..37fc5aa 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -153,7 +153,11 @@ class Wilson(ConfigurableClass):
         """Return a hash of the `Wilson` instance.
         The hash changes when Wilson coefficient values or options are modified.
         It assumes that `wcxf.WC` instances are not modified after instantiation."""
-        return hash((self.wc, frozenset(self._options)))
+        options = frozenset(
+            (k, frozenset(v.items()) if isinstance(v, dict) else v)
+            for k, v in self._options.items()
+        )
+        return hash((self.wc, options))
 
     @classmethod
     def from_wc(cls, wc):
-- 
2.43.0


From 662aca72d51f5e65fa368483d6ac4b40c7306269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 08/34] fix: match_run did not pass the user's parameters on to
 the WET running

---
 wilson/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 37fc5aa..098beb4 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -199,7 +199,8 @@ class Wilson(ConfigurableClass):
     def _wetrun_opt(self):
         """Return a dictionary of options to pass to a `run.wet.WETrunner`
         instance."""
-        return {'qed_order': self.get_option('qed_order'),
+        return {'parameters': self.parameters,
+                'qed_order': self.get_option('qed_order'),
                 'qcd_order': self.get_option('qcd_order')}
 
     def match_run(self, scale, eft, basis, sectors='all'):
-- 
2.43.0


From d20b2900ee602fb7e764a6980558430b3c530318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 09/34] fix: setting the option 'parameters' modified the
 dictionary passed by the user

---
 wilson/classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 098beb4..40b4d9d 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -56,8 +56,8 @@ class ConfigurableClass:
                           "Please use 'gamma' instead. Support for using "
                           "'delta' will be removed in the future.",
                           FutureWarning)
-            value['gamma'] = value['delta']
-            del value['delta']
+            value = dict(value)  # do not modify the user's dictionary
+            value['gamma'] = value.pop('delta')
         ####################################################################
         cls._default_options.update(cls._option_schema({key: value}))
 
@@ -75,8 +75,8 @@ class ConfigurableClass:
                           "Please use 'gamma' instead. Support for using "
                           "'delta' will be removed in the future.",
                           FutureWarning)
-            value['gamma'] = value['delta']
-            del value['delta']
+            value = dict(value)  # do not modify the user's dictionary
+            value['gamma'] = value.pop('delta')
         ####################################################################
         self._options.update(self._option_schema({key: value}))
         self.clear_cache()
-- 
2.43.0


From 967cd00186f0dc703d6eba3be4aa33e01101910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 10/34] fix: m_c(m_c) was returned without decoupling in the 3-
 and 5-flavour theories

---
 wilson/util/qcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/util/qcd.py b/wilson/util/qcd.py
index e540bd2..a1ff878 100644
--- a/wilson/util/qcd.py
+++ b/wilson/util/qcd.py
@@ -95,7 +95,7 @@ def m_b(mbmb, scale, f, alphasMZ=0.1185, loop=3):
 def m_c(mcmc, scale, f, alphasMZ=0.1185, loop=3):
     r"""Get running c quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_c(m_c)$"""
-    if scale == mcmc:
+    if scale == mcmc and f == 4:
         return mcmc  # nothing to do
     _sane(scale, f)
     crd = rundec.CRunDec()
-- 
2.43.0


From f60067684c9c6ae8e2e2048fc697f9d7c8c174ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:40 +0000
Subject: [PATCH 11/34] fix: running quark masses were silently 0 at scales too
 low for perturbation theory

---
 wilson/util/qcd.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/wilson/util/qcd.py b/wilson/util/qcd.py
index a1ff878..5aa97cc 100644
--- a/wilson/util/qcd.py
+++ b/wilson/util/qcd.py
@@ -13,6 +13,13 @@ def _sane(scale, f):
         raise ValueError("f must be an integer between 3 and 6")
 
 
+def _check_mass(mass, scale):
+    """Raise if `rundec` could not compute the running quark mass"""
+    if mass == 0:
+        raise ValueError(f"Return value is 0, probably `scale={scale}` is too small.")
+    return mass
+
+
 MZ = 91.1876
 
 
@@ -70,7 +77,7 @@ def m_b(mbmb, scale, f, alphasMZ=0.1185, loop=3):
         crd.nfMmu.Mth = 4.8
         crd.nfMmu.muth = 4.8
         crd.nfMmu.nf = 5
-        return crd.mH2mL(mbmb, alphas_mb, mbmb, crd.nfMmu, scale, loop)
+        return _check_mass(crd.mH2mL(mbmb, alphas_mb, mbmb, crd.nfMmu, scale, loop), scale)
     elif f == 3:
         mc = 1.3
         crd.nfMmu.Mth = 4.8
@@ -81,12 +88,12 @@ def m_b(mbmb, scale, f, alphasMZ=0.1185, loop=3):
         crd.nfMmu.muth = mc
         crd.nfMmu.nf = 4
         alphas_mc = alpha_s(mc, 4, alphasMZ=alphasMZ, loop=loop)
-        return crd.mH2mL(mbmc, alphas_mc, mc, crd.nfMmu, scale, loop)
+        return _check_mass(crd.mH2mL(mbmc, alphas_mc, mc, crd.nfMmu, scale, loop), scale)
     elif f == 6:
         crd.nfMmu.Mth = 170
         crd.nfMmu.muth = 170
         crd.nfMmu.nf = 6
-        return crd.mL2mH(mbmb, alphas_mb, mbmb, crd.nfMmu, scale, loop)
+        return _check_mass(crd.mL2mH(mbmb, alphas_mb, mbmb, crd.nfMmu, scale, loop), scale)
     else:
         raise ValueError(f"Invalid input: f={f}, scale={scale}")
 
@@ -107,12 +114,12 @@ def m_c(mcmc, scale, f, alphasMZ=0.1185, loop=3):
         crd.nfMmu.Mth = 1.3
         crd.nfMmu.muth = 1.3
         crd.nfMmu.nf = 4
-        return crd.mH2mL(mcmc, alphas_mc, mcmc, crd.nfMmu, scale, loop)
+        return _check_mass(crd.mH2mL(mcmc, alphas_mc, mcmc, crd.nfMmu, scale, loop), scale)
     elif f == 5:
         crd.nfMmu.Mth = 4.8
         crd.nfMmu.muth = 4.8
         crd.nfMmu.nf = 5
-        return crd.mL2mH(mcmc, alphas_mc, mcmc, crd.nfMmu, scale, loop)
+        return _check_mass(crd.mL2mH(mcmc, alphas_mc, mcmc, crd.nfMmu, scale, loop), scale)
     else:
         raise ValueError(f"Invalid input: f={f}, scale={scale}")
 
@@ -133,7 +140,7 @@ def m_s(ms2, scale, f, alphasMZ=0.1185, loop=3):
         crd.nfMmu.Mth = 1.3
         crd.nfMmu.muth = 1.3
         crd.nfMmu.nf = 4
-        return crd.mL2mH(ms2, alphas_2, 2, crd.nfMmu, scale, loop)
+        return _check_mass(crd.mL2mH(ms2, alphas_2, 2, crd.nfMmu, scale, loop), scale)
     elif f == 5:
         mc = 1.3
         crd.nfMmu.Mth = mc
@@ -144,6 +151,6 @@ def m_s(ms2, scale, f, alphasMZ=0.1185, loop=3):
         crd.nfMmu.muth = 4.8
         crd.nfMmu.nf = 5
         alphas_mc = alpha_s(mc, 4, alphasMZ=alphasMZ, loop=loop)
-        return crd.mL2mH(msmc, alphas_mc, mc, crd.nfMmu, scale, loop)
+        return _check_mass(crd.mL2mH(msmc, alphas_mc, mc, crd.nfMmu, scale, loop), scale)
     else:
         raise ValueError(f"Invalid input: f={f}, scale={scale}")
-- 
2.43.0


From 7a0dba296d815b2e4cc7689c9921ac926ac06e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 12/34] fix: flavio to Bern translation dropped the
 lepton-flavour violating s->d coefficients

---
 wilson/translate/wet.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 0c8670c..506efd3 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1951,11 +1951,10 @@ def flavio_to_Bern(C_incomplete, scale, parameters=None, sectors=None):
                                         'db'+'l_'+l+'nu_'+lp, p,
                                         norm_gf=True),
                                         'db'+'l_'+l+'nu_'+lp))
-            if l == lp:  # l+l- only for l=l'
-                d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
-                                            'ds'+'l_'+l+'nu_'+lp, p,
-                                            norm_gf=True),
-                                            'ds'+'l_'+l+'nu_'+lp))
+            d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
+                                        'ds'+'l_'+l+'nu_'+lp, p,
+                                        norm_gf=True),
+                                        'ds'+'l_'+l+'nu_'+lp))
             d.update(Fierz_to_Bern_nunu(Flavio_to_Fierz_nunu(C,
                                         'sb'+'l_'+l+'nu_'+lp, p,
                                         norm_gf=True),
-- 
2.43.0


From ece53dda21ed24299711ee9096bc3bd278fc3635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 13/34] fix: translating JMS to Bern, EOS or FormFlavor with a
 restriction to some sectors raised KeyError

---
 wilson/translate/wet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 506efd3..a0ca7c5 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1723,7 +1723,7 @@ def get_parameters(scale, f=5, input_parameters=None):
 
 def JMS_to_EOS(Cflat, scale, parameters=None, sectors=None):
     p = get_parameters(scale, f=5, input_parameters=parameters)
-    C = JMS_to_array(Cflat, sectors=sectors)
+    C = JMS_to_array(Cflat)
     d={}
 
     # Class I
@@ -1987,7 +1987,7 @@ def flavio_to_Bern(C_incomplete, scale, parameters=None, sectors=None):
 
 def JMS_to_FormFlavor(Cflat, scale, parameters=None, sectors=None):
     p = get_parameters(scale, f=5, input_parameters=parameters)
-    C = JMS_to_array(Cflat, sectors=sectors)
+    C = JMS_to_array(Cflat)
     d={}
 
     # Class I
@@ -2006,7 +2006,7 @@ def JMS_to_FormFlavor(Cflat, scale, parameters=None, sectors=None):
 
 def JMS_to_Bern(Cflat, scale, parameters=None, sectors=None):
     p = get_parameters(scale, f=5, input_parameters=parameters)
-    C = JMS_to_array(Cflat, sectors=sectors)
+    C = JMS_to_array(Cflat)
     d={}
 
     # Class I
-- 
2.43.0


From 10ac611dcbc442ebc0297ac1904c9ef34aa1ded2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 14/34] fix: FormFlavor translator: sign of the colour-crossed
 scalar in the Delta F=2 Fierz identity (same as for flavio)

---
 wilson/translate/wet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index a0ca7c5..896b664 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -155,22 +155,22 @@ def _BernI_to_FormFlavor_I(C, qq):
     if qq in ['sb', 'db', 'ds']:
         return {
             'CVLL_' + 2*qqf: C["1" + 2*qq],
-            'CSLL_' + 2*qqf: C["2" + 2*qq] + 1 / 2 * C["3" + 2*qq],
+            'CSLL_' + 2*qqf: C["2" + 2*qq] - 1 / 2 * C["3" + 2*qq],
             'CTLL_' + 2*qqf: -1 / 8 * C["3" + 2*qq],
             'CVLR_' + 2*qqf: -1 / 2 * C["5" + 2*qq],
             'CVRR_' + 2*qqf: C["1p" + 2*qq],
-            'CSRR_' + 2*qqf: C["2p" + 2*qq] + 1 / 2 * C["3p" + 2*qq],
+            'CSRR_' + 2*qqf: C["2p" + 2*qq] - 1 / 2 * C["3p" + 2*qq],
             'CTRR_' + 2*qqf: -1 / 8 * C["3p" + 2*qq],
             'CSLR_' + 2*qqf: C["4" + 2*qq]
             }
     elif qq == 'cu':
         return {
             'CVLL_' + 2*qq: C["1" + 2*qq].conjugate(),
-            'CSLL_' + 2*qq: C["2" + 2*qq].conjugate() + 1 / 2 * C["3" + 2*qq].conjugate(),
+            'CSLL_' + 2*qq: C["2" + 2*qq].conjugate() - 1 / 2 * C["3" + 2*qq].conjugate(),
             'CTLL_' + 2*qq: -1 / 8 * C["3" + 2*qq].conjugate(),
             'CVLR_' + 2*qq: -1 / 2 * C["5" + 2*qq].conjugate(),
             'CVRR_' + 2*qq: C["1p" + 2*qq].conjugate(),
-            'CSRR_' + 2*qq: C["2p" + 2*qq].conjugate() + 1 / 2 * C["3p" + 2*qq].conjugate(),
+            'CSRR_' + 2*qq: C["2p" + 2*qq].conjugate() - 1 / 2 * C["3p" + 2*qq].conjugate(),
             'CTRR_' + 2*qq: -1 / 8 * C["3p" + 2*qq].conjugate(),
             'CSLR_' + 2*qq: C["4" + 2*qq].conjugate()
             }
-- 
2.43.0


From f258dfa4226284bf8755f15a1db7bf1f54e290c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 15/34] fix: FormFlavor translator: the Hermitian conjugate of
 a left-handed charm scalar or tensor operator is right-handed

---
 wilson/translate/wet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 896b664..2da3e86 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -166,12 +166,12 @@ def _BernI_to_FormFlavor_I(C, qq):
     elif qq == 'cu':
         return {
             'CVLL_' + 2*qq: C["1" + 2*qq].conjugate(),
-            'CSLL_' + 2*qq: C["2" + 2*qq].conjugate() - 1 / 2 * C["3" + 2*qq].conjugate(),
-            'CTLL_' + 2*qq: -1 / 8 * C["3" + 2*qq].conjugate(),
+            'CSLL_' + 2*qq: C["2p" + 2*qq].conjugate() - 1 / 2 * C["3p" + 2*qq].conjugate(),
+            'CTLL_' + 2*qq: -1 / 8 * C["3p" + 2*qq].conjugate(),
             'CVLR_' + 2*qq: -1 / 2 * C["5" + 2*qq].conjugate(),
             'CVRR_' + 2*qq: C["1p" + 2*qq].conjugate(),
-            'CSRR_' + 2*qq: C["2p" + 2*qq].conjugate() - 1 / 2 * C["3p" + 2*qq].conjugate(),
-            'CTRR_' + 2*qq: -1 / 8 * C["3p" + 2*qq].conjugate(),
+            'CSRR_' + 2*qq: C["2" + 2*qq].conjugate() - 1 / 2 * C["3" + 2*qq].conjugate(),
+            'CTRR_' + 2*qq: -1 / 8 * C["3" + 2*qq].conjugate(),
             'CSLR_' + 2*qq: C["4" + 2*qq].conjugate()
             }
     else:
-- 
2.43.0


From 398529aa04e9cef252c5efb0ef4a1f8d66092d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:07 +0000
Subject: [PATCH 16/34] fix: SMEFT running: the beta function of C_ee was not
 Fierz symmetric, giving wrong coefficients with several flavours

---
 wilson/run/smeft/rge.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/wilson/run/smeft/rge.py b/wilson/run/smeft/rge.py
index bd0fb7e..158647b 100644
--- a/wilson/run/smeft/rge.py
+++ b/wilson/run/smeft/rge.py
@@ -9,12 +9,23 @@ from wilson.util import smeftutil
 import numpy as np
 
 
+def _symmetrize_beta(b):
+    """Project the beta function of C_ee onto its Fierz symmetric part.
+
+    The four singlet currents make C_ee symmetric under exchange of its first
+    and third (or second and fourth) index, but the beta function as
+    implemented in `beta.beta` is only determined up to terms that are
+    antisymmetric under this exchange."""
+    b['ee'] = (b['ee'] + np.swapaxes(b['ee'], 0, 2)) / 2
+    return b
+
+
 def smeft_evolve_leadinglog(C_in, scale_in, scale_out, newphys=True):
     """Solve the SMEFT RGEs in the leading log approximation.
 
     Input C_in and output C_out are dictionaries of arrays."""
     C_out = deepcopy(C_in)
-    b = beta.beta(C_out, newphys=newphys)
+    b = _symmetrize_beta(beta.beta(C_out, newphys=newphys))
     for k, C in C_out.items():
         C_out[k] = C + b[k] / (16 * pi**2) * log(scale_out / scale_in)
     return C_out
@@ -23,8 +34,9 @@ def smeft_evolve_leadinglog(C_in, scale_in, scale_out, newphys=True):
 def _smeft_evolve(C_in, scale_in, scale_out, newphys=True, **kwargs):
     """Axuliary function used in `smeft_evolve` and `smeft_evolve_continuous`"""
     def fun(t0, y):
-        return beta.beta_array(C=smeftutil.C_array2dict(y.view(complex)),
-                               newphys=newphys).view(float) / (16 * pi**2)
+        b = beta.beta(smeftutil.C_array2dict(y.view(complex)), newphys=newphys)
+        b = smeftutil.C_dict2array(_symmetrize_beta(b))
+        return b.view(float) / (16 * pi**2)
     y0 = smeftutil.C_dict2array(C_in).view(float)
     sol = solve_ivp(fun=fun,
                     t_span=(log(scale_in), log(scale_out)),
-- 
2.43.0


From 06b509d3159169e8e575867805863f5a1aecc5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:37 +0000
Subject: [PATCH 17/34] fix: SMEFT running: the beta function of C_qqql
 violated the index symmetry of the operator, giving wrong coefficients

---
 wilson/run/smeft/rge.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/wilson/run/smeft/rge.py b/wilson/run/smeft/rge.py
index 158647b..19f07ba 100644
--- a/wilson/run/smeft/rge.py
+++ b/wilson/run/smeft/rge.py
@@ -10,13 +10,20 @@ import numpy as np
 
 
 def _symmetrize_beta(b):
-    """Project the beta function of C_ee onto its Fierz symmetric part.
+    """Project the beta functions of C_ee and C_qqql onto the index symmetries
+    of the operators.
 
-    The four singlet currents make C_ee symmetric under exchange of its first
-    and third (or second and fourth) index, but the beta function as
-    implemented in `beta.beta` is only determined up to terms that are
-    antisymmetric under this exchange."""
+    The operators fulfill the Fierz relations O_ee_prst = O_ee_stpr = O_ee_srpt
+    and O_qqql_prst + O_qqql_rpst = O_qqql_sprt + O_qqql_srpt, but the beta
+    functions as implemented in `beta.beta` contain terms that do not (and that
+    only are equivalent to those that do when contracted with the operators)."""
     b['ee'] = (b['ee'] + np.swapaxes(b['ee'], 0, 2)) / 2
+    b['qqql'] = (4 * b['qqql']
+                 - np.einsum('psrt->prst', b['qqql'])
+                 - np.einsum('rpst->prst', b['qqql'])
+                 + np.einsum('rspt->prst', b['qqql'])
+                 + np.einsum('sprt->prst', b['qqql'])
+                 + 2 * np.einsum('srpt->prst', b['qqql'])) / 6
     return b
 
 
-- 
2.43.0


From cf47d32262789e4bb768179d180da5ed08d5d850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 18/34] fix: SMEFT: arbitrary rephasing of leptons for massless
 neutrinos spoiled the SM parameters for lepton flavour violating coefficients

---
 wilson/run/smeft/classes.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wilson/run/smeft/classes.py b/wilson/run/smeft/classes.py
index 6387c9d..92024d4 100644
--- a/wilson/run/smeft/classes.py
+++ b/wilson/run/smeft/classes.py
@@ -133,9 +133,16 @@ class SMEFT:
         UeL, Me, UeR = ckmutil.diag.msvd(Mep)
         UuL, Mu, UuR = ckmutil.diag.msvd(Mup)
         UdL, Md, UdR = ckmutil.diag.msvd(Mdp)
-        Unu, Mnu = ckmutil.diag.mtakfac(Mnup)
         UuL, UdL, UuR, UdR = ckmutil.phases.rephase_standard(UuL, UdL, UuR, UdR)
-        Unu, UeL, UeR = ckmutil.phases.rephase_pmns_standard(Unu, UeL, UeR)
+        if np.any(Mnup):
+            Unu, Mnu = ckmutil.diag.mtakfac(Mnup)
+            Unu, UeL, UeR = ckmutil.phases.rephase_pmns_standard(Unu, UeL, UeR)
+        else:
+            # For massless neutrinos, the PMNS matrix is not defined. Fix the
+            # lepton phases such that the rotation reduces to the identity if
+            # the charged lepton mass matrix is already diagonal.
+            phases = np.exp(-1j * np.angle(np.diag(UeL)))
+            UeL, UeR = UeL * phases, UeR * phases
         return SMEFT._flavor_rotation(C, Uq=UdL, Uu=UuR, Ud=UdR, Ul=UeL, Ue=UeR)
 
     @staticmethod
-- 
2.43.0


From e9abab2b92a976e5934dfbe3ed892af5022ee328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 19/34] fix: get_gpbar raised AttributeError instead of
 ValueError when there is no solution (private SciPy namespace)

---
 wilson/run/smeft/smpar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/run/smeft/smpar.py b/wilson/run/smeft/smpar.py
index fe387f1..ea05a69 100644
--- a/wilson/run/smeft/smpar.py
+++ b/wilson/run/smeft/smpar.py
@@ -92,7 +92,7 @@ def get_gpbar(ebar, gbar, v, C):
             return (ebar_calc - ebar).real
         try:
             gpbar = scipy.optimize.brentq(f0, 0, 3)
-        except (scipy.optimize.nonlin.NoConvergence, ValueError) as e:
+        except (scipy.optimize.NoConvergence, ValueError) as e:
             raise ValueError("No solution for gp found. This problem can be caused by very large values for one or several Wilson coefficients.")
     return gpbar * (1 - C['phiB'].real * (v**2))
 
-- 
2.43.0


From 3c22b16d7022a37d8440bf0291f41b5fa37771e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:31 +0000
Subject: [PATCH 20/34] fix: SMEFT: SM parameters were determined with far too
 low precision for high input scales (alpha_s off by 150% for 1e12 GeV)

---
 wilson/run/smeft/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/run/smeft/classes.py b/wilson/run/smeft/classes.py
index 92024d4..49f466c 100644
--- a/wilson/run/smeft/classes.py
+++ b/wilson/run/smeft/classes.py
@@ -227,7 +227,7 @@ class SMEFT:
         C_in_sm.update(C_SM)
         smeft_sm._set_initial(C_in_sm, scale_sm)
         # run up (with 1% relative precision, ignore running of Wilson coefficients)
-        C_SM_high = smeft_sm._rgevolve(self.scale_in, newphys=False, rtol=0.001, atol=1)
+        C_SM_high = smeft_sm._rgevolve(self.scale_in, newphys=False, rtol=1e-5, atol=1e-6)
         C_SM_high = self._rotate_defaultbasis(C_SM_high)
         return {k: v for k, v in C_SM_high.items() if k in SM_keys}
 
-- 
2.43.0


From a600821f9afe4f585132065036bf446d76efa16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 21/34] fix: m2Lambda_to_vMh2 lost up to nine digits for small
 values of C_phi

---
 wilson/run/smeft/smpar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wilson/run/smeft/smpar.py b/wilson/run/smeft/smpar.py
index ea05a69..1fe60f1 100644
--- a/wilson/run/smeft/smpar.py
+++ b/wilson/run/smeft/smpar.py
@@ -52,7 +52,10 @@ def m2Lambda_to_vMh2(m2, Lambda, C):
         sqrt_arg = Lambda**2 - 12 * Cphi * m2
         if not sqrt_arg >= 0:
             raise ValueError("'Lambda**2 - 12 * Cphi * m2' must be positive.")
-        v2 = ( Lambda - sqrt(sqrt_arg) )/( 3 * Cphi )
+        if Lambda > 0:  # equivalent to below, but numerically stable for small Cphi
+            v2 = 4 * m2 / ( Lambda + sqrt(sqrt_arg) )
+        else:
+            v2 = ( Lambda - sqrt(sqrt_arg) )/( 3 * Cphi )
     if not v2 > 0:
         raise ValueError('No solution with positive v2.')
     Mh2 = v2 / ( 1 - 2 * Ckin * v2 ) * ( Lambda - 3 * Cphi * v2 )
-- 
2.43.0


From ccbcf90e43c19e53d81346af8c7dd8c14055685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 22/34] fix: SMEFT: results for baryon number violating
 coefficients had an arbitrary overall phase

---
 wilson/run/smeft/classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wilson/run/smeft/classes.py b/wilson/run/smeft/classes.py
index 49f466c..bd6b6ac 100644
--- a/wilson/run/smeft/classes.py
+++ b/wilson/run/smeft/classes.py
@@ -134,6 +134,10 @@ class SMEFT:
         UuL, Mu, UuR = ckmutil.diag.msvd(Mup)
         UdL, Md, UdR = ckmutil.diag.msvd(Mdp)
         UuL, UdL, UuR, UdR = ckmutil.phases.rephase_standard(UuL, UdL, UuR, UdR)
+        # The CKM matrix does not fix the overall phase of the quarks, on which
+        # the baryon number violating coefficients depend.
+        phase = np.exp(-1j * np.angle(UdL[2, 2]))
+        UuL, UdL, UuR, UdR = UuL * phase, UdL * phase, UuR * phase, UdR * phase
         if np.any(Mnup):
             Unu, Mnu = ckmutil.diag.mtakfac(Mnup)
             Unu, UeL, UeR = ckmutil.phases.rephase_pmns_standard(Unu, UeL, UeR)
-- 
2.43.0


From 8949e454a9e536ce9d133bf3b7c90e58379444a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 23/34] fix: SMEFT running: the default absolute tolerance
 exceeded typical coefficients, so that their evolution was not
 error-controlled

---
 wilson/run/smeft/rge.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/wilson/run/smeft/rge.py b/wilson/run/smeft/rge.py
index 19f07ba..ddc2738 100644
--- a/wilson/run/smeft/rge.py
+++ b/wilson/run/smeft/rge.py
@@ -38,8 +38,24 @@ def smeft_evolve_leadinglog(C_in, scale_in, scale_out, newphys=True):
     return C_out
 
 
+def _default_atol(C_in):
+    """Absolute tolerances for the integration of the RGEs, in the format of
+    the vector of (real and imaginary parts of) parameters and coefficients.
+
+    The default of `solve_ivp` is much larger than typical coefficients
+    in units of GeV^-2, so they would not be subject to any error control."""
+    dim6 = [k for k in smeftutil.C_keys
+            if k not in smeftutil.dim4_keys and k != 'llphiphi']
+    size = {'llphiphi': np.max(np.abs(C_in['llphiphi']))}
+    size.update(dict.fromkeys(dim6, max(np.max(np.abs(C_in[k])) for k in dim6)))
+    atol = {k: np.full(np.shape(C), 1e-5 * size[k] if size.get(k) else 1e-9)
+            for k, C in C_in.items()}
+    return np.repeat(smeftutil.C_dict2array(atol).real, 2)
+
+
 def _smeft_evolve(C_in, scale_in, scale_out, newphys=True, **kwargs):
     """Axuliary function used in `smeft_evolve` and `smeft_evolve_continuous`"""
+    kwargs.setdefault('atol', _default_atol(C_in))
     def fun(t0, y):
         b = beta.beta(smeftutil.C_array2dict(y.view(complex)), newphys=newphys)
         b = smeftutil.C_dict2array(_symmetrize_beta(b))
-- 
2.43.0


From 206b33fa1be1bbd0ba70645a9ef00c17be86ccea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 24/34] fix: WET-3 QED running: resonant terms (eigenvalues
 differing by exactly one) were dominated by rounding errors

---
 wilson/run/wet/rge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/run/wet/rge.py b/wilson/run/wet/rge.py
index 0a32b8e..2751f3d 100644
--- a/wilson/run/wet/rge.py
+++ b/wilson/run/wet/rge.py
@@ -74,7 +74,7 @@ def getUe(classname, eta_s, f, alpha_s, alpha_e, m_u, m_d, m_s, m_c, m_b, m_e, m
     K = np.linalg.inv(v) @ A.T @ v
     for i in range(K.shape[0]):
         for j in range(K.shape[1]):
-            if a[i] - a[j] != 1:
+            if abs(a[i] - a[j] - 1) > 1e-8:
                 K[i, j] *= (eta_s**(a[j] + 1) - eta_s**a[i]) / (a[i] - a[j] - 1)
             else:
                 K[i, j] *= eta_s**a[i] * log(1 / eta_s)
-- 
2.43.0


From 5e1373fc1491b6523444e006ea329ef98375a172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:33 +0000
Subject: [PATCH 25/34] fix: WET running: VddLL_1231 and VddRR_1231 mixed with
 operators of opposite flavour quantum numbers without complex conjugation

---
 wilson/run/wet/rge.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wilson/run/wet/rge.py b/wilson/run/wet/rge.py
index 2751f3d..93451a2 100644
--- a/wilson/run/wet/rge.py
+++ b/wilson/run/wet/rge.py
@@ -85,6 +85,10 @@ qG = ['uG', 'dG']
 qgamma = ['ugamma', 'dgamma']
 lgamma = ['egamma', 'nugamma']
 G3 = ['G', 'Gtilde']
+# Wilson coefficients whose operators are the Hermitian conjugates of the ones
+# the ADM of their sector refers to (they have the opposite flavour quantum
+# numbers of the operators they mix with)
+conjugates = ['VddLL_1231', 'VddRR_1231']
 
 
 def get_m(dipole_key):
@@ -139,6 +143,8 @@ def run_sector(sector, C_in, eta_s, f, p_in, p_out, qed_order=1, qcd_order=1):
         # remove disallowed keys if necessary
         keylist = np.asarray(keylist)[perm_keys]
     C_input = np.array([C_in.get(key, 0) for key in keylist])
+    conj = np.isin(keylist, conjugates)
+    C_input = np.where(conj, C_input.conj(), C_input)
     if np.count_nonzero(C_input) == 0 or classname == 'inv':
         # nothing to do for SM-like WCs or RG invariant operators
         C_result = C_input
@@ -157,6 +163,7 @@ def run_sector(sector, C_in, eta_s, f, p_in, p_out, qed_order=1, qcd_order=1):
                 Ue = getUe(classname, eta_s, f, **p_in)
         C_out = (Us + Ue) @ C_scaled
         C_result = [C_out[i] / scale_C(key, p_out) for i, key in enumerate(keylist)]
+    C_result = np.where(conj, np.conj(C_result), C_result)
     for j in range(len(C_result)):
         Cdictout[keylist[j]] = C_result[j]
     return Cdictout
-- 
2.43.0


From a09be1edc79675ec0f188da1e70427db89a7ce21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 26/34] fix: match_run did not restrict the result to the
 requested sectors if the input was at the requested scale

---
 wilson/classes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 40b4d9d..d63d03d 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -230,10 +230,16 @@ class Wilson(ConfigurableClass):
         scale_ew = self.get_option('smeft_matchingscale')
         mb = self.get_option('mb_matchingscale')
         mc = self.get_option('mc_matchingscale')
-        if self.wc.basis == basis and self.wc.eft == eft and scale == self.wc.scale:
+        if self.wc.basis == basis and self.wc.eft == eft and scale == self.wc.scale and (sectors == 'all' or eft == 'SMEFT'):
             return self.wc  # nothing to do
         if self.wc.eft == eft and scale == self.wc.scale:
             wc_out = self.wc.translate(basis, sectors=translate_sectors, parameters=self.parameters)  # only translation necessary
+            if sectors != 'all' and eft != 'SMEFT':
+                # translators are not obliged to limit themselves to these sectors
+                basis_sectors = wcxf.Basis[eft, basis].sectors
+                wcs = {k for s in sectors for k in basis_sectors.get(s, [])}
+                wc_out = wcxf.WC(eft=eft, basis=basis, scale=scale,
+                                 values={k: v for k, v in wc_out.values.items() if k in wcs})
             self._set_cache(sectors, scale, eft, basis, wc_out)
             return wc_out
         if self.wc.eft == 'SMEFT':
-- 
2.43.0


From 3a79d7eb43b0e0d4691151cbe8914b3d1346e07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 27/34] fix: Wilson coefficients in the Higgs-Warsaw up basis
 at the matching scale could not be matched to WET

---
 wilson/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index d63d03d..7a5d107 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -255,7 +255,7 @@ class Wilson(ConfigurableClass):
                 wc_ew = self._get_from_cache(sector='all', scale=scale_ew, eft='WET', basis='JMS')
                 if wc_ew is None:
                     if self.wc.scale == scale_ew:
-                        wc_ew = self.wc.match('WET', 'JMS', parameters=self.matching_parameters)  # no need to run
+                        wc_ew = self.wc.translate('Warsaw', parameters=self.parameters).match('WET', 'JMS', parameters=self.matching_parameters)  # no need to run
                     else:
                         smeft = SMEFT(self.wc.translate('Warsaw', parameters=self.parameters))
                         wc_ew = smeft.run(scale_ew, accuracy=smeft_accuracy).match('WET', 'JMS', parameters=self.matching_parameters)
-- 
2.43.0


From 1830ba6de191ef7310c5726f609794594e8dce7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 28/34] fix: wcxf command: pass on the exit code of the
 subcommand, do not hide AttributeErrors behind the help text

'wcxf validate' with an invalid TYPE exited with code 0, and an input
file that raised an AttributeError (for example an empty one) made all
subcommands print the help text and exit with code 0.
---
 wilson/wcxf/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wilson/wcxf/cli.py b/wilson/wcxf/cli.py
index 491278f..30b1f0c 100755
--- a/wilson/wcxf/cli.py
+++ b/wilson/wcxf/cli.py
@@ -75,10 +75,10 @@ def wcxf_cli():
     parser_validate.set_defaults(func=validate)
 
     args = parser.parse_args()
-    try:
-        args.func(args)
-    except AttributeError:
+    if not hasattr(args, 'func'):  # no subcommand given
         parser.print_help()
+        return 0
+    return args.func(args)
 
 
 def convert(args):
-- 
2.43.0


From ce0ef1c9ec6bce57325b3d661d30c0d8983964f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 29/34] fix: 'wcxf convert' reported success for unparsable
 input and did nothing for an unknown FORMAT

---
 wilson/wcxf/cli.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wilson/wcxf/cli.py b/wilson/wcxf/cli.py
index 30b1f0c..b4f1895 100755
--- a/wilson/wcxf/cli.py
+++ b/wilson/wcxf/cli.py
@@ -83,10 +83,13 @@ def wcxf_cli():
 
 def convert(args):
     from wilson.wcxf.converters.yamljson import convert_json, convert_yaml
+    # a return value of 1 indicates a parse error
     if args.FORMAT.lower() == 'json':
-        convert_json(args.FILE, args.output)
+        return 1 if convert_json(args.FILE, args.output) == 1 else 0
     if args.FORMAT.lower() == 'yaml':
-        convert_yaml(args.FILE, args.output)
+        return 1 if convert_yaml(args.FILE, args.output) == 1 else 0
+    logging.error("FORMAT should be 'json' or 'yaml'")
+    return 1
 
 
 def translate(args):
-- 
2.43.0


From 6807d087468c0ab61b617f97538de84e1bc78ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 30/34] fix: keep the sign of real coefficients in the SMEFTsim
 param card

The flavour-diagonal Higgs current coefficients and (in set A) ee_3333 are
real and have no phase entry in the card, but were written as absolute
values, so that negative values changed sign. Real coefficients given as
{Re, Im: 0} are written as real numbers as well.
---
 wilson/wcxf/converters/smeftsim.py | 89 +++++++++++++++---------------
 1 file changed, 45 insertions(+), 44 deletions(-)

diff --git a/wilson/wcxf/converters/smeftsim.py b/wilson/wcxf/converters/smeftsim.py
index e9de49e..cf34a68 100644
--- a/wilson/wcxf/converters/smeftsim.py
+++ b/wilson/wcxf/converters/smeftsim.py
@@ -96,7 +96,8 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
       """Return the coefficient scaled by the appropriate symmetry factor
       to account for the change from the flavor-non-redundant WCxf convention
       to the symmetrized SMEFTsim convention."""
-      return wc[key] / _symm_fac[key]
+      v = wc[key] / _symm_fac[key]
+      return v if v.imag else v.real
 
 
   if model_set == 'A':
@@ -748,48 +749,48 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
 	  [644, format(scaled_wc('phiBtilde') * lambda_smeft_value**2,'.6e'), '# cHBtil'],
 	  [645, format(scaled_wc('phiWB') * lambda_smeft_value**2,'.6e'), '# cHWB'],
 	  [646, format(scaled_wc('phiWtildeB') * lambda_smeft_value**2,'.6e'), '# cHWBtil'],
-	  [647, format(abs(scaled_wc('phil1_11')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
+	  [647, format(scaled_wc('phil1_11') * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
 	  [648, format(abs(scaled_wc('phil1_12')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs12'],
 	  [649, format(abs(scaled_wc('phil1_13')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs13'],
-	  [650, format(abs(scaled_wc('phil1_22')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
+	  [650, format(scaled_wc('phil1_22') * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
 	  [651, format(abs(scaled_wc('phil1_23')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs23'],
-	  [652, format(abs(scaled_wc('phil1_33')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
-	  [653, format(abs(scaled_wc('phil3_11')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
+	  [652, format(scaled_wc('phil1_33') * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
+	  [653, format(scaled_wc('phil3_11') * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
 	  [654, format(abs(scaled_wc('phil3_12')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs12'],
 	  [655, format(abs(scaled_wc('phil3_13')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs13'],
-	  [656, format(abs(scaled_wc('phil3_22')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
+	  [656, format(scaled_wc('phil3_22') * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
 	  [657, format(abs(scaled_wc('phil3_23')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs23'],
-	  [658, format(abs(scaled_wc('phil3_33')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
-	  [659, format(abs(scaled_wc('phiq1_11')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
+	  [658, format(scaled_wc('phil3_33') * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
+	  [659, format(scaled_wc('phiq1_11') * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
 	  [660, format(abs(scaled_wc('phiq1_12')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs12'],
 	  [661, format(abs(scaled_wc('phiq1_13')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs13'],
-	  [662, format(abs(scaled_wc('phiq1_22')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
+	  [662, format(scaled_wc('phiq1_22') * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
 	  [663, format(abs(scaled_wc('phiq1_23')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs23'],
-	  [664, format(abs(scaled_wc('phiq1_33')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
-	  [665, format(abs(scaled_wc('phiq3_11')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
+	  [664, format(scaled_wc('phiq1_33') * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
+	  [665, format(scaled_wc('phiq3_11') * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
 	  [666, format(abs(scaled_wc('phiq3_12')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs12'],
 	  [667, format(abs(scaled_wc('phiq3_13')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs13'],
-	  [668, format(abs(scaled_wc('phiq3_22')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
+	  [668, format(scaled_wc('phiq3_22') * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
 	  [669, format(abs(scaled_wc('phiq3_23')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs23'],
-	  [670, format(abs(scaled_wc('phiq3_33')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
-	  [671, format(abs(scaled_wc('phie_11')) * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
+	  [670, format(scaled_wc('phiq3_33') * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
+	  [671, format(scaled_wc('phie_11') * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
 	  [672, format(abs(scaled_wc('phie_12')) * lambda_smeft_value**2,'.6e'), '# cHeAbs12'],
 	  [673, format(abs(scaled_wc('phie_13')) * lambda_smeft_value**2,'.6e'), '# cHeAbs13'],
-	  [674, format(abs(scaled_wc('phie_22')) * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
+	  [674, format(scaled_wc('phie_22') * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
 	  [675, format(abs(scaled_wc('phie_23')) * lambda_smeft_value**2,'.6e'), '# cHeAbs23'],
-	  [676, format(abs(scaled_wc('phie_33')) * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
-	  [677, format(abs(scaled_wc('phiu_11')) * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
+	  [676, format(scaled_wc('phie_33') * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
+	  [677, format(scaled_wc('phiu_11') * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
 	  [678, format(abs(scaled_wc('phiu_12')) * lambda_smeft_value**2,'.6e'), '# cHuAbs12'],
 	  [679, format(abs(scaled_wc('phiu_13')) * lambda_smeft_value**2,'.6e'), '# cHuAbs13'],
-	  [680, format(abs(scaled_wc('phiu_22')) * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
+	  [680, format(scaled_wc('phiu_22') * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
 	  [681, format(abs(scaled_wc('phiu_23')) * lambda_smeft_value**2,'.6e'), '# cHuAbs23'],
-	  [682, format(abs(scaled_wc('phiu_33')) * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
-	  [683, format(abs(scaled_wc('phid_11')) * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
+	  [682, format(scaled_wc('phiu_33') * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
+	  [683, format(scaled_wc('phid_11') * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
 	  [684, format(abs(scaled_wc('phid_12')) * lambda_smeft_value**2,'.6e'), '# cHdAbs12'],
 	  [685, format(abs(scaled_wc('phid_13')) * lambda_smeft_value**2,'.6e'), '# cHdAbs13'],
-	  [686, format(abs(scaled_wc('phid_22')) * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
+	  [686, format(scaled_wc('phid_22') * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
 	  [687, format(abs(scaled_wc('phid_23')) * lambda_smeft_value**2,'.6e'), '# cHdAbs23'],
-	  [688, format(abs(scaled_wc('phid_33')) * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
+	  [688, format(scaled_wc('phid_33') * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
 	  [689, format(scaled_wc('ll_1111') * lambda_smeft_value**2,'.6e'), '# cllAbs1111'],
 	  [690, format(scaled_wc('ll_1122') * lambda_smeft_value**2,'.6e'), '# cllAbs1122'],
 	  [691, format(scaled_wc('ll_1221') * lambda_smeft_value**2,'.6e'), '# cllAbs1221'],
@@ -967,7 +968,7 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
           [863, format(scaled_wc('ee_2222') * lambda_smeft_value**2,'.6e'),      '# ceeAbs2222'],
           [864, format(scaled_wc('ee_2233') * lambda_smeft_value**2,'.6e'),      '# ceeAbs2233'],
           [865, format(abs(scaled_wc('ee_1112')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1112'],
-          [866, format(abs(scaled_wc('ee_3333')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'],
+          [866, format(scaled_wc('ee_3333') * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'],
           [867, format(abs(scaled_wc('ee_1123')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1123'],
           [868, format(abs(scaled_wc('ee_1113')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1113'],
           [869, format(abs(scaled_wc('ee_1213')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1213'],
@@ -2712,66 +2713,66 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
   elif model_set == 'B':
 
       card['Block']['FRBlock'] = {'values': [
-	[1, format(abs(scaled_wc('phil1_11')* lambda_smeft_value**2), '.6e') , '# cHl1Abs11'],
+	[1, format(scaled_wc('phil1_11')* lambda_smeft_value**2, '.6e') , '# cHl1Abs11'],
 	[2, format(abs(scaled_wc('phil1_12')* lambda_smeft_value**2), '.6e') , '# cHl1Abs12'],
 	[3, format(abs(scaled_wc('phil1_13')* lambda_smeft_value**2), '.6e') , '# cHl1Abs13'],
-	[4, format(abs(scaled_wc('phil1_22')* lambda_smeft_value**2), '.6e') , '# cHl1Abs22'],
+	[4, format(scaled_wc('phil1_22')* lambda_smeft_value**2, '.6e') , '# cHl1Abs22'],
 	[5, format(abs(scaled_wc('phil1_23')* lambda_smeft_value**2), '.6e') , '# cHl1Abs23'],
-	[6, format(abs(scaled_wc('phil1_33')* lambda_smeft_value**2), '.6e') , '# cHl1Abs33'],
+	[6, format(scaled_wc('phil1_33')* lambda_smeft_value**2, '.6e') , '# cHl1Abs33'],
 	[7, format(angle(scaled_wc('phil1_12')), '.6e') , '# cHl1Ph12'],
 	[8, format(angle(scaled_wc('phil1_13')), '.6e') , '# cHl1Ph13'],
 	[9, format(angle(scaled_wc('phil1_23')), '.6e') , '# cHl1Ph23'],
-	[10, format(abs(scaled_wc('phil3_11')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs11'],
+	[10, format(scaled_wc('phil3_11')* lambda_smeft_value**2, '.6e') ,'# cHL3Abs11'],
 	[11, format(abs(scaled_wc('phil3_12')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs12'],
 	[12, format(abs(scaled_wc('phil3_13')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs13'],
-	[13, format(abs(scaled_wc('phil3_22')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs22'],
+	[13, format(scaled_wc('phil3_22')* lambda_smeft_value**2, '.6e') ,'# cHL3Abs22'],
 	[14, format(abs(scaled_wc('phil3_23')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs23'],
-	[15, format(abs(scaled_wc('phil3_33')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs33'],
+	[15, format(scaled_wc('phil3_33')* lambda_smeft_value**2, '.6e') ,'# cHL3Abs33'],
 	[16, format(angle(scaled_wc('phil3_12')), '.6e') ,'# cHL3Ph12'],
 	[17, format(angle(scaled_wc('phil3_13')), '.6e') ,'# cHL3Ph13'],
 	[18, format(angle(scaled_wc('phil3_23')), '.6e') ,'# cHL3Ph23'],
-	[19, format(abs(scaled_wc('phiq1_11')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs11'],
+	[19, format(scaled_wc('phiq1_11')* lambda_smeft_value**2, '.6e') ,'# cHq1Abs11'],
 	[20, format(abs(scaled_wc('phiq1_12')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs12'],
 	[21, format(abs(scaled_wc('phiq1_13')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs13'],
-	[22, format(abs(scaled_wc('phiq1_22')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs22'],
+	[22, format(scaled_wc('phiq1_22')* lambda_smeft_value**2, '.6e') ,'# cHq1Abs22'],
 	[23, format(abs(scaled_wc('phiq1_23')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs23'],
-	[24, format(abs(scaled_wc('phiq1_33')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs33'],
+	[24, format(scaled_wc('phiq1_33')* lambda_smeft_value**2, '.6e') ,'# cHq1Abs33'],
 	[25, format(angle(scaled_wc('phiq1_12')), '.6e') ,'# cHq1Ph12'],
 	[26, format(angle(scaled_wc('phiq1_13')), '.6e') ,'# cHq1Ph13'],
 	[27, format(angle(scaled_wc('phiq1_23')), '.6e') ,'# cHq1Ph23'],
-	[28, format(abs(scaled_wc('phiq3_11')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs11'],
+	[28, format(scaled_wc('phiq3_11')* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs11'],
 	[29, format(abs(scaled_wc('phiq3_12')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs12'],
 	[30, format(abs(scaled_wc('phiq3_13')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs13'],
-	[31, format(abs(scaled_wc('phiq3_22')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs22'],
+	[31, format(scaled_wc('phiq3_22')* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs22'],
 	[32, format(abs(scaled_wc('phiq3_23')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs23'],
-	[33, format(abs(scaled_wc('phiq3_33')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs33'],
+	[33, format(scaled_wc('phiq3_33')* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs33'],
 	[34, format(angle(scaled_wc('phiq3_12')), '.6e') ,'# cHQ3Ph12'],
 	[35, format(angle(scaled_wc('phiq3_13')), '.6e') ,'# cHQ3Ph13'],
 	[36, format(angle(scaled_wc('phiq3_23')), '.6e') ,'# cHQ3Ph23'],
-	[37, format(abs(scaled_wc('phiu_11')* lambda_smeft_value**2), '.6e') ,'# cHuAbs11'],
+	[37, format(scaled_wc('phiu_11')* lambda_smeft_value**2, '.6e') ,'# cHuAbs11'],
 	[38, format(abs(scaled_wc('phiu_12')* lambda_smeft_value**2), '.6e') ,'# cHuAbs12'],
 	[39, format(abs(scaled_wc('phiu_13')* lambda_smeft_value**2), '.6e') ,'# cHuAbs13'],
-	[40, format(abs(scaled_wc('phiu_22')* lambda_smeft_value**2), '.6e') ,'# cHuAbs22'],
+	[40, format(scaled_wc('phiu_22')* lambda_smeft_value**2, '.6e') ,'# cHuAbs22'],
 	[41, format(abs(scaled_wc('phiu_23')* lambda_smeft_value**2), '.6e') ,'# cHuAbs23'],
-	[42, format(abs(scaled_wc('phiu_33')* lambda_smeft_value**2), '.6e') ,'# cHuAbs33'],
+	[42, format(scaled_wc('phiu_33')* lambda_smeft_value**2, '.6e') ,'# cHuAbs33'],
 	[43, format(angle(scaled_wc('phiu_12')), '.6e') ,'# cHuPh12'],
 	[44, format(angle(scaled_wc('phiu_13')), '.6e') ,'# cHuPh13'],
 	[45, format(angle(scaled_wc('phiu_23')), '.6e') ,'# cHuPh23'],
-	[46, format(abs(scaled_wc('phid_11')* lambda_smeft_value**2), '.6e') ,'# cHdAbs11'],
+	[46, format(scaled_wc('phid_11')* lambda_smeft_value**2, '.6e') ,'# cHdAbs11'],
 	[47, format(abs(scaled_wc('phid_12')* lambda_smeft_value**2), '.6e') ,'# cHdAbs12'],
 	[48, format(abs(scaled_wc('phid_13')* lambda_smeft_value**2), '.6e') ,'# cHdAbs13'],
-	[49, format(abs(scaled_wc('phid_22')* lambda_smeft_value**2), '.6e') ,'# cHdAbs22'],
+	[49, format(scaled_wc('phid_22')* lambda_smeft_value**2, '.6e') ,'# cHdAbs22'],
 	[50, format(abs(scaled_wc('phid_23')* lambda_smeft_value**2), '.6e') ,'# cHdAbs23'],
-	[51, format(abs(scaled_wc('phid_33')* lambda_smeft_value**2), '.6e') ,'# cHdAbs33'],
+	[51, format(scaled_wc('phid_33')* lambda_smeft_value**2, '.6e') ,'# cHdAbs33'],
 	[52, format(angle(scaled_wc('phid_12')), '.6e') ,'# cHdPh12'],
 	[53, format(angle(scaled_wc('phid_13')), '.6e') ,'# cHdPh13'],
 	[54, format(angle(scaled_wc('phid_23')), '.6e') ,'# cHdPh23'],
-	[55, format(abs(scaled_wc('phie_11')* lambda_smeft_value**2), '.6e') ,'# cHeAbs11'],
+	[55, format(scaled_wc('phie_11')* lambda_smeft_value**2, '.6e') ,'# cHeAbs11'],
 	[56, format(abs(scaled_wc('phie_12')* lambda_smeft_value**2), '.6e') ,'# cHeAbs12'],
 	[57, format(abs(scaled_wc('phie_13')* lambda_smeft_value**2), '.6e') ,'# cHeAbs13'],
-	[58, format(abs(scaled_wc('phie_22')* lambda_smeft_value**2), '.6e') ,'# cHeAbs22'],
+	[58, format(scaled_wc('phie_22')* lambda_smeft_value**2, '.6e') ,'# cHeAbs22'],
 	[59, format(abs(scaled_wc('phie_23')* lambda_smeft_value**2), '.6e') ,'# cHeAbs23'],
-	[60, format(abs(scaled_wc('phie_33')* lambda_smeft_value**2), '.6e') ,'# cHeAbs33'],
+	[60, format(scaled_wc('phie_33')* lambda_smeft_value**2, '.6e') ,'# cHeAbs33'],
 	[61, format(angle(scaled_wc('phie_12')), '.6e') ,'# cHePh12'],
 	[62, format(angle(scaled_wc('phie_13')), '.6e') ,'# cHePh13'],
 	[63, format(angle(scaled_wc('phie_23')), '.6e') ,'# cHePh23'],
-- 
2.43.0


From 0da237aa8d51db9d70bf15bfb95fa1df3bb1fc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 31/34] fix: keep SM parameters and zeros in the continuous
 SMEFT solution

RGsolution.plotdata documents SM parameters like 'g' as valid keys, but the
solution contained only non-vanishing Wilson coefficients, so that plotting an
SM parameter or a coefficient that is zero at some scale raised KeyError.
---
 wilson/run/smeft/rge.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wilson/run/smeft/rge.py b/wilson/run/smeft/rge.py
index ddc2738..5875c90 100644
--- a/wilson/run/smeft/rge.py
+++ b/wilson/run/smeft/rge.py
@@ -81,13 +81,17 @@ def smeft_evolve_continuous(C_in, scale_in, scale_out, newphys=True, **kwargs):
     scales."""
     sol = _smeft_evolve(C_in, scale_in, scale_out, newphys=newphys,
                         dense_output=True, **kwargs)
+    all_wcs = set(smeftutil.all_wcs)
     @np.vectorize
     def _rge_solution(scale):
         t = log(scale)
         y = sol.sol(t).view(complex)
         yd = smeftutil.C_array2dict(y)
-        yw = smeftutil.arrays2wcxf_nonred(yd)
-        return yw
+        yw = smeftutil.arrays2wcxf(smeftutil.unscale_dict(yd))
+        # keep all non-redundant Wilson coefficients, including those that
+        # vanish at this scale, and the SM parameters
+        return {k: v for k, v in yw.items()
+                if k in all_wcs or k.split('_')[0] in smeftutil.dim4_keys}
     def rge_solution(scale):
         # this is to return a scalar if the input is scalar
         return _rge_solution(scale)[()]
-- 
2.43.0


From 16b6396d96c83390b2a3431ca6dade9c410dc322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:31 +0000
Subject: [PATCH 32/34] fix: do not share the default parameters dictionary
 between Wilson objects

Editing the dictionary returned by get_option('parameters') changed the
class default and with it the parameters of all other objects.
---
 wilson/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 7a5d107..315002e 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -13,6 +13,7 @@ from wilson.run.wet import WETrunner
 from wilson import parameters
 import numpy as np
 from math import log, e
+from copy import deepcopy
 from wilson import wcxf
 import voluptuous as vol
 import warnings
@@ -38,7 +39,7 @@ class ConfigurableClass:
     _option_schema = vol.Schema({})
 
     def __init__(self):
-        self._options = self._default_options.copy()
+        self._options = deepcopy(self._default_options)
 
     @classmethod
     def set_default_option(cls, key, value):
-- 
2.43.0


From 2b07be8bcc108e8ea5660c6cb3a0cedc298a2f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:05 +0000
Subject: [PATCH 33/34] fix: results of the WET evolution can be stored as YAML
 and loaded again (names as plain str)

---
 wilson/wcxf/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/wcxf/classes.py b/wilson/wcxf/classes.py
index db63400..e959f1c 100644
--- a/wilson/wcxf/classes.py
+++ b/wilson/wcxf/classes.py
@@ -357,7 +357,7 @@ class WC(WCxf):
 
     @classmethod
     def dict2values(cls, d):
-        return {k: cls._to_complex_dict(v) for k, v in d.items()}
+        return {str(k): cls._to_complex_dict(v) for k, v in d.items()}
 
     def __getitem__(self, key):
         try:
-- 
2.43.0


From a859a35d7f7bb7575749b926cc765abcd7d87fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 34/34] fix: match_run at the input scale: a single sector
 given as a string, as in the test suite, gave an empty result

---
 wilson/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 315002e..7810bb5 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -238,7 +238,7 @@ class Wilson(ConfigurableClass):
             if sectors != 'all' and eft != 'SMEFT':
                 # translators are not obliged to limit themselves to these sectors
                 basis_sectors = wcxf.Basis[eft, basis].sectors
-                wcs = {k for s in sectors for k in basis_sectors.get(s, [])}
+                wcs = {k for s, v in basis_sectors.items() if s in sectors for k in v}
                 wc_out = wcxf.WC(eft=eft, basis=basis, scale=scale,
                                  values={k: v for k, v in wc_out.values.items() if k in wcs})
             self._set_cache(sectors, scale, eft, basis, wc_out)
-- 
2.43.0

