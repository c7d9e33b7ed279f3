From 521cec1ac6cfe1168f0f50cbe838f713ca80d7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 001/105] fix: cost sensitivities must follow the substituted
 cost's monomials

Substitution reorders and merges the cost's monomials, but the dual
solution was zipped with the unsubstituted order, so sensitivities to
variables and constants in the cost were attributed to the wrong terms.
---
 gpkit/constraints/gp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 06ed88b..c9daa5b 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -82,6 +82,8 @@ class GeometricProgram:
                 raise TypeError("substitution {%s: %s} has invalid value type"
                                 " %s." % (key, sub, type(sub)))
         cost_hmap = cost.hmap.sub(self.substitutions, cost.vks)
+        # maps cost_hmap's monomials (reordered and merged by .sub) to cost's
+        self.cost_pmap = cost_hmap.mmap(cost.hmap)
         if any(c <= 0 for c in cost_hmap.values()):
             raise InvalidPosynomial("a GP's cost must be Posynomial")
         hmapgen = ConstraintSet.as_hmapslt1(constraints, self.substitutions)
@@ -304,8 +306,11 @@ class GeometricProgram:
         result["variables"].update(result["constants"])
         result["sensitivities"] = {"constraints": {}}
         la, self.nu_by_posy = self._generate_nula(solver_out)
-        cost_senss = sum(nu_i*exp for (nu_i, exp) in zip(self.nu_by_posy[0],
-                                                         self.cost.hmap))
+        cost_exps = list(self.cost.hmap)
+        cost_senss = sum(fraction*nu_i*cost_exps[i]
+                         for nu_i, mmap in zip(self.nu_by_posy[0],
+                                               self.cost_pmap)
+                         for i, fraction in mmap.items())
         gpv_ss = cost_senss.copy()
         m_senss = defaultdict(float)
         for las, nus, c in zip(la[1:], self.nu_by_posy[1:], self.hmaps[1:]):
-- 
2.43.0


From 7bfc5c411439a69882614d231bd02d55e6920375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 002/105] fix: a linked variable in the cost no longer loses
 sensitivity

Carrying the cost's own sensitivities to the first constant overwrote the
total sensitivity that the remaining constants should have received.
---
 gpkit/constraints/gp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index c9daa5b..26aee40 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -330,6 +330,7 @@ class GeometricProgram:
         # carry linked sensitivities over to their constants
         for v in list(v for v in gpv_ss if v.gradients):
             dlogcost_dlogv = gpv_ss.pop(v)
+            in_cost = cost_senss.get(v)
             val = np.array(result["constants"][v])
             for c, dv_dc in v.gradients.items():
                 with warnings.catch_warnings():  # skip pesky divide-by-zeros
@@ -337,11 +338,10 @@ class GeometricProgram:
                     dlogv_dlogc = dv_dc * result["constants"][c]/val
                     before = gpv_ss.get(c, 0)
                     gpv_ss[c] = before + dlogcost_dlogv*dlogv_dlogc
-                if v in cost_senss:
-                    if c in self.cost.vks:
-                        dlogcost_dlogv = cost_senss.pop(v)
-                        before = cost_senss.get(c, 0)
-                        cost_senss[c] = before + dlogcost_dlogv*dlogv_dlogc
+                if in_cost is not None and c in self.cost.vks:
+                    cost_senss.pop(v, None)
+                    before = cost_senss.get(c, 0)
+                    cost_senss[c] = before + in_cost*dlogv_dlogc
         result["sensitivities"]["cost"] = cost_senss
         result["sensitivities"]["variables"] = KeyDict(gpv_ss)
         result["sensitivities"]["constants"] = \
-- 
2.43.0


From 3e4f9fffa2095f72d6948febaece171a21dff106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 003/105] fix: keep tracking merged monomials through further
 substitutions

A monomial merged with another part-way through a substitution was only
updated for the next variable substituted, so later ones left it out of
the sensitivity map.
---
 gpkit/nomials/map.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 5c05a6a..1a7a668 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -189,3 +189,4 @@ def subinplace(cp, exp, o_exp, vk, cval, squished):
     elif exp in squished:
         exp.hashvalue ^= hash((vk, x))  # remove (key, value) from hashvalue
         del exp[vk]
+        squished.add(exp.copy())  # it may have more substitutions to come
-- 
2.43.0


From 1df2bcf39f9c274c09efba56a6f064762ef54401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 004/105] fix: deleting one element of a KeyDict vector no
 longer writes through

__delitem__ set the element to nan in an array other KeyDicts may share,
so Model.debug() and ConstantsRelaxed erased the vector constants of the
model they were given.
---
 gpkit/keydict.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index bc86f5d..49d81c6 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -261,6 +261,7 @@ class KeyDict(KeyMap, dict):
             if idx is None:
                 super().__delitem__(key)
             else:
+                self._copyonwrite(veckey)
                 super().__getitem__(veckey)[idx] = np.nan
                 if isnan(super().__getitem__(veckey)).all():
                     super().__delitem__(veckey)
-- 
2.43.0


From 23673ed4a8f8d8a63624343e15b57475800f25e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 005/105] fix: options given to one solve no longer leak into
 later ones

Keyword arguments were merged into the module's table of default solver
options, so they applied to every later solve in the process.
---
 gpkit/constraints/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 26aee40..fb1392e 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -191,7 +191,7 @@ class GeometricProgram:
             print(" for %i free variables" % len(self.varlocs))
             print("  in %i posynomial inequalities." % len(self.k))
 
-        solverargs = DEFAULT_SOLVER_KWARGS.get(solvername, {})
+        solverargs = DEFAULT_SOLVER_KWARGS.get(solvername, {}).copy()
         solverargs.update(kwargs)
         starttime = time()
         solver_out, infeasibility, original_stdout = {}, None, sys.stdout
-- 
2.43.0


From 004392cfe606ab55796955834ceeb6e6bcad9f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 006/105] fix: verbose solves survive a clock that did not
 advance

A solve time of zero, as a coarse clock gives for a fast solve, raised
ZeroDivisionError while reporting the timing of a successful solve.
---
 gpkit/constraints/gp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index fb1392e..5ea1cfc 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -251,7 +251,8 @@ class GeometricProgram:
     def generate_result(self, solver_out, *, verbosity=0, dual_check=True):
         "Generates a full SolutionArray and checks it."
         if verbosity > 0:
-            soltime = solver_out["soltime"]
+            # a coarse clock may not have moved during a fast solve
+            soltime = solver_out["soltime"] or np.nan
             tic = time()
         # result packing #
         result = self._compile_result(solver_out)  # NOTE: SIDE EFFECTS
-- 
2.43.0


From 510c2171d8a66994a292c7985c0921aa077dec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 007/105] fix: keep compile-time sensitivity data with each
 program, not on the constraint

---
 gpkit/constraints/gp.py |  5 ++-
 gpkit/nomials/map.py    |  3 ++
 gpkit/nomials/math.py   | 88 ++++++++++++++++++++---------------------
 3 files changed, 49 insertions(+), 47 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 5ea1cfc..675d110 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -314,10 +314,11 @@ class GeometricProgram:
                          for i, fraction in mmap.items())
         gpv_ss = cost_senss.copy()
         m_senss = defaultdict(float)
-        for las, nus, c in zip(la[1:], self.nu_by_posy[1:], self.hmaps[1:]):
+        for las, nus, hmap in zip(la[1:], self.nu_by_posy[1:], self.hmaps[1:]):
+            c = hmap
             while getattr(c, "parent", None) is not None:
                 c = c.parent
-            v_ss, c_senss = c.sens_from_dual(las, nus, result)
+            v_ss, c_senss = c.sens_from_dual(las, nus, result, hmap)
             for vk, x in v_ss.items():
                 gpv_ss[vk] = x + gpv_ss.get(vk, 0)
             while getattr(c, "generated_by", None):
diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 1a7a668..3a216e2 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -21,6 +21,9 @@ class NomialMap(HashVector):
     units = None
     expmap = None  # used for monomial-mapping postsubstitution; see .mmap()
     csmap = None   # used for monomial-mapping postsubstitution; see .mmap()
+    # set by constraints' .as_hmapslt1 and used in their .sens_from_dual; kept
+    # here because a constraint can be in several GeometricPrograms at once
+    pmap = const_mmap = const_coeff = signomial = None
 
     def copy(self):
         "Return a copy of this"
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index d9142b1..2623456 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -423,10 +423,6 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
         if EMPTY_HV not in hmap:
             return hmap
         coeff = 1 - hmap[EMPTY_HV]
-        if pmap is not None:  # note constant term's mmap
-            const_idx = list(hmap.keys()).index(EMPTY_HV)
-            self.const_mmap = self.pmap.pop(const_idx)  # pylint: disable=attribute-defined-outside-init
-            self.const_coeff = coeff  # pylint: disable=attribute-defined-outside-init
         if coeff >= -self.feastol and len(hmap) == 1:
             return None   # a tautological monomial!
         if coeff < -self.feastol:
@@ -436,6 +432,10 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
             raise PrimalInfeasible(msg)
         scaled = hmap/coeff
         scaled.units = hmap.units
+        if pmap is not None:  # note constant term's mmap
+            const_idx = list(hmap.keys()).index(EMPTY_HV)
+            scaled.const_mmap = pmap.pop(const_idx)
+            scaled.const_coeff = coeff
         del scaled[EMPTY_HV]
         return scaled
 
@@ -469,38 +469,34 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
         for posy in self.unsubbed:
             fixed, _, _ = parse_subs(posy.vks, substitutions, clean=True)
             hmap = posy.hmap.sub(fixed, posy.vks, parsedsubs=True)
-            self.pmap = hmap.mmap(posy.hmap)  # pylint: disable=attribute-defined-outside-init
+            pmap = hmap.mmap(posy.hmap)
             del hmap.expmap, hmap.csmap  # needed only for the mmap call above
-            hmap = self._simplify_posy_ineq(hmap, self.pmap, fixed)
+            hmap = self._simplify_posy_ineq(hmap, pmap, fixed)
             if hmap is not None:
                 if any(c <= 0 for c in hmap.values()):
                     raise InvalidGPConstraint("'%s' became Signomial after sub"
                                               "stituting %s" % (self, fixed))
-                hmap.parent = self
+                hmap.parent, hmap.pmap = self, pmap
                 out.append(hmap)
         return out
 
-    def sens_from_dual(self, la, nu, _):
+    def sens_from_dual(self, la, nu, _, hmap):
         "Returns the variable/constraint sensitivities from lambda/nu"
         presub, = self.unsubbed
-        if hasattr(self, "pmap"):
-            nu_ = np.zeros(len(presub.hmap))
-            for i, mmap in enumerate(self.pmap):
-                for idx, percentage in mmap.items():
-                    nu_[idx] += percentage*nu[i]
-            del self.pmap  # not needed after dual has been derived
-            if hasattr(self, "const_mmap"):
-                scale = (1-self.const_coeff)/self.const_coeff
-                for idx, percentage in self.const_mmap.items():
-                    nu_[idx] += percentage * la*scale
-                del self.const_mmap  # not needed after dual has been derived
-            nu = nu_
+        nu_ = np.zeros(len(presub.hmap))
+        for i, mmap in enumerate(hmap.pmap):
+            for idx, percentage in mmap.items():
+                nu_[idx] += percentage*nu[i]
+        if hmap.const_mmap is not None:
+            scale = (1-hmap.const_coeff)/hmap.const_coeff
+            for idx, percentage in hmap.const_mmap.items():
+                nu_[idx] += percentage * la*scale
         self.v_ss = HashVector()
         if self.parent:
             self.parent.v_ss = self.v_ss
         if self.generated_by:
             self.generated_by.v_ss = self.v_ss
-        for nu_i, exp in zip(nu, presub.hmap):
+        for nu_i, exp in zip(nu_, presub.hmap):
             for vk, x in exp.items():
                 self.v_ss[vk] = nu_i*x + self.v_ss.get(vk, 0)
         return self.v_ss, la
@@ -538,8 +534,9 @@ class MonomialEquality(PosynomialInequality):
     def as_hmapslt1(self, substitutions):
         "Tags posynomials for dual feasibility checking"
         out = super().as_hmapslt1(substitutions)
-        for h in out:
+        for i, h in enumerate(out):
             h.from_meq = True  # pylint: disable=attribute-defined-outside-init
+            h.meq_idx = i  # pylint: disable=attribute-defined-outside-init
         return out
 
     def __bool__(self):
@@ -547,8 +544,10 @@ class MonomialEquality(PosynomialInequality):
         return bool(self.left.c == self.right.c
                     and self.left.exp == self.right.exp)
 
-    def sens_from_dual(self, la, nu, _):
+    def sens_from_dual(self, la, nu, _, hmap):
         "Returns the variable/constraint sensitivities from lambda/nu"
+        if hmap.meq_idx == 0:  # an interrupted solve may have left its la here
+            self._las = []
         self._las.append(la)
         if len(self._las) == 1:
             return {}, 0
@@ -607,18 +606,19 @@ class SignomialInequality(ScalarSingleEquationConstraint):
                 negy_hmap[o_exp] = -siglt0_us.hmap[o_exp]
             else:
                 posy_hmaps[exp-negy.exp][o_exp] = siglt0_us.hmap[o_exp]
-        # pylint: disable=attribute-defined-outside-init
-        self._mons = [Monomial(NomialMap({k: v}))
-                      for k, v in (posy/negy).hmap.items()]
-        self._negysig = Signomial(negy_hmap, require_positive=False)
-        self._coeffsigs = {exp: Signomial(hmap, require_positive=False)
-                           for exp, hmap in posy_hmaps.items()}
-        self._sigvars = {exp: (list(self._negysig.vks)
-                               + list(sig.vks))
-                         for exp, sig in self._coeffsigs.items()}
-        return p_ineq.as_hmapslt1(substitutions)
-
-    def sens_from_dual(self, la, nu, result):
+        mons = [Monomial(NomialMap({k: v}))
+                for k, v in (posy/negy).hmap.items()]
+        negysig = Signomial(negy_hmap, require_positive=False)
+        coeffsigs = {exp: Signomial(hmap, require_positive=False)
+                     for exp, hmap in posy_hmaps.items()}
+        sigvars = {exp: list(negysig.vks) + list(sig.vks)
+                   for exp, sig in coeffsigs.items()}
+        out = p_ineq.as_hmapslt1(substitutions)
+        for hmap in out:
+            hmap.signomial = mons, negysig, coeffsigs, sigvars
+        return out
+
+    def sens_from_dual(self, la, nu, result, hmap):
         """ We want to do the following chain:
                dlog(Obj)/dlog(monomial[i])    = nu[i]
                * dlog(monomial)/d(monomial)   = 1/(monomial value)
@@ -632,25 +632,23 @@ class SignomialInequality(ScalarSingleEquationConstraint):
                = d(coeff)/d(var)*1/negy - d(negy)/d(var)*coeff*1/negy**2
         """
         # pylint: disable=too-many-locals, attribute-defined-outside-init
-
-        # pylint: disable=no-member
         def subval(posy):
             "Substitute solution into a posynomial and return the result"
-            hmap = posy.sub(result["variables"],
-                            require_positive=False).hmap
-            (key, value), = hmap.items()
+            subbed = posy.sub(result["variables"], require_positive=False)
+            (key, value), = subbed.hmap.items()
             assert not key  # constant
             return value
 
         self.v_ss = {}
-        invnegy_val = 1/subval(self._negysig)
+        mons, negysig, coeffsigs, sigvars = hmap.signomial
+        invnegy_val = 1/subval(negysig)
         for i, nu_i in enumerate(nu):
-            mon = self._mons[i]
+            mon = mons[i]
             inv_mon_val = 1/subval(mon)
-            coeff = self._coeffsigs[mon.exp]
-            for var in self._sigvars[mon.exp]:
+            coeff = coeffsigs[mon.exp]
+            for var in sigvars[mon.exp]:
                 d_mon_d_var = (subval(coeff.diff(var))*invnegy_val
-                               - (subval(self._negysig.diff(var))
+                               - (subval(negysig.diff(var))
                                   * subval(coeff) * invnegy_val**2))
                 var_val = result["variables"][var]
                 sens = (nu_i*inv_mon_val*d_mon_d_var*var_val)
-- 
2.43.0


From 344823c3f62594568281424d48662f5b64f5379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 008/105] fix: KeyDicts made from each other no longer share
 writable arrays

---
 gpkit/keydict.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 49d81c6..0b0a252 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -149,6 +149,7 @@ class KeyDict(KeyMap, dict):
         "Iterates through the dictionary created by args and kwargs"
         if not self and len(args) == 1 and isinstance(args[0], KeyDict):
             super().update(args[0])
+            args[0].owned = set()  # arrays are now shared, copy before writing
             self.keymap.update(args[0].keymap)
             self._unmapped_keys.update(args[0]._unmapped_keys)  # pylint:disable=protected-access
         else:
@@ -243,6 +244,8 @@ class KeyDict(KeyMap, dict):
                     value = np.full(key.shape, value, "f")
                 elif not isinstance(value[0], np.ndarray):
                     value = np.array([clean_value(key, v) for v in value])
+            if isinstance(value, np.ndarray):
+                value = value.copy()  # it may be written to by others
         super().__setitem__(key, value)
         self.owned.add(key)
 
-- 
2.43.0


From b0b80e93b4e922bdaf0d5f7d077955736020a2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 009/105] fix: sweeps no longer share one constants dictionary
 among their programs

---
 gpkit/constraints/prog_factories.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 3468b0c..56a92cf 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -136,11 +136,13 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
     self.program = []
     last_error = None
     for i in range(N_passes):
-        constants.update({var: sweep_vect[i]
-                          for (var, sweep_vect) in sweep_vects.items()})
+        # each program keeps its own constants
+        point = dict(constants)
+        point.update({var: sweep_vect[i]
+                      for (var, sweep_vect) in sweep_vects.items()})
         if linked:
-            evaluate_linked(constants, linked)
-        program, solvefn = genfunction(self, constants)
+            evaluate_linked(point, linked)
+        program, solvefn = genfunction(self, point)
         self.program.append(program)  # NOTE: SIDE EFFECTS
         try:
             result = solvefn(solver, verbosity=verbosity-1, **solveargs)
-- 
2.43.0


From 840575843081f71e5f39e9b789de87d4c51d2688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 010/105] fix: programs keep the linked gradients they were
 generated with

---
 gpkit/constraints/gp.py             |  8 ++++++--
 gpkit/constraints/prog_factories.py | 10 ++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 675d110..cd155e8 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -81,6 +81,10 @@ class GeometricProgram:
             if not isinstance(sub, (Numbers, np.ndarray)):
                 raise TypeError("substitution {%s: %s} has invalid value type"
                                 " %s." % (key, sub, type(sub)))
+        # keys' gradients change whenever another program is generated
+        self.gradients = {key.key: key.key.gradients
+                          for key in self.substitutions
+                          if hasattr(key, "key") and key.key.gradients}
         cost_hmap = cost.hmap.sub(self.substitutions, cost.vks)
         # maps cost_hmap's monomials (reordered and merged by .sub) to cost's
         self.cost_pmap = cost_hmap.mmap(cost.hmap)
@@ -330,11 +334,11 @@ class GeometricProgram:
             m_senss[lineagestr(vk)] += abs(senss)
         result["sensitivities"]["models"] = dict(m_senss)
         # carry linked sensitivities over to their constants
-        for v in list(v for v in gpv_ss if v.gradients):
+        for v in list(v for v in gpv_ss if v in self.gradients):
             dlogcost_dlogv = gpv_ss.pop(v)
             in_cost = cost_senss.get(v)
             val = np.array(result["constants"][v])
-            for c, dv_dc in v.gradients.items():
+            for c, dv_dc in self.gradients[v].items():
                 with warnings.catch_warnings():  # skip pesky divide-by-zeros
                     warnings.simplefilter("ignore")
                     dlogv_dlogc = dv_dc * result["constants"][c]/val
diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 56a92cf..743a5d0 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -11,6 +11,10 @@ from ..exceptions import Infeasible
 
 def evaluate_linked(constants, linked):
     "Evaluates the values and gradients of linked variables."
+    for v in constants:  # some may have been linked in an earlier solve
+        v.descr.pop("gradients", None)
+    if not linked:
+        return
     kdc = KeyDict({k: adnumber(maybe_flatten(v), k)
                    for k, v in constants.items()})
     kdc_plain = None
@@ -56,8 +60,7 @@ def progify(program, return_attr=None):
         "Return program version of self"
         if not constants:
             constants, _, linked = parse_subs(self.varkeys, self.substitutions)
-            if linked:
-                evaluate_linked(constants, linked)
+            evaluate_linked(constants, linked)
         prog = program(self.cost, self, constants, **initargs)
         prog.model = self  # NOTE SIDE EFFECTS
         if return_attr:
@@ -140,8 +143,7 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
         point = dict(constants)
         point.update({var: sweep_vect[i]
                       for (var, sweep_vect) in sweep_vects.items()})
-        if linked:
-            evaluate_linked(point, linked)
+        evaluate_linked(point, linked)
         program, solvefn = genfunction(self, point)
         self.program.append(program)  # NOTE: SIDE EFFECTS
         try:
-- 
2.43.0


From 2d80d20c03cf7aefc0a0f6b92db7e36ec8c1f3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 011/105] fix: an array can replace a sweep over that array in
 a KeyDict

---
 gpkit/keydict.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 0b0a252..c38f698 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -228,8 +228,8 @@ class KeyDict(KeyMap, dict):
             if getattr(value, "shape", None):   # is the value an array?
                 if value.dtype == INT_DTYPE:
                     value = np.array(value, "f")  # convert to float
-                if dict.__contains__(self, key):
-                    old = super().__getitem__(key)
+                old = dict.get(self, key)
+                if hasattr(old, "dtype"):  # and not e.g. a sweep of the array
                     if old.dtype != value.dtype:
                         # e.g. replacing a number with a linked function
                         newly_typed_array = np.array(old, dtype=value.dtype)
-- 
2.43.0


From ed0c80b3726b687988da4c5b3b99afa3fc5b9bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 012/105] fix: sweeps and autosweeps restore the model's
 substitutions when they fail

---
 gpkit/constraints/model.py |  9 +++++----
 gpkit/tools/autosweep.py   | 30 ++++++++++++++++--------------
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 06e5240..fc2138a 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -143,10 +143,11 @@ class Model(CostedConstraintSet):
                 sols.append(self.solve(**solveargs))
             except InvalidGPConstraint:
                 sols.append(self.localsolve(**solveargs))
-            if original_val:
-                self.substitutions[sweepvar] = original_val
-            else:
-                del self.substitutions[sweepvar]
+            finally:  # whatever happened, leave the model as it was
+                if original_val is not None:
+                    self.substitutions[sweepvar] = original_val
+                else:
+                    del self.substitutions[sweepvar]
         return sols if len(sols) > 1 else sols[0]
 
     def autosweep(self, sweeps, tol=0.01, samplepoints=100, **solveargs):
diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index 5a262a9..828cd74 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -231,24 +231,26 @@ def autosweep_1d(model, logtol, sweepvar, bounds, **solvekwargs):
     solvekwargs["verbosity"] -= 1
     sols = Count().next
     firstsols = []
-    for bound in bounds:
-        model.substitutions.update({sweepvar: bound})
-        try:
-            model.solve(**solvekwargs)
-            firstsols.append(model.program.result)
-        except InvalidGPConstraint:
-            raise InvalidGPConstraint("only GPs can be autoswept.")
-        sols()
-    bst = BinarySweepTree(bounds, firstsols, sweepvar, model.cost)
-    tol = recurse_splits(model, bst, sweepvar, logtol, solvekwargs, sols)
+    try:
+        for bound in bounds:
+            model.substitutions.update({sweepvar: bound})
+            try:
+                model.solve(**solvekwargs)
+                firstsols.append(model.program.result)
+            except InvalidGPConstraint:
+                raise InvalidGPConstraint("only GPs can be autoswept.")
+            sols()
+        bst = BinarySweepTree(bounds, firstsols, sweepvar, model.cost)
+        tol = recurse_splits(model, bst, sweepvar, logtol, solvekwargs, sols)
+    finally:  # whatever happened, leave the model as it was
+        if original_val is not None:
+            model.substitutions[sweepvar] = original_val
+        else:
+            del model.substitutions[sweepvar]
     bst.nsols = sols()  # pylint: disable=attribute-defined-outside-init
     if solvekwargs["verbosity"] > -1:
         print("Solved in %2i passes, cost logtol +/-%.3g" % (bst.nsols, tol))
         print("Autosweeping took %.3g seconds." % (time() - start_time))
-    if original_val:
-        model.substitutions[sweepvar] = original_val
-    else:
-        del model.substitutions[sweepvar]
     return bst
 
 
-- 
2.43.0


From fe848d080aac4336f74f82ab42aa92fc7e8d23d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 013/105] fix: debug models that have no constants to relax

---
 gpkit/constraints/model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index fc2138a..59fad99 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -174,12 +174,13 @@ class Model(CostedConstraintSet):
         solveargs["verbosity"] = verbosity - 1
         solveargs["process_result"] = False
 
-        bounded = Bounded(self)
+        bounded, tants = Bounded(self), None
         if self.substitutions:
             tants = ConstantsRelaxed(bounded)
+        if tants is not None and tants.relaxvars.size:
             feas = Model(tants.relaxvars.prod()**30 * self.cost, tants)
-        else:
-            feas = Model(self.cost, bounded)
+        else:  # no constants which could be relaxed
+            tants, feas = None, Model(self.cost, bounded)
 
         try:
             try:
@@ -188,7 +189,8 @@ class Model(CostedConstraintSet):
                 sol = feas.sp(use_pccp=False).localsolve(**solveargs)
             # limited results processing
             bounded.check_boundaries(sol)
-            tants.check_relaxed(sol)
+            if tants is not None:
+                tants.check_relaxed(sol)
         except Infeasible:
             if verbosity:
                 print("<DEBUG> Model is not feasible with relaxed constants"
-- 
2.43.0


From 38820df224cd14acc821880c4d9c62640544675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 014/105] fix: failed solves of swept or modelless programs
 raise instead of being debugged

---
 gpkit/constraints/gp.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index cd155e8..0697630 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -227,13 +227,17 @@ class GeometricProgram:
             elif isinstance(infeasibility, DualInfeasible):
                 msg = ("The model ran to an infinitely low cost;"
                        " bounding the right variables would prevent this.")
-            elif isinstance(infeasibility, UnknownInfeasible):
+            else:
                 msg = "The solver failed for an unknown reason."
+            programs = getattr(self.model, "program", None)
+            swept = isinstance(programs, list) and self in programs
             if (verbosity > 0 and solver_out["soltime"] < 1
-                    and hasattr(self, "model")):  # fast, top-level model
+                    and self.model is not None and not swept):  # fast, top-level model
                 print(msg + "\nSince the model solved in less than a second,"
                       " let's run `.debug()` to analyze what happened.\n`")
-                return self.model.debug(solver=solver)
+                debugsol = self.model.debug(solver=solver)
+                if debugsol:
+                    return debugsol
             # else, raise a clarifying error
             msg += (" Running `.debug()` may pinpoint the trouble. You can"
                     " also try another solver, or increase the verbosity.")
-- 
2.43.0


From 02d334201901907f6e88fa9ccf341695555a090a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 015/105] fix: solvers may flush or replace stdout while it is
 being logged

---
 gpkit/constraints/gp.py | 5 +++--
 gpkit/small_classes.py  | 5 +++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 0697630..2d3a3ac 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -199,8 +199,9 @@ class GeometricProgram:
         solverargs.update(kwargs)
         starttime = time()
         solver_out, infeasibility, original_stdout = {}, None, sys.stdout
+        solver_log = SolverLog(original_stdout, verbosity=verbosity-2)
         try:
-            sys.stdout = SolverLog(original_stdout, verbosity=verbosity-2)
+            sys.stdout = solver_log
             solver_out = solverfn(c=self.cs, A=self.A, meq_idxs=self.meq_idxs,
                                   k=self.k, p_idxs=self.p_idxs, **solverargs)
         except Infeasible as e:
@@ -211,8 +212,8 @@ class GeometricProgram:
         except Exception as e:
             raise UnknownInfeasible("Something unexpected went wrong.") from e
         finally:
-            self.solve_log = "\n".join(sys.stdout)
             sys.stdout = original_stdout
+            self.solve_log = "\n".join(solver_log)
             self.solver_out = solver_out
 
         solver_out["solver"] = solvername
diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index b66d714..4e7bf1f 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -80,6 +80,11 @@ class SolverLog(list):
         if self.verbosity > 0:  # pragma: no cover
             self.output.write(writ)
 
+    def flush(self):
+        "Some solvers flush what they print."
+        if self.verbosity > 0:  # pragma: no cover
+            self.output.flush()
+
 
 class DictOfLists(dict):
     "A hierarchy of dicionaries, with lists at the bottom."
-- 
2.43.0


From 94aab8c856dbc79a4625892049894e9e80925f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 016/105] fix: relax the constraints of models that contain
 other models

---
 gpkit/constraints/relax.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index 5014723..03f587e 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -82,13 +82,15 @@ class ConstraintsRelaxed(ConstraintSet):
             original_constraints = ConstraintSet(original_constraints)
         self.original_constraints = original_constraints
         original_substitutions = original_constraints.substitutions
+        # constraints may be nested, each one within gets its own relaxvar
+        self.flat_constraints = list(original_constraints.flat())
         with NamedVariables("Relax"):
-            self.relaxvars = VectorVariable(len(original_constraints), "C")
+            self.relaxvars = VectorVariable(len(self.flat_constraints), "C")
 
         with SignomialsEnabled():
             relaxed_constraints = [
                 c.relaxed(self.relaxvars[i])
-                for i, c in enumerate(original_constraints.flat())]
+                for i, c in enumerate(self.flat_constraints)]
 
         ConstraintSet.__init__(self, {
             "minimum relaxation": self.relaxvars >= 1,
@@ -105,7 +107,7 @@ class ConstraintsRelaxed(ConstraintSet):
                               range(len(self["relaxed constraints"])))
         for relaxval, i in relaxed:
             relax_percent = "%i%%" % (0.5+(relaxval-1)*100)
-            oldconstraint = self.original_constraints[i]
+            oldconstraint = self.flat_constraints[i]
             newconstraint = self["relaxed constraints"][i][0]
             subs = {self.relaxvars[i]: relaxval}
             relaxdleft = newconstraint.left.sub(subs)
-- 
2.43.0


From 10a1a826678bad3a9686f1fe6e3505a8a3c1fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 017/105] fix: autosweeps report points that fail verbosely as
 infeasible

---
 gpkit/tools/autosweep.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index 828cd74..6040a38 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -4,7 +4,7 @@ import numpy as np
 from ..small_classes import Count
 from ..small_scripts import mag
 from ..solution_array import SolutionArray
-from ..exceptions import InvalidGPConstraint
+from ..exceptions import InvalidGPConstraint, Infeasible
 
 
 class BinarySweepTree:  # pylint: disable=too-many-instance-attributes
@@ -235,8 +235,7 @@ def autosweep_1d(model, logtol, sweepvar, bounds, **solvekwargs):
         for bound in bounds:
             model.substitutions.update({sweepvar: bound})
             try:
-                model.solve(**solvekwargs)
-                firstsols.append(model.program.result)
+                firstsols.append(solve_point(model, solvekwargs))
             except InvalidGPConstraint:
                 raise InvalidGPConstraint("only GPs can be autoswept.")
             sols()
@@ -254,14 +253,22 @@ def autosweep_1d(model, logtol, sweepvar, bounds, **solvekwargs):
     return bst
 
 
+def solve_point(model, solvekwargs):
+    "Solves a model and returns the result of its program"
+    model.solve(**solvekwargs)
+    if "objective" not in model.program.solver_out:
+        # a verbose solve returned `.debug()`'s solution to a relaxed model
+        raise Infeasible("An autoswept model failed to solve.")
+    return model.program.result
+
+
 def recurse_splits(model, bst, variable, logtol, solvekwargs, sols):
     "Recursively splits a BST until logtol is reached"
     x, lb, ub = get_tol(bst.costs, bst.bounds, bst.sols, variable)
     tol = (ub-lb)/2.0
     if tol >= logtol:
         model.substitutions.update({variable: x})
-        model.solve(**solvekwargs)
-        bst.add_split(x, model.program.result)
+        bst.add_split(x, solve_point(model, solvekwargs))
         sols()
         tols = [recurse_splits(model, split, variable, logtol, solvekwargs,
                                sols)
-- 
2.43.0


From 475e333fc8f041ef4d1ca0a92b917d5a22f229ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 018/105] fix: leaving a nested SignomialsEnabled keeps the
 outer one enabled

---
 gpkit/globals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gpkit/globals.py b/gpkit/globals.py
index 62b5bff..dac9c3f 100644
--- a/gpkit/globals.py
+++ b/gpkit/globals.py
@@ -50,7 +50,7 @@ settings = load_settings()
 
 class SignomialsEnabledMeta(type):
     "Metaclass to implement falsiness for SignomialsEnabled"
-    def __bool__(cls): return cls._true  # pylint: disable=multiple-statements
+    def __bool__(cls): return cls._depth > 0  # pylint: disable=multiple-statements
 
 class SignomialsEnabled(metaclass=SignomialsEnabledMeta):  # pylint: disable=no-init
     """Class to put up and tear down signomial support in an instance of GPkit.
@@ -64,10 +64,10 @@ class SignomialsEnabled(metaclass=SignomialsEnabledMeta):  # pylint: disable=no-
         >>>     constraints = [x >= 1-y]
         >>> gpkit.Model(x, constraints).localsolve()
     """
-    _true = False  # default signomial permissions
+    _depth = 0  # nesting of environments; by default, signomials are disabled
     # pylint: disable=multiple-statements
-    def __enter__(self): SignomialsEnabled._true = True
-    def __exit__(self, type_, val, traceback): SignomialsEnabled._true = False
+    def __enter__(self): SignomialsEnabled._depth += 1
+    def __exit__(self, type_, val, traceback): SignomialsEnabled._depth -= 1
 
 
 class Vectorize:
-- 
2.43.0


From 8653a370a9c7112ed21fa3eab9393ca621e5e9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 019/105] fix: printing that fails no longer changes how
 variables are named

---
 gpkit/constraints/set.py  | 18 ++++++++----------
 gpkit/repr_conventions.py | 14 ++++++++++++++
 gpkit/solution_array.py   | 39 +++++++++++++++++++--------------------
 3 files changed, 41 insertions(+), 30 deletions(-)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index 830d97b..769add5 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -5,7 +5,7 @@ from itertools import chain
 import numpy as np
 from ..keydict import KeySet, KeyDict
 from ..small_scripts import try_str_without
-from ..repr_conventions import ReprMixin
+from ..repr_conventions import ReprMixin, necessary_lineage
 from .single_equation import SingleEquationConstraint
 
 
@@ -213,19 +213,17 @@ class ConstraintSet(list, ReprMixin):
         "Lines representation of a ConstraintSet."
         excluded = frozenset(excluded)
         root, rootlines = "root" not in excluded, []
+        indent = " " if getattr(self, "lineage", None) else ""
+        collisions = ()
         if root:
             excluded = excluded.union(["root"])
             if "unnecessary lineage" in excluded:
-                for key in self.name_collision_varkeys():
-                    key.descr["necessarylineage"] = True
-            if hasattr(self, "_rootlines"):
+                collisions = self.name_collision_varkeys()
+                indent += " "
+        with necessary_lineage(collisions):
+            if root and hasattr(self, "_rootlines"):
                 rootlines = self._rootlines(excluded)  # pylint: disable=no-member
-        lines = recursively_line(self, excluded)
-        indent = " " if getattr(self, "lineage", None) else ""
-        if root and "unnecessary lineage" in excluded:
-            indent += " "
-            for key in self.name_collision_varkeys():
-                del key.descr["necessarylineage"]
+            lines = recursively_line(self, excluded)
         return rootlines + [(indent+line).rstrip() for line in lines]
 
     def str_without(self, excluded=("unnecessary lineage", "units")):
diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 1f07615..2a43fcd 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -1,6 +1,7 @@
 "Repository for representation standards"
 import sys
 import re
+from contextlib import contextmanager
 import numpy as np
 from .small_classes import Quantity, Numbers
 from .small_scripts import try_str_without
@@ -26,6 +27,19 @@ def lineagestr(lineage, modelnums=True):
                      for name, num in lineage]) if lineage else ""
 
 
+@contextmanager
+def necessary_lineage(keys):
+    "Within this context these keys show their lineage even if unnecessary."
+    keys = [key for key in keys if not key.necessarylineage]
+    try:
+        for key in keys:
+            key.descr["necessarylineage"] = True
+        yield
+    finally:
+        for key in keys:
+            key.descr.pop("necessarylineage", None)
+
+
 def unitstr(units, into="%s", options=UNIT_FORMATTING, dimless=""):
     "Returns the string corresponding to an object's units."
     if hasattr(units, "units") and isinstance(units.units, Quantity):
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 8b59259..a852e98 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -10,7 +10,7 @@ import numpy as np
 from .nomials import NomialArray
 from .small_classes import DictOfLists, Strings
 from .small_scripts import mag, try_str_without
-from .repr_conventions import unitstr, lineagestr
+from .repr_conventions import unitstr, lineagestr, necessary_lineage
 
 
 CONSTRSPLITPATTERN = re.compile(r"([^*]\*[^*])|( \+ )|( >= )|( <= )|( = )")
@@ -507,14 +507,11 @@ class SolutionArray(DictOfLists):
         "Returns list of variables, optionally with minimal unique names"
         if showvars:
             showvars = self._parse_showvars(showvars)
-        for key in self.name_collision_varkeys():
-            key.descr["necessarylineage"] = True
         names = {}
-        for key in showvars or self["variables"]:
-            for k in self["variables"].keymap[key]:
-                names[k.str_without(exclude)] = k
-        for key in self.name_collision_varkeys():
-            del key.descr["necessarylineage"]
+        with necessary_lineage(self.name_collision_varkeys()):
+            for key in showvars or self["variables"]:
+                for k in self["variables"].keymap[key]:
+                    names[k.str_without(exclude)] = k
         return names
 
     def savemat(self, filename="solution.mat", showvars=None,
@@ -685,8 +682,19 @@ class SolutionArray(DictOfLists):
                 break
         if has_only_one_model:
             kwargs["sortbymodel"] = False
-        for key in self.name_collision_varkeys():
-            key.descr["necessarylineage"] = True
+        with necessary_lineage(self.name_collision_varkeys()):
+            strs = self._table_strs(showvars, tables, **kwargs)
+        if kwargs.get("latex", None):
+            preamble = "\n".join(("% \\documentclass[12pt]{article}",
+                                  "% \\usepackage{booktabs}",
+                                  "% \\usepackage{longtable}",
+                                  "% \\usepackage{amsmath}",
+                                  "% \\begin{document}\n"))
+            strs = [preamble] + strs + ["% \\end{document}"]
+        return "\n".join(strs)
+
+    def _table_strs(self, showvars, tables, **kwargs):
+        "Returns the lines of each table"
         showvars = self._parse_showvars(showvars)
         strs = []
         for table in tables:
@@ -711,16 +719,7 @@ class SolutionArray(DictOfLists):
                     showvars = self._parse_showvars(showvars)
                     data = {k: data[k] for k in showvars if k in data}
                 strs += var_table(data, self.table_titles[table], **kwargs)
-        if kwargs.get("latex", None):
-            preamble = "\n".join(("% \\documentclass[12pt]{article}",
-                                  "% \\usepackage{booktabs}",
-                                  "% \\usepackage{longtable}",
-                                  "% \\usepackage{amsmath}",
-                                  "% \\begin{document}\n"))
-            strs = [preamble] + strs + ["% \\end{document}"]
-        for key in self.name_collision_varkeys():
-            del key.descr["necessarylineage"]
-        return "\n".join(strs)
+        return strs
 
     def plot(self, posys=None, axes=None):
         "Plots a sweep for each posy"
-- 
2.43.0


From 807c4aeef91d13cdd298a9265d70303d11d33d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 020/105] fix: printing a table no longer erases small
 sensitivities

---
 gpkit/solution_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index a852e98..1393134 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -780,7 +780,7 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
         if np.isnan(v).all() or np.nanmax(np.abs(v)) <= minval:
             continue  # no values below minval
         if minval and hidebelowminval and getattr(v, "shape", None):
-            v[np.abs(v) <= minval] = np.nan
+            v = np.where(np.abs(v) <= minval, np.nan, v)  # a copy
         model = lineagestr(k.lineage) if sortbymodel else ""
         msenss = -sortmodelsbysenss.get(model, 0) if sortmodelsbysenss else 0
         if hasattr(msenss, "shape"):
-- 
2.43.0


From 782351e08769a8f138c3572d1fbd509444b739ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 021/105] fix: saving and loading report errors at the end of
 the file

---
 gpkit/solution_array.py  | 7 +++++--
 gpkit/tools/autosweep.py | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 1393134..1f57782 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -487,7 +487,8 @@ class SolutionArray(DictOfLists):
         >>> pickle.load(open("solution.pkl"))
         """
         with SolSavingEnvironment(self, saveconstraints):
-            pickle.dump(self, open(filename, "wb"), **pickleargs)
+            with open(filename, "wb") as f:
+                pickle.dump(self, f, **pickleargs)
 
     def save_compressed(self, filename="solution.pgz",
                         *, saveconstraints=True, **cpickleargs):
@@ -501,7 +502,9 @@ class SolutionArray(DictOfLists):
     def decompress_file(file):
         "Load a gzip-compressed pickle file"
         with gzip.open(file, "rb") as f:
-            return pickle.Unpickler(f).load()
+            solution = pickle.Unpickler(f).load()
+            f.read()  # reaching the end of the file verifies its checksum
+        return solution
 
     def varnames(self, showvars, exclude):
         "Returns list of variables, optionally with minimal unique names"
diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index 6040a38..a619e80 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -155,7 +155,8 @@ class BinarySweepTree:  # pylint: disable=too-many-instance-attributes
             >>> pickle.load(open("autosweep.p"))
         """
         import pickle
-        pickle.dump(self, open(filename, "wb"))
+        with open(filename, "wb") as f:
+            pickle.dump(self, f)
 
 
 class SolutionOracle:
-- 
2.43.0


From b12cf5748c0af8f88f0f8988c0a6fe105fd95426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 022/105] fix: loaded solutions no longer carry another
 process's hashes

---
 gpkit/small_classes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index 4e7bf1f..6a77d83 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -177,6 +177,12 @@ class HashVector(dict):
             self.hashvalue = reduce(xor, map(hash, self.items()), 0)
         return self.hashvalue
 
+    def __getstate__(self):
+        "Hashes of strings differ between processes, so they're not stored."
+        state = self.__dict__.copy()
+        state.pop("hashvalue", None)
+        return state
+
     def copy(self):
         "Return a copy of this"
         hv = self.__class__(self)
-- 
2.43.0


From 4b9def8b352aadf0c01ea26d6aa4dd0ac91ba19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:49 +0000
Subject: [PATCH 023/105] fix: deleting one element of a vector keeps the
 others in the KeyDict

---
 gpkit/keydict.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index c38f698..9b830c4 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -261,26 +261,20 @@ class KeyDict(KeyMap, dict):
         else:
             key = key.key
             veckey, idx = self.parse_and_index(key)
-            if idx is None:
-                super().__delitem__(key)
-            else:
+            if idx is not None:
                 self._copyonwrite(veckey)
                 super().__getitem__(veckey)[idx] = np.nan
-                if isnan(super().__getitem__(veckey)).all():
-                    super().__delitem__(veckey)
-            copiedonwrite = set()  # to save time, .update() does not copy
-            mapkeys = set([key])
-            if key.keys:
-                mapkeys.update(key.keys)
-            for mapkey in mapkeys:
-                if mapkey in self.keymap:
-                    if len(self.keymap[mapkey]) == 1:
+                if not isnan(super().__getitem__(veckey)).all():
+                    return  # the vector's other elements are still here
+                key = veckey
+            super().__delitem__(key)
+            self._unmapped_keys.discard(key)
+            for mapkey in {key, *key.keys}:
+                if key in self.keymap.get(mapkey, ()):
+                    # to save time, .update() does not copy these sets
+                    self.keymap[mapkey] = self.keymap[mapkey] - {key}
+                    if not self.keymap[mapkey]:
                         del self.keymap[mapkey]
-                        continue
-                    if mapkey not in copiedonwrite:
-                        self.keymap[mapkey] = set(self.keymap[mapkey])
-                        copiedonwrite.add(mapkey)
-                    self.keymap[mapkey].remove(key)
 
 
 class KeySet(KeyMap, set):
-- 
2.43.0


From 16d21812868e3799e316a399825763ce009648d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 024/105] fix: autosweeps of a vector's element sweep and
 restore only that element

---
 gpkit/constraints/model.py | 6 ++++--
 gpkit/tools/autosweep.py   | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 59fad99..2091d6d 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -158,9 +158,11 @@ class Model(CostedConstraintSet):
         """
         sols = []
         for sweepvar, sweepvals in sweeps.items():
-            sweepvar = self[sweepvar].key
+            if not hasattr(sweepvar, "key"):
+                sweepvar = self[sweepvar]
             start, end = sweepvals
-            bst = autosweep_1d(self, tol, sweepvar, [start, end], **solveargs)
+            bst = autosweep_1d(self, tol, sweepvar.key, [start, end],
+                               **solveargs)
             sols.append(bst.sample_at(np.linspace(start, end, samplepoints)))
         return sols if len(sols) > 1 else sols[0]
 
diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index a619e80..4da3685 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -243,10 +243,10 @@ def autosweep_1d(model, logtol, sweepvar, bounds, **solvekwargs):
         bst = BinarySweepTree(bounds, firstsols, sweepvar, model.cost)
         tol = recurse_splits(model, bst, sweepvar, logtol, solvekwargs, sols)
     finally:  # whatever happened, leave the model as it was
+        if sweepvar in model.substitutions:
+            del model.substitutions[sweepvar]
         if original_val is not None:
             model.substitutions[sweepvar] = original_val
-        else:
-            del model.substitutions[sweepvar]
     bst.nsols = sols()  # pylint: disable=attribute-defined-outside-init
     if solvekwargs["verbosity"] > -1:
         print("Solved in %2i passes, cost logtol +/-%.3g" % (bst.nsols, tol))
-- 
2.43.0


From 7ef7dae0ea5499def8548a65da756059f607b9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:13 +0000
Subject: [PATCH 025/105] fix: sweeps stay aligned when points differ in
 warnings, sensitivities or constraints

---
 gpkit/small_classes.py  | 35 +++++++++++++++++++++++++++++++----
 gpkit/solution_array.py |  4 ++++
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index 6a77d83..b822a82 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -95,7 +95,7 @@ class DictOfLists(dict):
             _enlist_dict(sol, self)
             self.initialized = True  # pylint: disable=attribute-defined-outside-init
         else:
-            _append_dict(sol, self)
+            _append_dict(sol, self, len(self))
 
     def atindex(self, i):
         "Indexes into each list independently."
@@ -117,16 +117,39 @@ def _enlist_dict(d_in, d_out):
     return d_out
 
 
-def _append_dict(d_in, d_out):
-    "Recursively travels dict d_out and appends items found in d_in."
+def _append_dict(d_in, d_out, n_before, blank=np.nan):
+    """Recursively travels dict d_out and appends items found in d_in.
+
+    Not all solutions have the same items (e.g. warnings, or constraints which
+    one of them makes trivial); lists are kept aligned with blank values."""
     for k, v in d_in.items():
         if isinstance(v, dict):
-            d_out[k] = _append_dict(v, d_out[k])
+            if k not in d_out:
+                d_out[k] = v.__class__()
+            d_out[k] = _append_dict(v, d_out[k], n_before,
+                                    0. if k == "sensitivities" else blank)
         else:
+            if k not in d_out:
+                d_out[k] = [_blank_like(v, blank) for _ in range(n_before)]
             d_out[k].append(v)
+    for k in list(d_out):
+        if k not in d_in:
+            if isinstance(d_out[k], dict):
+                _append_dict(d_out[k].__class__(), d_out[k], n_before,
+                             0. if k == "sensitivities" else blank)
+            else:
+                d_out[k].append(_blank_like(d_out[k][0], blank))
     return d_out
 
 
+def _blank_like(value, blank):
+    "Returns a value that stands for the lack of one"
+    try:
+        return value*0 + blank
+    except TypeError:  # e.g. a list of warnings
+        return value.__class__()
+
+
 def _index_dict(idx, d_in, d_out):
     "Recursively travels dict d_in, placing items at idx into dict d_out."
     for k, v in d_in.items():
@@ -148,6 +171,10 @@ def _enray(d_in, d_out):
         else:
             if len(v) == 1:
                 v, = v
+            elif isinstance(v[0], list):  # e.g. the warnings of each solution
+                lists, v = v, np.empty(len(v), dtype="object")
+                for i, el in enumerate(lists):
+                    v[i] = el
             else:
                 v = np.array(v)
             d_out[k] = v
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 1f57782..3925cfa 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -237,6 +237,8 @@ def warnings_table(self, _, **kwargs):
         if not hasattr(data_vec, "shape"):
             data_vec = [data_vec]
         for i, data in enumerate(data_vec):
+            if not data:
+                continue  # this point of the sweep had no such warnings
             data = sorted(data, key=lambda l: l[0])  # sort by msg
             title = wtype
             if len(data_vec) > 1:
@@ -254,6 +256,8 @@ def warnings_table(self, _, **kwargs):
             else:
                 lines += [title] + ["-"*len(wtype)]
                 lines += [msg for msg, _ in data] + [""]
+    if len(lines) == 3:
+        return []  # only other points of the sweep had warnings
     lines[-1] = "~~~~~~~~"
     return lines + [""]
 
-- 
2.43.0


From c01d74d3679b91d417a2a05723acf77a112297cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 026/105] fix: elements of a swept vector are looked up in each
 point's value

---
 gpkit/keydict.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 9b830c4..0e9fef8 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -22,6 +22,13 @@ def clean_value(key, value):
     return value
 
 
+def index_last(value, idx):
+    "Indexes a vector's value, which in a sweep's solution has a leading axis."
+    if getattr(value, "ndim", 0) > len(idx):
+        return value[(Ellipsis,) + idx]
+    return value[idx]
+
+
 class KeyMap:
     """Helper class to provide KeyMapping to interfaces.
 
@@ -91,8 +98,8 @@ class KeyMap:
         if super().__contains__(key):  # pylint: disable=no-member
             if idx:
                 try:
-                    value = super().__getitem__(key)[idx]  # pylint: disable=no-member
-                    return True if is_sweepvar(value) else not isnan(value)
+                    value = index_last(super().__getitem__(key), idx)  # pylint: disable=no-member
+                    return is_sweepvar(value) or not np.all(isnan(value))
                 except TypeError:
                     raise TypeError("%s has an idx, but its value in this"
                                     " KeyDict is the scalar %s."
@@ -179,7 +186,7 @@ class KeyDict(KeyMap, dict):
                 self._copyonwrite(k)
             val = dict.__getitem__(self, k)
             if idx:
-                val = val[idx]
+                val = index_last(val, idx)
             if len(keys) == 1:
                 return val
             got[k] = val
-- 
2.43.0


From b5a0865fa290bdf796802d41779781b46157c7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 027/105] fix: a sweep's solution at one index has its whole
 constant vectors

---
 gpkit/small_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index b822a82..95cab94 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -156,6 +156,10 @@ def _index_dict(idx, d_in, d_out):
         if isinstance(v, dict):
             d_out[k] = _index_dict(idx, v, v.__class__())
         else:
+            shape = getattr(k, "shape", None)
+            if shape and getattr(v, "shape", None) == shape:
+                d_out[k] = v  # a vector with the same value in every solution
+                continue
             try:
                 d_out[k] = v[idx]
             except (IndexError, TypeError):  # if not an array, return as is
-- 
2.43.0


From 1db8f45f0a0c477455f94313e611bc04336cdfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:42 +0000
Subject: [PATCH 028/105] fix: sweep points found infeasible while making their
 program can be skipped

---
 gpkit/constraints/prog_factories.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 743a5d0..20c8384 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -144,9 +144,9 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
         point.update({var: sweep_vect[i]
                       for (var, sweep_vect) in sweep_vects.items()})
         evaluate_linked(point, linked)
-        program, solvefn = genfunction(self, point)
-        self.program.append(program)  # NOTE: SIDE EFFECTS
-        try:
+        try:  # a point may be found infeasible while making its program
+            program, solvefn = genfunction(self, point)
+            self.program.append(program)  # NOTE: SIDE EFFECTS
             result = solvefn(solver, verbosity=verbosity-1, **solveargs)
             if solveargs.get("process_result", True):
                 self.process_result(result)
-- 
2.43.0


From ed83415dcc99ef8ba6e7d073cffcf34b5e1fe502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 029/105] fix: constraints whose constants leave no room are
 infeasible, not errors

---
 gpkit/nomials/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 2623456..a738a83 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -425,8 +425,8 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
         coeff = 1 - hmap[EMPTY_HV]
         if coeff >= -self.feastol and len(hmap) == 1:
             return None   # a tautological monomial!
-        if coeff < -self.feastol:
-            msg = "'%s' is infeasible by %.2g%%" % (self, -coeff*100)
+        if coeff <= 0:  # nothing is left for the rest
+            msg = "'%s' is infeasible by %.2g%%" % (self, abs(coeff)*100)
             if fixed:
                 msg += " after substituting %s." % fixed
             raise PrimalInfeasible(msg)
-- 
2.43.0


From 4124b11a89f04128aa82b14b0d18456076b81357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 030/105] fix: constants with unused elements are constant in
 sweeps of linked models

---
 gpkit/constraints/prog_factories.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 20c8384..546af48 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -168,7 +168,8 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
             del solution["constants"][var]
         elif linked:  # if any variables are linked, we check all of them
             if hasattr(val[0], "shape"):
-                differences = ((l != val[0]).any() for l in val[1:])
+                differences = (((l != val[0]) & ~np.isnan(l)).any()
+                               for l in val[1:])
             else:
                 differences = (l != val[0] for l in val[1:])
             if not any(differences):
-- 
2.43.0


From 0cc39074678df732fcdfc03129e699f32d5a3a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 031/105] fix: sweeping one element of a vector does not sweep
 its other elements

---
 gpkit/nomials/substitution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/substitution.py b/gpkit/nomials/substitution.py
index 4e26b9a..376586b 100644
--- a/gpkit/nomials/substitution.py
+++ b/gpkit/nomials/substitution.py
@@ -38,6 +38,7 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
     if sweepsub:  # if the whole key is swept
         sub = sweepval
     for key in keys:
+        sweepkey = sweepsub
         if not key.shape or not getattr(sub, "shape", hasattr(sub, "__len__")):
             value = sub
         else:
@@ -53,7 +54,7 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
                 sweepel, sweepval = splitsweep(value)
                 if sweepel:  # if only an element is swept
                     value = sweepval
-                    sweepsub = True
+                    sweepkey = True
             elif sweepsub:
                 try:
                     np.broadcast(sub, np.empty(key.shape))
@@ -71,7 +72,7 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
                                  (sub.shape, key.veckey, key.shape))
         if hasattr(value, "__call__") and not hasattr(value, "key"):
             linkedsweep[key] = value
-        elif sweepsub:
+        elif sweepkey:
             sweep[key] = value
         else:
             try:
-- 
2.43.0


From 39a79caba5f55cdf783f086a2975d210a97a5951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:03 +0000
Subject: [PATCH 032/105] fix: swept arrays of a vector's elements find their
 constants

---
 gpkit/constraints/prog_factories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 546af48..f6a6b2a 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -161,9 +161,9 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
         raise RuntimeWarning("No sweeps solved successfully.") from last_error
 
     solution["sweepvariables"] = KeyDict()
-    ksweep = KeyDict(sweep)
+    swept = {var.veckey or var for var in sweepvars}
     for var, val in list(solution["constants"].items()):
-        if var in ksweep:
+        if var in swept:
             solution["sweepvariables"][var] = val
             del solution["constants"][var]
         elif linked:  # if any variables are linked, we check all of them
-- 
2.43.0


From 302564b56290656c775b903fd4422b6f05397214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 033/105] fix: solution checks notice variables whose solved
 value is nan

---
 gpkit/constraints/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 2d3a3ac..8dbabc7 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -390,7 +390,7 @@ class GeometricProgram:
                              " solver-returned cost: %s vs %s." %
                              (primal_exp_vals[self.m_idxs[0]].sum(), cost))
         for mi in self.m_idxs[1:]:
-            if primal_exp_vals[mi].sum() > 1 + tol:
+            if not primal_exp_vals[mi].sum() <= 1 + tol:  # catches nan, too
                 raise Infeasible("Primal solution violates constraint: %s is "
                                  "greater than 1" % primal_exp_vals[mi].sum())
         # check dual sol #
-- 
2.43.0


From 426e4d881bcaa48f5e68434de42c6f6ebd787ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 034/105] fix: a monomial with no sensitivity no longer fails
 the dual solution check

---
 gpkit/constraints/gp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 8dbabc7..4808a05 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -407,10 +407,12 @@ class GeometricProgram:
         if any(np.abs(A.T.dot(nu)) > tol):
             raise Infeasible("Dual: sum of nu^T * A did not vanish.")
         b = np.log(self.cs)
-        dual_cost = sum(
-            self.nu_by_posy[i].dot(
-                b[mi] - np.log(self.nu_by_posy[i]/la[i]))
-            for i, mi in enumerate(self.m_idxs) if la[i])
+        dual_cost = 0
+        for nu_i, la_i, mi in zip(self.nu_by_posy, la, self.m_idxs):
+            if la_i:
+                pos = nu_i != 0  # nu*log(nu) vanishes with nu
+                dual_cost += nu_i[pos].dot(
+                    b[mi][pos] - np.log(nu_i[pos]/la_i))
         if not almost_equal(np.exp(dual_cost), cost):
             raise Infeasible("Dual cost %s does not match primal cost %s"
                              % (np.exp(dual_cost), cost))
-- 
2.43.0


From 8ad50f5a4783c472104b5dd86066f18ad493ecdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 035/105] fix: each SGP iteration is its own GP, whatever terms
 its approximation has

---
 gpkit/constraints/sgp.py | 58 +++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 37 deletions(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 3217212..894e27d 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -1,13 +1,14 @@
 """Implement the SequentialGeometricProgram class"""
 import warnings as pywarnings
+from copy import copy
 from time import time
-from collections import defaultdict
 import numpy as np
 from ..exceptions import (InvalidGPConstraint, Infeasible, UnnecessarySGP,
                           InvalidPosynomial, InvalidSGPConstraint)
 from ..keydict import KeyDict
 from ..nomials import Variable
 from .gp import GeometricProgram
+from .set import ConstraintSet
 from ..nomials import PosynomialInequality, Posynomial
 from .. import NamedVariables
 
@@ -93,12 +94,9 @@ solutions and can be solved with 'Model.solve()'.""")
             cost, self.approxconstraints + self.gpconstraints,
             substitutions, checkbounds=checkbounds)
         self._gp.x0 = x0
-        self.a_idxs = defaultdict(list)
-        cost_mons = self._gp.k[0]
-        sp_mons = sum(self._gp.k[:1+len(self.approxconstraints)])
-        for row_idx, m_idx in enumerate(self._gp.A.row):
-            if cost_mons <= m_idx <= sp_mons:
-                self.a_idxs[self._gp.p_idxs[m_idx]].append(row_idx)
+        approxids = set(map(id, self.approxconstraints))
+        self.gphmaps = [hmap for hmap in self._gp.hmaps[1:]
+                        if id(hmap.parent) not in approxids]
 
     # pylint: disable=too-many-locals,too-many-branches,too-many-statements
     def localsolve(self, solver=None, *, verbosity=1, x0=None, reltol=1e-4,
@@ -213,38 +211,24 @@ solutions and can be solved with 'Model.solve()'.""")
         return self._results
 
     def gp(self, x0=None, *, cleanx0=False):
-        "Update self._gp for x0 and return it."
+        "Generate and return the GP approximating this program about x0."
         if not x0:
             return self._gp  # return last generated
         if not cleanx0:
             x0 = KeyDict(x0)
-        self._gp.x0.update({vk: x0[vk] for vk in self.sgpvks if vk in x0})
-        p_idx = 0
+        gp = copy(self._gp)  # earlier iterations' programs stay as they were
+        gp.x0 = KeyDict(self._gp.x0)
+        gp.x0.update({vk: x0[vk] for vk in self.sgpvks if vk in x0})
+        # pylint: disable=protected-access
+        gp._result = gp.solve_log = gp.solver_out = gp.nu_by_posy = None
+        self.approxconstraints = []
         for sgpc in self.sgpconstraints:
-            for hmaplt1 in sgpc.as_gpconstr(self._gp.x0).as_hmapslt1({}):
-                approxc = self.approxconstraints[p_idx]
-                approxc.unsubbed = [Posynomial(hmaplt1)/self.slack]
-                p_idx += 1  # p_idx=0 is the cost; sp constraints are after it
-                hmap, = approxc.as_hmapslt1(self._gp.substitutions)
-                self._gp.hmaps[p_idx] = hmap
-                m_idx = self._gp.m_idxs[p_idx].start
-                a_idxs = list(self.a_idxs[p_idx])  # A's entries we can modify
-                for i, (exp, c) in enumerate(hmap.items()):
-                    self._gp.exps[m_idx + i] = exp
-                    self._gp.cs[m_idx + i] = c
-                    for var, x in exp.items():
-                        try:  # modify a particular A entry
-                            row_idx = a_idxs.pop()
-                            self._gp.A.row[row_idx] = m_idx + i
-                            self._gp.A.col[row_idx] = self._gp.varidxs[var]
-                            self._gp.A.data[row_idx] = x
-                        except IndexError:  # numbers of exps increased
-                            self.a_idxs[p_idx].append(len(self._gp.A.row))
-                            self._gp.A.row.append(m_idx + i)
-                            self._gp.A.col.append(self._gp.varidxs[var])
-                            self._gp.A.data.append(x)
-                for row_idx in a_idxs:  # number of exps decreased
-                    self._gp.A.row[row_idx] = 0  # zero out this entry
-                    self._gp.A.col[row_idx] = 0
-                    self._gp.A.data[row_idx] = 0
-        return self._gp
+            for hmaplt1 in sgpc.as_gpconstr(gp.x0).as_hmapslt1({}):
+                approxc = (Posynomial(hmaplt1) <= self.slack)
+                approxc.generated_by = sgpc
+                self.approxconstraints.append(approxc)
+        gp.hmaps = [gp.hmaps[0]] + list(ConstraintSet.as_hmapslt1(
+            self.approxconstraints, gp.substitutions)) + self.gphmaps
+        gp.gen()
+        self._gp = gp
+        return gp
-- 
2.43.0


From 5e794b6e30376ea4a4fedf5f4e0c695058b62400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 036/105] fix: SGPs move every variable of a signomial
 constraint, even those which at first cancel out

---
 gpkit/constraints/sgp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 894e27d..24dd96c 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -79,6 +79,8 @@ class SequentialGeometricProgram:
                 if not hasattr(cs, "as_gpconstr"):
                     raise InvalidSGPConstraint(cs)
                 self.sgpconstraints.append(cs)
+                # a variable may cancel out of some approximations
+                self.sgpvks.update(getattr(cs, "vks", ()))
                 for hmaplt1 in cs.as_gpconstr(x0).as_hmapslt1({}):
                     constraint = (Posynomial(hmaplt1) <= self.slack)
                     constraint.generated_by = cs
-- 
2.43.0


From d8fd4e14eab3dab128a340bf9463a2507111377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 037/105] fix: an SGP's initial guess does not override its
 constants

---
 gpkit/constraints/sgp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 24dd96c..13a0fdb 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -86,6 +86,8 @@ class SequentialGeometricProgram:
                     constraint.generated_by = cs
                     self.approxconstraints.append(constraint)
                     self.sgpvks.update(constraint.vks)
+        # constants stay as substituted, whatever initial guess is given
+        self.sgpvks = {vk for vk in self.sgpvks if vk not in x0}
         if not self.sgpconstraints:
             raise UnnecessarySGP("""Model valid as a Geometric Program.
 
-- 
2.43.0


From 3c7b3d853981f6894a7c76d065bb9c839cf16e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 038/105] fix: an SGP's initial guess may be formatted as a
 substitution would, as documented

---
 gpkit/constraints/sgp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 13a0fdb..430a9ee 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -6,7 +6,7 @@ import numpy as np
 from ..exceptions import (InvalidGPConstraint, Infeasible, UnnecessarySGP,
                           InvalidPosynomial, InvalidSGPConstraint)
 from ..keydict import KeyDict
-from ..nomials import Variable
+from ..nomials import Variable, parse_subs
 from .gp import GeometricProgram
 from .set import ConstraintSet
 from ..nomials import PosynomialInequality, Posynomial
@@ -66,8 +66,8 @@ class SequentialGeometricProgram:
         cost *= self.slack**pccp_penalty
         self.approxconstraints = []
         self.sgpvks = set()
+        self.varkeys = model.varkeys  # for string access and so forth
         x0 = KeyDict(substitutions)
-        x0.varkeys = model.varkeys  # for string access and so forth
         for cs in model.flat():
             try:
                 if not hasattr(cs, "as_hmapslt1"):
@@ -151,7 +151,7 @@ solutions and can be solved with 'Model.solve()'.""")
                     "Unsolved after %s iterations. Check `m.program.results`;"
                     " if they're converging, try `.localsolve(...,"
                     " iteration_limit=NEWLIMIT)`." % len(self.gps))
-            gp = self.gp(x0, cleanx0=True)
+            gp = self.gp(x0, cleanx0=bool(self.gps))
             self.gps.append(gp)  # NOTE: SIDE EFFECTS
             if verbosity > 1:
                 print("\nGP Solve %i" % len(self.gps))
@@ -218,8 +218,8 @@ solutions and can be solved with 'Model.solve()'.""")
         "Generate and return the GP approximating this program about x0."
         if not x0:
             return self._gp  # return last generated
-        if not cleanx0:
-            x0 = KeyDict(x0)
+        if not cleanx0:  # x0 may be formatted as a substitution would
+            x0 = KeyDict(parse_subs(self.varkeys, x0)[0])
         gp = copy(self._gp)  # earlier iterations' programs stay as they were
         gp.x0 = KeyDict(self._gp.x0)
         gp.x0.update({vk: x0[vk] for vk in self.sgpvks if vk in x0})
-- 
2.43.0


From acdd2ef47c577576b130384bfd12db60ceb88f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 039/105] fix: SGPs stop at iteration_limit instead of one
 solve later

---
 gpkit/constraints/sgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 430a9ee..cd71808 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -146,7 +146,7 @@ solutions and can be solved with 'Model.solve()'.""")
         prevcost, cost, rel_improvement = None, None, None
         while rel_improvement is None or rel_improvement > reltol:
             prevcost = cost
-            if len(self.gps) > iteration_limit:
+            if len(self.gps) >= iteration_limit:
                 raise Infeasible(
                     "Unsolved after %s iterations. Check `m.program.results`;"
                     " if they're converging, try `.localsolve(...,"
-- 
2.43.0


From 852b33bf53d12d15ffd92bb958a9b2713eb51ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 040/105] fix: re-solving a GP does not leave its earlier
 result cached

---
 gpkit/constraints/gp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 4808a05..4974b57 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -189,6 +189,7 @@ class GeometricProgram:
         -------
         SolutionArray (or dict if gen_result is False)
         """
+        self._result = None  # whatever was cached is from an earlier solve
         solvername, solverfn = _get_solver(solver, kwargs)
         if verbosity > 0:
             print("Using solver '%s'" % solvername)
-- 
2.43.0


From 62c4f0eb0d95744fb86260cf1327df5200c9d822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 041/105] fix: relaxing a constraint with an unknown operator
 says so

---
 gpkit/nomials/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index a738a83..e139d2a 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -390,7 +390,7 @@ class ScalarSingleEquationConstraint(SingleEquationConstraint):
             return [self.left <= relaxvar*self.right,
                     relaxvar*self.left >= self.right]
         raise ValueError(
-            "Constraint %s had unknown operator %s." % self.oper, self)
+            "Constraint %s had unknown operator %s." % (self, self.oper))
 
 
 # pylint: disable=too-many-instance-attributes, invalid-unary-operand-type
-- 
2.43.0


From 57a8629ea4e9bfeefe3ac48b7a23851d882bf58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 042/105] fix: a signomial equality's sensitivity is that of
 both its halves

---
 gpkit/constraints/gp.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 4974b57..5b6e4f6 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -324,6 +324,7 @@ class GeometricProgram:
                          for i, fraction in mmap.items())
         gpv_ss = cost_senss.copy()
         m_senss = defaultdict(float)
+        half_senss = {}  # of the first halves of approximated equalities
         for las, nus, hmap in zip(la[1:], self.nu_by_posy[1:], self.hmaps[1:]):
             c = hmap
             while getattr(c, "parent", None) is not None:
@@ -331,8 +332,15 @@ class GeometricProgram:
             v_ss, c_senss = c.sens_from_dual(las, nus, result, hmap)
             for vk, x in v_ss.items():
                 gpv_ss[vk] = x + gpv_ss.get(vk, 0)
+            approximated = getattr(c, "generated_by", None)
             while getattr(c, "generated_by", None):
                 c = c.generated_by
+            if approximated and getattr(c, "oper", None) == "=":
+                if c not in half_senss:
+                    half_senss[c] = c_senss
+                    continue
+                # the halves push in opposite directions
+                c_senss -= half_senss.pop(c)
             result["sensitivities"]["constraints"][c] = abs(c_senss)
             m_senss[lineagestr(c)] += abs(c_senss)
         # add fixed variables sensitivities to models
-- 
2.43.0


From 81805927b7a15a2317395b242f8bd8f30d9aed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 043/105] fix: dividing a constraint by its monomial side does
 not overwrite its other terms

---
 gpkit/nomials/math.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index e139d2a..1d15035 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -457,9 +457,7 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
         except ValueError:
             raise TypeError("greater-than side '%s' is not monomial." % m_gt)
         m_c *= units.of_division(m_gt, p_lt)
-        hmap = p_lt.hmap.copy()
-        for exp in list(hmap):
-            hmap[exp-m_exp] = hmap.pop(exp)/m_c
+        hmap = NomialMap({exp-m_exp: c/m_c for exp, c in p_lt.hmap.items()})
         hmap = self._simplify_posy_ineq(hmap)
         return [Posynomial(hmap)] if hmap else []
 
-- 
2.43.0


From 24971139308cfad50eb2a71d6edb21ac95ab5cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 044/105] fix: compressed solutions are verified before they
 are unpickled

---
 gpkit/solution_array.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 3925cfa..6a86319 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -506,9 +506,9 @@ class SolutionArray(DictOfLists):
     def decompress_file(file):
         "Load a gzip-compressed pickle file"
         with gzip.open(file, "rb") as f:
-            solution = pickle.Unpickler(f).load()
-            f.read()  # reaching the end of the file verifies its checksum
-        return solution
+            # reaching the end of the file verifies its checksum, which is
+            # done before unpickling as damaged pickles may do anything
+            return pickle.loads(f.read())
 
     def varnames(self, showvars, exclude):
         "Returns list of variables, optionally with minimal unique names"
-- 
2.43.0


From 2c8a7ad2a2abc5ccbb6dcffdf22b46f7c9127003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 045/105] fix: solutions saved without constraints can be
 tabulated and saved again

---
 gpkit/solution_array.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 6a86319..26e216c 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -32,11 +32,15 @@ class SolSavingEnvironment:
     def __init__(self, solarray, saveconstraints):
         self.solarray = solarray
         self.attrstore = {}
+        # a solution loaded from a file may have been saved without them
+        self.hasconstraints = "constraints" in solarray["sensitivities"]
         self.saveconstraints = saveconstraints
         self.constraintstore = None
 
 
     def __enter__(self):
+        if not self.hasconstraints:
+            return
         if self.saveconstraints:
             for constraint_attr in ["bounded", "meq_bounded", "vks",
                                     "v_ss", "unsubbed", "varkeys"]:
@@ -51,6 +55,8 @@ class SolSavingEnvironment:
                 self.solarray["sensitivities"].pop("constraints")
 
     def __exit__(self, type_, val, traceback):
+        if not self.hasconstraints:
+            return
         if self.saveconstraints:
             for constraint_attr, store in self.attrstore.items():
                 for constraint, value in store.items():
@@ -134,6 +140,8 @@ def insenss_table(data, _, maxval=0.1, **kwargs):
 
 def tight_table(self, _, ntightconstrs=5, tight_senss=1e-2, **kwargs):
     "Return constraint tightness lines"
+    if "constraints" not in self["sensitivities"]:
+        return []  # the solution was saved without them
     title = "Most Sensitive Constraints"
     if len(self) > 1:
         title += " (in last sweep)"
@@ -149,6 +157,8 @@ def tight_table(self, _, ntightconstrs=5, tight_senss=1e-2, **kwargs):
 
 def loose_table(self, _, min_senss=1e-5, **kwargs):
     "Return constraint tightness lines"
+    if "constraints" not in self["sensitivities"]:
+        return []  # the solution was saved without them
     title = "Insensitive Constraints |below %+g|" % min_senss
     if len(self) > 1:
         title += " (in last sweep)"
-- 
2.43.0


From 65624291388a0c3acac70ebbb3868679dc06e4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 046/105] fix: mosek_cli removes its temporary directory also
 when a solve fails

---
 gpkit/solvers/mosek_cli.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/gpkit/solvers/mosek_cli.py b/gpkit/solvers/mosek_cli.py
index 32e25d1..85a99d9 100644
--- a/gpkit/solvers/mosek_cli.py
+++ b/gpkit/solvers/mosek_cli.py
@@ -32,15 +32,22 @@ def optimize_generator(path=None, **_):
         The directory in which to put the MOSEK CLI input/output files.
         By default uses a system-appropriate temp directory.
     """
-    tmpdir = path is None
-    if tmpdir:
-        path = tempfile.mkdtemp()
-    filename = path + os.sep + "gpkit_mosek"
     if "mosek_bin_dir" in settings:
         if settings["mosek_bin_dir"] not in os.environ["PATH"]:
             os.environ["PATH"] += ":" + settings["mosek_bin_dir"]
 
-    def optimize(*, c, A, p_idxs, **_):
+    def optimize(**kwargs):
+        "Solves within a directory which, if temporary, is always removed"
+        tmpdir = path is None
+        workdir = tempfile.mkdtemp() if tmpdir else path
+        try:
+            return optimize_within(workdir, **kwargs)
+        finally:
+            if tmpdir:
+                shutil.rmtree(workdir, ignore_errors=False,
+                              onerror=remove_read_only)
+
+    def optimize_within(workdir, *, c, A, p_idxs, **_):
         """Interface to the MOSEK "mskexpopt" command line solver
 
         Definitions
@@ -57,8 +64,8 @@ def optimize_generator(path=None, **_):
             Exponents of the various free variables for each monomial.
         p_idxs: ints array of shape n
             Posynomial index of each monomial
-        filename: str
-            Filename prefix for temporary files
+        workdir: str
+            Directory for the input/output files
 
         Returns
         -------
@@ -78,6 +85,7 @@ def optimize_generator(path=None, **_):
             If the format of mskexpopt's output file is unexpected.
 
         """
+        filename = workdir + os.sep + "gpkit_mosek"
         write_output_file(filename, c, A, p_idxs)
 
         # run mskexpopt and print stdout
@@ -114,9 +122,6 @@ def optimize_generator(path=None, **_):
             assert_equal(f.readline(), "INDEX   ACTIVITY")
             dual_vals = read_vals(f)
 
-        if tmpdir:
-            shutil.rmtree(path, ignore_errors=False, onerror=remove_read_only)
-
         return dict(status=solsta[:-1],
                     objective=objective_val,
                     primal=primal_vals,
-- 
2.43.0


From c96de7d21b67659f350b8d45ca982f48054b48e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 047/105] fix: mosek_cli never reads an earlier problem's
 solution

---
 gpkit/solvers/mosek_cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/solvers/mosek_cli.py b/gpkit/solvers/mosek_cli.py
index 85a99d9..dc98365 100644
--- a/gpkit/solvers/mosek_cli.py
+++ b/gpkit/solvers/mosek_cli.py
@@ -90,6 +90,8 @@ def optimize_generator(path=None, **_):
 
         # run mskexpopt and print stdout
         solution_filename = filename + ".sol"
+        if os.path.exists(solution_filename):
+            os.remove(solution_filename)  # an earlier problem's solution
         try:
             for logline in check_output(["mskexpopt", filename, "-sol",
                                          solution_filename]).split(b"\n"):
-- 
2.43.0


From 0a490f9c5a0847049589ed6f63c6bcd83762aacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 048/105] fix: mosek_cli refuses solution files which are
 incomplete

---
 gpkit/solvers/mosek_cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpkit/solvers/mosek_cli.py b/gpkit/solvers/mosek_cli.py
index dc98365..ab548a6 100644
--- a/gpkit/solvers/mosek_cli.py
+++ b/gpkit/solvers/mosek_cli.py
@@ -124,6 +124,10 @@ def optimize_generator(path=None, **_):
             assert_equal(f.readline(), "INDEX   ACTIVITY")
             dual_vals = read_vals(f)
 
+        numter, numvar = A.shape
+        if (len(primal_vals), len(dual_vals)) != (numvar, numter):
+            raise RuntimeWarning("mskexpopt's output file is incomplete.")
+
         return dict(status=solsta[:-1],
                     objective=objective_val,
                     primal=primal_vals,
-- 
2.43.0


From 09d9899d55c6a4caf30432dc4f6c75349de0e5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 049/105] fix: mosek_cli logs text instead of bytes

---
 gpkit/solvers/mosek_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/solvers/mosek_cli.py b/gpkit/solvers/mosek_cli.py
index ab548a6..c2f93f6 100644
--- a/gpkit/solvers/mosek_cli.py
+++ b/gpkit/solvers/mosek_cli.py
@@ -94,8 +94,8 @@ def optimize_generator(path=None, **_):
             os.remove(solution_filename)  # an earlier problem's solution
         try:
             for logline in check_output(["mskexpopt", filename, "-sol",
-                                         solution_filename]).split(b"\n"):
-                print(logline)
+                                         solution_filename]).splitlines():
+                print(logline.decode(errors="replace"))
         except CalledProcessError as e:
             # invalid license return codes:
             #   expired: 233 (linux)
-- 
2.43.0


From 10b2d16308f890beee0a265f0f81c507b33945f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 050/105] fix: mosek_cli adds its directory to a search path
 that has a longer one

---
 gpkit/solvers/mosek_cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/solvers/mosek_cli.py b/gpkit/solvers/mosek_cli.py
index c2f93f6..03d461d 100644
--- a/gpkit/solvers/mosek_cli.py
+++ b/gpkit/solvers/mosek_cli.py
@@ -33,8 +33,9 @@ def optimize_generator(path=None, **_):
         By default uses a system-appropriate temp directory.
     """
     if "mosek_bin_dir" in settings:
-        if settings["mosek_bin_dir"] not in os.environ["PATH"]:
-            os.environ["PATH"] += ":" + settings["mosek_bin_dir"]
+        searched = os.environ["PATH"].split(os.pathsep)
+        if settings["mosek_bin_dir"] not in searched:
+            os.environ["PATH"] += os.pathsep + settings["mosek_bin_dir"]
 
     def optimize(**kwargs):
         "Solves within a directory which, if temporary, is always removed"
-- 
2.43.0


From 573397dbd31e785313dab757ce303f56024531c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 051/105] fix: mosek_cli removes read-only files from its
 temporary directory

---
 gpkit/solvers/mosek_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/solvers/mosek_cli.py b/gpkit/solvers/mosek_cli.py
index 03d461d..f044c20 100644
--- a/gpkit/solvers/mosek_cli.py
+++ b/gpkit/solvers/mosek_cli.py
@@ -17,7 +17,7 @@ from ..exceptions import (UnknownInfeasible, InvalidLicense,
 
 def remove_read_only(func, path, exc):  # pragma: no cover
     "If we can't remove a file/directory, change permissions and try again."
-    if func in (os.rmdir, os.remove) and exc[1].errno == errno.EACCES:
+    if func in (os.rmdir, os.remove, os.unlink) and exc[1].errno == errno.EACCES:
         # change the file to be readable,writable,executable: 0777
         os.chmod(path, stat.S_IRWXU | stat.S_IRWXG | stat.S_IRWXO)
         func(path)  # try again
-- 
2.43.0


From 01a1641ce667d14548b759de3e431ee1b58786a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 052/105] fix: autosweep bounds hold where the cost's lower
 bound is one

---
 gpkit/tools/autosweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index 4da3685..eb9c5de 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -92,7 +92,7 @@ class BinarySweepTree:  # pylint: disable=too-many-instance-attributes
         if value < self.bounds[0] or value > self.bounds[1]:
             raise ValueError("query value is outside bounds.")
         bst = self.min_bst(value)
-        if bst.splitlb:
+        if bst.splitlb is not None:
             if bound:
                 if bound == "lb":
                     splitcost = np.exp(bst.splitlb)
-- 
2.43.0


From e8c2f196381059eab9b3b208f39f977e5f127dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 053/105] fix: an autosweep solved by its end points has a
 tolerance, too

---
 gpkit/tools/autosweep.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index eb9c5de..47d289a 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -277,6 +277,7 @@ def recurse_splits(model, bst, variable, logtol, solvekwargs, sols):
         bst.tol = max(tols)
         return bst.tol
     bst.add_splitcost(x, lb, ub)
+    bst.tol = tol
     return tol
 
 
-- 
2.43.0


From 7de24d48c0ff0f2624d4f04eb7d2ed91ce62c5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:59 +0000
Subject: [PATCH 054/105] fix: elements of vectors without an explicit veckey
 map to their vector

---
 gpkit/varkey.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gpkit/varkey.py b/gpkit/varkey.py
index 4fe35db..edd30d8 100644
--- a/gpkit/varkey.py
+++ b/gpkit/varkey.py
@@ -44,9 +44,8 @@ class VarKey(ReprMixin):  # pylint:disable=too-many-instance-attributes
                 vecdescr = self.descr.copy()
                 del vecdescr["idx"]
                 self.veckey = VarKey(**vecdescr)
-            else:
-                self.keys.add(self.veckey)
-                self.keys.add(self.str_without(["idx", "modelnums"]))
+            self.keys.add(self.veckey)
+            self.keys.add(self.str_without(["idx", "modelnums"]))
 
     def __getstate__(self):
         "Stores varkey as its metadata dictionary, removing functions"
-- 
2.43.0


From 73986034ddbe90ce79c67705e2b3a0e2229d9dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 055/105] fix: the models which .debug() solves are not
 themselves debugged

---
 gpkit/constraints/gp.py    | 3 ++-
 gpkit/constraints/model.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 5b6e4f6..f181e89 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -234,7 +234,8 @@ class GeometricProgram:
             programs = getattr(self.model, "program", None)
             swept = isinstance(programs, list) and self in programs
             if (verbosity > 0 and solver_out["soltime"] < 1
-                    and self.model is not None and not swept):  # fast, top-level model
+                    and self.model is not None and not swept
+                    and not self.model.debugging):  # fast, top-level model
                 print(msg + "\nSince the model solved in less than a second,"
                       " let's run `.debug()` to analyze what happened.\n`")
                 debugsol = self.model.debug(solver=solver)
diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 2091d6d..82b3d77 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -38,6 +38,7 @@ class Model(CostedConstraintSet):
     """
     program = None
     solution = None
+    debugging = False  # True for the models which `.debug()` solves
 
     def __init__(self, cost=None, constraints=None, *args, **kwargs):
         setup_vars = None
@@ -184,6 +185,7 @@ class Model(CostedConstraintSet):
         else:  # no constants which could be relaxed
             tants, feas = None, Model(self.cost, bounded)
 
+        feas.debugging = True
         try:
             try:
                 sol = feas.solve(**solveargs)
@@ -199,6 +201,7 @@ class Model(CostedConstraintSet):
                       " and bounded variables.")
             traints = ConstraintsRelaxed(self)
             feas = Model(traints.relaxvars.prod()**30 * self.cost, traints)
+            feas.debugging = True
             try:
                 try:
                     sol = feas.solve(**solveargs)
-- 
2.43.0


From 962bec05699f895f29d5a6efaa9af0a4e19819ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 056/105] fix: .debug() of unbounded models which constants
 cannot make feasible

---
 gpkit/constraints/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 82b3d77..0bd2c01 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -201,6 +201,8 @@ class Model(CostedConstraintSet):
                       " and bounded variables.")
             traints = ConstraintsRelaxed(self)
             feas = Model(traints.relaxvars.prod()**30 * self.cost, traints)
+            bounded = Bounded(feas)  # including variables only in the cost
+            feas = Model(feas.cost, bounded)
             feas.debugging = True
             try:
                 try:
@@ -208,6 +210,7 @@ class Model(CostedConstraintSet):
                 except InvalidGPConstraint:
                     sol = feas.sp(use_pccp=False).localsolve(**solveargs)
                 # limited results processing
+                bounded.check_boundaries(sol)
                 traints.check_relaxed(sol)
             except Infeasible:
                 print("<DEBUG> Model is not feasible with bounded constraints.")
-- 
2.43.0


From 6bf130dda0f8d7d07f94646819552e6add9d69df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 057/105] fix: constants linked to relaxed constants keep their
 values

---
 gpkit/constraints/relax.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index 03f587e..89d3a07 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -175,9 +175,10 @@ class ConstantsRelaxed(ConstraintSet):
             if val == 0:
                 substitutions[const] = 0
                 continue
-            if include_only and const.name not in include_only:
-                continue
-            if const.name in exclude:
+            if (const.name in exclude
+                    or include_only and const.name not in include_only):
+                if const in linked:  # to constants which may be freed
+                    substitutions[const] = val
                 continue
             # set up the lineage
             const.descr.pop("gradients", None)  # nothing wants an old gradient
-- 
2.43.0


From 5614f96a7791b490c676130e6a46f7d4add24420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 058/105] fix: relaxing nothing at all

---
 gpkit/constraints/relax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index 89d3a07..b4ec305 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -238,7 +238,7 @@ class ConstantsRelaxed(ConstraintSet):
 def get_relaxed(relaxvals, mapped_list):
     "Returns 'relaxed' vals (those above an arbitrary threshold of 1.01)."
     sortrelaxed = sorted(zip(relaxvals, mapped_list), key=lambda x: -x[0])
-    mostrelaxed = max(sortrelaxed[0][0], 1.01)
+    mostrelaxed = max([1.01] + [val for val, _ in sortrelaxed])
     for i, (val, _) in enumerate(sortrelaxed):
         if val <= 1.01 and (val-1) <= (mostrelaxed-1)/10:
             return sortrelaxed[:i]
-- 
2.43.0


From d3b10b288148ac413c74d724c15ddf12105adbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 059/105] fix: settings which are blank, torn, or lack a last
 newline

---
 gpkit/globals.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gpkit/globals.py b/gpkit/globals.py
index dac9c3f..75f29da 100644
--- a/gpkit/globals.py
+++ b/gpkit/globals.py
@@ -10,15 +10,17 @@ def load_settings(path=None, trybuild=True):
         path = os.sep.join([os.path.dirname(__file__), "env", "settings"])
     try:  # if the settings file already exists, read it
         with open(path) as settingsfile:
-            lines = [line[:-1].split(" : ") for line in settingsfile
+            lines = [line.split(" : ") for line in settingsfile
                      if len(line.split(" : ")) == 2]
-            settings_ = {name: value.split(", ") for name, value in lines}
+            settings_ = {name: value.strip().split(", ")
+                         for name, value in lines}
             for name, value in settings_.items():
                 # flatten 1-element lists unless they're the solver list
                 if len(value) == 1 and name != "installed_solvers":
                     settings_[name], = value
     except IOError:  # pragma: no cover
-        settings_ = {"installed_solvers": [""]}
+        settings_ = {}
+    settings_.setdefault("installed_solvers", [""])
     if settings_["installed_solvers"] == [""] and trybuild:  # pragma: no cover
         print("Found no installed solvers, beginning a build.")
         build()
-- 
2.43.0


From c9b64b7df0a593bb121b1d5c8c05259bc61db4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:32 +0000
Subject: [PATCH 060/105] fix: a build that fails returns to the working
 directory

---
 gpkit/build.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gpkit/build.py b/gpkit/build.py
index 85ad7d0..f592dcc 100644
--- a/gpkit/build.py
+++ b/gpkit/build.py
@@ -169,6 +169,7 @@ class MosekConif(SolverBackend):
         except ImportError:
             pass
 
+
 def build():
     "Builds GPkit"
     import gpkit
@@ -176,7 +177,14 @@ def build():
     log("# Moving to the directory from which GPkit was imported.")
     start_dir = os.getcwd()
     os.chdir(gpkit.__path__[0])
+    try:
+        find_and_write_settings()
+    finally:
+        os.chdir(start_dir)
+
 
+def find_and_write_settings():
+    "Finds solvers; writes settings and the log in the current directory."
     log("\nAttempting to find and build solvers:")
     solvers = [MosekCLI(), MosekConif(), CVXopt()]
     installed_solvers = [solver.name for solver in solvers if solver.installed]
@@ -199,7 +207,6 @@ def build():
     with open(pathjoin(envpath, "build.log"), "w") as f:
         f.write(LOGSTR)
 
-    os.chdir(start_dir)
 
 if __name__ == "__main__":
     build()
-- 
2.43.0


From 304f4bd338930a7aae4fb03cdb7ed5bb937178a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 061/105] fix: builds replace settings in one step, so that
 none is torn or missing

---
 gpkit/build.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/gpkit/build.py b/gpkit/build.py
index f592dcc..4d47853 100644
--- a/gpkit/build.py
+++ b/gpkit/build.py
@@ -29,13 +29,18 @@ def isfile(path):
     return False
 
 
-def replacedir(path):
-    "Replaces directory at $path. Logs."
-    log("#     Replacing directory", path)
-    if os.path.isdir(path):
-        shutil.rmtree(path)
-    os.makedirs(path)
-    return path
+def replacefile(path, text):
+    "Replaces file at $path in one step, so no one reads half of it. Logs."
+    log("#     Replacing file", path)
+    tmppath = "%s.%i.new" % (path, os.getpid())
+    try:
+        with open(tmppath, "w") as f:
+            f.write(text)
+        os.replace(tmppath, path)
+    except BaseException:
+        if os.path.exists(tmppath):
+            os.remove(tmppath)
+        raise
 
 
 def call(cmd):
@@ -200,12 +205,11 @@ def find_and_write_settings():
 
     # Write settings
     envpath = "env"
-    replacedir(envpath)
-    with open(pathjoin(envpath, "settings"), "w") as f:
-        for setting, value in sorted(settings.items()):
-            f.write("%s : %s\n" % (setting, value))
-    with open(pathjoin(envpath, "build.log"), "w") as f:
-        f.write(LOGSTR)
+    os.makedirs(envpath, exist_ok=True)
+    replacefile(pathjoin(envpath, "settings"),
+                "".join("%s : %s\n" % (setting, value)
+                        for setting, value in sorted(settings.items())))
+    replacefile(pathjoin(envpath, "build.log"), LOGSTR)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 0eb89979ae8df0d6db8942b6d58aa134898e1f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 062/105] fix: unit conversions cached by memory address were
 reused for other units

---
 gpkit/units.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/units.py b/gpkit/units.py
index 39c3f18..b4d68e9 100644
--- a/gpkit/units.py
+++ b/gpkit/units.py
@@ -34,7 +34,8 @@ class GPkitUnits:
         "Cached unit division. Requires Quantity inputs."
         if numerator.units is denominator.units:
             return 1
-        key = (id(numerator.units), id(denominator.units))
+        key = (getattr(numerator.units, "units", None),
+               getattr(denominator.units, "units", None))
         try:
             return self.division_cache[key]
         except KeyError:
-- 
2.43.0


From a5bbe4c5d3b40b40600efda2025b7cbe89f59fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 063/105] fix: warnings tables showed the values of a later
 solve

---
 gpkit/constraints/loose.py |  3 ++-
 gpkit/constraints/tight.py |  4 +++-
 gpkit/small_scripts.py     | 16 +++++++++++++---
 gpkit/solution_array.py    | 23 +++++++++++++++++------
 4 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/gpkit/constraints/loose.py b/gpkit/constraints/loose.py
index 84d410d..addd817 100644
--- a/gpkit/constraints/loose.py
+++ b/gpkit/constraints/loose.py
@@ -25,6 +25,7 @@ class Loose(ConstraintSet):
                        (cstr, c_senss, self.senstol))
                 constraint.relax_sensitivity = c_senss
                 appendsolwarning(msg, constraint, result,
-                                 "Unexpectedly Tight Constraints")
+                                 "Unexpectedly Tight Constraints",
+                                 (c_senss, "%+6.2g" % c_senss))
                 if self.raiseerror:
                     raise RuntimeWarning(msg)
diff --git a/gpkit/constraints/tight.py b/gpkit/constraints/tight.py
index 063c4e7..ce2d3ae 100644
--- a/gpkit/constraints/tight.py
+++ b/gpkit/constraints/tight.py
@@ -37,4 +37,6 @@ class Tight(ConstraintSet):
                 constraint.tightvalues = (leftval, constraint.oper, rightval)
                 constraint.rel_diff = rel_diff
                 appendsolwarning(msg, constraint, result,
-                                 "Unexpectedly Loose Constraints")
+                                 "Unexpectedly Loose Constraints",
+                                 (rel_diff, "%.4g %s %.4g"
+                                  % constraint.tightvalues))
diff --git a/gpkit/small_scripts.py b/gpkit/small_scripts.py
index 3d282d2..09f5c46 100644
--- a/gpkit/small_scripts.py
+++ b/gpkit/small_scripts.py
@@ -3,13 +3,23 @@ from collections.abc import Iterable
 import numpy as np
 
 
-def appendsolwarning(msg, data, result, category="uncategorized"):
-    "Append a particular category of warnings to a solution."
+class SolWarning(tuple):
+    "A (message, data) pair which remembers the values it was made from."
+    shown = None
+
+
+def appendsolwarning(msg, data, result, category="uncategorized", shown=None):
+    """Append a particular category of warnings to a solution.
+
+    `shown` is a pair of this warning's importance and a string of its values,
+    kept here because later solves may warn of the same constraint."""
     if "warnings" not in result:
         result["warnings"] = {}
     if category not in result["warnings"]:
         result["warnings"][category] = []
-    result["warnings"][category].append((msg, data))
+    warning = SolWarning((msg, data))
+    warning.shown = shown
+    result["warnings"][category].append(warning)
 
 
 @np.vectorize
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 26e216c..ff2e88f 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -236,6 +236,17 @@ def constraint_table(data, title, sortbymodel=True, showmodels=True, **_):
     return [title] + ["-"*len(title)] + lines + [""]
 
 
+def warning_row(warning, sortattr, strattr, strfmt):
+    "Makes the data of a constraint_table line from a constraint's warning"
+    _, constraint = warning
+    if getattr(warning, "shown", None):
+        sortval, string = warning.shown
+    else:  # pickled by an earlier version, which stored them on the constraint
+        sortval = getattr(constraint, sortattr)
+        string = strfmt % getattr(constraint, strattr)
+    return (-int(1e5*sortval), string, id(constraint), constraint)
+
+
 def warnings_table(self, _, **kwargs):
     "Makes a table for all warnings in the solution."
     title = "WARNINGS"
@@ -254,14 +265,14 @@ def warnings_table(self, _, **kwargs):
             if len(data_vec) > 1:
                 title += " in sweep %i" % i
             if wtype == "Unexpectedly Tight Constraints" and data[0][1]:
-                data = [(-int(1e5*c.relax_sensitivity),
-                         "%+6.2g" % c.relax_sensitivity, id(c), c)
-                        for _, c in data]
+                data = [warning_row(w, "relax_sensitivity",
+                                    "relax_sensitivity", "%+6.2g")
+                        for w in data]
                 lines += constraint_table(data, title, **kwargs)
             elif wtype == "Unexpectedly Loose Constraints" and data[0][1]:
-                data = [(-int(1e5*c.rel_diff),
-                         "%.4g %s %.4g" % c.tightvalues, id(c), c)
-                        for _, c in data]
+                data = [warning_row(w, "rel_diff",
+                                    "tightvalues", "%.4g %s %.4g")
+                        for w in data]
                 lines += constraint_table(data, title, **kwargs)
             else:
                 lines += [title] + ["-"*len(wtype)]
-- 
2.43.0


From 299f2b0911af62f1bc012913a7f188a4aef9e633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 064/105] fix: constraint tables were ordered by memory address

---
 gpkit/solution_array.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index ff2e88f..8c567be 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -142,16 +142,17 @@ def tight_table(self, _, ntightconstrs=5, tight_senss=1e-2, **kwargs):
     "Return constraint tightness lines"
     if "constraints" not in self["sensitivities"]:
         return []  # the solution was saved without them
+    constraint_senss = self["sensitivities"]["constraints"].items()
     title = "Most Sensitive Constraints"
     if len(self) > 1:
         title += " (in last sweep)"
         data = sorted(((-float("%+6.2g" % s[-1]), str(c)),
-                       "%+6.2g" % s[-1], id(c), c)
-                      for c, s in self["sensitivities"]["constraints"].items()
+                       "%+6.2g" % s[-1], i, c)
+                      for i, (c, s) in enumerate(constraint_senss)
                       if s[-1] >= tight_senss)[:ntightconstrs]
     else:
-        data = sorted(((-float("%+6.2g" % s), str(c)), "%+6.2g" % s, id(c), c)
-                      for c, s in self["sensitivities"]["constraints"].items()
+        data = sorted(((-float("%+6.2g" % s), str(c)), "%+6.2g" % s, i, c)
+                      for i, (c, s) in enumerate(constraint_senss)
                       if s >= tight_senss)[:ntightconstrs]
     return constraint_table(data, title, **kwargs)
 
@@ -159,15 +160,16 @@ def loose_table(self, _, min_senss=1e-5, **kwargs):
     "Return constraint tightness lines"
     if "constraints" not in self["sensitivities"]:
         return []  # the solution was saved without them
+    constraint_senss = self["sensitivities"]["constraints"].items()
     title = "Insensitive Constraints |below %+g|" % min_senss
     if len(self) > 1:
         title += " (in last sweep)"
-        data = [(0, "", id(c), c)
-                for c, s in self["sensitivities"]["constraints"].items()
+        data = [(0, "", i, c)
+                for i, (c, s) in enumerate(constraint_senss)
                 if s[-1] <= min_senss]
     else:
-        data = [(0, "", id(c), c)
-                for c, s in self["sensitivities"]["constraints"].items()
+        data = [(0, "", i, c)
+                for i, (c, s) in enumerate(constraint_senss)
                 if s <= min_senss]
     return constraint_table(data, title, **kwargs)
 
@@ -236,7 +238,7 @@ def constraint_table(data, title, sortbymodel=True, showmodels=True, **_):
     return [title] + ["-"*len(title)] + lines + [""]
 
 
-def warning_row(warning, sortattr, strattr, strfmt):
+def warning_row(warning, sortattr, strattr, strfmt, i):
     "Makes the data of a constraint_table line from a constraint's warning"
     _, constraint = warning
     if getattr(warning, "shown", None):
@@ -244,7 +246,7 @@ def warning_row(warning, sortattr, strattr, strfmt):
     else:  # pickled by an earlier version, which stored them on the constraint
         sortval = getattr(constraint, sortattr)
         string = strfmt % getattr(constraint, strattr)
-    return (-int(1e5*sortval), string, id(constraint), constraint)
+    return (-int(1e5*sortval), string, i, constraint)
 
 
 def warnings_table(self, _, **kwargs):
@@ -266,13 +268,13 @@ def warnings_table(self, _, **kwargs):
                 title += " in sweep %i" % i
             if wtype == "Unexpectedly Tight Constraints" and data[0][1]:
                 data = [warning_row(w, "relax_sensitivity",
-                                    "relax_sensitivity", "%+6.2g")
-                        for w in data]
+                                    "relax_sensitivity", "%+6.2g", i)
+                        for i, w in enumerate(data)]
                 lines += constraint_table(data, title, **kwargs)
             elif wtype == "Unexpectedly Loose Constraints" and data[0][1]:
                 data = [warning_row(w, "rel_diff",
-                                    "tightvalues", "%.4g %s %.4g")
-                        for w in data]
+                                    "tightvalues", "%.4g %s %.4g", i)
+                        for i, w in enumerate(data)]
                 lines += constraint_table(data, title, **kwargs)
             else:
                 lines += [title] + ["-"*len(wtype)]
-- 
2.43.0


From a5421c879bfe02faef160321c92889d4e4d6fc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 065/105] fix: almost_equal of solutions with vectors, sweeps,
 or unused constants

---
 gpkit/solution_array.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 8c567be..1ba0281 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -393,10 +393,14 @@ class SolutionArray(DictOfLists):
         if svks != ovks:
             return False
         for key in svks:
-            if abs(cast(np.divide, svars[key], ovars[key]) - 1) >= reltol:
+            reldiff = abs(cast(np.divide, svars[key], ovars[key]) - 1)
+            if np.any(reldiff >= reltol):
                 return False
-            if abs(self["sensitivities"]["variables"][key]
-                   - other["sensitivities"]["variables"][key]) >= sens_abstol:
+            # constants may have no sensitivity, e.g. in trivial constraints
+            sensdiff = abs(cast(
+                sub, self["sensitivities"]["variables"].get(key, 0),
+                other["sensitivities"]["variables"].get(key, 0)))
+            if np.any(sensdiff >= sens_abstol):
                 return False
         return True
 
-- 
2.43.0


From b61507445f34a80ac7f2c6001de706d9158ee27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:23 +0000
Subject: [PATCH 066/105] fix: diffs of sweeps compared vectors to the wrong
 points

---
 gpkit/solution_array.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 1ba0281..b6058bf 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -311,16 +311,8 @@ def cast(function, val1, val2):
     "Relative difference between val1 and val2 (positive if val2 is larger)"
     with pywarnings.catch_warnings():  # skip those pesky divide-by-zeros
         pywarnings.simplefilter("ignore")
-        if hasattr(val1, "shape") and hasattr(val2, "shape"):
-            if val1.ndim == val2.ndim:
-                return function(val1, val2)
-            lessdim, dimmest = sorted([val1, val2], key=lambda v: v.ndim)
-            dimdelta = dimmest.ndim - lessdim.ndim
-            add_axes = (slice(None),)*lessdim.ndim + (np.newaxis,)*dimdelta
-            if dimmest is val1:
-                return function(dimmest, lessdim[add_axes])
-            if dimmest is val2:
-                return function(lessdim[add_axes], dimmest)
+        # a sweep's values are compared, at each of its points, to those of a
+        # single solution: sweeps come first in shapes, so numpy aligns them
         return function(val1, val2)
 
 
-- 
2.43.0


From 9b10a086714b10081728ac678012dc0f21c6e3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:43 +0000
Subject: [PATCH 067/105] fix: diffs listed variables in an order which
 depended on the hash seed

---
 gpkit/solution_array.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index b6058bf..55b83df 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -460,14 +460,16 @@ class SolutionArray(DictOfLists):
         if svks - ovks:
             lines.append("Variable(s) of this solution"
                          " which are not in the argument:")
-            lines.append("\n".join("  %s" % key for key in svks - ovks))
+            lines.append("\n".join("  %s" % key for key in svars
+                                   if key in svks - ovks))
             lines.append("")
         if ovks - svks:
             lines.append("Variable(s) of the argument"
                          " which are not in this solution:")
-            lines.append("\n".join("  %s" % key for key in ovks - svks))
+            lines.append("\n".join("  %s" % key for key in ovars
+                                   if key in ovks - svks))
             lines.append("")
-        sharedvks = svks.intersection(ovks)
+        sharedvks = [vk for vk in svars if vk in svks and vk in ovks]
         if reldiff:
             rel_diff = {vk: 100*(cast(np.divide, svars[vk], ovars[vk]) - 1)
                         for vk in sharedvks}
@@ -491,7 +493,7 @@ class SolutionArray(DictOfLists):
             ssenss = self["sensitivities"]["variables"]
             osenss = other["sensitivities"]["variables"]
             senss_delta = {vk: cast(sub, ssenss[vk], osenss[vk])
-                           for vk in svks.intersection(ovks)}
+                           for vk in sharedvks}
             lines += var_table(senss_delta,
                                "Sensitivity Differences |above %g|" % sensstol,
                                valfmt="%+-.2f  ", vecfmt="%+-6.2f",
-- 
2.43.0


From 0ecc212df3b9e58a431af7bab765e65737a04027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:08 +0000
Subject: [PATCH 068/105] fix: reporting on variables a solution lacks made it
 contain them

---
 gpkit/solution_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 55b83df..fd43436 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -652,8 +652,8 @@ class SolutionArray(DictOfLists):
         showvars_out = set()
         for k in showvars:
             k, _ = self["variables"].parse_and_index(k)
-            keys = self["variables"].keymap[k]
-            showvars_out.update(keys)
+            # not keymap[k], which would add an entry for missing keys
+            showvars_out.update(self["variables"].keymap.get(k, ()))
         return showvars_out
 
     def summary(self, showvars=(), ntopsenss=5, **kwargs):
-- 
2.43.0


From 1e406a74bd69747bb0dc5dfc17c964af54556c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:27 +0000
Subject: [PATCH 069/105] fix: diffs of solutions with unused constants or no
 variables in common

---
 gpkit/solution_array.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index fd43436..8081b7d 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -477,7 +477,7 @@ class SolutionArray(DictOfLists):
                                "Relative Differences |above %g%%|" % reltol,
                                valfmt="%+.1f%%  ", vecfmt="%+6.1f%% ",
                                minval=reltol, printunits=False, **tableargs)
-            if lines[-2][:10] == "-"*10:  # nothing larger than sensstol
+            if sharedvks and lines[-2][:10] == "-"*10:  # nothing larger
                 lines.insert(-1, ("The largest is %+g%%."
                                   % unrolled_absmax(rel_diff.values())))
         if absdiff:
@@ -486,19 +486,20 @@ class SolutionArray(DictOfLists):
                                "Absolute Differences |above %g|" % abstol,
                                valfmt="%+.2g", vecfmt="%+8.2g",
                                minval=abstol, **tableargs)
-            if lines[-2][:10] == "-"*10:  # nothing larger than sensstol
+            if sharedvks and lines[-2][:10] == "-"*10:  # nothing larger
                 lines.insert(-1, ("The largest is %+g."
                                   % unrolled_absmax(abs_diff.values())))
         if senssdiff:
             ssenss = self["sensitivities"]["variables"]
             osenss = other["sensitivities"]["variables"]
-            senss_delta = {vk: cast(sub, ssenss[vk], osenss[vk])
+            # constants may have no sensitivity, e.g. in trivial constraints
+            senss_delta = {vk: cast(sub, ssenss.get(vk, 0), osenss.get(vk, 0))
                            for vk in sharedvks}
             lines += var_table(senss_delta,
                                "Sensitivity Differences |above %g|" % sensstol,
                                valfmt="%+-.2f  ", vecfmt="%+-6.2f",
                                minval=sensstol, printunits=False, **tableargs)
-            if lines[-2][:10] == "-"*10:  # nothing larger than sensstol
+            if sharedvks and lines[-2][:10] == "-"*10:  # nothing larger
                 lines.insert(-1, ("The largest is %+g."
                                   % unrolled_absmax(senss_delta.values())))
         return "\n".join(lines)
-- 
2.43.0


From 461cc828101fc22f4a0f055da2bd78c97e66c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 070/105] fix: diffs of constants which are zero, and lookups
 of names in tables

---
 gpkit/solution_array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 8081b7d..0a7cfe1 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -298,6 +298,7 @@ def unrolled_absmax(values):
     "From an iterable of numbers and arrays, returns the largest magnitude"
     finalval, absmaxest = None, 0
     for val in values:
+        val = np.where(np.isnan(val), 0, val)  # e.g. of zeros in both
         absmaxval = np.abs(val).max()
         if absmaxval >= absmaxest:
             absmaxest, finalval = absmaxval, val
@@ -362,7 +363,8 @@ class SolutionArray(DictOfLists):
             self._name_collision_varkeys = set()
             for key in list(keymap):
                 if hasattr(key, "key"):
-                    if len(keymap[key.str_without(["lineage", "vec"])]) > 1:
+                    name = key.str_without(["lineage", "vec"])
+                    if len(keymap.get(name, ())) > 1:
                         self._name_collision_varkeys.add(key)
         return self._name_collision_varkeys
 
-- 
2.43.0


From b92a7aca0b625a523216c46ef80646be211ca738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 071/105] fix: strings made within tables were reused outside
 of them

---
 gpkit/repr_conventions.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 2a43fcd..cc3f5f9 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -27,15 +27,20 @@ def lineagestr(lineage, modelnums=True):
                      for name, num in lineage]) if lineage else ""
 
 
+NECESSARY_LINEAGES = []  # varkeys now showing their lineage
+
+
 @contextmanager
 def necessary_lineage(keys):
     "Within this context these keys show their lineage even if unnecessary."
     keys = [key for key in keys if not key.necessarylineage]
     try:
+        NECESSARY_LINEAGES.extend(keys)
         for key in keys:
             key.descr["necessarylineage"] = True
         yield
     finally:
+        del NECESSARY_LINEAGES[len(NECESSARY_LINEAGES)-len(keys):]
         for key in keys:
             key.descr.pop("necessarylineage", None)
 
@@ -107,7 +112,9 @@ class ReprMixin:
         "Turns the AST of this object's construction into a faithful string"
         if self.cached_strs is None:
             self.cached_strs = {}
-        elif frozenset(excluded) in self.cached_strs:
+        # strings which show necessary lineages are only right in that context
+        uncached = NECESSARY_LINEAGES and "unnecessary lineage" in excluded
+        if not uncached and frozenset(excluded) in self.cached_strs:
             return self.cached_strs[frozenset(excluded)]
         aststr = None
         oper, values = self.ast  # pylint: disable=unpacking-non-sequence
@@ -181,7 +188,8 @@ class ReprMixin:
             aststr = "%s[%s]" % (left, idx)
         else:
             raise ValueError(oper)
-        self.cached_strs[frozenset(excluded)] = aststr
+        if not uncached:
+            self.cached_strs[frozenset(excluded)] = aststr
         return aststr
 
     def __repr__(self):
-- 
2.43.0


From a251769b6aa417a2bc64f8b85ca9353e2a817bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:05 +0000
Subject: [PATCH 072/105] fix: echoed solver output lost its newlines; sweeps
 depended on interned strings

---
 gpkit/small_classes.py | 3 +--
 gpkit/small_scripts.py | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index 95cab94..58833f1 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -75,8 +75,7 @@ class SolverLog(list):
     def write(self, writ):
         "Append and potentially write the new line."
         if writ != "\n":
-            writ = writ.rstrip("\n")
-            self.append(str(writ))
+            self.append(str(writ.rstrip("\n")))
         if self.verbosity > 0:  # pragma: no cover
             self.output.write(writ)
 
diff --git a/gpkit/small_scripts.py b/gpkit/small_scripts.py
index 09f5c46..7159a9e 100644
--- a/gpkit/small_scripts.py
+++ b/gpkit/small_scripts.py
@@ -61,8 +61,8 @@ def splitsweep(sub):
     "Splits a substitution into (is_sweepvar, sweepval)"
     try:
         sweep, value = sub
-        if sweep is "sweep" and (isinstance(value, Iterable) or  # pylint: disable=literal-comparison
-                                 hasattr(value, "__call__")):
+        if isinstance(sweep, str) and sweep == "sweep" and (
+                isinstance(value, Iterable) or hasattr(value, "__call__")):
             return True, value
     except (TypeError, ValueError):
         pass
-- 
2.43.0


From 3fb519379df0c3253419d337a6d91c2830e9d45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 073/105] fix: bounded variables were ordered by hash

---
 gpkit/constraints/bounded.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/bounded.py b/gpkit/constraints/bounded.py
index 8f87eda..dbea3a8 100644
--- a/gpkit/constraints/bounded.py
+++ b/gpkit/constraints/bounded.py
@@ -60,8 +60,10 @@ class Bounded(ConstraintSet):
         self.lowerbound = lower or eps
         self.upperbound = upper or 1/eps
         constrained_varkeys = constraints.constrained_varkeys()
-        self.bound_varkeys = frozenset(vk for vk in constrained_varkeys
-                                       if vk not in constraints.substitutions)
+        # ordered, so that each process bounds and reports them in that order
+        self.bound_varkeys = sorted((vk for vk in constrained_varkeys
+                                     if vk not in constraints.substitutions),
+                                    key=lambda vk: vk.eqstr)
         bounding_constraints = varkey_bounds(self.bound_varkeys,
                                              self.lowerbound, self.upperbound)
         super().__init__({"original constraints": constraints,
@@ -94,7 +96,8 @@ class Bounded(ConstraintSet):
                 if np.log(self.upperbound/value) <= self.logtol_threshold:
                     out["value near " + bound].add(varkey)
         for bound, vks in out.items():
-            msg = "% 34s: %s" % (bound, ", ".join([str(v) for v in vks]))
+            msg = "% 34s: %s" % (bound, ", ".join(
+                str(v) for v in self.bound_varkeys if v in vks))
             appendsolwarning(msg, out, result,
                              "Arbitrarily Bounded Variables")
         return out
-- 
2.43.0


From 0f3c99d16121ce1b89be9cc8e718c631650611cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 074/105] fix: tables of swept matrices mixed up their rows

---
 gpkit/solution_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 0a7cfe1..ff22e4e 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -863,8 +863,8 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
                 if ncols <= dim_size <= maxcolumns:
                     horiz_dim, ncols = dim_idx, dim_size
             # align the array with horiz_dim by making it the last one
-            dim_order = list(range(last_dim_index))
-            dim_order.insert(horiz_dim, last_dim_index)
+            dim_order = list(range(last_dim_index + 1))
+            dim_order.append(dim_order.pop(horiz_dim))
             flatval = val.transpose(dim_order).flatten()
             vals = [vecfmt % v for v in flatval[:ncols]]
             bracket = " ] " if len(flatval) <= ncols else ""
-- 
2.43.0


From 5ac8ee315a3a5f3c562758af0f732daeebdd09c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:38 +0000
Subject: [PATCH 075/105] fix: powers of posynomials were printed as ^0, and
 zeroth powers failed

---
 gpkit/nomials/math.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 1d15035..68ccb11 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -236,10 +236,9 @@ class Signomial(Nomial):
 
     def __pow__(self, expo):
         if isinstance(expo, int) and expo >= 0:
-            p = 1
-            while expo > 0:
+            p = Monomial(1)
+            for _ in range(expo):
                 p *= self
-                expo -= 1
             p.ast = ("pow", (self, expo))
             return p
         return NotImplemented
-- 
2.43.0


From 7566679c2ece9794643dddd7ea6787ad9873598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:56 +0000
Subject: [PATCH 076/105] fix: parentheses were left out between two
 parenthesized terms

---
 gpkit/repr_conventions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index cc3f5f9..6259173 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -6,7 +6,7 @@ import numpy as np
 from .small_classes import Quantity, Numbers
 from .small_scripts import try_str_without
 
-INSIDE_PARENS = re.compile(r"\(.*\)")
+INSIDE_PARENS = re.compile(r"\([^()]*\)")  # the innermost ones
 
 if sys.platform[:3] == "win":  # pragma: no cover
     MUL = "*"
@@ -91,7 +91,9 @@ def strify(val, excluded):
 
 def parenthesize(string, addi=True, mult=True):
     "Parenthesizes a string if it needs it and isn't already."
-    parensless = string if "(" not in string else INSIDE_PARENS.sub("", string)
+    parensless, previous = string, None
+    while parensless != previous:
+        previous, parensless = parensless, INSIDE_PARENS.sub("", parensless)
     bare_addi = (" + " in parensless or " - " in parensless)
     bare_mult = ("·" in parensless or "/" in parensless)
     if parensless and (addi and bare_addi) or (mult and bare_mult):
@@ -148,6 +150,8 @@ class ReprMixin:
         elif oper == "pow":
             left = parenthesize(strify(values[0], excluded))
             x = values[1]
+            if left[0] == "-":
+                left = "(%s)" % left
             if left == "1":
                 aststr = "1"
             elif (UNICODE_EXPONENTS and not getattr(x, "shape", None)
-- 
2.43.0


From da2e6399c25376dad09606bee979e484a7e94035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:41 +0000
Subject: [PATCH 077/105] fix: programs, results and messages were ordered by
 hash

---
 gpkit/constraints/costed.py   |  4 +++-
 gpkit/constraints/gp.py       | 15 +++++++--------
 gpkit/constraints/model.py    | 21 +++++++++++----------
 gpkit/constraints/set.py      | 12 ++++++++----
 gpkit/nomials/map.py          |  4 ++--
 gpkit/nomials/math.py         |  4 ++--
 gpkit/nomials/substitution.py | 14 ++++++++------
 gpkit/varkey.py               |  5 +++++
 8 files changed, 46 insertions(+), 33 deletions(-)

diff --git a/gpkit/constraints/costed.py b/gpkit/constraints/costed.py
index 62eed1c..3dbed1a 100644
--- a/gpkit/constraints/costed.py
+++ b/gpkit/constraints/costed.py
@@ -1,6 +1,7 @@
 "Implement CostedConstraintSet"
 import numpy as np
 from .set import ConstraintSet
+from ..varkey import varkey_order
 from ..small_scripts import maybe_flatten
 from ..repr_conventions import lineagestr
 
@@ -20,7 +21,8 @@ class CostedConstraintSet(ConstraintSet):
         self.cost = maybe_flatten(cost)
         if isinstance(self.cost, np.ndarray):  # if it's still a vector
             raise ValueError("Cost must be scalar, not the vector %s." % cost)
-        subs = {k: k.value for k in self.cost.vks if "value" in k.descr}
+        subs = {k: k.value for k in sorted(self.cost.vks, key=varkey_order)
+                if "value" in k.descr}
         if substitutions:
             subs.update(substitutions)
         ConstraintSet.__init__(self, constraints, subs, bonusvks=self.cost.vks)
diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index f181e89..94409ae 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -484,12 +484,11 @@ def fulfill_meq_bounds(missingbounds, meq_bounds):
                     break
     for (var, bound) in meq_bounds:
         boundstr = (", but would gain it from any of these sets: ")
-        for condition in list(meq_bounds[(var, bound)]):
-            meq_bounds[(var, bound)].remove(condition)
-            newcond = condition.intersection(missingbounds)
-            if newcond and not any(c.issubset(newcond)
-                                   for c in meq_bounds[(var, bound)]):
-                meq_bounds[(var, bound)].add(newcond)
-        boundstr += " or ".join(str(list(condition))
-                                for condition in meq_bounds[(var, bound)])
+        newconds = {condition.intersection(missingbounds)
+                    for condition in meq_bounds[(var, bound)]} - {frozenset()}
+        meq_bounds[(var, bound)] = {c for c in newconds
+                                    if not any(other < c for other in newconds)}
+        boundstr += " or ".join(sorted(
+            str(sorted(condition, key=str))
+            for condition in meq_bounds[(var, bound)]))
         missingbounds[(var, bound)] = boundstr
diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 0bd2c01..179eff8 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -10,6 +10,7 @@ from ..exceptions import InvalidGPConstraint
 from .. import NamedVariables
 from ..tools.docstring import expected_unbounded
 from .set import add_meq_bounds
+from ..varkey import varkey_order
 from ..exceptions import Infeasible
 
 
@@ -89,7 +90,8 @@ class Model(CostedConstraintSet):
         unexp_bounds = bounded.intersection(exp_unbounds)
         if unexp_bounds:  # anything bounded that shouldn't be? err!
             for direction in ["lower", "upper"]:
-                badvks = [v for v, d in unexp_bounds if d == direction]
+                badvks = sorted((v for v, d in unexp_bounds if d == direction),
+                                key=varkey_order)
                 if not badvks:
                     continue
                 badvks = ", ".join(str(v) for v in badvks)
@@ -101,18 +103,17 @@ class Model(CostedConstraintSet):
         add_meq_bounds(bounded, meq_bounded)  # and add more meqs
         self.missingbounds = {}  # now let's figure out what's missing
         for bound in meq_bounded:  # first add the un-dealt-with meq bounds
-            for condition in list(meq_bounded[bound]):
-                meq_bounded[bound].remove(condition)
-                newcond = condition - bounded
-                if newcond and not any(c.issubset(newcond)
-                                       for c in meq_bounded[bound]):
-                    meq_bounded[bound].add(newcond)
-            bsets = " or ".join(str(list(c)) for c in meq_bounded[bound])
+            newconds = {condition - bounded for condition
+                        in meq_bounded[bound]} - {frozenset()}
+            meq_bounded[bound] = {c for c in newconds
+                                  if not any(other < c for other in newconds)}
+            bsets = " or ".join(sorted(str(sorted(c, key=str))
+                                       for c in meq_bounded[bound]))
             self.missingbounds[bound] = (", but would gain it from any of"
                                          " these sets of bounds: " + bsets)
         # then add everything that's not in bounded
         if len(bounded)+len(self.missingbounds) != 2*len(self.varkeys):
-            for key in self.varkeys:
+            for key in sorted(self.varkeys, key=varkey_order):
                 for bound in ("upper", "lower"):
                     if (key, bound) not in bounded:
                         if (key, bound) not in self.missingbounds:
@@ -131,7 +132,7 @@ class Model(CostedConstraintSet):
 %s Unbounded
 ---------------
 %s
-""" % (direction.title(), ", ".join(set(k.name for k in mb)))
+""" % (direction.title(), ", ".join(sorted(set(k.name for k in mb))))
             raise ValueError(err + boundstrs + "\n\n" + docstring)
 
     def sweep(self, sweeps, **solveargs):
diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index 769add5..b9714f4 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -4,6 +4,7 @@ from collections import defaultdict, OrderedDict
 from itertools import chain
 import numpy as np
 from ..keydict import KeySet, KeyDict
+from ..varkey import varkey_order
 from ..small_scripts import try_str_without
 from ..repr_conventions import ReprMixin, necessary_lineage
 from .single_equation import SingleEquationConstraint
@@ -74,8 +75,9 @@ class ConstraintSet(list, ReprMixin):
             constraints = [constraints]  # put it one level down
         list.__init__(self, constraints)
         self.vks = set(self.unique_varkeys)
-        self.substitutions = KeyDict({k: k.value for k in self.unique_varkeys
-                                      if "value" in k.descr})
+        self.substitutions = KeyDict({
+            k: k.value for k in sorted(self.unique_varkeys, key=varkey_order)
+            if "value" in k.descr})
         self.substitutions.cset = self
         self.bounded, self.meq_bounded = set(), defaultdict(set)
         for i, constraint in enumerate(self):
@@ -117,7 +119,8 @@ class ConstraintSet(list, ReprMixin):
             self.substitutions.update(constraint.substitutions)
         else:
             self.substitutions.update({k: k.value \
-                for k in constraint.vks if "value" in k.descr})
+                for k in sorted(constraint.vks, key=varkey_order)
+                if "value" in k.descr})
         self.bounded.update(constraint.bounded)
         for bound, solutionset in constraint.meq_bounded.items():
             self.meq_bounded[bound].update(solutionset)
@@ -187,7 +190,8 @@ class ConstraintSet(list, ReprMixin):
         for constraint in self.flat(yield_if_hasattr="process_result"):
             if hasattr(constraint, "process_result"):
                 constraint.process_result(result)
-        evalfn_vars = {v.veckey or v for v in self.unique_varkeys
+        evalfn_vars = {v.veckey or v: None  # an ordered set
+                       for v in sorted(self.unique_varkeys, key=varkey_order)
                        if v.evalfn and v not in result["variables"]}
         for v in evalfn_vars:
             val = v.evalfn(result["variables"])
diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 3a216e2..cd6f1c3 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -117,14 +117,14 @@ class NomialMap(HashVector):
         cp.units = self.units
         # csmap is modified during substitution, but keeps the same exps
         cp.expmap, cp.csmap = {}, self.copy()
-        varlocs = defaultdict(set)
+        varlocs = defaultdict(list)
         for exp, c in self.items():
             new_exp = exp.copy()
             cp.expmap[exp] = new_exp  # cp modifies exps, so it needs new ones
             cp[new_exp] = c
             for vk in new_exp:
                 if vk in fixed:
-                    varlocs[vk].add((exp, new_exp))
+                    varlocs[vk].append((exp, new_exp))
 
         squished = set()
         for vk in varlocs:
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 68ccb11..54ab02b 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -8,7 +8,7 @@ from ..constraints import SingleEquationConstraint
 from ..globals import SignomialsEnabled
 from ..small_classes import Numbers
 from ..small_classes import HashVector, EMPTY_HV
-from ..varkey import VarKey
+from ..varkey import VarKey, varkey_order
 from ..small_scripts import mag
 from ..exceptions import (InvalidGPConstraint, InvalidPosynomial,
                           PrimalInfeasible, DimensionalityError)
@@ -120,7 +120,7 @@ class Signomial(Nomial):
                              " into %s" % (psub, x0, self))
         c0, = psub.values()
         c, exp = c0, HashVector()
-        for vk in self.vks:
+        for vk in sorted(self.vks, key=varkey_order):
             val = float(x0[vk])
             diff, = self.hmap.diff(vk).sub(x0, self.vks,
                                            parsedsubs=True).values()
diff --git a/gpkit/nomials/substitution.py b/gpkit/nomials/substitution.py
index 376586b..84228ab 100644
--- a/gpkit/nomials/substitution.py
+++ b/gpkit/nomials/substitution.py
@@ -3,13 +3,14 @@ import warnings as pywarnings
 import numpy as np
 from ..small_scripts import splitsweep
 from ..keydict import KeySet
+from ..varkey import varkey_order
 
 
 def parse_subs(varkeys, substitutions, clean=False):
     "Seperates subs into the constants, sweeps, linkedsweeps actually present."
     constants, sweep, linkedsweep = {}, {}, {}
     if clean:
-        for var in varkeys:
+        for var in sorted(varkeys, key=varkey_order):
             if dict.__contains__(substitutions, var):
                 sub = dict.__getitem__(substitutions, var)
                 append_sub(sub, [var], constants, sweep, linkedsweep)
@@ -18,16 +19,17 @@ def parse_subs(varkeys, substitutions, clean=False):
             varkeys = KeySet(varkeys)
         varkeys.update_keymap()
         if hasattr(substitutions, "keymap"):
-            for var in varkeys.keymap:
-                if dict.__contains__(substitutions, var):
-                    sub = dict.__getitem__(substitutions, var)
-                    keys = varkeys.keymap[var]
+            # in the order of substitutions, as varkeys are a set
+            for var, sub in dict.items(substitutions):
+                if var in varkeys.keymap:
+                    keys = sorted(varkeys.keymap[var], key=varkey_order)
                     append_sub(sub, keys, constants, sweep, linkedsweep)
         else:
             for var in substitutions:
                 key = getattr(var, "key", var)
                 if key in varkeys.keymap:
-                    sub, keys = substitutions[var], varkeys.keymap[key]
+                    sub = substitutions[var]
+                    keys = sorted(varkeys.keymap[key], key=varkey_order)
                     append_sub(sub, keys, constants, sweep, linkedsweep)
     return constants, sweep, linkedsweep
 
diff --git a/gpkit/varkey.py b/gpkit/varkey.py
index edd30d8..4750346 100644
--- a/gpkit/varkey.py
+++ b/gpkit/varkey.py
@@ -3,6 +3,11 @@ from .small_classes import Count, qty
 from .repr_conventions import ReprMixin
 
 
+def varkey_order(varkey):
+    "Sorts varkeys from sets, whose own order depends on their hashes"
+    return varkey.eqstr
+
+
 class VarKey(ReprMixin):  # pylint:disable=too-many-instance-attributes
     """An object to correspond to each 'variable name'.
 
-- 
2.43.0


From b93cdf3e153c02c95e815909f7513f7d8e6e1983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:06 +0000
Subject: [PATCH 078/105] fix: variables which differ in units only were listed
 by hash

---
 gpkit/constraints/set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index b9714f4..a68959a 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -28,7 +28,8 @@ def add_meq_bounds(bounded, meq_bounded):  #TODO: collapse with GP version?
 
 def _sort_by_name_and_idx(var):
     "return tuple for Variable sorting"
-    return (var.key.str_without(["units", "idx"]), var.key.idx or ())
+    return (var.key.str_without(["units", "idx"]), var.key.idx or (),
+            var.key.eqstr)
 
 def _sort_constraints(item):
     "return tuple for Constraint sorting"
-- 
2.43.0


From 99ece9a95c583435ce51d44af51c9c509dc9855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:06 +0000
Subject: [PATCH 079/105] fix: models solved while another is linked or solved
 changed its answer

---
 gpkit/constraints/prog_factories.py | 38 +++++++++++++++++++----------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index f6a6b2a..2d90d94 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -11,10 +11,17 @@ from ..exceptions import Infeasible
 
 def evaluate_linked(constants, linked):
     "Evaluates the values and gradients of linked variables."
+    # set all at once, for evaluating a linked variable may solve other models
+    gradients = link(constants, linked) if linked else {}
     for v in constants:  # some may have been linked in an earlier solve
         v.descr.pop("gradients", None)
-    if not linked:
-        return
+    for v, gradient in gradients.items():
+        v.descr["gradients"] = gradient
+
+
+def link(constants, linked):
+    "Sets the values of linked variables and returns their gradients."
+    gradients = {}
     kdc = KeyDict({k: adnumber(maybe_flatten(v), k)
                    for k, v in constants.items()})
     kdc_plain = None
@@ -29,9 +36,9 @@ def evaluate_linked(constants, linked):
             else:
                 out = f(kdc)
             constants[v] = out.x
-            v.descr["gradients"] = {adn.tag: grad
-                                    for adn, grad in out.d().items()
-                                    if adn.tag}  # else it's user-created
+            gradients[v] = {adn.tag: grad
+                            for adn, grad in out.d().items()
+                            if adn.tag}  # else it's user-created
         except Exception as exception:  # pylint: disable=broad-except
             from .. import settings
             if settings.get("ad_errors_raise", None):
@@ -43,7 +50,8 @@ def evaluate_linked(constants, linked):
             if kdc_plain is None:
                 kdc_plain = KeyDict(constants)
             constants[v] = f(kdc_plain)
-            v.descr.pop("gradients", None)
+            gradients.pop(v, None)
+    return gradients
 
 
 def progify(program, return_attr=None):
@@ -102,16 +110,18 @@ def solvify(genfunction):
 
         # NOTE SIDE EFFECTS: self.program and self.solution set below
         if sweep:
-            run_sweep(genfunction, self, solution, skipsweepfailures,
-                      constants, sweep, linked, solver, verbosity, **solveargs)
+            program = run_sweep(genfunction, self, solution,
+                                skipsweepfailures, constants, sweep, linked,
+                                solver, verbosity, **solveargs)
         else:
-            self.program, progsolve = genfunction(self)
+            program, progsolve = genfunction(self)
+            self.program = program
             result = progsolve(solver, verbosity=verbosity, **solveargs)
             if solveargs.get("process_result", True):
                 self.process_result(result)
             solution.append(result)
         solution.to_arrays()
-        self.solution = solution
+        self.program, self.solution = program, solution
         return solution
     return solvefn
 
@@ -136,7 +146,8 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
         print("Sweeping over %i solves." % N_passes)
         tic = time()
 
-    self.program = []
+    # what's called meanwhile may solve this model, too
+    programs = self.program = []
     last_error = None
     for i in range(N_passes):
         # each program keeps its own constants
@@ -146,13 +157,13 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
         evaluate_linked(point, linked)
         try:  # a point may be found infeasible while making its program
             program, solvefn = genfunction(self, point)
-            self.program.append(program)  # NOTE: SIDE EFFECTS
+            programs.append(program)  # NOTE: SIDE EFFECTS
             result = solvefn(solver, verbosity=verbosity-1, **solveargs)
             if solveargs.get("process_result", True):
                 self.process_result(result)
             solution.append(result)
         except Infeasible as e:
-            last_error = e
+            last_error, self.program = e, programs
             if not skipsweepfailures:
                 raise RuntimeWarning(
                     "Sweep halted! Progress saved to m.program. To skip over"
@@ -180,3 +191,4 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
     if verbosity > 0:
         soltime = time() - tic
         print("Sweeping took %.3g seconds." % (soltime,))
+    return programs
-- 
2.43.0


From cb032a5b9ec647e392f0d6cd79fe7eb875a8a87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:06 +0000
Subject: [PATCH 080/105] fix: bounds and relaxations made within an
 environment were of its variables

---
 gpkit/constraints/bounded.py |  4 ++--
 gpkit/constraints/relax.py   | 10 ++++++----
 gpkit/globals.py             | 12 ++++++++++++
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/gpkit/constraints/bounded.py b/gpkit/constraints/bounded.py
index dbea3a8..9a326e9 100644
--- a/gpkit/constraints/bounded.py
+++ b/gpkit/constraints/bounded.py
@@ -1,7 +1,7 @@
 "Implements Bounded"
 from collections import defaultdict
 import numpy as np
-from .. import Variable
+from ..nomials import Variable
 from .set import ConstraintSet
 from ..small_scripts import appendsolwarning
 
@@ -22,7 +22,7 @@ def varkey_bounds(varkeys, lower, upper):
     """
     constraints = []
     for varkey in varkeys:
-        variable = Variable(**varkey.descr)
+        variable = Variable(varkey)  # whatever environment this is in
         if variable.units:  # non-dimensionalize the variable monomial
             variable.units = variable.hmap.units = None
         constraint = []
diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index b4ec305..7825daa 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -3,6 +3,8 @@ from .set import ConstraintSet
 from ..nomials import Variable, VectorVariable, parse_subs, NomialArray
 from ..keydict import KeyDict
 from .. import NamedVariables, SignomialsEnabled
+from ..globals import Unvectorized
+from ..varkey import VarKey
 from ..small_scripts import appendsolwarning, mag
 
 
@@ -84,7 +86,7 @@ class ConstraintsRelaxed(ConstraintSet):
         original_substitutions = original_constraints.substitutions
         # constraints may be nested, each one within gets its own relaxvar
         self.flat_constraints = list(original_constraints.flat())
-        with NamedVariables("Relax"):
+        with NamedVariables("Relax"), Unvectorized():
             self.relaxvars = VectorVariable(len(self.flat_constraints), "C")
 
         with SignomialsEnabled():
@@ -190,15 +192,15 @@ class ConstantsRelaxed(ConstraintSet):
             # make the relaxation variable, free to get as large as it needs
             relaxedd = newconstd.copy()
             relaxedd["unitrepr"] = "-"  # and unitless, importantly
-            relaxvar = Variable(**relaxedd)
+            relaxvar = Variable(VarKey(**relaxedd))
             relaxvars.append(relaxvar)
             # the newly freed const can acquire a new value
             del substitutions[const]
-            freed = Variable(**const.descr)
+            freed = Variable(const)
             self.freedvars.append(freed)
             # becuase the make the newconst will take its old value
             newconstd["lineage"] += (("OriginalValues", 0),)
-            newconst = Variable(**newconstd)
+            newconst = Variable(VarKey(**newconstd))
             substitutions[newconst] = val
             self._derelax_map[newconst.key] = const
             # add constraints so the newly freed's wiggle room
diff --git a/gpkit/globals.py b/gpkit/globals.py
index 75f29da..416966f 100644
--- a/gpkit/globals.py
+++ b/gpkit/globals.py
@@ -118,3 +118,15 @@ class NamedVariables:
         "Leaves a named environment."
         del self.namedvars[self.lineage]
         NamedVariables.lineage = self.lineage[:-1]   # NOTE: Side effects
+
+
+class Unvectorized:
+    "Creates an environment in which variables are not vectorized."
+    def __enter__(self):
+        "Leaves any vectorized environment."
+        self.vectorization = Vectorize.vectorization
+        Vectorize.vectorization = ()
+
+    def __exit__(self, type_, val, traceback):
+        "Returns to that environment."
+        Vectorize.vectorization = self.vectorization
-- 
2.43.0


From 73877daed41c496db2e5609f50aa64def99c0470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:45 +0000
Subject: [PATCH 081/105] fix: the sensitivity to slack that isn't in the
 result was in that of its models

---
 gpkit/constraints/sgp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index cd71808..ec99cd0 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -11,6 +11,7 @@ from .gp import GeometricProgram
 from .set import ConstraintSet
 from ..nomials import PosynomialInequality, Posynomial
 from .. import NamedVariables
+from ..repr_conventions import lineagestr
 
 
 EPS = 1e-6  # 1 +/- this is used in a few relative differences
@@ -62,7 +63,9 @@ class SequentialGeometricProgram:
         if not use_pccp:
             self.slack = 1
         else:
-            self.gpconstraints.append(self.slack >= 1)
+            slackconstraint = self.slack >= 1
+            slackconstraint.lineage = self.slack.key.lineage
+            self.gpconstraints.append(slackconstraint)
         cost *= self.slack**pccp_penalty
         self.approxconstraints = []
         self.sgpvks = set()
@@ -195,6 +198,8 @@ solutions and can be solved with 'Model.solve()'.""")
                 del self.result["sensitivities"]["variables"][self.slack.key]  # pylint: disable=no-member
                 slackconstraint = self.gpconstraints[0]
                 del self.result["sensitivities"]["constraints"][slackconstraint]
+                self.result["sensitivities"]["models"].pop(
+                    lineagestr(self.slack.key), None)
             elif verbosity > -1:
                 pywarnings.warn(
                     "Final solution let signomial constraints slacken by"
-- 
2.43.0


From da0f2b7e3edfc07e341947eb388d391938a3b5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:29 +0000
Subject: [PATCH 082/105] fix: warnings of monomial equalities were printed as
 messages

Which form a category's warnings take in the table depended on whether its
first constraint is falsy, as monomial equalities are.
---
 gpkit/solution_array.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index ff22e4e..479d128 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -263,15 +263,16 @@ def warnings_table(self, _, **kwargs):
             if not data:
                 continue  # this point of the sweep had no such warnings
             data = sorted(data, key=lambda l: l[0])  # sort by msg
+            named = data[0][1] is not None  # (monomial equalities are falsy)
             title = wtype
             if len(data_vec) > 1:
                 title += " in sweep %i" % i
-            if wtype == "Unexpectedly Tight Constraints" and data[0][1]:
+            if wtype == "Unexpectedly Tight Constraints" and named:
                 data = [warning_row(w, "relax_sensitivity",
                                     "relax_sensitivity", "%+6.2g", i)
                         for i, w in enumerate(data)]
                 lines += constraint_table(data, title, **kwargs)
-            elif wtype == "Unexpectedly Loose Constraints" and data[0][1]:
+            elif wtype == "Unexpectedly Loose Constraints" and named:
                 data = [warning_row(w, "rel_diff",
                                     "tightvalues", "%.4g %s %.4g", i)
                         for i, w in enumerate(data)]
-- 
2.43.0


From 15c1eab5a52ca213ef043b11ccf78112e5e90044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:09 +0000
Subject: [PATCH 083/105] fix: boundedness was of one of the sets with the same
 bounds only

Several Bounded sets in a model overwrote each other's entries.
---
 gpkit/constraints/bounded.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/bounded.py b/gpkit/constraints/bounded.py
index 9a326e9..268b0f1 100644
--- a/gpkit/constraints/bounded.py
+++ b/gpkit/constraints/bounded.py
@@ -74,7 +74,9 @@ class Bounded(ConstraintSet):
         super().process_result(result)
         if "boundedness" not in result:
             result["boundedness"] = {}
-        result["boundedness"].update(self.check_boundaries(result))
+        for bound, vks in self.check_boundaries(result).items():
+            # other sets may have the same bounds
+            result["boundedness"].setdefault(bound, set()).update(vks)
 
     def check_boundaries(self, result):
         "Creates (and potentially prints) a dictionary of unbounded variables."
-- 
2.43.0


From 6f3640f0aa3c80a1f58eee34f7c727908ebf85fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:26 +0000
Subject: [PATCH 084/105] fix: derivatives lost the conversion of units which
 cancelled out

---
 gpkit/nomials/map.py  |  4 +---
 gpkit/nomials/math.py | 12 ++++++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index cd6f1c3..96eb5ad 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -67,10 +67,8 @@ class NomialMap(HashVector):
         return hmap
 
     def diff(self, varkey):
-        "Differentiates a NomialMap with respect to a varkey"
+        "The derivative, in units of self per those of the varkey"
         out = NomialMap()
-        out.units_of_product(self.units,
-                             1/varkey.units if varkey.units else None)
         for exp in self:
             if varkey in exp:
                 x = exp[varkey]
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 54ab02b..58ae9e3 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -82,6 +82,9 @@ class Signomial(Nomial):
             diff.units = None
         else:
             diff = self.hmap.diff(var)
+            # last, because units that cancel out convert the coefficients
+            diff.units_of_product(self.hmap.units,
+                                  1/var.units if var.units else None)
         return Signomial(diff, require_positive=False)
 
     def posy_negy(self):
@@ -636,6 +639,11 @@ class SignomialInequality(ScalarSingleEquationConstraint):
             assert not key  # constant
             return value
 
+        def diffval(posy, var):
+            "Substitute solution into the derivative of a posynomial"
+            diff = posy.hmap.diff(var).sub(result["variables"], posy.vks)
+            return sum(diff.values())
+
         self.v_ss = {}
         mons, negysig, coeffsigs, sigvars = hmap.signomial
         invnegy_val = 1/subval(negysig)
@@ -644,8 +652,8 @@ class SignomialInequality(ScalarSingleEquationConstraint):
             inv_mon_val = 1/subval(mon)
             coeff = coeffsigs[mon.exp]
             for var in sigvars[mon.exp]:
-                d_mon_d_var = (subval(coeff.diff(var))*invnegy_val
-                               - (subval(negysig.diff(var))
+                d_mon_d_var = (diffval(coeff, var)*invnegy_val
+                               - (diffval(negysig, var)
                                   * subval(coeff) * invnegy_val**2))
                 var_val = result["variables"][var]
                 sens = (nu_i*inv_mon_val*d_mon_d_var*var_val)
-- 
2.43.0


From a664277f4a5b25460a785762f4d88584c27c838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:03 +0000
Subject: [PATCH 085/105] fix: approximations about quantities, as in
 substitutions

---
 gpkit/nomials/map.py  | 20 ++++++++++++--------
 gpkit/nomials/math.py |  4 ++--
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 96eb5ad..6080629 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -126,14 +126,7 @@ class NomialMap(HashVector):
 
         squished = set()
         for vk in varlocs:
-            exps, cval = varlocs[vk], fixed[vk]
-            if hasattr(cval, "hmap"):
-                if cval.hmap is None or any(cval.hmap.keys()):
-                    raise ValueError("Monomial substitutions are not"
-                                     " supported.")
-                cval, = cval.hmap.to(vk.units or DIMLESS_QUANTITY).values()
-            elif hasattr(cval, "to"):
-                cval = cval.to(vk.units or DIMLESS_QUANTITY).magnitude
+            exps, cval = varlocs[vk], magnitude_for(vk, fixed[vk])
             for o_exp, exp in exps:
                 subinplace(cp, exp, o_exp, vk, cval, squished)
         return cp
@@ -165,6 +158,17 @@ class NomialMap(HashVector):
         return pmap
 
 
+def magnitude_for(vk, cval):
+    "Returns the magnitude, in the units of vk, of a value substituted for it"
+    if hasattr(cval, "hmap"):
+        if cval.hmap is None or any(cval.hmap.keys()):
+            raise ValueError("Monomial substitutions are not supported.")
+        cval, = cval.hmap.to(vk.units or DIMLESS_QUANTITY).values()
+    elif hasattr(cval, "to"):
+        cval = cval.to(vk.units or DIMLESS_QUANTITY).magnitude
+    return cval
+
+
 # pylint: disable=invalid-name
 def subinplace(cp, exp, o_exp, vk, cval, squished):
     "Modifies cp by substituing cval/expval for vk in exp"
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 58ae9e3..422cd63 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -12,7 +12,7 @@ from ..varkey import VarKey, varkey_order
 from ..small_scripts import mag
 from ..exceptions import (InvalidGPConstraint, InvalidPosynomial,
                           PrimalInfeasible, DimensionalityError)
-from .map import NomialMap
+from .map import NomialMap, magnitude_for
 from .substitution import parse_subs
 
 
@@ -124,7 +124,7 @@ class Signomial(Nomial):
         c0, = psub.values()
         c, exp = c0, HashVector()
         for vk in sorted(self.vks, key=varkey_order):
-            val = float(x0[vk])
+            val = float(magnitude_for(vk, x0[vk]))
             diff, = self.hmap.diff(vk).sub(x0, self.vks,
                                            parsedsubs=True).values()
             e = val*diff/c0
-- 
2.43.0


From fe67abfc0e2c7cc78bf60b56df8d1df5e5a397f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:32 +0000
Subject: [PATCH 086/105] fix: expressions whose terms all cancelled had no
 value

---
 gpkit/nomials/core.py  | 3 ++-
 gpkit/nomials/data.py  | 5 +++--
 gpkit/nomials/math.py  | 2 +-
 gpkit/small_classes.py | 2 +-
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/gpkit/nomials/core.py b/gpkit/nomials/core.py
index 9ab109c..fda1bce 100644
--- a/gpkit/nomials/core.py
+++ b/gpkit/nomials/core.py
@@ -65,7 +65,7 @@ class Nomial(NomialData):
             else:
                 cstr = [cstr] if (cstr != "1" or not varstrs) else []
                 mstrs.append(MUL.join(cstr + varstrs))
-        return " + ".join(sorted(mstrs)) + units
+        return " + ".join(sorted(mstrs) or ["0"]) + units
 
     def latex(self, excluded=()):  # TODO: add ast parsing here
         "Latex representation, parsing `excluded` just as .str_without does"
@@ -79,6 +79,7 @@ class Nomial(NomialData):
                     neg_vars.append((var.latex(excluded), x))
             mstrs.append(nomial_latex_helper(c, pos_vars, neg_vars))
 
+        mstrs = mstrs or ["0"]  # all terms cancelled out
         if "units" in excluded:
             return " + ".join(sorted(mstrs))
         units = self.unitstr(r"\mathrm{~\left[ %s \right]}", ":L~")
diff --git a/gpkit/nomials/data.py b/gpkit/nomials/data.py
index 29bb276..345b01d 100644
--- a/gpkit/nomials/data.py
+++ b/gpkit/nomials/data.py
@@ -2,6 +2,7 @@
 import numpy as np
 from ..keydict import KeySet
 from ..repr_conventions import ReprMixin
+from ..small_classes import EMPTY_HV
 from ..varkey import VarKey
 
 
@@ -29,14 +30,14 @@ class NomialData(ReprMixin):
     def exps(self):
         "Create exps or return cached exps"
         if self._exps is None:
-            self._exps = tuple(self.hmap.keys())
+            self._exps = tuple(self.hmap.keys() or [EMPTY_HV])
         return self._exps
 
     @property
     def cs(self):
         "Create cs or return cached cs"
         if self._cs is None:
-            self._cs = np.array(list(self.hmap.values()))
+            self._cs = np.array(list(self.hmap.values() or [0.]))
             if self.hmap.units:
                 self._cs = self._cs*self.hmap.units
         return self._cs
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 422cd63..a405e31 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -186,7 +186,7 @@ class Signomial(Nomial):
                 return Signomial(self.hmap)
             other_hmap = NomialMap({EMPTY_HV: mag(other)})
             other_hmap.units_of_product(other)
-        if other_hmap:
+        if other_hmap is not None:
             astorder = (self, other)
             if rev:
                 astorder = tuple(reversed(astorder))
diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index 58833f1..9d2236e 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -11,7 +11,7 @@ Numbers = (int, float, np.number, Quantity)
 class FixedScalarMeta(type):
     "Metaclass to implement instance checking for fixed scalars"
     def __instancecheck__(cls, obj):
-        return hasattr(obj, "hmap") and len(obj.hmap) == 1 and not obj.vks
+        return hasattr(obj, "hmap") and len(obj.hmap) <= 1 and not obj.vks
 
 
 class FixedScalar(metaclass=FixedScalarMeta):  # pylint: disable=no-init
-- 
2.43.0


From 8297973005aeaaa0a26c936a4ba4ee750ff6a38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:54 +0000
Subject: [PATCH 087/105] fix: sums of arrays with zeros in them

---
 gpkit/nomials/array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index b276f5a..b1a578d 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -10,7 +10,7 @@ from operator import eq, le, ge, xor
 from functools import reduce  # pylint: disable=redefined-builtin
 import numpy as np
 from .map import NomialMap
-from ..small_classes import HashVector, EMPTY_HV
+from ..small_classes import HashVector, EMPTY_HV, Numbers
 from ..small_scripts import try_str_without
 from ..constraints import ArrayConstraint
 from ..repr_conventions import ReprMixin
@@ -154,6 +154,8 @@ class NomialArray(ReprMixin, np.ndarray):
             return np.ndarray.sum(self, *args, **kwargs)
         hmap = NomialMap()
         for p in self.flat:  # pylint:disable=not-an-iterable
+            if isinstance(p, Numbers) and not p:
+                continue  # zeros may be added to anything
             if not hmap and hasattr(p, "units"):
                 hmap.units = p.units
             if hasattr(p, "hmap"):
-- 
2.43.0


From 286b181f1872c14bf9083c2cc8e1b968c709cc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:48 +0000
Subject: [PATCH 088/105] fix: arrays lost the units of quantities they were
 multiplied or compared with

---
 gpkit/nomials/array.py    | 22 +++++++++++++++++-----
 gpkit/nomials/math.py     |  2 +-
 gpkit/repr_conventions.py |  2 +-
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index b1a578d..ba2c758 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -10,7 +10,7 @@ from operator import eq, le, ge, xor
 from functools import reduce  # pylint: disable=redefined-builtin
 import numpy as np
 from .map import NomialMap
-from ..small_classes import HashVector, EMPTY_HV, Numbers
+from ..small_classes import HashVector, Quantity, EMPTY_HV, Numbers
 from ..small_scripts import try_str_without
 from ..constraints import ArrayConstraint
 from ..repr_conventions import ReprMixin
@@ -21,6 +21,17 @@ def vec_recurse(element, function, *args, **kwargs):
     return function(element, *args, **kwargs)
 
 
+def elementwise(other):
+    "Makes arrays of quantities, as numpy would strip their units"
+    if not isinstance(other, Quantity):
+        return other
+    magnitudes = np.asarray(other.magnitude, dtype="object")
+    out = np.empty(magnitudes.shape, dtype="object")
+    for idx in np.ndindex(magnitudes.shape):
+        out[idx] = Quantity(magnitudes[idx], other.units)
+    return out
+
+
 def array_constraint(symbol, func):
     "Return function which creates constraints of the given operator."
     vecfunc = np.vectorize(func)
@@ -28,7 +39,7 @@ def array_constraint(symbol, func):
     def wrapped_func(self, other):
         "Creates array constraint from vectorized operator."
         if not isinstance(other, NomialArray):
-            other = NomialArray(other)
+            other = NomialArray(elementwise(other))
         result = vecfunc(self, other)
         return ArrayConstraint(result, getattr(self, "key", self),
                                symbol, getattr(other, "key", other))
@@ -49,12 +60,13 @@ class NomialArray(ReprMixin, np.ndarray):
 
     def __mul__(self, other, *, reverse_order=False):
         astorder = (self, other) if not reverse_order else (other, self)
-        out = NomialArray(np.ndarray.__mul__(self, other))
+        out = NomialArray(np.ndarray.__mul__(self, elementwise(other)))
         out.ast = ("mul", astorder)
         return out
 
     def __truediv__(self, other):
-        out = NomialArray(np.ndarray.__truediv__(self, other))
+        out = np.ndarray.__truediv__(self, elementwise(other))
+        out = NomialArray(out)
         out.ast = ("div", (self, other))
         return out
 
@@ -65,7 +77,7 @@ class NomialArray(ReprMixin, np.ndarray):
 
     def __add__(self, other, *, reverse_order=False):
         astorder = (self, other) if not reverse_order else (other, self)
-        out = (np.ndarray.__add__(self, other))
+        out = (np.ndarray.__add__(self, elementwise(other)))
         out.ast = ("add", astorder)
         return out
 
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index a405e31..a4ac407 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -230,7 +230,7 @@ class Signomial(Nomial):
     def __truediv__(self, other):
         "Support the / operator in Python 2.x"
         if isinstance(other, Numbers):
-            out = self*other**-1
+            out = self*(1/other)
             out.ast = ("div", (self, other))
             return out
         if isinstance(other, Monomial):
diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 6259173..94767d2 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -67,7 +67,7 @@ def latex_unitstr(units):
 
 def strify(val, excluded):
     "Turns a value into as pretty a string as possible."
-    if isinstance(val, Numbers):
+    if isinstance(val, Numbers) and not getattr(val, "shape", None):
         isqty = hasattr(val, "magnitude")
         if isqty:
             units = val
-- 
2.43.0


From 96a81762175caf3cb2025f7ac08105716b54c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:14 +0000
Subject: [PATCH 089/105] fix: dimensionless units could not be added to
 numbers

---
 gpkit/nomials/map.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 6080629..c8745f4 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -59,8 +59,9 @@ class NomialMap(HashVector):
         "Adds NomialMaps together"
         if self.units != other.units:
             try:
-                other *= float(other.units/self.units)
-            except (TypeError, AttributeError):  # if one of those is None
+                other *= float((other.units or DIMLESS_QUANTITY)
+                               / (self.units or DIMLESS_QUANTITY))
+            except DimensionalityError:
                 raise DimensionalityError(self.units, other.units)
         hmap = HashVector.__add__(self, other)
         hmap.units = self.units
-- 
2.43.0


From 8c02ee4fd1cb81956aa9c93621965dbd21994da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 090/105] fix: powers of powers were written ambiguously

---
 gpkit/repr_conventions.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 94767d2..8ee4c7b 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -7,6 +7,7 @@ from .small_classes import Quantity, Numbers
 from .small_scripts import try_str_without
 
 INSIDE_PARENS = re.compile(r"\([^()]*\)")  # the innermost ones
+EXPONENTS = "²³⁴⁵⁶⁷⁸⁹"
 
 if sys.platform[:3] == "win":  # pragma: no cover
     MUL = "*"
@@ -89,14 +90,16 @@ def strify(val, excluded):
     return val
 
 
-def parenthesize(string, addi=True, mult=True):
+def parenthesize(string, addi=True, mult=True, expo=False):
     "Parenthesizes a string if it needs it and isn't already."
     parensless, previous = string, None
     while parensless != previous:
         previous, parensless = parensless, INSIDE_PARENS.sub("", parensless)
     bare_addi = (" + " in parensless or " - " in parensless)
     bare_mult = ("·" in parensless or "/" in parensless)
-    if parensless and (addi and bare_addi) or (mult and bare_mult):
+    bare_expo = "^" in parensless or parensless[-1:] in EXPONENTS
+    if parensless and ((addi and bare_addi) or (mult and bare_mult)
+                       or (expo and bare_expo)):
         return "(%s)" % string
     return string
 
@@ -148,7 +151,7 @@ class ReprMixin:
         elif oper == "neg":
             aststr = "-%s" % parenthesize(strify(values, excluded), mult=False)
         elif oper == "pow":
-            left = parenthesize(strify(values[0], excluded))
+            left = parenthesize(strify(values[0], excluded), expo=True)
             x = values[1]
             if left[0] == "-":
                 left = "(%s)" % left
@@ -164,11 +167,13 @@ class ReprMixin:
             else:
                 aststr = "%s^%s" % (left, x)
         elif oper == "prod":  # TODO: only do if it makes a shorter string
-            aststr = "%s.prod()" % parenthesize(strify(values[0], excluded))
+            aststr = "%s.prod()" % parenthesize(
+                strify(values[0], excluded), expo=True)
         elif oper == "sum":  # TODO: only do if it makes a shorter string
-            aststr = "%s.sum()" % parenthesize(strify(values[0], excluded))
+            aststr = "%s.sum()" % parenthesize(
+                strify(values[0], excluded), expo=True)
         elif oper == "index":  # TODO: label vectorization idxs
-            left = parenthesize(strify(values[0], excluded))
+            left = parenthesize(strify(values[0], excluded), expo=True)
             idx = values[1]
             if left[-3:] == "[:]":  # pure variable access
                 left = left[:-3]
-- 
2.43.0


From b4e12007aac4a6aeb222f0a1e17e42f61edb8b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 091/105] fix: quantities could not be subtracted from arrays

---
 gpkit/nomials/array.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index ba2c758..12edcc9 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -90,6 +90,12 @@ class NomialArray(ReprMixin, np.ndarray):
         out.ast = ("pow", (self, expo))
         return out
 
+    def __sub__(self, other):
+        return np.ndarray.__sub__(self, elementwise(other))
+
+    def __rsub__(self, other):
+        return np.ndarray.__rsub__(self, elementwise(other))
+
     def __neg__(self):
         out = (np.ndarray.__neg__(self))
         out.ast = ("neg", self)
-- 
2.43.0


From 4b7d56eab171f291b2d933248f006d42746be10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 092/105] fix: solutions refused to evaluate signomials

---
 gpkit/solution_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 479d128..826b7f5 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -650,7 +650,7 @@ class SolutionArray(DictOfLists):
             return NomialArray([self.atindex(i).subinto(posy)
                                 for i in range(len(self))])
 
-        return posy.sub(self["variables"])
+        return posy.sub(self["variables"], require_positive=False)
 
     def _parse_showvars(self, showvars):
         showvars_out = set()
-- 
2.43.0


From 6400a237881245ce1fbaf784094103ede25074a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:12 +0000
Subject: [PATCH 093/105] fix: signomials refused to tell their values

---
 gpkit/nomials/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/core.py b/gpkit/nomials/core.py
index fda1bce..71c6e97 100644
--- a/gpkit/nomials/core.py
+++ b/gpkit/nomials/core.py
@@ -97,7 +97,8 @@ class Nomial(NomialData):
         """
         if isinstance(self, FixedScalar):
             return self.cs[0]
-        p = self.sub({k: k.value for k in self.vks if "value" in k.descr})  # pylint: disable=not-callable
+        p = self.sub({k: k.value for k in self.vks if "value" in k.descr},  # pylint: disable=not-callable
+                     require_positive=False)
         return p.cs[0] if isinstance(p, FixedScalar) else p
 
     def __eq__(self, other):
-- 
2.43.0


From 7f7ce80b3b542be03b44bc696ac45c0ccf8ec5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:12 +0000
Subject: [PATCH 094/105] fix: solutions gave expressions in unknown variables
 their coefficients

---
 gpkit/solution_array.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 826b7f5..3b918d0 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -8,7 +8,7 @@ import gzip
 import pickletools
 import numpy as np
 from .nomials import NomialArray
-from .small_classes import DictOfLists, Strings
+from .small_classes import DictOfLists, FixedScalar, Strings
 from .small_scripts import mag, try_str_without
 from .repr_conventions import unitstr, lineagestr, necessary_lineage
 
@@ -379,7 +379,9 @@ class SolutionArray(DictOfLists):
 
     def __call__(self, posy):
         posy_subbed = self.subinto(posy)
-        return getattr(posy_subbed, "c", posy_subbed)
+        if isinstance(posy_subbed, FixedScalar):
+            return posy_subbed.value
+        return posy_subbed
 
     def almost_equal(self, other, reltol=1e-3, sens_abstol=0.01):
         "Checks for almost-equality between two solutions"
-- 
2.43.0


From 9fefc05a009d40258ff1046224aaa5427956a921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:26 +0000
Subject: [PATCH 095/105] fix: arrays lost their names and keys when pickled

---
 gpkit/nomials/array.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index 12edcc9..3e805d0 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -139,6 +139,17 @@ class NomialArray(ReprMixin, np.ndarray):
     def __array_finalize__(self, obj):
         "Finalizer. Required for objects inheriting from np.ndarray."
 
+    def __reduce__(self):
+        "Pickles attributes, such as the key of a variable, along with data."
+        constructor, args, state = np.ndarray.__reduce__(self)
+        return constructor, args, (state, self.__dict__)
+
+    def __setstate__(self, state):
+        if len(state) == 2:
+            state, attributes = state
+            self.__dict__.update(attributes)
+        np.ndarray.__setstate__(self, state)
+
     def __array_wrap__(self, out_arr, context=None):  # pylint: disable=arguments-differ
         """Called by numpy ufuncs.
         Special case to avoid creation of 0-dimensional arrays
-- 
2.43.0


From b88bdd2468d5d2782fbc43abd9f2edd7f56fc446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:32 +0000
Subject: [PATCH 096/105] fix: variables of the same name were shown as if they
 were one

Vectors in different models did not count as colliding names when printing
a model, their elements never showed the lineage in tables, and tables not
sorted by model showed no lineages at all.
---
 gpkit/constraints/set.py  |  7 +++++--
 gpkit/repr_conventions.py | 12 ++++--------
 gpkit/solution_array.py   |  3 ++-
 gpkit/varkey.py           |  8 +++++---
 4 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index a68959a..e34952b 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -209,9 +209,12 @@ class ConstraintSet(list, ReprMixin):
     def name_collision_varkeys(self):
         "Returns the set of contained varkeys whose names are not unique"
         if self._name_collision_varkeys is None:
+            named = defaultdict(set)
+            for key in self.varkeys:
+                named[key.name].add(key.veckey or key)
             self._name_collision_varkeys = {
-                key for key in self.varkeys
-                if len(self.varkeys[key.str_without(["lineage", "vec"])]) > 1}
+                key for keys in named.values() if len(keys) > 1
+                for key in keys}
         return self._name_collision_varkeys
 
     def lines_without(self, excluded):
diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 8ee4c7b..1d25297 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -28,22 +28,18 @@ def lineagestr(lineage, modelnums=True):
                      for name, num in lineage]) if lineage else ""
 
 
-NECESSARY_LINEAGES = []  # varkeys now showing their lineage
+NECESSARY_LINEAGES = set()  # varkeys now showing their lineage
 
 
 @contextmanager
 def necessary_lineage(keys):
     "Within this context these keys show their lineage even if unnecessary."
-    keys = [key for key in keys if not key.necessarylineage]
+    keys = set(keys) - NECESSARY_LINEAGES
     try:
-        NECESSARY_LINEAGES.extend(keys)
-        for key in keys:
-            key.descr["necessarylineage"] = True
+        NECESSARY_LINEAGES.update(keys)
         yield
     finally:
-        del NECESSARY_LINEAGES[len(NECESSARY_LINEAGES)-len(keys):]
-        for key in keys:
-            key.descr.pop("necessarylineage", None)
+        NECESSARY_LINEAGES.difference_update(keys)
 
 
 def unitstr(units, into="%s", options=UNIT_FORMATTING, dimless=""):
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 3b918d0..a215e67 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -821,7 +821,8 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
             msenss = np.mean(msenss)
         models.add(model)
         b = bool(getattr(v, "shape", None))
-        s = k.str_without(("lineage", "vec"))
+        s = k.str_without(("lineage" if sortbymodel else "unnecessary lineage",
+                           "vec"))
         if not sortbyvals:
             decorated.append((msenss, model, b, (varfmt % s), i, k, v))
         else:  # for consistent sorting, add small offset to negative vals
diff --git a/gpkit/varkey.py b/gpkit/varkey.py
index 4750346..8b4035e 100644
--- a/gpkit/varkey.py
+++ b/gpkit/varkey.py
@@ -1,6 +1,6 @@
 """Defines the VarKey class"""
 from .small_classes import Count, qty
-from .repr_conventions import ReprMixin
+from .repr_conventions import ReprMixin, NECESSARY_LINEAGES
 
 
 def varkey_order(varkey):
@@ -69,7 +69,8 @@ class VarKey(ReprMixin):  # pylint:disable=too-many-instance-attributes
         name = self.name
         if ("lineage" not in excluded and self.lineage
                 and ("unnecessary lineage" not in excluded
-                     or self.necessarylineage)):
+                     or self.necessarylineage
+                     or (self.veckey or self) in NECESSARY_LINEAGES)):
             name = self.lineagestr("modelnums" not in excluded) + "." + name
         if "idx" not in excluded:
             if self.idx:
@@ -98,7 +99,8 @@ class VarKey(ReprMixin):  # pylint:disable=too-many-instance-attributes
             name = "{%s}_{%s}" % (name, ",".join(map(str, self.idx)))
         if ("lineage" not in excluded and self.lineage
                 and ("unnecessary lineage" not in excluded
-                     or self.necessarylineage)):
+                     or self.necessarylineage
+                     or (self.veckey or self) in NECESSARY_LINEAGES)):
             name = "{%s}_{%s}" % (name,
                                   self.lineagestr("modelnums" not in excluded))
         return name
-- 
2.43.0


From e1469d3385ab7474ac109ba5838a29cd6ef06737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:16 +0000
Subject: [PATCH 097/105] fix: atindex did not index the cost sensitivities of
 some vector elements

---
 gpkit/small_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index 9d2236e..ed80ae8 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -156,6 +156,8 @@ def _index_dict(idx, d_in, d_out):
             d_out[k] = _index_dict(idx, v, v.__class__())
         else:
             shape = getattr(k, "shape", None)
+            if getattr(k, "idx", None):  # an element of a vector
+                shape = None
             if shape and getattr(v, "shape", None) == shape:
                 d_out[k] = v  # a vector with the same value in every solution
                 continue
-- 
2.43.0


From 5a444904093344df8342e3a9f6ffee876679647f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:34 +0000
Subject: [PATCH 098/105] fix: names of several variables, short vectors or
 elements were mistaken

A name several scalars share crashed in substitutions instead of being
refused; the name of a vector of which a model has one element meant that
element; and an element could be set but not deleted by name.
---
 gpkit/keydict.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 0e9fef8..a941228 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -75,9 +75,10 @@ class KeyMap:
         if key not in self.cset.varkeys:
             raise KeyError(key)
         newkey, *otherkeys = self.cset.varkeys[key]
-        if otherkeys:
+        if newkey.veckey and key in newkey.veckey.keys:  # names the vector
             if all(k.veckey == newkey.veckey for k in otherkeys):
                 return newkey.veckey, None
+        if otherkeys:
             raise ValueError("%s refers to multiple keys in this substitutions"
                              " KeyDict. Use `.variables_byname(%s)` to see all"
                              " of them." % (key, key))
@@ -260,11 +261,15 @@ class KeyDict(KeyMap, dict):
         "Overloads del [] to work with all keys"
         if not hasattr(key, "key"):  # not a keyed object
             self.update_keymap()
-            keys = self.keymap[key]
-            if not keys:
+            keys = self.keymap.get(key)
+            if keys:
+                for k in keys:
+                    del self[k]
+            elif self.cset is not None and key in self:  # names an element
+                for k in self.cset.varkeys[key]:
+                    del self[k]
+            else:
                 raise KeyError(key)
-            for k in keys:
-                del self[k]
         else:
             key = key.key
             veckey, idx = self.parse_and_index(key)
-- 
2.43.0


From 1bff1148c8f9f21f91be4cb2690bb2ef19046be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:35 +0000
Subject: [PATCH 099/105] fix: looking up a name a model lacks made it seem to
 have it

---
 gpkit/keydict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index a941228..9698b7b 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -303,4 +303,4 @@ class KeySet(KeyMap, set):
     def __getitem__(self, key):
         "Gets the keys corresponding to a particular key."
         key, _ = self.parse_and_index(key)
-        return self.keymap[key]
+        return self.keymap.get(key, set())
-- 
2.43.0


From ae2cfe95eddad51123e9fac08314ee9b5dfc331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:56 +0000
Subject: [PATCH 100/105] fix: deleting an element named in two vectors stopped
 at an absent one

---
 gpkit/keydict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 9698b7b..fdbc7d9 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -267,7 +267,8 @@ class KeyDict(KeyMap, dict):
                     del self[k]
             elif self.cset is not None and key in self:  # names an element
                 for k in self.cset.varkeys[key]:
-                    del self[k]
+                    if k in self:
+                        del self[k]
             else:
                 raise KeyError(key)
         else:
-- 
2.43.0


From 1eb772eb3165b298e9998371754950ddb49d7914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:01 +0000
Subject: [PATCH 101/105] fix: a dictionary emptied and updated wrote to the
 arrays it then shared

---
 gpkit/keydict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index fdbc7d9..ffcefc2 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -157,7 +157,8 @@ class KeyDict(KeyMap, dict):
         "Iterates through the dictionary created by args and kwargs"
         if not self and len(args) == 1 and isinstance(args[0], KeyDict):
             super().update(args[0])
-            args[0].owned = set()  # arrays are now shared, copy before writing
+            # arrays are now shared, copy before writing
+            self.owned, args[0].owned = set(), set()
             self.keymap.update(args[0].keymap)
             self._unmapped_keys.update(args[0]._unmapped_keys)  # pylint:disable=protected-access
         else:
-- 
2.43.0


From 7ab0e5e730fd67848d0f460c1b6162363217e0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:12 +0000
Subject: [PATCH 102/105] fix: ranges given to modelinteract were changed, and
 failed the next time

---
 gpkit/interactive/widgets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/interactive/widgets.py b/gpkit/interactive/widgets.py
index bd8ad8d..5021dc7 100644
--- a/gpkit/interactive/widgets.py
+++ b/gpkit/interactive/widgets.py
@@ -29,7 +29,9 @@ def modelinteract(model, fns_of_sol, ranges=None, **solvekwargs):
     """
     ranges_out = {}
     if ranges:
-        if not isinstance(ranges, dict):
+        if isinstance(ranges, dict):
+            ranges = dict(ranges)  # it's changed below
+        else:
             ranges = {k: None for k in ranges}
         slider_vars = set()
         for k in list(ranges):
-- 
2.43.0


From 6d410454b8838ed045ddf53795dd58336ec29d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:12 +0000
Subject: [PATCH 103/105] fix: sliders of variables whose string isn't a name
 of theirs did nothing

---
 gpkit/interactive/widgets.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gpkit/interactive/widgets.py b/gpkit/interactive/widgets.py
index 5021dc7..91def85 100644
--- a/gpkit/interactive/widgets.py
+++ b/gpkit/interactive/widgets.py
@@ -65,7 +65,9 @@ def modelinteract(model, fns_of_sol, ranges=None, **solvekwargs):
                                               step=vstep, value=v,
                                               description=varkey_latex)
             floatslider.varkey = k
-            ranges_out[str(k)] = floatslider
+            # strings of keys may be no names of theirs, or several keys'
+            name = str(k) if str(k) not in ranges_out else k.eqstr
+            ranges_out[name] = floatslider
 
     if not hasattr(fns_of_sol, "__iter__"):
         fns_of_sol = [fns_of_sol]
@@ -74,7 +76,8 @@ def modelinteract(model, fns_of_sol, ranges=None, **solvekwargs):
 
     def resolve(**subs):
         "This method gets called each time the user changes something"
-        model.substitutions.update(subs)
+        model.substitutions.update({ranges_out[name].varkey: value
+                                    for name, value in subs.items()})
         try:
             try:
                 model.solve(**solvekwargs)
-- 
2.43.0


From 2f4ac3535ca125a4fc64f0d4b4bc983d0580f698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:44 +0000
Subject: [PATCH 104/105] fix: modelinteract refused ranges with a step

---
 gpkit/interactive/widgets.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gpkit/interactive/widgets.py b/gpkit/interactive/widgets.py
index 91def85..1aa1f79 100644
--- a/gpkit/interactive/widgets.py
+++ b/gpkit/interactive/widgets.py
@@ -57,9 +57,14 @@ def modelinteract(model, fns_of_sol, ranges=None, **solvekwargs):
             if is_sweepvar(v):
                 vmin = min(vmin, min(sweep))
                 vmax = max(vmax, min(sweep))
+            vstep = None
             if ranges and ranges[k]:
-                vmin, vmax = ranges[k]
-            vstep = (vmax-vmin)/24.0
+                if len(ranges[k]) == 3:
+                    vmin, vstep, vmax = ranges[k]
+                else:
+                    vmin, vmax = ranges[k]
+            if vstep is None:
+                vstep = (vmax-vmin)/24.0
             varkey_latex = "$"+k.latex(excluded=["lineage"])+"$"
             floatslider = widgets.FloatSlider(min=vmin, max=vmax,
                                               step=vstep, value=v,
-- 
2.43.0


From 9e0c033c66aacd58a2067f071e5bd3e2330dee45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:14 +0000
Subject: [PATCH 105/105] fix: plotting an autosweep changed the list of what
 to plot

---
 gpkit/tools/autosweep.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index 47d289a..17827d4 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -205,8 +205,7 @@ class SolutionOracle:
         import matplotlib.pyplot as plt
         from ..interactive.plot_sweep import assign_axes
         from .. import GPBLU
-        if not hasattr(posys, "__len__"):
-            posys = [posys]
+        posys = list(posys) if hasattr(posys, "__len__") else [posys]
         for i, posy in enumerate(posys):
             if posy in [None, "cost"]:
                 posys[i] = self.bst.costposy
-- 
2.43.0

