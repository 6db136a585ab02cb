From bce4df2e37dc7f00b5be0d45588f5213b005c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:00 +0000
Subject: [PATCH 01/33] fix: evaluate the structure only once when splitting
 explicit/implicit parts

With config['split']=True, the discrete evaluation of M and z was applied
twice: they were evaluated at x+2*theta*dx (theta scheme) or averaged twice
(trapezoidal rule).
---
 pyphs/numerics/numerical_method/_method.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyphs/numerics/numerical_method/_method.py b/pyphs/numerics/numerical_method/_method.py
index 9195922..5a6f793 100644
--- a/pyphs/numerics/numerical_method/_method.py
+++ b/pyphs/numerics/numerical_method/_method.py
@@ -154,9 +154,8 @@ class Method(Core):
             if VERBOSE >= 2:
                 print('    Re-Build numerical structure...')
             # build the discrete evaluation for the gradient
+            # (the structure has already been evaluated above)
             build_gradient_evaluation(self)
-            # build the discrete evaluation for the structure
-            build_structure_evaluation(self)
             # build method updates
             set_structure(self)
 
-- 
2.43.0


From 1b4925d47e1ba4236fbc59682d7d35ce93e35118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:00 +0000
Subject: [PATCH 02/33] fix: do not shift the state inside the discrete
 gradient of the structure

The substitution of the gradient symbols by the discrete gradient and the
substitution x->x+theta*dx were applied in sequence, so that the state was
shifted also inside the discrete gradient; with the trapezoidal rule, the
gradient symbols of the evaluation at x were never substituted.
---
 pyphs/numerics/numerical_method/_method.py | 42 +++++++++++-----------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/pyphs/numerics/numerical_method/_method.py b/pyphs/numerics/numerical_method/_method.py
index 5a6f793..338db9a 100644
--- a/pyphs/numerics/numerical_method/_method.py
+++ b/pyphs/numerics/numerical_method/_method.py
@@ -750,30 +750,32 @@ def build_structure_evaluation(method):
     else:
         theta = method.config['theta']
 
-    # substitutions associated with the chosen numerical method
-    subs = {}
-
-    # build substitutions associated with the gradient evaluation
-    for i, (gi, gi_discret) in enumerate(zip(method.g(), method.dxH())):
-        subs[gi] = gi_discret
+    # substitutions associated with the gradient evaluation. These are applied
+    # after the substitutions of the state, because the discrete gradient is
+    # already expressed as a function of x and dx.
+    subs_g = dict(zip(method.g(), method.dxH()))
 
     # if theta is a numeric => theta scheme
     if isinstance(theta, (int, float)):
-        for i, (xi, dxi) in enumerate(zip(method.x, method.dx())):
-            subs[xi] = xi+theta*dxi
-        # Substitute symbols in core.M
-        method.M = method.M.subs(subs)
-        # Substitute symbols in core.z
-        for i, z in enumerate(method.z):
-            method.z[i] = z.subs(subs)
+        subs_x = dict((xi, xi+theta*dxi)
+                      for xi, dxi in zip(method.x, method.dx()))
+
+        def evaluation(expr):
+            "evaluation at x+theta*dx"
+            return expr.subs(subs_x).subs(subs_g)
 
     # else if theta == 'trapez' => trapezoidal
     else:
         assert theta == 'trapez'
-        for i, (xi, dxi) in enumerate(zip(method.x, method.dx())):
-            subs[xi] = xi+dxi
-        # Substitute symbols in core.M
-        method.M = 0.5*(method.M + method.M.subs(subs))
-        # Substitute symbols in core.z
-        for i, z in enumerate(method.z):
-            method.z[i] = 0.5*(z + z.subs(subs))
+        subs_x = dict((xi, xi+dxi)
+                      for xi, dxi in zip(method.x, method.dx()))
+
+        def evaluation(expr):
+            "mean of the evaluations at x and x+dx"
+            return (0.5*(expr + expr.subs(subs_x))).subs(subs_g)
+
+    # Substitute symbols in core.M
+    method.M = evaluation(method.M)
+    # Substitute symbols in core.z
+    for i, z in enumerate(method.z):
+        method.z[i] = evaluation(z)
-- 
2.43.0


From 492a1e5a5a7ea7339869dcd7724564b91319c7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:26 +0000
Subject: [PATCH 03/33] fix: storages coupled with a nonlinear storage are not
 linear

linear_nonlinear() reported as linear a storage with constant second
derivatives although its energy is coupled with a nonlinear storage. The
gradient of the former was then evaluated with the latter frozen at the
beginning of the time-step, which violates the discrete power balance.
---
 pyphs/core/structure/splits.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyphs/core/structure/splits.py b/pyphs/core/structure/splits.py
index 1e9beaf..eb5f912 100644
--- a/pyphs/core/structure/splits.py
+++ b/pyphs/core/structure/splits.py
@@ -89,6 +89,19 @@ def linear_nonlinear(core, criterion=None):
             move_stor(core, nxl, core.dims.x()-1)
             hess = movefunc(hess, nxl, core.dims.x()-1)
 
+    # a storage which shares a term of H with a nonlinear storage is not linear
+    hess = hessian(core.H, core.x)
+    i = 0
+    while i < nxl:
+        if all(elt == 0 for elt in hess[i, nxl:]):
+            i += 1
+        else:
+            move_stor(core, i, core.dims.x()-1)
+            hess = movesquarematrixcolnrow(hess, i, core.dims.x()-1)
+            nxl -= 1
+            # check again the storages that are still considered as linear
+            i = 0
+
     # split dissipative part
     nwl = 0
     jacz = criterion[1][0]
-- 
2.43.0


From 55f52b3717661b8a9c2209a216469a1968a563a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:26 +0000
Subject: [PATCH 04/33] fix: keep the nonlinear storages that do not appear in
 the implicit function

A nonlinear storage whose gradient is only seen by the ports does not appear
in the jacobian of the implicit function, so that explicit_implicit() moved it
to the linear part and its discrete gradient was replaced by a second order
expansion. The number of separable components is also updated.
---
 pyphs/numerics/numerical_method/_method.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyphs/numerics/numerical_method/_method.py b/pyphs/numerics/numerical_method/_method.py
index 338db9a..68990bd 100644
--- a/pyphs/numerics/numerical_method/_method.py
+++ b/pyphs/numerics/numerical_method/_method.py
@@ -269,11 +269,17 @@ class Method(Core):
     def explicit_implicit(self):
         v = geteval(self, 'v')
         jacF = geteval(self, 'jactempF')
+        # the evaluation of the gradient must also be linear w.r.t. the
+        # increments of the states in the explicit part
+        jacdxH = jacobian(geteval(self, 'dxH'), v)
+        jacx = types.matrix_types[0].vstack(jacF, jacdxH)
         args = (v, )*2
-        mats = (jacF[:, :self.dims.x()],
+        mats = (jacx[:, :self.dims.x()],
                 jacF[:, self.dims.x():])*2
         criterion = list(zip(mats, args))
         self.linear_nonlinear(criterion=criterion)
+        # update the number of separable components in the nonlinear part
+        self.monovar_multivar()
 
     def to_numeric(self, inits=None, config=None):
         """
-- 
2.43.0


From 6a552e70d17bfcbfa3576fd96236021868913428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:13 +0000
Subject: [PATCH 05/33] fix: a dissipation with an offset or fed by nonlinear
 components is not linear

---
 pyphs/core/structure/splits.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyphs/core/structure/splits.py b/pyphs/core/structure/splits.py
index eb5f912..c40f0bf 100644
--- a/pyphs/core/structure/splits.py
+++ b/pyphs/core/structure/splits.py
@@ -120,6 +120,19 @@ def linear_nonlinear(core, criterion=None):
             move_diss(core, nwl, core.dims.w()-1)
             jacz = movefunc(jacz, nwl, core.dims.w()-1)
 
+    # a dissipation whose function does not vanish with the linear dissipation
+    # variables (offset, dependency on nonlinear components) is not linear
+    i = 0
+    while i < nwl:
+        z0 = sympy.sympify(core.z[i]).subs(dict((w, 0) for w in core.w[:nwl]))
+        if z0 == 0:
+            i += 1
+        else:
+            move_diss(core, i, core.dims.w()-1)
+            nwl -= 1
+            # check again the components that are still considered as linear
+            i = 0
+
     # number of linear components
     setattr(core.dims, '_xl', nxl)
     # Hamiltonian of linear components
-- 
2.43.0


From 9c530010e2fa87d3bff50107ebe650ad93233a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:13 +0000
Subject: [PATCH 06/33] fix: move the coefficients of linear storages along
 with the storages

---
 pyphs/core/structure/moves.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyphs/core/structure/moves.py b/pyphs/core/structure/moves.py
index 88061ba..581aacd 100644
--- a/pyphs/core/structure/moves.py
+++ b/pyphs/core/structure/moves.py
@@ -96,6 +96,10 @@ def move_stor(core, indi, indf):
     core.x = [core.x[el] for el in new_indices]
     if core._dxH is not None:
         core._dxH = [core._dxH[el] for el in new_indices]
+    if (indi < core.dims.xl() and indf < core.dims.xl() and
+            core.Q.shape[0] == core.dims.xl()):
+        core.Q = movesquarematrixcolnrow(core.Q, indi, indf)
+        core.bl = [core.bl[el] for el in new_indices[:core.dims.xl()]]
     moveCoreMcolnrow(core, indi, indf)
 
 
-- 
2.43.0


From dff232d187a92cb71895b7f9047213b5c6288760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:24 +0000
Subject: [PATCH 07/33] fix: reduce only the linear dissipations that are not
 excluded nor coupled to a kept one

---
 pyphs/core/structure/R.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/pyphs/core/structure/R.py b/pyphs/core/structure/R.py
index 7fe52f1..e039ece 100644
--- a/pyphs/core/structure/R.py
+++ b/pyphs/core/structure/R.py
@@ -8,7 +8,8 @@ from __future__ import absolute_import, division, print_function
 import sympy
 from pyphs.misc.tools import geteval
 from pyphs.core.tools import types
-from pyphs.core.maths import inverse
+from pyphs.core.maths import inverse, jacobian
+from .moves import movesquarematrixcolnrow
 
 
 def reduce_z(core):
@@ -42,20 +43,25 @@ after this operation, and :code:`core.z()=core.znl()`.
 """
     # identify the linear components
     core.linear_nonlinear()
-    # identify the number of components excluded from the linear part
-    nforced = len(core.force_wnl)
-    # move linear and excluded components at the top of linear components list
-    if not nforced == 0:
-        i = 0
-        for _ in range(core.dims.wl()):
-            if core.w[i] in core.force_wnl:
-                core.move_dissipative(i, core.dims.wl())
-            else:
-                i += 1
-        # reduce number of linear components
-        core.dims._wl -= nforced
-        # reduce Zl
-        core.Zl = core.Zl[:-nforced, :-nforced]
+    # exclude from the linear part the components in core.force_wnl and those
+    # with a law that is coupled to a component that is not reduced
+    jacz = jacobian(core.z, core.w)
+    i = 0
+    while i < core.dims.wl():
+        nwl = core.dims.wl()
+        coupled = any(elt != 0 for elt in list(jacz[i, nwl:]) + list(jacz[nwl:, i]))
+        if coupled or core.w[i] in core.force_wnl:
+            # move the component at the end of linear components list
+            core.move_dissipative(i, nwl-1)
+            jacz = movesquarematrixcolnrow(jacz, i, nwl-1)
+            # reduce number of linear components
+            core.dims._wl -= 1
+            # check again the remaining linear components
+            i = 0
+        else:
+            i += 1
+    # reduce Zl
+    core.setexpr('Zl', jacobian(core.zl(), core.wl()))
     # build inverse of Dl
     iDl = types.matrix_types[0](sympy.eye(core.dims.wl())-core.Mwlwl()*core.Zl)
     # build Dl
@@ -91,3 +97,5 @@ after this operation, and :code:`core.z()=core.znl()`.
     core.z = core.z[core.dims.wl():]
     # Set dim(wl) to 0
     core.dims._wl = 0
+    # Reduce Zl
+    core.setexpr('Zl', jacobian(core.zl(), core.wl()))
-- 
2.43.0


From b0472c3174318ed5cbc5851364495a29bed98ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:24 +0000
Subject: [PATCH 08/33] fix: include the contribution of connectors in the
 output function

---
 pyphs/core/structure/output.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyphs/core/structure/output.py b/pyphs/core/structure/output.py
index d1e1182..926428b 100644
--- a/pyphs/core/structure/output.py
+++ b/pyphs/core/structure/output.py
@@ -43,7 +43,12 @@ y: list
         else:
             Vyw = types.matrix_types[0](sympy.zeros(core.dims.y(), 1))
 
-        out = list(Vyx + Vyw + Vyu)
+        if core.dims.cy() > 0:  # Check if system has connectors
+            Vyc = core.Mycy()*types.matrix_types[0](core.cu)
+        else:
+            Vyc = types.matrix_types[0](sympy.zeros(core.dims.y(), 1))
+
+        out = list(Vyx + Vyw + Vyu + Vyc)
 
     else:
         out = types.matrix_types[0](list(list()))
-- 
2.43.0


From 1494eb0b38eff46b5df757878059a317c3306d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:03 +0000
Subject: [PATCH 09/33] fix: sign of the connection law in the documentation of
 add_connector

---
 pyphs/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 912a404..7065c8d 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -769,8 +769,8 @@ class Core:
         Description
         -----------
         The resulting connection reads:
-            * :code:`core.u[indices[0]] = alpha * core.y[indices[1]]`,
-            * :code:`core.u[indices[1]] = -alpha * core.y[indices[0]]`.
+            * :code:`core.u[indices[0]] = -alpha * core.y[indices[1]]`,
+            * :code:`core.u[indices[1]] = alpha * core.y[indices[0]]`.
 
         Notice this method only stores a description of the connection in the
         :code:`core.connectors` argument. The connection will be effective only
-- 
2.43.0


From 1b8adad5880083c2d354180a3e888ad61e2310ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:03 +0000
Subject: [PATCH 10/33] fix: load the expressions and symbols that were added
 to the saved core

---
 pyphs/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 7065c8d..7003c9b 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -261,8 +261,8 @@ class Core:
 
         for name in (list(set().union(
                           self.attrstocopy,
-                          self.exprs_names,
-                          self.symbs_names))):
+                          dico['exprs_names'],
+                          dico['symbs_names']))):
             if isinstance(name, str):
                 target = self
                 attr_name = name
-- 
2.43.0


From fe26443b882b5bb8fbef42c6733e4f9926ba5fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:23 +0000
Subject: [PATCH 11/33] fix: do not modify the substitution dictionary of the
 caller

---
 pyphs/core/tools/_substitutions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyphs/core/tools/_substitutions.py b/pyphs/core/tools/_substitutions.py
index 5f0ce56..fca7ccc 100644
--- a/pyphs/core/tools/_substitutions.py
+++ b/pyphs/core/tools/_substitutions.py
@@ -186,9 +186,8 @@ def substitute_core(core, subs=None, selfall=False, selfexprs=False,
 
     """
 
-    # init substitution dic
-    if subs is None:
-        subs = {}
+    # init substitution dic (do not change the dictionary of the caller)
+    subs = {} if subs is None else dict(subs)
 
     # append self subs dic
     if selfall:
-- 
2.43.0


From 7954f920d4aa65b153c86f50422741da77f74e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:23 +0000
Subject: [PATCH 12/33] fix: resolve recursively the substitutions that depend
 on other substitutions

---
 pyphs/core/tools/_substitutions.py | 38 ++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/pyphs/core/tools/_substitutions.py b/pyphs/core/tools/_substitutions.py
index fca7ccc..3b0949b 100644
--- a/pyphs/core/tools/_substitutions.py
+++ b/pyphs/core/tools/_substitutions.py
@@ -119,6 +119,41 @@ def substitute_dict(expr, subs):
     return expr
 
 
+def substitute_subs(subs):
+    """
+    Apply a substitution dictionary to its own values, recursively, so that the
+    result does not depend on the order of the substitutions.
+
+    Parameters
+    ----------
+
+    subs : dic
+        Substitution dictionary '{symb : sub}'.
+
+    Return
+    ------
+
+    subs : dic
+        New dictionary with the same keys. Circular definitions are resolved at
+        most len(subs) times.
+    """
+    subs = dict(subs)
+    for _ in range(len(subs)):
+        finished = True
+        for k in subs.keys():
+            expr = subs[k]
+            if not isinstance(expr, sympy.Expr):
+                continue
+            inner = dict((s, subs[s]) for s in expr.free_symbols
+                         if s in subs.keys() and not s == k)
+            if inner:
+                subs[k] = expr.subs(inner)
+                finished = False
+        if finished:
+            break
+    return subs
+
+
 # =========================================================================
 
 def substitute(expr, subs):
@@ -197,6 +232,9 @@ def substitute_core(core, subs=None, selfall=False, selfexprs=False,
     elif selfexprs:
         subs.update(core.subsexprs)
 
+    # apply the substitutions to the dictionary itself
+    subs = substitute_subs(subs)
+
     # substitutions in core's own subsitution dictionary
     core.subs = substitute_dict(core.subs, subs)
 
-- 
2.43.0


From 808eec14b75989ce94e916b5883081adf0c39219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:23 +0000
Subject: [PATCH 13/33] fix: apply the substitutions to the coefficients of the
 connectors

---
 pyphs/core/tools/_substitutions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyphs/core/tools/_substitutions.py b/pyphs/core/tools/_substitutions.py
index 3b0949b..d80e1d6 100644
--- a/pyphs/core/tools/_substitutions.py
+++ b/pyphs/core/tools/_substitutions.py
@@ -255,6 +255,10 @@ def substitute_core(core, subs=None, selfall=False, selfexprs=False,
             if simplify:
                 expr = simplify_func(expr)
 
+    # substitutions in the coefficients of the connectors
+    core.connectors = [dict(c, alpha=substitute(c['alpha'], subs))
+                       for c in core.connectors]
+
     # remove entries in core.subs
     for k in subs.keys():
         try:
-- 
2.43.0


From 262105b416c687fbae76353dd8ad967f9ead07b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:12 +0000
Subject: [PATCH 14/33] fix: resolve the given substitutions with the
 expressions of the core they depend on

---
 pyphs/core/tools/_substitutions.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyphs/core/tools/_substitutions.py b/pyphs/core/tools/_substitutions.py
index d80e1d6..71fc45b 100644
--- a/pyphs/core/tools/_substitutions.py
+++ b/pyphs/core/tools/_substitutions.py
@@ -226,7 +226,6 @@ def substitute_core(core, subs=None, selfall=False, selfexprs=False,
 
     # append self subs dic
     if selfall:
-        substitute_core(core, selfexprs=True)
         subs.update(core.subs)
     # append only exprs in core subs dic
     elif selfexprs:
-- 
2.43.0


From bc1fdaca1e2b5d203d1a3b700cfbd7c58863dcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:57 +0000
Subject: [PATCH 15/33] fix: return the free symbols of the core

---
 pyphs/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 7003c9b..caac470 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -531,8 +531,8 @@ class Core:
         symbs = set()
         for name in self.exprs_names:
             expr = geteval(self, name)
-            symbs.union(free_symbols(expr))
-        symbs.union(free_symbols(self.M))
+            symbs = symbs.union(free_symbols(expr))
+        symbs = symbs.union(free_symbols(self.M))
         return symbs
 
     def dxH(self):
-- 
2.43.0


From 82d61dfcb60c411c6dc73c3ed863afb76e7d2540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:02 +0000
Subject: [PATCH 16/33] fix: compare the types and controls of the edges by
 value

---
 pyphs/graphs/analysis.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index 059c3eb..fd122b8 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -59,11 +59,11 @@ class GraphAnalysis:
             e = self.ic_edges[i]
             e_data = self.edges[e][2]
             # check if effort-controlled
-            if e_data['ctrl'] is 'e':
+            if e_data['ctrl'] == 'e':
                 # move edge at the top of edge list and set Lambda(edge) to 0
                 self.set_edge_ec(e)
             # check if flux-controlled
-            elif e_data['ctrl'] is 'f':
+            elif e_data['ctrl'] == 'f':
                 if self.Lambda[:, e].sum() == 1:
                     # edge 'e' imposes the potential on that node
                     # get node index
@@ -85,7 +85,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'storage':
+            if self.get_edge_data(e, 'type') == 'storage':
                 temp.append(e)
         return temp
 
@@ -96,7 +96,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'dissipative':
+            if self.get_edge_data(e, 'type') == 'dissipative':
                 temp.append(e)
         return temp
 
@@ -107,7 +107,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'port':
+            if self.get_edge_data(e, 'type') == 'port':
                 temp.append(e)
         return temp
 
@@ -118,7 +118,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'connector':
+            if self.get_edge_data(e, 'type') == 'connector':
                 temp.append(e)
         return temp
 
@@ -351,7 +351,7 @@ define it as effort-controlled (0 column in lambda).
         self.Lambda[:, 0] = 0
         # test for connector
         new_e = self.get_edges_data('label').index(e_label)
-        if self.get_edge_data(new_e, 'type') is 'connector':
+        if self.get_edge_data(new_e, 'type') == 'connector':
             # link realizability of the other edge of the connector
             self.link_connector(new_e, 'e')
         self.verbose('set_edge_ec')
@@ -377,7 +377,7 @@ controlled node from node list
         self.fc_edges = indices[-(nfc+1):]
         # test for connector
         new_e = self.get_edges_data('label').index(e_label)
-        if self.get_edge_data(new_e, 'type') is 'connector':
+        if self.get_edge_data(new_e, 'type') == 'connector':
             # link realizability of the other edge of the connector
             self.link_connector(new_e, 'f')
         self.verbose('set_edge_fc')
@@ -435,7 +435,7 @@ and the realizability of linked edge is chosen based on the connector type \
             print('link', e_label, self.get_edge_data(e, 'connector_type'),
                   ctrl, link_e_label)
         # get connector
-        if ctrl is 'e':
+        if ctrl == 'e':
             # gyrator case
             if self.get_edge_data(e, 'connector_type') == 'gyrator':
                 self.inverse_alpha(e)
@@ -459,7 +459,7 @@ compatible'.format(e_label, link_e_label)
                     # move edge at the end of edge list
                     self.set_edge_fc(link_e)
 
-        if ctrl is 'f':
+        if ctrl == 'f':
             # gyrator case
             if self.get_edge_data(e, 'connector_type') == 'gyrator':
                 # assert linked edge is not effort controlled
-- 
2.43.0


From a8d53736d83a70dd39c7d261a7ad40dade1007bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:34 +0000
Subject: [PATCH 17/33] fix: use the documented law of a gyrator for both
 controls of its edges

---
 pyphs/graphs/analysis.py | 10 ----------
 pyphs/graphs/build.py    |  4 ++++
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index fd122b8..029c87a 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -438,7 +438,6 @@ and the realizability of linked edge is chosen based on the connector type \
         if ctrl == 'e':
             # gyrator case
             if self.get_edge_data(e, 'connector_type') == 'gyrator':
-                self.inverse_alpha(e)
                 # assert linked edge is not flux controlled
                 assert link_e not in self.fc_edges,\
                     'connector edges {0!s} and {1!s} are not \
@@ -449,7 +448,6 @@ compatible'.format(e_label, link_e_label)
                     self.set_edge_ec(link_e)
             # transformer case
             elif self.get_edge_data(e, 'connector_type') == 'transformer':
-#                self.inverse_alpha(e)
                 # assert linked edge is not effort controlled
                 assert link_e not in self.ec_edges,\
                     'connector edges {0!s} and {1!s} are not \
@@ -484,14 +482,6 @@ compatible'.format(e_label, link_e_label)
             print('link', e_label, ctrl, link_e_label)
             self.verbose('link')
 
-    def inverse_alpha(self, e, minus=False):
-        alpha = self.edges[e][2]['alpha']
-        if alpha is not None:
-            a = alpha**-1
-            if minus:
-                a = -a
-            self.edges[e][2]['alpha'] = a
-
 
 def isequal(M1, M2):
     """
diff --git a/pyphs/graphs/build.py b/pyphs/graphs/build.py
index 260c633..9cc9157 100644
--- a/pyphs/graphs/build.py
+++ b/pyphs/graphs/build.py
@@ -95,6 +95,10 @@ def _setCore(graph):
                                 for c in graph.core.connectors].index(True)
         alpha = graph.analysis.get_edge_data(e, 'alpha')
         if alpha is not None:
+            # the law of a gyrator is given for a flux-controlled first edge
+            if (graph.analysis.get_edge_data(e, 'connector_type') == 'gyrator'
+                    and e in graph.analysis.ec_edges):
+                alpha = -alpha**-1
             graph.core.connectors[index_e_in_connector]['alpha'] = alpha
     graph.core.cy = [graph.core.cy[el] for el in new_indices_connector]
     graph.core.cu = [graph.core.cu[el] for el in new_indices_connector]
-- 
2.43.0


From 0a3a9d5cfb39d61fd5bf169ec737b25865e7b98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:36 +0000
Subject: [PATCH 18/33] fix: analyse the subgraphs that hold one edge of a
 connector

---
 pyphs/graphs/analysis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index 029c87a..cab7019 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -427,8 +427,11 @@ and the realizability of linked edge is chosen based on the connector type \
         """
         # get edge label
         e_label = self.get_edge_data(e, 'label')
-        # get linked edge index
-        link_e = self.get_edges_data('link').index(e_label)
+        # get linked edge index, if it belongs to the same (sub)graph
+        links = [edge[2].get('link') for edge in self.edges]
+        if e_label not in links:
+            return
+        link_e = links.index(e_label)
         # get linked edge index
         link_e_label = self.get_edge_data(link_e, 'label')
         if self._verbose:
-- 
2.43.0


From ddbb09cbda92c64772d94fde1914af18fff02bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:41 +0000
Subject: [PATCH 19/33] fix: merge components with the branch of their inverse
 laws that vanishes at rest

---
 pyphs/graphs/subgraph.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pyphs/graphs/subgraph.py b/pyphs/graphs/subgraph.py
index 42167c2..402542b 100644
--- a/pyphs/graphs/subgraph.py
+++ b/pyphs/graphs/subgraph.py
@@ -22,6 +22,21 @@ def merge_warning(type, before, after):
     return text.format(type, before, after)
 
 
+def inverse_law(law, value, arg):
+    """
+    Return the solution arg of law(arg) = value, on the branch that vanishes
+    with the value for positive parameters (if any).
+    """
+    solutions = sympy.solve(law-value, arg)
+    parameters = sorted(law.free_symbols - {value, arg}, key=str)
+    rest = dict((p, n + 1) for n, p in enumerate(parameters))
+    rest[value] = 0
+    for solution in solutions:
+        if sympy.simplify(solution.subs(rest)) == 0:
+            return solution
+    return solutions[0]
+
+
 def nonrealizable_merge_storages(x, dxH):
 
     from pyphs import Core
@@ -30,10 +45,10 @@ def nonrealizable_merge_storages(x, dxH):
     X = Core.symbols(('x'+'{}'*len(x)).format(*[str(xn)[1:] for xn in x]))
     Y = Core.symbols('Y')
 
-    idxH = list(map(lambda arg: sympy.solve(arg[0]-arg[2], arg[1])[0],
+    idxH = list(map(lambda arg: inverse_law(arg[0], arg[2], arg[1]),
                 zip(dxH, x, y)))
     Q = sum([e.subs(yi, Y) for e, yi in zip(idxH, y)]).simplify()
-    iQ = sympy.solve(Q-X, Y)[0]
+    iQ = inverse_law(Q, X, Y)
 
     [e.subs(yi, iQ) for (e, yi) in zip(idxH, y)]
 
@@ -65,10 +80,10 @@ def nonrealizable_merge_dissipatives(w, z):
     newW = Core.symbols(('w'+'{}'*len(w)).format(*[str(wn)[1:] for wn in w]))
     Y = Core.symbols('Y')
 
-    iz = list(map(lambda arg: sympy.solve(arg[0]-arg[2], arg[1])[0],
+    iz = list(map(lambda arg: inverse_law(arg[0], arg[2], arg[1]),
                   zip(z, w, y)))
     iZ = sum([e.subs(yi, Y) for e, yi in zip(iz, y)]).simplify()
-    newZ = sympy.solve(iZ-newW, Y)[0]
+    newZ = inverse_law(iZ, newW, Y)
 
     return newW, newZ
 
-- 
2.43.0


From bb326b1208efeecc9babeadf4a640361b0bfb1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:06 +0000
Subject: [PATCH 20/33] fix: replace the parameters of a component
 simultaneously

---
 pyphs/dictionary/edges/dissipatives.py   | 4 ++--
 pyphs/dictionary/edges/storages.py       | 2 +-
 pyphs/dictionary/mechanics/_felt.py      | 4 ++--
 pyphs/dictionary/mechanics_dual/_felt.py | 4 ++--
 pyphs/dictionary/transducers/_pickup.py  | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyphs/dictionary/edges/dissipatives.py b/pyphs/dictionary/edges/dissipatives.py
index 2818729..cc1e6f7 100644
--- a/pyphs/dictionary/edges/dissipatives.py
+++ b/pyphs/dictionary/edges/dissipatives.py
@@ -119,11 +119,11 @@ keys of the kwargs arguments.
         self.core.subs.update(subs)
         # replace parameters in z by correspondances in 'dicpars'
         for i, zz in enumerate(z):
-            z[i] = zz.subs(dicpars)
+            z[i] = zz.xreplace(dicpars)
         for e, edge in enumerate(edges):
             if 'z' in edge[2].keys():
                 for k in ['e_ctrl', 'f_ctrl']:
-                    edges[e][2]['z'][k] = edge[2]['z'][k].subs(dicpars)
+                    edges[e][2]['z'][k] = edge[2]['z'][k].xreplace(dicpars)
 
         # add dissipative component
         self.core.add_dissipations(w, z)
diff --git a/pyphs/dictionary/edges/storages.py b/pyphs/dictionary/edges/storages.py
index d9c48df..6d9e247 100644
--- a/pyphs/dictionary/edges/storages.py
+++ b/pyphs/dictionary/edges/storages.py
@@ -92,7 +92,7 @@ keys of the kwargs arguments.
         # update dict of subs in phs
         self.core.subs.update(subs)
         # replace parameters in H by correspondances in 'dicpars'
-        H = H.subs(dicpars)
+        H = H.xreplace(dicpars)
         # add dissipative component
         self.core.add_storages(x, H)
         # update phs.Graph with edges
diff --git a/pyphs/dictionary/mechanics/_felt.py b/pyphs/dictionary/mechanics/_felt.py
index 05485e8..d34c1d2 100644
--- a/pyphs/dictionary/mechanics/_felt.py
+++ b/pyphs/dictionary/mechanics/_felt.py
@@ -29,7 +29,7 @@ class Felt(Graph):
         N1, N2 = nodes
         xnl = symbols('q'+label)
         hnl = sp.Piecewise((0., xnl <= 0.), ((L*F/(B+1))*(xnl/L)**(B+1), True))
-        hnl = hnl.subs(dicpars)
+        hnl = hnl.xreplace(dicpars)
         # edge data
         data = {'label': xnl,
                 'type': 'storage',
@@ -39,7 +39,7 @@ class Felt(Graph):
         self.core.add_storages(xnl, hnl)
 
         r = sp.Piecewise((0., xnl <= 0.), ((A * L/B)*(xnl/L)**(B-1), True))
-        r = r.subs(dicpars)
+        r = r.xreplace(dicpars)
         wnl = symbols('dtq'+label)
         # edge data
         data = {'label': wnl,
diff --git a/pyphs/dictionary/mechanics_dual/_felt.py b/pyphs/dictionary/mechanics_dual/_felt.py
index 5dbf08b..4fed68d 100644
--- a/pyphs/dictionary/mechanics_dual/_felt.py
+++ b/pyphs/dictionary/mechanics_dual/_felt.py
@@ -31,7 +31,7 @@ class Felt(Graph):
         N3 = label+'_N3'
         xnl = symbols('q'+label)
         hnl = sp.Piecewise((0., xnl <= 0.), ((L*F/(B+1))*(xnl/L)**(B+1), True))
-        hnl = hnl.subs(dicpars)
+        hnl = hnl.xreplace(dicpars)
         # edge data
         data = {'label': xnl,
                 'type': 'storage',
@@ -41,7 +41,7 @@ class Felt(Graph):
         self.core.add_storages(xnl, hnl)
 
         r = sp.Piecewise((0., xnl <= 0.), ((A * L/B)*(xnl/L)**(B-1), True))
-        r = r.subs(dicpars)
+        r = r.xreplace(dicpars)
         wnl = symbols('dtq'+label)
         # edge data
         data = {'label': wnl,
diff --git a/pyphs/dictionary/transducers/_pickup.py b/pyphs/dictionary/transducers/_pickup.py
index 353e1e8..945b8f3 100644
--- a/pyphs/dictionary/transducers/_pickup.py
+++ b/pyphs/dictionary/transducers/_pickup.py
@@ -58,7 +58,7 @@ class Pickup(Graph):
             return 2*Rb**2*dmu*Rp*((f1-2*Lh**2)/f1**2 -
                                    (f2-2*Lh**2)/f2**2) * dtq
 
-        falpha = (f(q, dtq)**-1).subs(dicpars)
+        falpha = (f(q, dtq)**-1).xreplace(dicpars)
         self += Gyrator(label+'MecToMag',
                         (self.datum, NCcoil, self.datum, NMagnet),
                         alpha=(label+'f', falpha))
-- 
2.43.0


From d5b16e15c55a5b77658b54a46f99e1cafcff0481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:06 +0000
Subject: [PATCH 21/33] fix: apply the documented law of the felt damper to the
 variation of the crush

---
 pyphs/dictionary/mechanics/_felt.py      | 2 +-
 pyphs/dictionary/mechanics_dual/_felt.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/dictionary/mechanics/_felt.py b/pyphs/dictionary/mechanics/_felt.py
index d34c1d2..bccefc5 100644
--- a/pyphs/dictionary/mechanics/_felt.py
+++ b/pyphs/dictionary/mechanics/_felt.py
@@ -38,7 +38,7 @@ class Felt(Graph):
         self.add_edges_from([(N1, N2, data), ])
         self.core.add_storages(xnl, hnl)
 
-        r = sp.Piecewise((0., xnl <= 0.), ((A * L/B)*(xnl/L)**(B-1), True))
+        r = sp.Piecewise((0., xnl <= 0.), ((A/B)*(xnl/L)**(B-1), True))
         r = r.xreplace(dicpars)
         wnl = symbols('dtq'+label)
         # edge data
diff --git a/pyphs/dictionary/mechanics_dual/_felt.py b/pyphs/dictionary/mechanics_dual/_felt.py
index 4fed68d..e7f3794 100644
--- a/pyphs/dictionary/mechanics_dual/_felt.py
+++ b/pyphs/dictionary/mechanics_dual/_felt.py
@@ -40,7 +40,7 @@ class Felt(Graph):
         self.add_edges_from([(N1, N3, data), ])
         self.core.add_storages(xnl, hnl)
 
-        r = sp.Piecewise((0., xnl <= 0.), ((A * L/B)*(xnl/L)**(B-1), True))
+        r = sp.Piecewise((0., xnl <= 0.), ((A/B)*(xnl/L)**(B-1), True))
         r = r.xreplace(dicpars)
         wnl = symbols('dtq'+label)
         # edge data
-- 
2.43.0


From ef4fc33bc1ec25e123d669920912952d595ef5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:06 +0000
Subject: [PATCH 22/33] fix: make the grid current of the triode proportional
 to the voltage above the threshold

---
 pyphs/dictionary/electronics/_triode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/dictionary/electronics/_triode.py b/pyphs/dictionary/electronics/_triode.py
index d063b58..f59de49 100644
--- a/pyphs/dictionary/electronics/_triode.py
+++ b/pyphs/dictionary/electronics/_triode.py
@@ -48,7 +48,7 @@ class Triode(DissipativeNonLinear):
             """
             dissipation function for edge 'e = (g->k)'
             """
-            expr = indicator(vgk-Va)/Rgk
+            expr = (vgk-Va)*indicator(vgk-Va)/Rgk
             return expr
 
         def ipk():
-- 
2.43.0


From 04fe8083590d41c362ee43894b76d1874ecc9178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:06 +0000
Subject: [PATCH 23/33] fix: use the coefficient of the transformers that
 yields the poles of the flux-controlled derivator

---
 pyphs/dictionary/fraccalc/fractional_derivators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/dictionary/fraccalc/fractional_derivators.py b/pyphs/dictionary/fraccalc/fractional_derivators.py
index 245b3d3..b1cee4d 100644
--- a/pyphs/dictionary/fraccalc/fractional_derivators.py
+++ b/pyphs/dictionary/fraccalc/fractional_derivators.py
@@ -134,7 +134,7 @@ class Fracderfc(Graph):
             Nend = nodes[1]
             self += Transformer(label+'alpha'+str(n),
                                 (N1, N2, N3, datum),
-                                alpha=Rn)
+                                alpha=Rn**-1)
             N1 = N2
     metadata = {'title': 'Flux-controlled fractional derivator',
                 'component': 'Fracderfc',
-- 
2.43.0


From ce59fd3c7514dd43c611b14e3eac843708a2a49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:06 +0000
Subject: [PATCH 24/33] fix: accept the documented type of magnetic flux
 variation sources

---
 pyphs/dictionary/magnetics/_source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/dictionary/magnetics/_source.py b/pyphs/dictionary/magnetics/_source.py
index 2cdc6f2..13ece2f 100644
--- a/pyphs/dictionary/magnetics/_source.py
+++ b/pyphs/dictionary/magnetics/_source.py
@@ -21,10 +21,10 @@ class Source(Port):
         parameters.update(kwargs)
         type_ = parameters['type']
         type_ = type_.lower()
-        assert type_ in ('mmf', 'fluxvar')
+        assert type_ in ('mmf', 'mfv', 'fluxvar')
         if type_ == 'mmf':
             ctrl = 'f'
-        elif type_ == 'fluxvar':
+        elif type_ in ('mfv', 'fluxvar'):
             ctrl = 'e'
         parameters.update({'ctrl': ctrl})
         Port.__init__(self, label, nodes, **parameters)
-- 
2.43.0


From afa747fd5be81a9038bd4fd82310994b53ca30cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:06 +0000
Subject: [PATCH 25/33] fix: leave the argument given to a linear storage
 unchanged

---
 pyphs/dictionary/edges/storages.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyphs/dictionary/edges/storages.py b/pyphs/dictionary/edges/storages.py
index 6d9e247..5d0990b 100644
--- a/pyphs/dictionary/edges/storages.py
+++ b/pyphs/dictionary/edges/storages.py
@@ -28,9 +28,10 @@ class StorageLinear(Graph):
             coeff = kwargs['value']
         x = nicevarlabel("x", label)
         x = self.core.symbols(x)
+        c = coeff.symb
         if kwargs['inv_coeff']:
-            coeff.symb = coeff.symb**-1
-        H = coeff.symb * x**2/2.
+            c = c**-1
+        H = c * x**2/2.
         self.core.add_storages([x], H)
         edge_data_dic = {'label': x,
                          'type': 'storage',
@@ -39,9 +40,7 @@ class StorageLinear(Graph):
         edge = (nodes[0], nodes[1], edge_data_dic)
         self.add_edges_from([edge])
         self.core.subs.update(coeff.sub)
-        if len(coeff.sub) == 0 and kwargs['inv_coeff']:
-            self.core.p  += [coeff.symb**-1, ]
-        elif len(coeff.sub) == 0:
+        if len(coeff.sub) == 0:
             self.core.p  += [coeff.symb, ]
 
 
-- 
2.43.0


From 0db12045557380b5e18676d604d012d29241b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:26 +0000
Subject: [PATCH 26/33] fix: use the documented default values of the
 parameters of the components

---
 pyphs/dictionary/electronics/_capacitor.py    | 2 +-
 pyphs/dictionary/electronics/_inductor.py     | 6 ++++--
 pyphs/dictionary/electronics/_resistor.py     | 6 ++++--
 pyphs/dictionary/electronics/_source.py       | 8 +++++---
 pyphs/dictionary/mechanics_dual/_source.py    | 8 +++++---
 pyphs/dictionary/mechanics_dual/_stiffness.py | 4 +++-
 pyphs/dictionary/thermics/_transfers.py       | 6 ++++--
 7 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/pyphs/dictionary/electronics/_capacitor.py b/pyphs/dictionary/electronics/_capacitor.py
index 9f4dc56..b44a70e 100644
--- a/pyphs/dictionary/electronics/_capacitor.py
+++ b/pyphs/dictionary/electronics/_capacitor.py
@@ -52,7 +52,7 @@ class Capacitor(StorageLinear):
                 'desc': 'Linear capacitor.',
                 'nodesdesc': "Capacitor terminals with positive current N1->N2.",
                 'nodes': ('N1', 'N2'),
-                'parameters': [['C', 'Capacitance', 'F', '1e-9']],
+                'parameters': [['C', 'Capacitance', 'F', 1e-9]],
                 'refs': {},
                 'nnodes': 2,
                 'nedges': 1,
diff --git a/pyphs/dictionary/electronics/_inductor.py b/pyphs/dictionary/electronics/_inductor.py
index 1e06090..803a85a 100644
--- a/pyphs/dictionary/electronics/_inductor.py
+++ b/pyphs/dictionary/electronics/_inductor.py
@@ -17,8 +17,10 @@ class Inductor(StorageLinear):
 
     def __init__(self, label, nodes, **kwargs):
 
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
         par_name = 'L'
-        par_val = kwargs[par_name]
+        par_val = parameters[par_name]
         kwargs = {'name': par_name,
                   'value': par_val,
                   'inv_coeff': True,
@@ -32,7 +34,7 @@ class Inductor(StorageLinear):
                 'desc': 'Linear inductor.',
                 'nodesdesc': "Inductor terminals with positive current N1->N2.",
                 'nodes': ('N1', 'N2'),
-                'parameters': [['L', 'Inductance', 'H', '1e-3']],
+                'parameters': [['L', 'Inductance', 'H', 1e-3]],
                 'refs': {},
                 'nnodes': 2,
                 'nedges': 1,
diff --git a/pyphs/dictionary/electronics/_resistor.py b/pyphs/dictionary/electronics/_resistor.py
index 9b5247c..036fa68 100644
--- a/pyphs/dictionary/electronics/_resistor.py
+++ b/pyphs/dictionary/electronics/_resistor.py
@@ -16,10 +16,12 @@ from ..electronics import metadata as dicmetadata
 class Resistor(DissipativeLinear):
 
     def __init__(self, label, nodes, **kwargs):
-        if kwargs['R'] is None:
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
+        if parameters['R'] is None:
             coeff = 0
         else:
-            coeff = kwargs['R']
+            coeff = parameters['R']
         DissipativeLinear.__init__(self, label, nodes, coeff=coeff)
 
     metadata = {'title': 'Resistor',
diff --git a/pyphs/dictionary/electronics/_source.py b/pyphs/dictionary/electronics/_source.py
index 81bf930..7ed5501 100644
--- a/pyphs/dictionary/electronics/_source.py
+++ b/pyphs/dictionary/electronics/_source.py
@@ -16,16 +16,18 @@ from ..electronics import metadata as dicmetadata
 class Source(Port):
 
     def __init__(self, label, nodes, **kwargs):
-        type_ = kwargs['type']
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
+        type_ = parameters['type']
         type_ = type_.lower()
         assert type_ in ('voltage', 'current')
         if type_ == 'voltage':
             ctrl = 'f'
         elif type_ == 'current':
             ctrl = 'e'
-        kwargs.update({'ctrl': ctrl})
+        parameters.update({'ctrl': ctrl})
 #        kwargs.update({'units': units})
-        Port.__init__(self, label, nodes, **kwargs)
+        Port.__init__(self, label, nodes, **parameters)
 
     metadata = {'title': 'Electrical source',
                 'component': 'Source',
diff --git a/pyphs/dictionary/mechanics_dual/_source.py b/pyphs/dictionary/mechanics_dual/_source.py
index cfe5aa2..61fd872 100644
--- a/pyphs/dictionary/mechanics_dual/_source.py
+++ b/pyphs/dictionary/mechanics_dual/_source.py
@@ -16,15 +16,17 @@ from pyphs.misc.rst import equation
 class Source(Port):
 
     def __init__(self, label, nodes, **kwargs):
-        type_ = kwargs['type']
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
+        type_ = parameters['type']
         type_ = type_.lower()
         assert type_ in ('force', 'velocity')
         if type_ == 'force':
             ctrl = 'f'
         elif type_ == 'velocity':
             ctrl = 'e'
-        kwargs.update({'ctrl': ctrl})
-        Port.__init__(self, label, nodes, **kwargs)
+        parameters.update({'ctrl': ctrl})
+        Port.__init__(self, label, nodes, **parameters)
 
     metadata = {'title': 'Mechanical Source',
                 'component': 'Source',
diff --git a/pyphs/dictionary/mechanics_dual/_stiffness.py b/pyphs/dictionary/mechanics_dual/_stiffness.py
index 75cabc2..626a395 100644
--- a/pyphs/dictionary/mechanics_dual/_stiffness.py
+++ b/pyphs/dictionary/mechanics_dual/_stiffness.py
@@ -16,8 +16,10 @@ from pyphs.misc.rst import equation
 class Stiffness(StorageLinear):
 
     def __init__(self, label, nodes, **kwargs):
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
         par_name = 'K'
-        par_val = kwargs[par_name]
+        par_val = parameters[par_name]
         kwargs = {'name': par_name,
                   'value': par_val,
                   'inv_coeff': False,
diff --git a/pyphs/dictionary/thermics/_transfers.py b/pyphs/dictionary/thermics/_transfers.py
index 285e4e8..d7bcc54 100644
--- a/pyphs/dictionary/thermics/_transfers.py
+++ b/pyphs/dictionary/thermics/_transfers.py
@@ -17,10 +17,12 @@ from pyphs.misc.rst import equation
 class Transfer(DissipativeNonLinear):
 
     def __init__(self, label, nodes, **kwargs):
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
         # parameters
         pars = ['R', ]
         for par in pars:
-            assert par in kwargs.keys()
+            assert par in parameters.keys()
         R, = symbols(pars)
 
         # dissipation variable
@@ -57,7 +59,7 @@ class Transfer(DissipativeNonLinear):
                                          [edge1,
                                           edge2],
                                          w, [z1, z2],
-                                         **kwargs)
+                                         **parameters)
 
     metadata = {'title': 'Thermal transfer',
                 'component': 'Transfer',
-- 
2.43.0


From da68d59a863edd95bff411aa1b8c8c6a7e866bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:33 +0000
Subject: [PATCH 27/33] fix: return arrays from the evaluations of vectors and
 of vectorized functions

Evaluation failed for every list of expressions without a slice, returned
arrays of generators for vectors, and ignored the option vectorize.
---
 pyphs/numerics/tools/_evaluation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyphs/numerics/tools/_evaluation.py b/pyphs/numerics/tools/_evaluation.py
index 59105eb..8ee1e41 100644
--- a/pyphs/numerics/tools/_evaluation.py
+++ b/pyphs/numerics/tools/_evaluation.py
@@ -19,11 +19,12 @@ def pyphs_vectorize(func):
     """
     #return numpy.vectorize(func)
     def vec_func(*args):
+        if not hasattr(args[0], '__len__'):
+            return func(*args)
         len_args = len(args[0])
         if not all(len(a) == len_args for a in args[1:]):
             raise AttributeError('Can not call vectorized function {} since given arguments have not the same length.'.format(func.__name__))
-        for ith_args in zip(*args):
-            yield func(*ith_args)
+        return numpy.array([func(*ith_args) for ith_args in zip(*args)])
     return vec_func
 
 
@@ -95,6 +96,7 @@ class Evaluation(object):
             func, args, inds = self.expr_to_numeric(self.core, name,
                                                     self.args(),
                                                     theano=theano,
+                                                    vectorize=vectorize,
                                                     vslice=vslice)
             setattr(self, name, func)
             setattr(self, name+'_args', args)
@@ -149,7 +151,7 @@ class Evaluation(object):
             if isinstance(expr, types.vector_types):
                 func = vector_expr_to_numeric(
                     args,
-                    expr[vslice],
+                    expr if vslice is None else expr[vslice],
                     subs=core.subs,
                     theano=theano,
                     vectorize=vectorize
-- 
2.43.0


From 8e0f2aac2c8467ba2212a243f0d1c21d6efd7dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:28 +0000
Subject: [PATCH 28/33] fix: generate every cycle of a signal

Only the last of the ncycles cycles was returned.
---
 pyphs/misc/signals/synthesis/synthesis_array.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyphs/misc/signals/synthesis/synthesis_array.py b/pyphs/misc/signals/synthesis/synthesis_array.py
index df4529e..901c592 100644
--- a/pyphs/misc/signals/synthesis/synthesis_array.py
+++ b/pyphs/misc/signals/synthesis/synthesis_array.py
@@ -302,6 +302,7 @@ to PWM.
     deb = background_noise(parameters['ndeb'])
 
     # cycles
+    cycles = []
     for c in range(parameters['ncycles']):
         if parameters['which'] == 'zero':
             Sig = constant(parameters['non'], 0.)
@@ -349,10 +350,12 @@ to PWM.
             cycle_deb += parameters['offset']
             cycle_end += parameters['offset']
 
+        cycles += [cycle_deb, cycle_end]
+
     # end
     end = background_noise(parameters['nend'])
 
-    return hstack((deb, cycle_deb, cycle_end, end))
+    return hstack([deb] + cycles + [end])
 
 
 def build_parameters(**kwargs):
-- 
2.43.0


From a5883179e42e09fc4f308e89a694e8fb055d105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:55 +0000
Subject: [PATCH 29/33] fix: accept the documented parameters of the
 piecewise-linear components

integrate, start, stop and step raised errors.
---
 pyphs/dictionary/pwl/_dissipative.py | 3 ++-
 pyphs/dictionary/pwl/_storage.py     | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyphs/dictionary/pwl/_dissipative.py b/pyphs/dictionary/pwl/_dissipative.py
index 9336474..3fadbb2 100644
--- a/pyphs/dictionary/pwl/_dissipative.py
+++ b/pyphs/dictionary/pwl/_dissipative.py
@@ -31,7 +31,8 @@ class Dissipative(Graph):
         Graph.__init__(self, label=label)
 
         path = kwargs.pop('file')
-        data = np.vstack(map(np.array, data_generator(path)))
+        values = slice(*[kwargs.pop(k, None) for k in ('start', 'stop', 'step')])
+        data = np.vstack(list(map(np.array, data_generator(path))))[:, values]
         w_vals = data[0, :]
         z_vals = data[1, :]
 
diff --git a/pyphs/dictionary/pwl/_storage.py b/pyphs/dictionary/pwl/_storage.py
index 35ce757..a5aa186 100644
--- a/pyphs/dictionary/pwl/_storage.py
+++ b/pyphs/dictionary/pwl/_storage.py
@@ -27,14 +27,17 @@ class Storage(Graph):
 
         assert 'file' in kwargs, "pwl.storage component need 'file' argument"
         path = kwargs.pop('file')
-        vals = np.vstack(map(np.array, data_generator(path)))
+        values = slice(*[kwargs.pop(k, None) for k in ('start', 'stop', 'step')])
+        vals = np.vstack(list(map(np.array, data_generator(path))))[:, values]
         x_vals = vals[0, :]
         h_vals = vals[1, :]
 
         assert all(h_vals[np.nonzero(x_vals >= 0)] >= 0), 'All values h(x) for\
  x>=0 must be non-negative (component {})'.format(label)
 
-        if kwargs['integ']:
+        integ = kwargs.pop('integ', False)
+        integ = kwargs.pop('integrate', integ)
+        if integ:
             assert all(h_vals[np.nonzero(x_vals < 0)] < 0), 'All values dxh(x)\
  for x<0 must be negative (component {})'.format(label)
         else:
@@ -49,7 +52,7 @@ zero (component {})'.format(label)
         # state  variable
         x = symbols("x"+label)
         # storage funcion
-        h = pwl_func(x_vals, h_vals, x, **kwargs)
+        h = pwl_func(x_vals, h_vals, x, integ=integ, **kwargs)
 
         # edge data
         data = {'label': x,
-- 
2.43.0


From c00567fc9a76dbef4af675a6941b61f5991202ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:45 +0000
Subject: [PATCH 30/33] fix: keep the edges of a serial chain that is merged
 into one component

---
 pyphs/graphs/subgraph.py | 42 ++++++++++++----------------------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/pyphs/graphs/subgraph.py b/pyphs/graphs/subgraph.py
index 402542b..361991c 100644
--- a/pyphs/graphs/subgraph.py
+++ b/pyphs/graphs/subgraph.py
@@ -13,7 +13,6 @@ import warnings
 from .tools import serial_next
 from networkx import Graph as nwxGraph
 from networkx import chain_decomposition
-from networkx import contracted_nodes
 import copy
 
 
@@ -685,39 +684,22 @@ determined\n{}'.format(e))
             if not ((n1, n2) in preserve_nodes or
                     (n2, n1) in preserve_nodes):
 
-                # new undirected graph
-                undirected = nwxGraph(self)
-
                 if n1 in self.terminals:
-                    del_node, connect_node1 = n2, n1
-                    connect_node2 = list(undirected.neighbors(del_node))[0]
+                    del_node, connect_node = n2, n1
                 else:
-                    del_node, connect_node1 = n1, n2
-                    connect_node2 = list(undirected.neighbors(del_node))[0]
-
-                # Add edge with new node
-                contracted_edges = contracted_nodes(self,
-                                                    connect_node1,
-                                                    del_node,
-                                                    self_loops=False).edges
-                self.add_edges_from(contracted_edges)
-                # Get edge key
-                edge = self.nodes2edge(del_node, connect_node2)
-                n1, n2 = edge[:2]
-                for key in self[n1][n2].keys():
-                    if self[n1][n2][key]['label'] == e[-1]['label']:
-                        break
-                data = edge[2]
-                # Actually remove edge
-                self.remove_edge(n1, n2, key)
-
-                edge = self.nodes2edge(connect_node1, connect_node2)
-                n1, n2 = edge[:2]
-                for k in data:
-                    self[n1][n2][0][k] = data[k]
+                    del_node, connect_node = n1, n2
+
+                # move the edges of the deleted node to the connected one
+                for m1, m2, key, data in list(self.edges(keys=True,
+                                                         data=True)):
+                    if del_node in (m1, m2):
+                        self.remove_edge(m1, m2, key)
+                        nodes = [connect_node if n == del_node else n
+                                 for n in (m1, m2)]
+                        self.add_edge(*nodes, **data)
 
                 # store new node label
-                new_nodes[del_node] = connect_node1
+                new_nodes[del_node] = connect_node
 
             self.remove_orphan_nodes()
 
-- 
2.43.0


From de415340bbeb8ca444201bf88cce55972154a909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:58 +0000
Subject: [PATCH 31/33] fix: read back the names with spaces and the texts that
 a netlist writes

---
 pyphs/graphs/netlists.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pyphs/graphs/netlists.py b/pyphs/graphs/netlists.py
index 0558df4..475cbd5 100644
--- a/pyphs/graphs/netlists.py
+++ b/pyphs/graphs/netlists.py
@@ -119,10 +119,7 @@ components).
                     # get 'infos' (dic, comp and nodes) and parameters
                     infos, _, parameters = line.partition(':')
                     # get ‘dic.comp' and 'label nodes'
-                    si = infos.split()
-                    diccomp = si.pop(0)
-                    label = si.pop(0)
-                    nodes = ''.join(si)
+                    diccomp, label, nodes = infos.split(None, 2)
                     dic, _, comp = diccomp.partition('.')
                     self.dictionaries = list(self.dictionaries)+[dic, ]
                     self.components = list(self.components)+[comp, ]
@@ -132,15 +129,15 @@ components).
                     pars = {}
                     for n in range(nb_pars):
                         par, _, parameters = parameters.partition(';')
-                        par = par.replace(' ', '')
                         key, _, value = par.partition('=')
+                        key, value = key.strip(), value.strip()
                         if value.startswith('('):
                             value = value[1:-1].split(',')
                             value = tuple(map(eval, value))
                         else:
                             try:
                                 value = ast.literal_eval(value)
-                            except ValueError:
+                            except (ValueError, SyntaxError):
                                 pass
                         pars.update({key: value})
                     self.arguments = list(self.arguments)+[pars, ]
-- 
2.43.0


From 2bbc5c79d17e3c4a04c9c37b7646c838c9be1207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:42 +0000
Subject: [PATCH 32/33] fix: accept None for the start time of the window of
 recorded data

---
 pyphs/numerics/simulations/h5data/h5data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 8417f07..7136631 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -218,7 +218,7 @@ class H5Data(object):
             if not isinstance(t, (int, float)):
                 text = 'tstart must be a positive value: %s.' % str(t)
                 raise ValueError(text)
-        self.start = self._time2index(t, m='min')
+            self.start = self._time2index(t, m='min')
 
     # tstart: start = tstart*fs and slice for t is slice(start, stop, step)
     tstart = property(_get_tstart, _set_tstart)
-- 
2.43.0


From e1337e92df6feb7c337104f1452415725e32eca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:58 +0000
Subject: [PATCH 33/33] fix: number of decimated samples of the quantities
 computed from recorded data

---
 pyphs/numerics/simulations/h5data/h5data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 7136631..07bb874 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -874,7 +874,7 @@ or an integer nt (number of time steps).'
         if vslice is None:
             vslice = slice(None, None, None)
 
-        expectedNt = (tslice.stop-tslice.start)//tslice.step
+        expectedNt = len(range(tslice.start, tslice.stop, tslice.step))
 
         evalobj = self.method.to_evaluation(names=[name], vslice=vslice)
 
-- 
2.43.0

