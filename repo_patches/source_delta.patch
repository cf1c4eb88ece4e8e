From cc6e23823344179aab7bbabdb7c8b35bc06b9ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:25 +0000
Subject: [PATCH 01/44] fix: Circuit field queries must not overwrite coil
 currents

The circuit current setter already keeps the coils in step. Overwriting
coil.current inside psi/Br/Bz undid the zeroing which Coil.getForces relies
on, so a coil in a circuit felt its own (singular) field, and made every
field query a write.
---
 freegs/machine.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 807ab4f..e1bff90 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -131,7 +131,6 @@ class Circuit:
         """
         psival = 0.0
         for label, coil, multiplier in self.coils:
-            coil.current = self.current * multiplier
             psival += coil.psi(R, Z)
         return psival
 
@@ -151,7 +150,6 @@ class Circuit:
         """
         psival = 0.0
         for label, coil, multiplier in self.coils:
-            coil.current = self.current * multiplier
             psival += coil.calcPsiFromGreens(pgreen[label])
         return psival
 
@@ -161,7 +159,6 @@ class Circuit:
         """
         result = 0.0
         for label, coil, multiplier in self.coils:
-            coil.current = self.current * multiplier
             result += coil.Br(R, Z)
         return result
 
@@ -171,7 +168,6 @@ class Circuit:
         """
         result = 0.0
         for label, coil, multiplier in self.coils:
-            coil.current = self.current * multiplier
             result += coil.Bz(R, Z)
         return result
 
-- 
2.43.0


From 9cc630105c1f791ecd5f6850265ca58568a8fa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:25 +0000
Subject: [PATCH 02/44] fix: MultiCoil at a single point carries current *
 turns

The number of turns was ignored by controlPsi, controlBr and controlBz when
R, Z is a single point, although the documented total current is
current * turns (and getForces uses it).
---
 freegs/multi_coil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 6614ac6..92c2ffb 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -157,7 +157,7 @@ class MultiCoil(Coil):
         if self.mirror:
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += Greens(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        return result * self.turns / len(self.Rfil)
 
     def controlBr(self, R, Z):
         """
@@ -170,7 +170,7 @@ class MultiCoil(Coil):
         if self.mirror:  # Mirror coil(s) in Z, creating circuit
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += GreensBr(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        return result * self.turns / len(self.Rfil)
 
     def controlBz(self, R, Z):
         """
@@ -183,7 +183,7 @@ class MultiCoil(Coil):
         if self.mirror:  # Mirror coil(s) in Z, creating circuit
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += GreensBz(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        return result * self.turns / len(self.Rfil)
 
     def __repr__(self):
         return "MultiCoil(R={0}, Z={1}, current={2:.1f}, turns={3}, control={4}, mirror={5}, polarity={6})".format(
-- 
2.43.0


From e12c200c1b2977acd1490dbe7804a788ccac5a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:25 +0000
Subject: [PATCH 03/44] fix: PreCalcCoil response is the 1 A-turn map times
 turns

---
 freegs/pre_calc_coil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freegs/pre_calc_coil.py b/freegs/pre_calc_coil.py
index 7b6952b..86b207e 100644
--- a/freegs/pre_calc_coil.py
+++ b/freegs/pre_calc_coil.py
@@ -128,7 +128,7 @@ class PreCalcCoil(Coil):
         else:
             result = self.cPsi(R, Z, grid=False)
 
-        return result
+        return result * self.turns
 
     def controlBr(self, R, Z):
         """
@@ -140,7 +140,7 @@ class PreCalcCoil(Coil):
         else:
             result = self.cBr(R, Z, grid=False)
 
-        return result
+        return result * self.turns
 
     def controlBz(self, R, Z):
         """
@@ -152,7 +152,7 @@ class PreCalcCoil(Coil):
         else:
             result = self.cBz(R, Z, grid=False)
 
-        return result
+        return result * self.turns
 
     def __repr__(self):
         return "PreCalcCoil({0}, current={1:.1f}, turns={2}, control={3})".format(
-- 
2.43.0


From b05ffd7d92edde6a7e4ab4ab185543a6e21d42a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:25 +0000
Subject: [PATCH 04/44] fix: MirroredCoil places the lower coil at -Z and keeps
 current, control

Both coils were created at +Z, and the Circuit defaults (zero current,
control on) replaced the requested current and control.
---
 freegs/machine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index e1bff90..1367d21 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -303,10 +303,12 @@ def MirroredCoil(
             ),
             (
                 "L",
-                Coil(R, Z, current=current, turns=turns, control=control, area=area),
+                Coil(R, -Z, current=current, turns=turns, control=control, area=area),
                 1.0 if symmetric else -1.0,
             ),
-        ]
+        ],
+        current=current,
+        control=control,
     )
 
 
-- 
2.43.0


From 8d2a7cfb0a840ddb932ff048b44ab9a40002ae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:25 +0000
Subject: [PATCH 05/44] fix: Rogowski sensors measure the total current of
 every coil type

The measured coil current left out the number of turns, and a Solenoid in
the machine raised AttributeError because it had no inShape method.
---
 freegs/machine.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 1367d21..516d22f 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -210,7 +210,10 @@ class Circuit:
         return forces
 
     def inShape(self, polygon):
-        return sum(coil.inShape(polygon)*multiplier for label, coil, multiplier in self.coils)
+        return sum(
+            coil.inShape(polygon) * coil.turns * multiplier
+            for label, coil, multiplier in self.coils
+        )
 
     def __repr__(self):
         result = "Circuit(["
@@ -420,6 +423,16 @@ class Solenoid:
         """
         return {}
 
+    def inShape(self, polygon):
+        """
+        Number of turns inside the given polygon
+        """
+        return sum(
+            1
+            for Zs in np.linspace(self.Zsmin, self.Zsmax, self.Ns)
+            if polygon.contains(Point(self.Rs, Zs))
+        )
+
     def __repr__(self):
         return "Solenoid(Rs={0}, Zsmin={1}, Zsmax={2}, current={3}, Ns={4}, control={5})".format(
             self.Rs, self.Zsmin, self.Zsmax, self.current, self.Ns, self.control
@@ -536,7 +549,9 @@ class RogowskiSensor(Sensor):
             # coil current
             coil_current = 0
             for label, coil in tokamak.coils:
-                coil_current += coil.inShape(self.polygon) * coil.current
+                # Note: Circuit and Solenoid include turns in inShape
+                turns = getattr(coil, "turns", 1)
+                coil_current += coil.inShape(self.polygon) * coil.current * turns
 
             # plasma current
             plasma_current = 0
-- 
2.43.0


From b12c59e201062988f3cacd750e22f25f918192bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:25 +0000
Subject: [PATCH 06/44] fix: moving a shaped or filament coil also moves its
 outline

The outline is used by inShape, to_numpy_array, __eq__ and plot; it stayed at
the original location when R or Z was set.
---
 freegs/filament_coil.py | 2 ++
 freegs/shaped_coil.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 2df7d1e..1453185 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -326,6 +326,7 @@ class FilamentCoil(Coil):
         # Need to shift all points
         Rshift = Rnew - self._R_centre
         self.points = [(r + Rshift, z) for r, z in self.points]
+        self.shape = [(r + Rshift, z) for r, z in self.shape]
         self._R_centre = Rnew
 
     @property
@@ -340,6 +341,7 @@ class FilamentCoil(Coil):
         # Need to shift all points
         Zshift = Znew - self._Z_centre
         self.points = [(r, z + Zshift) for r, z in self.points]
+        self.shape = [(r, z + Zshift) for r, z in self.shape]
         self._Z_centre = Znew
 
     @property
diff --git a/freegs/shaped_coil.py b/freegs/shaped_coil.py
index ba876b8..f5a56a3 100644
--- a/freegs/shaped_coil.py
+++ b/freegs/shaped_coil.py
@@ -145,6 +145,7 @@ class ShapedCoil(Coil):
         # Need to shift all points
         Rshift = Rnew - self._R_centre
         self._points = [(r + Rshift, z, w) for r, z, w in self._points]
+        self.shape = [(r + Rshift, z) for r, z in self.shape]
         self._R_centre = Rnew
 
     @property
@@ -159,6 +160,7 @@ class ShapedCoil(Coil):
         # Need to shift all points
         Zshift = Znew - self._Z_centre
         self._points = [(r, z + Zshift, w) for r, z, w in self._points]
+        self.shape = [(r, z + Zshift) for r, z in self.shape]
         self._Z_centre = Znew
 
     @property
-- 
2.43.0


From dfcdfcd9b44ce28f39179bfd703e74ef57166621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:25 +0000
Subject: [PATCH 07/44] fix: moving a MultiCoil does not modify the lists it
 was made from

---
 freegs/multi_coil.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 92c2ffb..bce1add 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -286,8 +286,7 @@ class MultiCoil(Coil):
     def R(self, Rnew):
         # Need to shift all points
         Rshift = Rnew - self._R_centre
-        for i in range(len(self.Rfil)):
-            self.Rfil[i] += Rshift
+        self.Rfil = [r + Rshift for r in self.Rfil]
         self._R_centre = Rnew
 
     @property
@@ -301,6 +300,5 @@ class MultiCoil(Coil):
     def Z(self, Znew):
         # Need to shift all points
         Zshift = Znew - self._Z_centre
-        for i in range(len(self.Zfil)):
-            self.Zfil[i] += Zshift
+        self.Zfil = [z + Zshift for z in self.Zfil]
         self._Z_centre = Znew
-- 
2.43.0


From 9934d01c31382eef50564b299debe0d22a00de34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:17 +0000
Subject: [PATCH 08/44] fix: moving a PreCalcCoil vertically moves its outline
 and field maps

---
 freegs/pre_calc_coil.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/freegs/pre_calc_coil.py b/freegs/pre_calc_coil.py
index 86b207e..81119a3 100644
--- a/freegs/pre_calc_coil.py
+++ b/freegs/pre_calc_coil.py
@@ -185,6 +185,12 @@ class PreCalcCoil(Coil):
         # Need to shift all points
         Zshift = Znew - self._Z_centre
         self._points = [(r, z + Zshift) for r, z in self._points]
+        self.shape = [(r, z + Zshift) for r, z in self.shape]
+        # The pre-calculated maps move vertically with the coil
+        self.Zgrid = self.Zgrid + Zshift
+        self.cPsi = RectBivariateSpline(self.Rgrid, self.Zgrid, self.mapPsi)
+        self.cBr = RectBivariateSpline(self.Rgrid, self.Zgrid, self.mapBr)
+        self.cBz = RectBivariateSpline(self.Rgrid, self.Zgrid, self.mapBz)
         self._Z_centre = Znew
 
     @property
-- 
2.43.0


From 9e4b625df485b1a215b6957d25182f469e64506d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:17 +0000
Subject: [PATCH 09/44] fix: MultiCoil.from_numpy_array reads the field that
 was written

It looked for a field "npoints" which the dtype does not have, and lost the
number of turns of a coil at a single point.
---
 freegs/multi_coil.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index bce1add..d477c5f 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -248,8 +248,12 @@ class MultiCoil(Coil):
         current = value["current"]
         turns = value["turns"]
         control = value["control"]
-        mirror = value["npoints"]
+        mirror = value["mirror"]
         polarity = value["polarity"]
+        if RZlen == 1:
+            # A single location, so that the number of turns is kept
+            R = R[0]
+            Z = Z[0]
 
         return MultiCoil(
             R,
-- 
2.43.0


From 6f457addb8f551451a1d16c2af41a5d85ea3b402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:17 +0000
Subject: [PATCH 10/44] fix: FilamentCoil can be written to and read from file

It inherited Coil.to_numpy_array and from_numpy_array, which do not match
its dtype, so saving an equilibrium with a FilamentCoil failed.
---
 freegs/filament_coil.py | 55 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 1453185..2e0b355 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -188,6 +188,9 @@ class FilamentCoil(Coil):
             (str("turns"), int),
             (str("control"), bool),
             (str("npoints"), int),
+            (str("shapelen"), int),  # Length of the outline arrays
+            (str("shape_R"), "10f8"),  # Note: Up to 10 points
+            (str("shape_Z"), "10f8"),  # Note: Up to 10 points
         ]
     )
 
@@ -352,6 +355,58 @@ class FilamentCoil(Coil):
     def area(self, area):
         raise ValueError("Area of a FilamentCoil is fixed")
 
+    def to_numpy_array(self):
+        """
+        Helper method for writing output
+        """
+        RZlen = len(self.points)
+        R = np.zeros(500)
+        Z = np.zeros(500)
+        R[:RZlen] = [r for r, z in self.points]
+        Z[:RZlen] = [z for r, z in self.points]
+
+        shapelen = len(self.shape)
+        shape_R = np.zeros(10)
+        shape_Z = np.zeros(10)
+        shape_R[:shapelen] = [r for r, z in self.shape]
+        shape_Z[:shapelen] = [z for r, z in self.shape]
+
+        return np.array(
+            (
+                RZlen,
+                R,
+                Z,
+                self.current,
+                self.turns,
+                self.control,
+                self.npoints,
+                shapelen,
+                shape_R,
+                shape_Z,
+            ),
+            dtype=self.dtype,
+        )
+
+    @classmethod
+    def from_numpy_array(cls, value):
+        if value.dtype != cls.dtype:
+            raise ValueError(
+                "Can't create {this} from dtype: {got} (expected: {dtype})".format(
+                    this=type(cls), got=value.dtype, dtype=cls.dtype
+                )
+            )
+        RZlen = value["RZlen"]
+        shapelen = value["shapelen"]
+
+        return FilamentCoil(
+            Rfil=value["R"][:RZlen],
+            Zfil=value["Z"][:RZlen],
+            shape=list(zip(value["shape_R"][:shapelen], value["shape_Z"][:shapelen])),
+            current=value["current"],
+            turns=value["turns"],
+            control=value["control"],
+        )
+
     def plot(self, axis=None, show=False):
         """
         Plot the coil points, using axis if given
-- 
2.43.0


From 4a42bd09cb318d9f227f5578dd34191cff3d581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:17 +0000
Subject: [PATCH 11/44] fix: keep order, check_limited and R0 in HDF5 files

Reading an equilibrium back silently returned to the default operator order,
limiter treatment and reference major radius.
---
 freegs/dump.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/freegs/dump.py b/freegs/dump.py
index 3822962..8e6085c 100644
--- a/freegs/dump.py
+++ b/freegs/dump.py
@@ -161,8 +161,13 @@ class OutputFile(object):
         equilibrium_group.create_dataset(
             "boundary_function", data=equilibrium._applyBoundary.__name__
         )
+        equilibrium_group.create_dataset("order", data=equilibrium.order)
+        equilibrium_group.create_dataset(
+            "check_limited", data=equilibrium.check_limited
+        )
 
         tokamak_group = equilibrium_group.create_group(self.MACHINE_GROUP_NAME)
+        tokamak_group.create_dataset("R0", data=equilibrium.tokamak.R0)
 
         if equilibrium.tokamak.wall is not None:
             tokamak_group.create_dataset("wall_R", data=equilibrium.tokamak.wall.R)
@@ -216,7 +221,16 @@ class OutputFile(object):
         else:
             wall = None
 
-        tokamak = Machine(coils, wall)
+        # Settings which older files do not contain
+        settings = {}
+        if "order" in equilibrium_group:
+            settings["order"] = int(equilibrium_group["order"][()])
+            settings["check_limited"] = bool(equilibrium_group["check_limited"][()])
+
+        if "R0" in tokamak_group:
+            tokamak = Machine(coils, wall, R0=tokamak_group["R0"][()])
+        else:
+            tokamak = Machine(coils, wall)
 
         Rmin = equilibrium_group["Rmin"][()]
         Rmax = equilibrium_group["Rmax"][()]
@@ -249,6 +263,7 @@ class OutputFile(object):
             psi=plasma_psi,
             current=current,
             boundary=eq_boundary_func,
+            **settings
         )
 
         return equilibrium
-- 
2.43.0


From dfe005f011746ce00d7012ea40ceed00da66ffe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:36 +0000
Subject: [PATCH 12/44] fix: populate a FilamentCoil from its shape with scalar
 coordinates

The interpolated spacing was a one-element array, which made every second
row a sequence that shapely.Point rejects.
---
 freegs/filament_coil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 2e0b355..3d76059 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -113,7 +113,7 @@ def populate_with_fils(shape, Nfils):
 
     # Now linearly interpolate to get the d that corresponds
     # to the closest nInside to Nfils
-    d_opt = np.interp([Nfils * 1.1], nInside_data, d_data)
+    d_opt = np.interp(Nfils * 1.1, nInside_data, d_data)
 
     # Now get the locations of the filaments for this d = d_opt where nInside ~ Nfils
     rfils = []
-- 
2.43.0


From c1054c33742e47c1e87d1433a9079bf202f415de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:40 +0000
Subject: [PATCH 13/44] fix: interpolate limiter flux on the (R,Z) grid without
 transposing

---
 freegs/equilibrium.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 6a534b4..1155fe7 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -558,8 +558,7 @@ class Equilibrium:
                 R = np.asarray(self.R[:, 0])
                 Z = np.asarray(self.Z[0, :])
 
-                # psi is transposed due to how FreeGS meshgrids R,Z
-                psi_2d = interpolate.RectBivariateSpline(x=R, y=Z, z=psi.T)
+                psi_2d = interpolate.RectBivariateSpline(x=R, y=Z, z=psi)
 
                 # Get psi at the limit points
                 psi_limit_points = np.zeros(len(Rlimit))
-- 
2.43.0


From fea500b97acb176e93c6eaad75f0541e88f76870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:41 +0000
Subject: [PATCH 14/44] fix: G-EQDSK profiles are written on the full flux grid

The arrays were evaluated on a grid excluding the boundary, but the format
(and the reader here) takes them as uniform from axis to boundary, so
profiles read back were stretched by nx/(nx-1).
---
 freegs/geqdsk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 8128c98..b6a303e 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -105,7 +105,7 @@ def write(eq, fh, label=None, oxpoints=None, fileformat=geqdsk.write):
 
     data["cpasma"] = eq.plasmaCurrent()  # Plasma current [A]
 
-    psinorm = linspace(0.0, 1.0, nx, endpoint=False)  # Does not include separatrix
+    psinorm = linspace(0.0, 1.0, nx)  # Uniform from magnetic axis to boundary
 
     data["fpol"] = eq.fpol(psinorm)
     data["pres"] = eq.pressure(psinorm)
@@ -119,8 +119,9 @@ def write(eq, fh, label=None, oxpoints=None, fileformat=geqdsk.write):
     data["simagx"] = 0.0
 
     qpsi = zeros([nx])
-    qpsi[1:] = eq.q(psinorm[1:])  # Exclude axis
+    qpsi[1:-1] = eq.q(psinorm[1:-1])  # Exclude axis and separatrix
     qpsi[0] = qpsi[1]
+    qpsi[-1] = qpsi[-2]
     data["qpsi"] = qpsi
 
     # rlim, zlim contain the wall, if there is one.
-- 
2.43.0


From daec55beed5641c66e91fde2d9637793fcf9aa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:41 +0000
Subject: [PATCH 15/44] fix: G-EQDSK reader with a domain uses the grid size it
 calculated

newnx, newny were undefined unless the new domain was larger in both
directions, and were never used.
---
 freegs/geqdsk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index b6a303e..73530ab 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -373,6 +373,7 @@ def read(
         # to keep the resolution as good or better than the input
         Rmin, Rmax, Zmin, Zmax = domain
         # Calculate approximate grid size needed to keep current resolution
+        newnx, newny = nx, ny
         fnewnx = (Rmax - Rmin) / dR + 1.0
         if fnewnx > nx:
             newnx = int(ceilPow2(fnewnx - 1)) + 1
@@ -395,8 +396,8 @@ def read(
             Rmax=Rmax,
             Zmin=Zmin,
             Zmax=Zmax,
-            nx=nx,
-            ny=ny,
+            nx=newnx,
+            ny=newny,
             check_limited=True,
         )
 
-- 
2.43.0


From 130231ccd1a272ac11f9bee00ce1881c5eb05d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:31 +0000
Subject: [PATCH 16/44] fix: G-EQDSK reader works with the data object of
 recent freeqdsk

freeqdsk >= 0.3 returns an object without a membership test, so every read
failed with a TypeError.
---
 freegs/geqdsk.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 73530ab..13aef19 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -248,9 +248,13 @@ def read(
     data = geqdsk.read(fh, cocos=cocos)
 
     # If data contains a limiter, set the machine wall
-    if "rlim" in data:
-        if len(data["rlim"]) > 3:
-            machine.wall = Wall(data["rlim"], data["zlim"])
+    try:
+        rlim = data["rlim"]
+    except (KeyError, AttributeError):
+        rlim = None
+    if rlim is not None:
+        if len(rlim) > 3:
+            machine.wall = Wall(rlim, data["zlim"])
         else:
             print("Fewer than 3 points given for limiter/wall. Ignoring.")
 
-- 
2.43.0


From 61ab7a7418e24d23e464a309e8a7782632a61e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:11 +0000
Subject: [PATCH 17/44] fix: G-EQDSK reader with a domain keeps the core mask
 and flux normalisation of the input

They were taken from the starting guess of the new equilibrium (often no
mask at all, a TypeError), not from the flux which was read.
---
 freegs/geqdsk.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 13aef19..b909a6f 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -391,6 +391,7 @@ def read(
         # Create an interpolation function for Jtor and the input psi
         Jtor_func = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], Jtor)
         psi_func = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], psi)
+        mask_func = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], mask)
 
         # Create a new Equilibrium object
         # (replacing previous 'eq')
@@ -408,13 +409,10 @@ def read(
         # Interpolate Jtor and psi onto new grid
         Jtor = Jtor_func(eq.R, eq.Z, grid=False)
         psi = psi_func(eq.R, eq.Z, grid=False)
+        mask = np.where(mask_func(eq.R, eq.Z, grid=False) > 0.5, 1.0, 0.0)
 
-        psi_bndry = eq.psi_bndry
-        psi_axis = eq.psi_axis
-        mask = eq.mask
-
-        # Update the mask function by calculating normalised psi
-        # on the new grid
+        # Calculate normalised psi on the new grid, using the axis and
+        # boundary flux of the input
         psi_norm = clip((psi - psi_axis) / (psi_bndry - psi_axis), 0.0, 1.0)
 
     # Note: Here we have
-- 
2.43.0


From 5248a3afcb9358001cc65e86e08b80a2c739dacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:33 +0000
Subject: [PATCH 18/44] fix: f = R*Bt has the sign of its vacuum value

---
 freegs/jtor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/jtor.py b/freegs/jtor.py
index 2e35bb8..0f1e695 100644
--- a/freegs/jtor.py
+++ b/freegs/jtor.py
@@ -85,7 +85,8 @@ class Profile(abc.ABC):
 
             # ffprime = 0.5*d/dpsi(f^2)
             # Apply boundary condition at psinorm=1 val = fvac**2
-            return sqrt(2.0 * val + self.fvac() ** 2)
+            # f has the sign of fvac
+            return np.copysign(sqrt(2.0 * val + self.fvac() ** 2), self.fvac())
 
         # Assume it's a NumPy array, or can be converted to one
         psinorm = np.array(psinorm)
@@ -105,7 +106,8 @@ class Profile(abc.ABC):
 
             # ffprime = 0.5*d/dpsi(f^2)
             # Apply boundary condition at psinorm=1 val = fvac**2
-            ovals[i] = sqrt(2.0 * val + self.fvac() ** 2)
+            # f has the sign of fvac
+            ovals[i] = np.copysign(sqrt(2.0 * val + self.fvac() ** 2), self.fvac())
 
         return reshape(ovals, psinorm.shape)
 
-- 
2.43.0


From b147efde13e61888f4dd05433ee04947158e1121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:42 +0000
Subject: [PATCH 19/44] fix: 2D flux constraints accept scalar weights and
 ignore a constant offset

---
 freegs/control.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/freegs/control.py b/freegs/control.py
index e3e5dcd..0c43cad 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -226,7 +226,10 @@ class ConstrainPsi2D(object):
 
         """
         if weights is None:
-            weights = np.full(target_psi.shape, 1.0)
+            weights = 1.0
+
+        # The average needs one weight per point
+        weights = np.ones(target_psi.shape) * weights
 
         # Remove the average so constant offsets are ignored
         self.target_psi = target_psi - np.average(target_psi, weights=weights)
@@ -351,8 +354,12 @@ class ConstrainPsi2DAdvanced(object):
         """
 
         self.current_lims = current_lims
-        self.target_psi = target_psi
-        self.weights = weights
+
+        # The average needs one weight per point
+        self.weights = np.ones(target_psi.shape) * weights
+
+        # Remove the average so constant offsets are ignored
+        self.target_psi = target_psi - np.average(target_psi, weights=self.weights)
 
     def __call__(self, eq):
         """
-- 
2.43.0


From 1889373ba1972b8b6e853294cc9b8bdedd5cdcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:42 +0000
Subject: [PATCH 20/44] fix: bounded flux constraints work without current
 limits

---
 freegs/control.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freegs/control.py b/freegs/control.py
index 0c43cad..00eedc8 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -373,6 +373,8 @@ class ConstrainPsi2DAdvanced(object):
         # In order for the optimisation to work, the initial guess must be within the
         # bounds supplied. Hence, check start_currents and adjust accordingly to be within bounds
         for i in range(ncontrols):
+            if self.current_lims is None:
+                break
             bnd_upper = max(self.current_lims[i])
             bnd_lower = min(self.current_lims[i])
             sc = start_currents[i]
@@ -468,6 +470,8 @@ class ConstrainPsiNorm2DAdvanced(object):
         # In order for the optimisation to work, the initial guess must be within the
         # bounds supplied. Hence, check start_currents and adjust accordingly to be within bounds
         for i in range(ncontrols):
+            if self.current_lims is None:
+                break
             bnd_upper = max(self.current_lims[i])
             bnd_lower = min(self.current_lims[i])
             sc = start_currents[i]
-- 
2.43.0


From 9139bc74442828e0cad1a75eab723a437eed3bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:25 +0000
Subject: [PATCH 21/44] fix: optimiser keeps the lowest score of the initial
 population

The best candidate of the initial population was chosen with '>', so the
optimiser could return the candidate with the highest measure.
---
 freegs/optimiser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index f36910c..d6b3fe5 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -129,7 +129,7 @@ def optimise(obj, controls, measure, maxgen=10, N=10, CR=0.3, F=1.0, monitor=Non
         agent = mutate(obj, controls)
         score_agent = (measure(agent), agent)
         population.append(score_agent)
-        if score_agent[0] > best[0]:
+        if score_agent[0] < best[0]:
             best = score_agent
 
     for generation in range(maxgen):
-- 
2.43.0


From 4dea3538399f43afdac85f1cf4ff55bb25197408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:25 +0000
Subject: [PATCH 22/44] fix: optimiser works with a single control

numpy's randint excludes its upper bound: with one control the call failed,
and the last control was never the one certain to be modified.
---
 freegs/optimiser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index d6b3fe5..8a0bed9 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -139,7 +139,7 @@ def optimise(obj, controls, measure, maxgen=10, N=10, CR=0.3, F=1.0, monitor=Non
             others = [population[index][1] for index in pickUnique(N, 3, [ai])]
 
             new_obj = copy.deepcopy(agent[1])
-            R = random.randint(0, len(controls) - 1)  # Pick a random control to modify
+            R = random.randint(0, len(controls))  # Pick a random control to modify
             for i, control in enumerate(controls):
                 if i == R or random.random() < CR:
                     control.set(
-- 
2.43.0


From e498f133514b795bcf6d155c329873d62f046ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:25 +0000
Subject: [PATCH 23/44] fix: optimiser can pick every other member of the
 population

numpy's randint excludes its upper bound, so the last available member was
never picked.
---
 freegs/optimiser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index 8a0bed9..d725c5d 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -66,7 +66,7 @@ def pickUnique(N, m, e):
     others = []  # The list of three agents
     for i in range(m):
         high = N - 1 - i - len(e)
-        newind = random.randint(0, high) if high > 0 else 0
+        newind = random.randint(0, high + 1)
         
         for ind in inds:
             if newind == ind:
-- 
2.43.0


From adc288f0a051e87d2ae5551bc8a324f0399453cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:25 +0000
Subject: [PATCH 24/44] fix: coil position limits of zero are respected

A minimum or maximum of 0.0 was treated as no limit.
---
 freegs/optimise.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freegs/optimise.py b/freegs/optimise.py
index b321b33..df9b448 100644
--- a/freegs/optimise.py
+++ b/freegs/optimise.py
@@ -96,9 +96,9 @@ class CoilRadius:
         self.maximum = maximum
 
     def set(self, eq, R):
-        if self.minimum and (R < self.minimum):
+        if self.minimum is not None and (R < self.minimum):
             R = self.minimum
-        if self.maximum and (R > self.maximum):
+        if self.maximum is not None and (R > self.maximum):
             R = self.maximum
         eq.tokamak[self.label].R = R
 
@@ -120,9 +120,9 @@ class CoilHeight:
         self.maximum = maximum
 
     def set(self, eq, Z):
-        if self.minimum and (Z < self.minimum):
+        if self.minimum is not None and (Z < self.minimum):
             Z = self.minimum
-        if self.maximum and (Z > self.maximum):
+        if self.maximum is not None and (Z > self.maximum):
             Z = self.maximum
         eq.tokamak[self.label].Z = Z
 
-- 
2.43.0


From 0219b2dbd25419c89d2f92f779cc820c2bdc9551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:25 +0000
Subject: [PATCH 25/44] fix: max_coil_force includes the plasma and coils in
 circuits

The forces were calculated without the plasma field, and machines with
circuits or solenoids failed because their forces are dictionaries.
---
 freegs/optimise.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/freegs/optimise.py b/freegs/optimise.py
index df9b448..5f057de 100644
--- a/freegs/optimise.py
+++ b/freegs/optimise.py
@@ -41,8 +41,17 @@ def max_abs_coil_current(eq):
 
 
 def max_coil_force(eq):
-    forces = eq.tokamak.getForces()  # dictionary
-    return max(sqrt(force[0] ** 2 + force[1] ** 2) for force in forces.values())
+    """
+    Given an equilibrium, return the maximum force on any coil,
+    including the coils in circuits
+    """
+
+    def largest(force):
+        if isinstance(force, dict):  # A circuit or solenoid
+            return max((largest(f) for f in force.values()), default=0.0)
+        return sqrt(force[0] ** 2 + force[1] ** 2)
+
+    return largest(eq.getForces())
 
 
 def no_wall_intersection(eq):
-- 
2.43.0


From 935a183a94da0c7b707c02d11dca8ae080136b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:49 +0000
Subject: [PATCH 26/44] fix: sensors that are switched off have a measurement

The attribute was only set for sensors which are switched on, so printing
the measurements of a machine failed if any sensor was off.
---
 freegs/machine.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 516d22f..8090010 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -508,9 +508,7 @@ class Sensor:
         self.name = name
         self.weight = weight
 
-        if self.status:
-            self.measurement = measurement
-
+        self.measurement = measurement
 
     def __repr__(self):
         return "R={R}, Z={Z}".format(R=self.R, Z=self.Z)
-- 
2.43.0


From 97c4410886e37b7588a0dd2d148a7b2a097935f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:49 +0000
Subject: [PATCH 27/44] fix: MultiCoil counts the filaments inside a Rogowski
 sensor

The whole current was counted if the centre of the filaments was inside,
and none otherwise, ignoring the mirrored block and the polarity.
---
 freegs/multi_coil.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index d477c5f..3334966 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -23,6 +23,7 @@ along with FreeGS.  If not, see <http://www.gnu.org/licenses/>.
 """
 
 import numpy as np
+from shapely.geometry import Point
 from .coil import Coil, AreaCurrentLimit
 from .gradshafranov import Greens, GreensBr, GreensBz
 
@@ -185,6 +186,19 @@ class MultiCoil(Coil):
                 result += GreensBz(R_fil, -Z_fil, R, Z) * self.polarity[1]
         return result * self.turns / len(self.Rfil)
 
+    def inShape(self, polygon):
+        """
+        Total polarity of the filaments inside the polygon,
+        as a fraction of the number of filaments
+        """
+        result = 0.0
+        for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
+            if polygon.contains(Point(R_fil, Z_fil)):
+                result += self.polarity[0]
+            if self.mirror and polygon.contains(Point(R_fil, -Z_fil)):
+                result += self.polarity[1]
+        return result / len(self.Rfil)
+
     def __repr__(self):
         return "MultiCoil(R={0}, Z={1}, current={2:.1f}, turns={3}, control={4}, mirror={5}, polarity={6})".format(
             self.Rfil,
-- 
2.43.0


From 6645235ed748e8d7ad7a679babf286ecc6f3c25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:49 +0000
Subject: [PATCH 28/44] fix: taking measurements of a machine without sensors

A machine without sensors has None in place of the list.
---
 freegs/machine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 8090010..a706ca4 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -821,7 +821,7 @@ class Machine:
         """
         Method calling the measure method of each sensor on the machine
         """
-        for sensor in self.sensors:
+        for sensor in self.sensors or []:
             sensor.get_measure(self, eq)
 
     def printMeasurements(self, eq=None):
@@ -830,7 +830,7 @@ class Machine:
         """
         print("==========================")
         self.takeMeasurements(eq=eq)
-        for sensor in self.sensors:
+        for sensor in self.sensors or []:
             if sensor.name is not None:
                 print(sensor.name + ' '+ str(sensor) + ", Measurement=" + str(
                     sensor.measurement))
-- 
2.43.0


From e16cb15d0f45d2f89f76c19b0fcb523a6d18caa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:48 +0000
Subject: [PATCH 29/44] fix: intersect tests the last segment of an open line

The index of the last segment's end point wrapped around too early for lines
which are not closed, so the segment back to the start was tested instead.
---
 freegs/polygons.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freegs/polygons.py b/freegs/polygons.py
index 4322361..22d34a5 100644
--- a/freegs/polygons.py
+++ b/freegs/polygons.py
@@ -42,9 +42,9 @@ def intersect(r1, z1, r2, z2, closed1=True, closed2=True):
             # Test for intersection between two line segments:
             # (r1[i],z1[i]) -- (r1[i+1],z1[i+1])
             # (r1[j],z1[j]) -- (r1[j+1],z1[j+1])
-            # Note that since polynomials are closed the indices wrap around
-            ip = (i + 1) % n1
-            jp = (j + 1) % n2
+            # Note that the indices wrap around if the polynomials are closed
+            ip = (i + 1) % len(r1)
+            jp = (j + 1) % len(r2)
 
             a = r1[ip] - r1[i]
             b = r2[jp] - r2[j]
-- 
2.43.0


From 5f342a42b0523eda3781f254eee3635d3875f94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:48 +0000
Subject: [PATCH 30/44] fix: triangulate concave polygons

A vertex was cut off even if other vertices were inside its triangle, so for
an L-shaped outline some of the triangles were outside the polygon, balanced
by others with negative area. Outlines without any ear looped forever.
---
 freegs/polygons.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/freegs/polygons.py b/freegs/polygons.py
index 22d34a5..501debc 100644
--- a/freegs/polygons.py
+++ b/freegs/polygons.py
@@ -137,22 +137,13 @@ def triangulate(polygon):
             if cross < 0:
                 continue  # Skip this vertex
 
-            # Check these edges don't intersect with other edges
-            r1 = [prev_vert[0], vert[0], next_vert[0]]
-            z1 = [prev_vert[1], vert[1], next_vert[1]]
-
-            r2 = []
-            z2 = []
-            if i < nvert - 1:
-                r2 += [v[0] for v in polygon[(i + 1) :]]
-                z2 += [v[1] for v in polygon[(i + 1) :]]
-            if i > 0:
-                r2 += [v[0] for v in polygon[:i]]
-                z2 += [v[1] for v in polygon[:i]]
-
-            # (r1,z1) is the line along two edges of the triangle
-            # (r2,z2) is the rest of the polygon
-            if intersect(r1, z1, r2, z2, closed1=False, closed2=False):
+            # Check that no other vertex is inside (or on the edge of) the triangle
+            corners = [(v[0], v[1]) for v in (prev_vert, vert, next_vert)]
+            if cross > 0 and any(
+                (v[0], v[1]) not in corners
+                and all(area([corners[k - 1], corners[k], v]) >= 0 for k in range(3))
+                for v in polygon
+            ):
                 continue  # Skip
 
             # Found an ear
@@ -161,6 +152,8 @@ def triangulate(polygon):
             del polygon[i]
             nvert -= 1
             break
+        else:
+            raise ValueError("Polygon cannot be divided into triangles")
 
     # Reduced to a single triangle
     triangles.append(polygon)
-- 
2.43.0


From 793ef7bb0db5e63c9d32d1465b30a1346b96d581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:20 +0000
Subject: [PATCH 31/44] fix: safety factor for a list of normalised psi values

A list was compared with a number, which raises TypeError, although the
documentation shows a list.
---
 freegs/equilibrium.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 1155fe7..59f293f 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -359,7 +359,9 @@ class Equilibrium:
             psinorm = linspace(1.0 / (npsi + 1), 1.0, npsi, endpoint=False)
             return psinorm, critical.find_safety(self, psinorm=psinorm)
 
-        elif np.any((psinorm < 0.01) | (psinorm > 0.99)):
+        elif np.any(
+            (np.asarray(psinorm) < 0.01) | (np.asarray(psinorm) > 0.99)
+        ):
             psinorm_inner = np.linspace(0.01, 0.99, num=npsi)
             q_inner = critical.find_safety(self, psinorm=psinorm_inner)
 
-- 
2.43.0


From 12df848e090a26ea0d9a36b010208aa218acd5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:20 +0000
Subject: [PATCH 32/44] fix: separatrix and safety factor of limited plasmas

Both failed for a limited plasma without X-point, and the safety factor used
the flux at the X-point instead of the plasma boundary for the normalisation.
---
 freegs/critical.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index 556093e..731ae88 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -414,7 +414,11 @@ def find_separatrix(
     dtheta = theta_grid[1] - theta_grid[0]
 
     # Avoid putting theta grid points exactly on the X-points
-    xpoint_theta = arctan2(xpoint[0][0] - r0, xpoint[0][1] - z0)
+    if len(xpoint) > 0:
+        rx, zx = xpoint[0][0:2]
+    else:
+        rx, zx = np.nan, np.nan
+    xpoint_theta = arctan2(rx - r0, zx - z0)
     xpoint_theta = xpoint_theta * (xpoint_theta >= 0) + (xpoint_theta + 2 * pi) * (
         xpoint_theta < 0
     )  # let's make it between 0 and 2*pi
@@ -437,7 +441,7 @@ def find_separatrix(
             axis=axis,
             n=1000,
         )
-        isoflux.append((r, z, xpoint[0][0], xpoint[0][1]))
+        isoflux.append((r, z, rx, zx))
 
     return isoflux
 
@@ -466,11 +470,16 @@ def find_safety(
     if (opoint is None) or (xpoint is None):
         opoint, xpoint = find_critical(eq.R, eq.Z, psi)
 
-    if (xpoint is None) or (len(xpoint) == 0):
+    if eq.psi_bndry is not None:
+        # Plasma boundary, which may be a limiter
+        psi_bndry = eq.psi_bndry
+    elif len(xpoint) == 0:
         # No X-point
         raise ValueError("No X-point so no separatrix")
     else:
-        psinormal = (psi - opoint[0][2]) / (xpoint[0][2] - opoint[0][2])
+        psi_bndry = xpoint[0][2]
+
+    psinormal = (psi - opoint[0][2]) / (psi_bndry - opoint[0][2])
 
     psifunc = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], psinormal)
 
@@ -480,7 +489,11 @@ def find_safety(
     dtheta = theta_grid[1] - theta_grid[0]
 
     # Avoid putting theta grid points exactly on the X-points
-    xpoint_theta = arctan2(xpoint[0][0] - r0, xpoint[0][1] - z0)
+    if len(xpoint) > 0:
+        rx, zx = xpoint[0][0:2]
+    else:
+        rx, zx = np.nan, np.nan
+    xpoint_theta = arctan2(rx - r0, zx - z0)
     xpoint_theta = xpoint_theta * (xpoint_theta >= 0) + (xpoint_theta + 2 * pi) * (
         xpoint_theta < 0
     )  # let's make it between 0 and 2*pi
-- 
2.43.0


From 12cb73bbd6cb45e5ba621e4e3ede9eab32a5f6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:01 +0000
Subject: [PATCH 33/44] fix: poloidalBeta3 multiplied the pressure integral by
 the volume

The integral over the plasma volume is already volume times average
pressure, so the result had units of volume.
---
 freegs/equilibrium.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 59f293f..7d9b9b3 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1148,9 +1148,8 @@ class Equilibrium:
 
         pressure_integral = romb(romb(pressure * dV))
         Ip = self.plasmaCurrent()
-        vol = self.plasmaVolume()
         r0 = self.Rgeometric()
-        return 4 * vol * pressure_integral / (mu0 * Ip * Ip * r0)
+        return 4 * pressure_integral / (mu0 * Ip * Ip * r0)
 
     def toroidalBeta(self):
         """Calculate plasma toroidal beta by integrating the thermal pressure
-- 
2.43.0


From 8f0fc5228d84654886e9d1673f91d091b3b4a5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:01 +0000
Subject: [PATCH 34/44] fix: shafranovShift and betaN use the number of
 separatrix points given

---
 freegs/equilibrium.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 7d9b9b3..59c3351 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -978,8 +978,8 @@ class Equilibrium:
         Rmag = self.Rmagnetic()
         Zmag = self.Zmagnetic()
 
-        Rgeo = self.Rgeometric()
-        z0 = self.Zgeometric()
+        Rgeo = self.Rgeometric(npoints=npoints)
+        z0 = self.Zgeometric(npoints=npoints)
 
         return np.array([Rmag - Rgeo, Zmag - z0])
 
@@ -1188,13 +1188,13 @@ class Equilibrium:
 
     def betaN(self, npoints=360):
         """Calculate normalised plasma beta"""
-        geo = self.geometricAxis()
+        geo = self.geometricAxis(npoints=npoints)
         Bt = self.Btor(geo[0], geo[1])
         return (
             100.0
             * 1.0e06
             * self.toroidalBeta()
-            * ((self.minorRadius() * Bt) / (self.plasmaCurrent()))
+            * ((self.minorRadius(npoints=npoints) * Bt) / (self.plasmaCurrent()))
         )
 
     def pressure_ave(self):
-- 
2.43.0


From 991b4a2bd0bdcbce8434286a2c969288e2947ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:01 +0000
Subject: [PATCH 35/44] fix: equilibria on another grid keep current, boundary,
 order and limiter

---
 freegs/equilibrium.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 59c3351..5b3e42a 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1291,7 +1291,9 @@ def refine(eq, nx=None, ny=None):
         Zmin=eq.Zmin,
         Zmax=eq.Zmax,
         boundary=eq._applyBoundary,
+        current=eq.plasmaCurrent(),
         order=eq.order,
+        check_limited=eq.check_limited,
         nx=nx,
         ny=ny,
     )
@@ -1322,6 +1324,10 @@ def coarsen(eq):
         Rmax=eq.Rmax,
         Zmin=eq.Zmin,
         Zmax=eq.Zmax,
+        boundary=eq._applyBoundary,
+        current=eq.plasmaCurrent(),
+        order=eq.order,
+        check_limited=eq.check_limited,
         nx=nx,
         ny=ny,
     )
@@ -1353,11 +1359,20 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
     if nx is None:
         nx = eq.R.shape[0]
     if ny is None:
-        ny = eq.R.shape[0]
+        ny = eq.R.shape[1]
 
     # Create a new equilibrium with the new domain
     result = Equilibrium(
-        tokamak=eq.tokamak, Rmin=Rmin, Rmax=Rmax, Zmin=Zmin, Zmax=Zmax, nx=nx, ny=ny
+        tokamak=eq.tokamak,
+        Rmin=Rmin,
+        Rmax=Rmax,
+        Zmin=Zmin,
+        Zmax=Zmax,
+        boundary=eq._applyBoundary,
+        order=eq.order,
+        check_limited=eq.check_limited,
+        nx=nx,
+        ny=ny,
     )
 
     # Calculate the current on the old grid
-- 
2.43.0


From a304e2a0ef93bb858f39913da999aa5bd0aa5ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:21 +0000
Subject: [PATCH 36/44] fix: field line length increases when the toroidal
 field is negative

---
 freegs/fieldtracer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freegs/fieldtracer.py b/freegs/fieldtracer.py
index db48419..859a66e 100644
--- a/freegs/fieldtracer.py
+++ b/freegs/fieldtracer.py
@@ -113,7 +113,8 @@ class FieldTracer(object):
         # Rate of change of position with toroidal angle phi
         dRdphi = evolving_R_Bt * Br
         dZdphi = evolving_R_Bt * Bz
-        dldphi = evolving_R_Bt * B
+        # Note: Length increases, whichever direction the toroidal field is in
+        dldphi = np.abs(evolving_R_Bt) * B
 
         if backward:
             # Reverse direction
-- 
2.43.0


From 6113fd17134ee4c9ca4ec51a97b835041c0d354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:26 +0000
Subject: [PATCH 37/44] fix: coarsen keeps the plasma flux at the edges of the
 domain

---
 freegs/equilibrium.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 5b3e42a..c0aab30 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1315,7 +1315,14 @@ def coarsen(eq):
     """
     Reduce grid resolution, returning a new equilibrium
     """
-    plasma_psi = multigrid.restrict(eq.plasma_psi)
+    nx, ny = eq.plasma_psi.shape
+
+    if nx % 2 == 1 and ny % 2 == 1:
+        # Keep every second point, including the edges of the domain
+        plasma_psi = eq.plasma_psi[::2, ::2].copy()
+    else:
+        # Can't divide any further
+        plasma_psi = eq.plasma_psi.copy()
     nx, ny = plasma_psi.shape
 
     result = Equilibrium(
-- 
2.43.0


From e10b1be33829c454a30a6f28e7e2f5f8b2bd4b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 38/44] fix: Jacobi multigrid solver keeps the initial guess
 unchanged

---
 freegs/multigrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/multigrid.py b/freegs/multigrid.py
index 6f72771..585d88f 100644
--- a/freegs/multigrid.py
+++ b/freegs/multigrid.py
@@ -73,7 +73,7 @@ class MGJacobi:
         """
 
         # Need to reshape x and b into 1D arrays
-        x = reshape(xi, -1)
+        x = reshape(xi, -1).copy()  # Keep the initial guess unchanged
         b = reshape(bi, -1)
 
         if ncycle is None:
-- 
2.43.0


From e8dcd1973b6d407ee7605c94f30ac787cae52805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:49 +0000
Subject: [PATCH 39/44] fix: centre of a filament coil without given outline

The default outline listed one corner twice, so that the centre was not the middle
of the bounding box
---
 freegs/filament_coil.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 3d76059..d967777 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -243,7 +243,6 @@ class FilamentCoil(Coil):
                 (minR, maxZ),
                 (maxR, maxZ),
                 (maxR, minZ),
-                (minR, minZ),
             ]
 
         assert len(shape) > 2
-- 
2.43.0


From 65263a74b294c985cb431e411dfa4e475f67db29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:49 +0000
Subject: [PATCH 40/44] fix: limiter points include the segment which closes
 the wall

---
 freegs/machine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freegs/machine.py b/freegs/machine.py
index a706ca4..d1cb44f 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -698,6 +698,10 @@ class Machine:
         # Make an interpolator for point location as function of normalised distance
         # along the wall
         points = np.array([self.wall.R, self.wall.Z]).T
+
+        # The wall is closed
+        if not np.array_equal(points[0], points[-1]):
+            points = np.append(points, points[:1], axis=0)
         distance = np.cumsum(np.sqrt(np.sum(np.diff(points, axis=0) ** 2, axis=1)))
         distance = np.insert(distance, 0, 0) / distance[-1]
 
-- 
2.43.0


From febb3cb86e9b0aa0289260ef77e58fc8dfd3c98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:28 +0000
Subject: [PATCH 41/44] fix: toroidal flux was too small by a factor (2 pi)^2

psi is the poloidal flux per radian, so d(toroidal flux) = 2 pi q dpsi.
---
 freegs/equilibrium.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index c0aab30..d00f552 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -380,14 +380,15 @@ class Equilibrium:
     def tor_flux(self, psi=None):
         """
         Calculates toroidal flux at specified values of poloidal flux.
-        >>> q = drho/dpsi
+        The toroidal flux [Wb] increases by 2 pi q for each unit of
+        poloidal flux [Wb/rad] from the magnetic axis outwards
         """
         psiN = (psi - self.psi_axis) / (self.psi_bndry - self.psi_axis)
         # Get safety factor of these flux surfaces
         qvals = self.q(psiN)
 
         # Integrate q wrt psi to get rho. rho = 0 @ psiN = 0
-        result = cumulative_trapezoid(qvals, psi, initial=0.0) * (-1.0 / (2.0 * np.pi))
+        result = cumulative_trapezoid(qvals, psi, initial=0.0) * (-2.0 * np.pi)
 
         # Convert to a scalar if only one result
         if len(result) == 1:
-- 
2.43.0


From 405dbfd7bc0956be1722d911a0410f9c5ae5b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 42/44] fix: toroidal flux was counted from the first value
 given, not the axis

A single value gave zero or failed.
---
 freegs/equilibrium.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index d00f552..76620a8 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -383,12 +383,16 @@ class Equilibrium:
         The toroidal flux [Wb] increases by 2 pi q for each unit of
         poloidal flux [Wb/rad] from the magnetic axis outwards
         """
+        # rho = 0 @ psiN = 0, so start from the magnetic axis
+        psi = np.atleast_1d(psi)
+        inner = np.linspace(self.psi_axis, psi[0], 100, endpoint=False)
+        psi = np.concatenate((inner, psi))
         psiN = (psi - self.psi_axis) / (self.psi_bndry - self.psi_axis)
         # Get safety factor of these flux surfaces
         qvals = self.q(psiN)
 
-        # Integrate q wrt psi to get rho. rho = 0 @ psiN = 0
-        result = cumulative_trapezoid(qvals, psi, initial=0.0) * (-2.0 * np.pi)
+        # Integrate q wrt psi to get rho
+        result = cumulative_trapezoid(qvals, psi)[len(inner) - 1 :] * (-2.0 * np.pi)
 
         # Convert to a scalar if only one result
         if len(result) == 1:
@@ -405,7 +409,7 @@ class Equilibrium:
         Maximum toroidal flux shoud be at LCFS.
         """
 
-        torflux = self.tor_flux(psi)
+        torflux = np.atleast_1d(self.tor_flux(psi))
 
         psi = np.linspace(self.psi_axis, self.psi_bndry, 101, endpoint=True)
         torflux_for_LCFS = self.tor_flux(psi)
-- 
2.43.0


From 5fb61aff9fc55c72f68edd34b2f0c1a461fb6b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 43/44] fix: rhotor was infinite for a negative plasma current

The toroidal flux is then negative: its largest value is zero, on the axis.
---
 freegs/equilibrium.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 76620a8..1f7b368 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -414,9 +414,7 @@ class Equilibrium:
         psi = np.linspace(self.psi_axis, self.psi_bndry, 101, endpoint=True)
         torflux_for_LCFS = self.tor_flux(psi)
 
-        max_torflux = np.max(torflux_for_LCFS)
-
-        result = np.sqrt(torflux / max_torflux)
+        result = np.sqrt(torflux / torflux_for_LCFS[-1])
 
         if len(result) == 1:
             return result[0]
-- 
2.43.0


From a2167e098acdf3f8c47c04dd3a56f6f259fc1606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 44/44] fix: follow field lines from one point or arrays of any
 shape

The rate of change and the flags which stop a line are one-dimensional, so
start positions which were not raised IndexError as soon as the domain edge
was checked.
---
 freegs/fieldtracer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/freegs/fieldtracer.py b/freegs/fieldtracer.py
index 859a66e..f7f4bdd 100644
--- a/freegs/fieldtracer.py
+++ b/freegs/fieldtracer.py
@@ -135,10 +135,13 @@ class FieldTracer(object):
         array_shape = Rstart.shape
         assert Zstart.shape == array_shape
 
-        evolving = np.ones(array_shape)
+        nlines = Rstart.size
+        evolving = np.ones(nlines)
 
         # (R,Z,length) with length=0 initially
-        position = np.column_stack((Rstart, Zstart, np.zeros(array_shape))).flatten()
+        position = np.column_stack(
+            (Rstart.flatten(), Zstart.flatten(), np.zeros(nlines))
+        ).flatten()
 
         result = odeint(
             self.fieldDirection, position, angles, args=(evolving, backward), rtol=rtol
-- 
2.43.0

