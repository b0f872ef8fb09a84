From 4a6f235a5b026b5561bae1f9caf6b212b2fe07b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 01/61] fix: print word values in full (no lost digits or
 exponents for large values)

---
 src/pygcode/dialects/linuxcnc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/dialects/linuxcnc.py b/src/pygcode/dialects/linuxcnc.py
index 7dbe096..9da818b 100644
--- a/src/pygcode/dialects/linuxcnc.py
+++ b/src/pygcode/dialects/linuxcnc.py
@@ -30,9 +30,9 @@ def _clean_codestr(value):
     return "%g" % value
 
 CLEAN_NONE = lambda v: v
-CLEAN_FLOAT = lambda v: "{0:g}".format(round(v, 3))
+CLEAN_FLOAT = lambda v: ("%.3f" % v).rstrip('0').rstrip('.') # not %g: large values must not lose digits
 CLEAN_CODE = _clean_codestr
-CLEAN_INT = lambda v: "%g" % v
+CLEAN_INT = lambda v: "%d" % v
 
 WORD_MAP = {
     # Descriptions copied from wikipedia:
-- 
2.43.0


From 742642315ec7a3b548493ad32ccc54fe3378d711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 02/61] fix: recognise bracket and semicolon comments sharing a
 line

---
 src/pygcode/comment.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/pygcode/comment.py b/src/pygcode/comment.py
index 5e9b170..32d169e 100644
--- a/src/pygcode/comment.py
+++ b/src/pygcode/comment.py
@@ -47,16 +47,23 @@ def split_line(line_text):
     comments = []
     block_str = line_text.rstrip("\n") # to remove potential return carriage from comment body
 
-    for cls in sorted(CommentBase.__subclasses__(), key=lambda c: c.ORDER):
-        matches = list(cls.AUTO_REGEX.finditer(block_str))
-        if matches:
-            for match in reversed(matches):
-                # Build list of comment text
-                comments.insert(0, match.group('text'))  # prepend
-                # Remove comments from given block_str
-                block_str = block_str[:match.start()] + block_str[match.end():]
-            comments_class = cls
+    classes = sorted(CommentBase.__subclasses__(), key=lambda c: c.ORDER)
+    index = 0
+    while True:
+        # Find next comment, whichever type starts first
+        # (the other type's delimiters are just text inside of it)
+        matches = [(cls.AUTO_REGEX.search(block_str, index), cls) for cls in classes]
+        matches = [(match, cls) for (match, cls) in matches if match]
+        if not matches:
             break
+        (match, cls) = min(matches, key=lambda m: m[0].start())
+        # Build list of comment text
+        comments.append(match.group('text'))
+        # Remove comment from given block_str
+        index = match.start()
+        block_str = block_str[:match.start()] + block_str[match.end():]
+        if (comments_class is None) or (cls.ORDER < comments_class.ORDER):
+            comments_class = cls
 
     # Create comment instance if content was found
     comment_obj = None
-- 
2.43.0


From 7d576df38effb99ffc3c1cb554cac2824c1ee82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:00 +0000
Subject: [PATCH 03/61] fix: accept '%' inside bracket comments

---
 src/pygcode/line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/line.py b/src/pygcode/line.py
index b4f4aef..566f02c 100644
--- a/src/pygcode/line.py
+++ b/src/pygcode/line.py
@@ -5,7 +5,7 @@ from .block import Block
 
 class Line(object):
 
-    line_regex = re.compile(r'^(?P<block_and_comment>.*?)?(?P<macro>%.*%?)?\s*$')
+    line_regex = re.compile(r'^(?P<block_and_comment>(\([^)]*\)|\((?![^)]*\))|[^%(])*?)(?P<macro>%.*%?)?\s*$')
 
     def __init__(self, text=None):
         self._text = text
-- 
2.43.0


From 7748c094cbc11deba35717ad555908d2e17202b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 04/61] fix: dialects.set_default sets the default dialect

---
 src/pygcode/dialects/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygcode/dialects/__init__.py b/src/pygcode/dialects/__init__.py
index 9a079a3..65eed12 100644
--- a/src/pygcode/dialects/__init__.py
+++ b/src/pygcode/dialects/__init__.py
@@ -52,4 +52,5 @@ def set_default(name):
     """
 
     # TODO: verify valid name
+    global _DEFAULT
     _DEFAULT = name
-- 
2.43.0


From 14aa73cc4c45f0e12932f4863790fd38070eafb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 05/61] fix: parse a block's words with that block's dialect

---
 src/pygcode/block.py | 2 +-
 src/pygcode/words.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/block.py b/src/pygcode/block.py
index 74ff168..74650bc 100644
--- a/src/pygcode/block.py
+++ b/src/pygcode/block.py
@@ -42,7 +42,7 @@ class Block(object):
             self._text = text  # cleaned up block content
 
             # Get words from text, and group into gcodes
-            self.words = list(text2words(self._text))
+            self.words = list(text2words(self._text, dialect=self.dialect))
             (self.gcodes, self.modal_params) = words2gcodes(self.words)
 
             # Verification
diff --git a/src/pygcode/words.py b/src/pygcode/words.py
index 63cd312..d638e69 100644
--- a/src/pygcode/words.py
+++ b/src/pygcode/words.py
@@ -114,7 +114,7 @@ def text2words(block_text, dialect=None):
                 raise GCodeWordStrError("word '%s' value invalid" % letter)
             value = value_match.group() # matched text
 
-            yield Word(letter, value)
+            yield Word(letter, value, dialect=dialect)
 
             index += value_match.end() # propogate index to end of value
         else:
-- 
2.43.0


From b2b7f28ea918f43717a17250ae0aa76d4e11f4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 06/61] fix: do not treat non-ASCII characters as word letters

---
 src/pygcode/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/words.py b/src/pygcode/words.py
index d638e69..0c57647 100644
--- a/src/pygcode/words.py
+++ b/src/pygcode/words.py
@@ -97,7 +97,7 @@ def text2words(block_text, dialect=None):
         dialect = dialects.get_default()
     word_map = getattr(getattr(dialects, dialect), 'WORD_MAP')
 
-    next_word = re.compile(r'^.*?(?P<letter>[%s])' % ''.join(word_map.keys()), re.IGNORECASE)
+    next_word = re.compile(r'^.*?(?P<letter>[%s])' % ''.join(word_map.keys()), re.IGNORECASE | getattr(re, 'ASCII', 0))
 
     index = 0
     while True:
-- 
2.43.0


From 1444f239827065bbf203fa44f2967b8314402fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:13 +0000
Subject: [PATCH 07/61] fix: copy coordinate systems with a machine's state

---
 src/pygcode/machine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 46c2ad5..aeebbbb 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -242,7 +242,8 @@ class State(object):
 
     def __copy__(self):
         obj = self.__class__(axes=self._axes)
-        obj.coord_systems = [copy(cs) for cs in self.coord_systems]
+        obj.coord_systems = dict((k, copy(cs)) for (k, cs) in self.coord_systems.items())
+        obj.cur_coord_sys = self.cur_coord_sys
         obj.offset = copy(self.offset)
         return obj
 
-- 
2.43.0


From 81d9619dcf361f83675b1b760e25c06dfaccd01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 08/61] fix: Position.min/max keep the axes of the given
 positions

---
 src/pygcode/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index aeebbbb..d653eb7 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -153,7 +153,7 @@ class Position(object):
             p2 = copy(p2)
             p2.unit = p1.unit
         return cls(
-            unit=p1.unit,
+            axes=p1.axes, unit=p1.unit,
             **dict(
                 (k, key(getattr(p1, k), getattr(p2, k))) for k in p1.values
             )
-- 
2.43.0


From e9ec55579f5a18610b31114ab071f027c8976cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 09/61] fix: reading Position.vector does not add axes to the
 position

---
 src/pygcode/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index d653eb7..0b93320 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -178,7 +178,7 @@ class Position(object):
 
     @property
     def vector(self):
-        return Vector3(self._value['X'], self._value['Y'], self._value['Z'])
+        return Vector3(*(self._value.get(k, 0.0) for k in 'XYZ'))
 
     # String representation(s)
     def __repr__(self):
-- 
2.43.0


From f79856721cd9e7275129e8911a610d55937f9cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 10/61] fix: convert units when adding and subtracting
 positions

---
 src/pygcode/machine.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 0b93320..e305c20 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -99,6 +99,9 @@ class Position(object):
         if self.axes ^ other.axes:
             raise MachineInvalidAxis("axes: %r != %r" % (self.axes, other.axes))
         new_obj = copy(self)
+        if other.unit != self.unit:
+            other = copy(other)
+            other.unit = self.unit
         for k in new_obj._value:
             new_obj._value[k] += other._value[k]
         return new_obj
@@ -107,6 +110,9 @@ class Position(object):
         if other.axes - self.axes:
             raise MachineInvalidAxis("for a - b: axes in b, that are not in a: %r" % (other.axes - self.axes))
         new_obj = copy(self)
+        if other.unit != self.unit:
+            other = copy(other)
+            other.unit = self.unit
         for k in other._value:
             new_obj._value[k] -= other._value[k]
         return new_obj
@@ -550,7 +556,7 @@ class Machine(object):
     def move_to(self, rapid=False, **coords):
         """Move machine to given position"""
         if isinstance(self.mode.distance, GCodeIncrementalDistanceMode):
-            pos_delta = Position(axes=self.axes, **coords)
+            pos_delta = self.Position(axes=self.axes, **coords)
             self.pos += pos_delta
         else:  # assumed: GCodeAbsoluteDistanceMode
             new_pos = self.pos
-- 
2.43.0


From aaff0b7dd6c6b1871b4a5d6ec664369d8a0be320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 11/61] fix: machine's mode does not share words with processed
 gcodes

---
 src/pygcode/gcodes.py  | 4 ++--
 src/pygcode/machine.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index a2e5f34..1cbcec1 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -295,8 +295,8 @@ class GCode(object):
 
     def modal_copy(self):
         """Copy of GCode instance containing only parameters listed in modal_param_letters"""
-        return self.__class__(self.word, *[
-            w for (l, w) in self.params.items()
+        return self.__class__(copy(self.word), *[
+            copy(w) for (l, w) in self.params.items()
             if l in self.modal_param_letters
         ])
 
diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index e305c20..bf748e1 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -427,10 +427,10 @@ class Machine(object):
             (modal_gcodes, unasigned_words) = ([], modal_params)
             # forces exception to be raised in next step
         else:
-            params = copy(self.mode.motion.params)  # dict
+            params = dict((l, copy(w)) for (l, w) in self.mode.motion.params.items())
             params.update(dict((w.letter, w) for w in modal_params))  # override retained modal parameters
             (modal_gcodes, unasigned_words) = words2gcodes(
-                [self.mode.motion.word] + list(params.values())
+                [copy(self.mode.motion.word)] + list(params.values())
             )
 
         if unasigned_words and (not self.ignore_invalid_modal):
-- 
2.43.0


From 013fb9ad03d75d037e2fd5a2f1edfbaa5c06d13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 12/61] fix: process canned cycles before any plane is selected
 (default to XY)

---
 src/pygcode/gcodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 1cbcec1..dc30883 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -544,14 +544,15 @@ class GCodeCannedCycle(GCode):
 
     def _process(self, machine):
         moveto_coords = self.get_param_dict(letters=machine.axes)
+        plane = machine.mode.plane_selection or GCodeSelectXYPlane  # default: XY plane
         if isinstance(machine.mode.canned_cycles_return, GCodeCannedCycleReturnToR):
             # canned return is to this.R, not this.Z (plane dependent)
             moveto_coords.update({
-                machine.mode.plane_selection.normal_axis: self.R,
+                plane.normal_axis: self.R,
             })
         else:  # default: GCodeCannedCycleReturnPrevLevel
             # Remove this.Z (plane dependent) value (ie: no machine movement on this axis)
-            moveto_coords.pop(machine.mode.plane_selection.normal_axis, None)
+            moveto_coords.pop(plane.normal_axis, None)
 
         # Process action 'L' times
         loop_count = self.L
-- 
2.43.0


From 8be82518e6ec22e3b7220e697a23fc810e763146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 13/61] fix: repeated incremental canned cycles return to a
 single R level

---
 src/pygcode/gcodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index dc30883..6557148 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -560,6 +560,8 @@ class GCodeCannedCycle(GCode):
             loop_count = 1
         for i in range(loop_count):
             machine.move_to(**moveto_coords)
+            # already at return level (don't accumulate when incremental)
+            moveto_coords.pop(plane.normal_axis, None)
 
 
 class GCodeDrillingCycle(GCodeCannedCycle):
-- 
2.43.0


From 6e6de57c5a9828e3ff8666653cfdfc8aa8e74a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 14/61] fix: invalid arc parameters raise GCodeParameterError

---
 src/pygcode/gcodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 6557148..403b894 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -432,17 +432,17 @@ class GCodeArcMove(GCodeMotion):
         # --- Parameter Groups
         # XYZ: at least 1
         if not params_xyz:
-            raise GCodeParameterError("no XYZ parameters set for destination: %r" % arc_gcode)
+            raise GCodeParameterError("no XYZ parameters set for destination: %r" % self)
         # IJK or R: only in 1 group
         if params_ijk and params_r:
-            raise GCodeParameterError("both IJK and R parameters defined: %r" % arc_gcode)
+            raise GCodeParameterError("both IJK and R parameters defined: %r" % self)
         # IJKR: at least 1
         if not params_ijkr:
-            raise GCodeParameterError("neither IJK or R parameters defined: %r" % arc_gcode)
+            raise GCodeParameterError("neither IJK or R parameters defined: %r" % self)
 
         # --- Parameter Values
         if params_r and (self.R == 0):
-            raise GCodeParameterError("cannot plot a circle with a radius of zero: %r" % arc_gcode)
+            raise GCodeParameterError("cannot plot a circle with a radius of zero: %r" % self)
 
 
 class GCodeArcMoveCW(GCodeArcMove):
-- 
2.43.0


From a4b5bc794fab0f03466565264ae47b8fe38fd245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 15/61] fix: linearize_arc default method

---
 src/pygcode/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index da8a3c0..c47cf93 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -231,7 +231,7 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     """
     # set defaults
     if method_class is None:
-        method_class = DEFAULT_LA_method_class
+        method_class = DEFAULT_LA_METHOD
     if plane is None:
         plane = DEFAULT_LA_PLANE()
     if dist_mode is None:
-- 
2.43.0


From 5e06a85dc9f60d136acd6ba3deb7d66386fdc26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 16/61] fix: linearize arcs in ZX and YZ planes in the right
 direction

---
 src/pygcode/transform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index c47cf93..0e8e2e1 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -324,8 +324,9 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
             arc_p_center = arc_p_center_options[1]
 
     # Arc's angle (first rotated back to xy plane)
-    xy_c2start = plane.quat * (arc_p_start - arc_p_center)
-    xy_c2end = plane.quat * (arc_p_end - arc_p_center)
+    plane2xy = plane.quat.conjugated()
+    xy_c2start = plane2xy * (arc_p_start - arc_p_center)
+    xy_c2end = plane2xy * (arc_p_end - arc_p_center)
     (a1, a2) = (atan2(*xy_c2start.yx), atan2(*xy_c2end.yx))
     if isinstance(arc_gcode, GCodeArcMoveCW):
         arc_angle = (a1 - a2) % (2 * pi)
-- 
2.43.0


From d3f5e899450c793b10e4b2d64023b40536581da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 17/61] fix: do not refuse exact semicircles because of
 rounding

---
 src/pygcode/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 0e8e2e1..2b331ac 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -300,10 +300,10 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     # Find Circle's Center (given radius)
     arc_span = arc_p_end - arc_p_start  # vector spanning from start -> end
     arc_span_mid = arc_span * 0.5  # arc_span's midpoint
-    if arc_radius < abs(arc_span_mid):
+    if arc_radius < abs(arc_span_mid) * (1 - 1e-9):  # tolerate floating point error for semicircles
         raise GCodeParameterError("circle cannot reach endpoint at this radius: %r" % arc_gcode)
     # vector from arc_span midpoint -> circle's centre
-    radius_mid_vect = arc_span_mid.normalized().cross(plane.normal) * sqrt(arc_radius**2 - abs(arc_span_mid)**2)
+    radius_mid_vect = arc_span_mid.normalized().cross(plane.normal) * sqrt(max(0., arc_radius**2 - abs(arc_span_mid)**2))
 
     if 'R' in arc_gcode.params:
         # R: radius magnitude specified
-- 
2.43.0


From 4df23334fc8a2928d3172b42a0223477247e54aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 18/61] fix: linearize full circles

---
 src/pygcode/transform.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 2b331ac..ad80dba 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -305,7 +305,10 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     # vector from arc_span midpoint -> circle's centre
     radius_mid_vect = arc_span_mid.normalized().cross(plane.normal) * sqrt(max(0., arc_radius**2 - abs(arc_span_mid)**2))
 
-    if 'R' in arc_gcode.params:
+    full_circle = ('R' not in arc_gcode.params) and (abs(arc_span) < 1e-6)  # ends where it starts
+    if full_circle:
+        pass  # arc_p_center is as defined by IJK params
+    elif 'R' in arc_gcode.params:
         # R: radius magnitude specified
         if isinstance(arc_gcode, GCodeArcMoveCW) == (arc_gcode.R < 0):
             arc_p_center = arc_p_start + arc_span_mid - radius_mid_vect
@@ -328,7 +331,9 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     xy_c2start = plane2xy * (arc_p_start - arc_p_center)
     xy_c2end = plane2xy * (arc_p_end - arc_p_center)
     (a1, a2) = (atan2(*xy_c2start.yx), atan2(*xy_c2end.yx))
-    if isinstance(arc_gcode, GCodeArcMoveCW):
+    if full_circle:
+        arc_angle = 2 * pi if isinstance(arc_gcode, GCodeArcMoveCW) else -2 * pi
+    elif isinstance(arc_gcode, GCodeArcMoveCW):
         arc_angle = (a1 - a2) % (2 * pi)
     else:
         arc_angle = -((a2 - a1) % (2 * pi))
-- 
2.43.0


From 5e2f90725f2053bf294f8fc929b581ac7a7fecbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 19/61] fix: refuse zero radius IJK arcs with
 GCodeParameterError

---
 src/pygcode/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index ad80dba..2121527 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -296,6 +296,8 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
 
         # average the 2 radii to get the most accurate radius
         arc_radius = (abs(r1) + abs(r2)) / 2.
+        if arc_radius == 0:
+            raise GCodeParameterError("cannot plot a circle with a radius of zero: %r" % arc_gcode)
 
     # Find Circle's Center (given radius)
     arc_span = arc_p_end - arc_p_start  # vector spanning from start -> end
-- 
2.43.0


From f5f113c71803e72361ae45040f9952d1e34bb61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 20/61] fix: simplify canned cycles with X or Y omitted

---
 src/pygcode/transform.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 2121527..3d0a0ec 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -426,16 +426,21 @@ def simplify_canned_cycle(canned_gcode, start_pos,
     def inner():
         cycle_count = 1 if (canned_gcode.L is None) else canned_gcode.L
         cur_hole_p_axis = start_pos.vector
+        # Planar coordinates are optional (if not given: no movement along that axis)
+        hole_coords = dict(
+            (l.lower(), getattr(canned_gcode, l)) for l in 'XY'
+            if getattr(canned_gcode, l) is not None
+        )
         for i in range(cycle_count):
             # Calculate Depths
             if isinstance(dist_mode, GCodeAbsoluteDistanceMode):
                 retract_depth = canned_gcode.R
                 drill_depth = canned_gcode.Z
-                cur_hole_p_axis = Vector3(x=canned_gcode.X, y=canned_gcode.Y)
+                cur_hole_p_axis = Vector3(**dict(dict(zip('xyz', start_pos.vector.xyz)), **hole_coords))
             else:  # incremental
                 retract_depth = start_pos.Z + canned_gcode.R
                 drill_depth = retract_depth + canned_gcode.Z
-                cur_hole_p_axis += Vector3(x=canned_gcode.X, y=canned_gcode.Y)
+                cur_hole_p_axis += Vector3(**hole_coords)
 
             if retract_depth < drill_depth:
                 raise NotImplementedError("drilling upward is not supported")
-- 
2.43.0


From 4a21c539a5f14066af0b3d8d8bf5250c8de37d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 21/61] fix: refuse to simplify canned cycles that are
 threading, or missing R, Z or Q

---
 src/pygcode/transform.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 3d0a0ec..76a34b2 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -6,6 +6,7 @@ from .gcodes import GCodePlaneSelect, GCodeSelectXYPlane, GCodeSelectYZPlane, GC
 from .gcodes import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
 from .gcodes import GCodeAbsoluteArcDistanceMode, GCodeIncrementalArcDistanceMode
 from .gcodes import GCodeCannedCycle
+from .gcodes import GCodeThreadingCycle
 from .gcodes import GCodeDrillingCyclePeck, GCodeDrillingCycleDwell, GCodeDrillingCycleChipBreaking
 from .gcodes import GCodeCannedReturnMode, GCodeCannedCycleReturnPrevLevel, GCodeCannedCycleReturnToR
 from .gcodes import _gcodes_abs2rel
@@ -418,6 +419,15 @@ def simplify_canned_cycle(canned_gcode, start_pos,
     assert isinstance(dist_mode, (GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode)), "bad dist_mode type: %r" % dist_mode
     assert isinstance(retract_mode, GCodeCannedReturnMode), "bad retract_mode type: %r" % retract_mode
 
+    if isinstance(canned_gcode, GCodeThreadingCycle):
+        raise NotImplementedError("simplifying threading cycles has not been implemented")
+    # Parameter Value Assertions
+    for letter in 'RZ':
+        if getattr(canned_gcode, letter) is None:
+            raise GCodeParameterError("%s parameter not defined: %r" % (letter, canned_gcode))
+    if isinstance(canned_gcode, (GCodeDrillingCyclePeck, GCodeDrillingCycleChipBreaking)) and not canned_gcode.Q:
+        raise GCodeParameterError("peck increment (Q) must be non-zero: %r" % canned_gcode)
+
     # TODO: implement for planes other than XY
     if not isinstance(plane, GCodeSelectXYPlane):
         raise NotImplementedError("simplifying canned cycles for planes other than X/Y has not been implemented")
-- 
2.43.0


From d96fbbd7d6ca167b0c7f1e7b0bdb3638de63cbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 22/61] fix: simplified canned cycles dwell for P, and feed out
 when boring

---
 src/pygcode/transform.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 76a34b2..fa01fe7 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -1,12 +1,13 @@
 from math import sin, cos, tan, asin, acos, atan2, pi, sqrt, ceil
 
-from .gcodes import GCodeLinearMove, GCodeRapidMove
+from .gcodes import GCodeLinearMove, GCodeRapidMove, GCodeDwell
 from .gcodes import GCodeArcMove, GCodeArcMoveCW, GCodeArcMoveCCW
 from .gcodes import GCodePlaneSelect, GCodeSelectXYPlane, GCodeSelectYZPlane, GCodeSelectZXPlane
 from .gcodes import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
 from .gcodes import GCodeAbsoluteArcDistanceMode, GCodeIncrementalArcDistanceMode
 from .gcodes import GCodeCannedCycle
 from .gcodes import GCodeThreadingCycle
+from .gcodes import GCodeBoringCycleFeedOut, GCodeBoringCycleDwellFeedOut
 from .gcodes import GCodeDrillingCyclePeck, GCodeDrillingCycleDwell, GCodeDrillingCycleChipBreaking
 from .gcodes import GCodeCannedReturnMode, GCodeCannedCycleReturnPrevLevel, GCodeCannedCycleReturnToR
 from .gcodes import _gcodes_abs2rel
@@ -499,10 +500,14 @@ def simplify_canned_cycle(canned_gcode, start_pos,
                 last_depth = cur_depth
 
             # Dwell
-            if isinstance(canned_gcode, GCodeDrillingCycleDwell):
-                yield GCodeDwell(P=0.5) # TODO: configurable pause
+            if isinstance(canned_gcode, (GCodeDrillingCycleDwell, GCodeBoringCycleDwellFeedOut)):
+                pause = canned_gcode.P
+                yield GCodeDwell(P=0.5 if pause is None else pause) # TODO: configurable default pause
 
             # Return
-            yield GCodeRapidMove(Z=final_depth)
+            if isinstance(canned_gcode, (GCodeBoringCycleFeedOut, GCodeBoringCycleDwellFeedOut)):
+                yield GCodeLinearMove(Z=final_depth)  # feed out
+            else:
+                yield GCodeRapidMove(Z=final_depth)
 
     return inner()
-- 
2.43.0


From f882b475fc646c7b8af1ce01b71761bdd61e9101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 23/61] fix: align parallel and opposite vectors

---
 src/pygcode/utils.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/pygcode/utils.py b/src/pygcode/utils.py
index d5fcbcf..1de2ddd 100644
--- a/src/pygcode/utils.py
+++ b/src/pygcode/utils.py
@@ -1,11 +1,12 @@
 import sys
 from copy import copy, deepcopy
+from math import atan2
 
 from euclid3 import Vector3, Quaternion
 
 
 # ==================== Geometric Utilities ====================
-def quat2align(to_align, with_this, normalize=True):
+def quat2align(to_align, with_this, normalize=True, opposite_axis=None):
     """
     Calculate Quaternion that will rotate a given vector to align with another
     can accumulate with perpendicular alignemnt vectors like so:
@@ -17,6 +18,7 @@ def quat2align(to_align, with_this, normalize=True):
                       # coordinate system defined by (v1,v2), as (z,x) respectively.
     :param to_align: Vector3 instance to be rotated
     :param with_this: Vector3 instance as target for alignment
+    :param opposite_axis: axis to rotate about if vectors are in opposite directions
     :result: Quaternion such that: q * to_align == with_this
     """
     # Normalize Vectors
@@ -24,10 +26,15 @@ def quat2align(to_align, with_this, normalize=True):
         to_align = to_align.normalized()
         with_this = with_this.normalized()
     # Calculate Quaternion
-    return Quaternion.new_rotate_axis(
-        angle=to_align.angle(with_this),
-        axis=to_align.cross(with_this),
-    )
+    axis = to_align.cross(with_this)
+    angle = atan2(abs(axis), to_align.dot(with_this))
+    if abs(axis) < 1e-8:
+        # (anti)parallel vectors: any perpendicular axis will do
+        axis = opposite_axis or min((
+            to_align.cross(v)
+            for v in (Vector3(1., 0., 0.), Vector3(0., 1., 0.), Vector3(0., 0., 1.))
+        ), key=lambda v: -abs(v))
+    return Quaternion.new_rotate_axis(angle=angle, axis=axis)
 
 
 def quat2coord_system(origin1, origin2, align1, align2):
@@ -48,7 +55,7 @@ def quat2coord_system(origin1, origin2, align1, align2):
     align2 = align2.normalized()
     # Calculate Quaternion
     q1 = quat2align(origin1, align1, normalize=False)
-    q2 = quat2align(q1 * origin2, align2, normalize=False)
+    q2 = quat2align(q1 * origin2, align2, normalize=False, opposite_axis=align1)
     return q2 * q1
 
 
-- 
2.43.0


From 9be2f1ccf434c28c495e086201e666b6e5545d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 24/61] fix: copying blocks

---
 src/pygcode/block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/block.py b/src/pygcode/block.py
index 74650bc..665afe1 100644
--- a/src/pygcode/block.py
+++ b/src/pygcode/block.py
@@ -79,7 +79,7 @@ class Block(object):
                 modal_groups.add(gc.modal_group)
 
     def __getattr__(self, k):
-        if k in self._word_map:
+        if k in self.__dict__.get('_word_map', {}):  # may not be initialised yet (when copying)
             for w in self.words:
                 if w.letter == k:
                     return w
-- 
2.43.0


From 1629c6000168ef6e3d8095edda3e04587b24f45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 25/61] fix: axis words of G28, G30 and G92 belong to those
 codes, not to the modal motion

---
 src/pygcode/gcodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 403b894..c243d6b 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -1302,6 +1302,7 @@ class GCodeSet(GCodeNonModal):
 
 class GCodeGotoPredefinedPosition(GCodeNonModal):
     """G28,G30: Goto Predefined Position (rapid movement)"""
+    param_letters = set('XYZABCUVW')
     @classmethod
     def word_matches(cls, w):
         return (w.letter == 'G') and (w.value in [28, 30])
@@ -1326,6 +1327,7 @@ class GCodeMoveInMachineCoords(GCodeNonModal):
 
 class GCodeCoordSystemOffset(GCodeNonModal):
     """G92: Coordinate System Offset"""
+    param_letters = set('XYZABCUVW')
     word_key = Word('G', 92)
     exec_order = 230
 
-- 
2.43.0


From f1561def5f972f274e7ec113d305f09548a8e2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 26/61] fix: pygcode-norm accepts upper case --arc_lin_method

---
 scripts/pygcode-norm | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index 8b721d9..17b136b 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -52,7 +52,8 @@ def arc_lin_method_type(value):
 
     value_dict = defaultdict(lambda: ArcLinearizeMid)
     if value:
-        match = re.search(r'^(?P<g2>[iom])(,(?P<g3>[iom]))?$', value, re.IGNORECASE)
+        value = value.lower()
+        match = re.search(r'^(?P<g2>[iom])(,(?P<g3>[iom]))?$', value)
         if not match:
             raise argparse.ArgumentTypeError("invalid format '%s'" % value)
 
-- 
2.43.0


From 3ed6b52bbd10c998fce0bf00685917b142235b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 27/61] fix: pygcode-norm expands canned cycles with the active
 return mode

---
 scripts/pygcode-norm | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index 17b136b..76d78de 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -345,6 +345,7 @@ for line_str in args.infile.readlines():
                 'start_pos': machine.pos,
                 'plane': machine.mode.plane_selection,
                 'dist_mode': machine.mode.distance,
+                'retract_mode': machine.mode.canned_cycles_return,
                 'axes': machine.axes,
             }
             for simplified_gcode in omit_redundant_modes(simplify_canned_cycle(**simplify_canned_params)):
-- 
2.43.0


From 281088a9a3776ff4e3076a86b2a270a3c3bdbd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 28/61] fix: pygcode-norm --singles keeps modal parameters and
 macros

---
 scripts/pygcode-norm | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index 76d78de..ecf8383 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -252,8 +252,10 @@ def write(gcodes, modal_params=tuple(), comment=None, macro=None):
     """
     assert not(args.full and modal_params), "with full specified, this should never be called with modal_params"
     if args.singles and len(gcodes) > 1:
-        for g in sorted(gcodes):
+        gcodes = sorted(gcodes)
+        for g in gcodes[:-1]:
             write([g], comment=comment)
+        write(gcodes[-1:], comment=comment, macro=macro)
     else:
         # remove comments
         if args.rm_comments:
@@ -284,12 +286,13 @@ def gcodes2str(gcodes):
 
 
 @contextmanager
-def split_and_process(gcode_list, gcode_class, comment):
+def split_and_process(gcode_list, gcode_class, comment, macro=None):
     """
     Split gcodes by given class, yields given class instance
     :param gcode_list: list of GCode instances
     :param gcode_class: class inheriting from GCode (directly, or indirectly)
     :param comment: Comment instance, or None
+    :param macro: macro string, or None
     """
     (befores, (g,), afters) = split_gcodes(gcode_list, gcode_class)
     # write & process those before gcode_class instance
@@ -303,9 +306,9 @@ def split_and_process(gcode_list, gcode_class, comment):
     if afters:
         write(afters)
         machine.process_gcodes(*afters)
-    # write comment (if given)
-    if comment:
-        write([], comment=line.comment)
+    # write comment & macro (if given)
+    if comment or macro:
+        write([], comment=comment, macro=macro)
 
 
 
@@ -322,7 +325,7 @@ for line_str in args.infile.readlines():
     effective_gcodes = machine.block_modal_gcodes(line.block)
 
     if args.arc_linearize and any(isinstance(g, GCodeArcMove) for g in effective_gcodes):
-        with split_and_process(effective_gcodes, GCodeArcMove, line.comment) as arc:
+        with split_and_process(effective_gcodes, GCodeArcMove, line.comment, line.macro) as arc:
             write([], comment=Comment("linearized arc: %r" % arc))
             linearize_params = {
                 'arc_gcode': arc,
@@ -338,7 +341,7 @@ for line_str in args.infile.readlines():
                 write([linear_gcode])
 
     elif args.canned_expand and any((g.word in args.canned_codes) for g in effective_gcodes):
-        with split_and_process(effective_gcodes, GCodeCannedCycle, line.comment) as canned:
+        with split_and_process(effective_gcodes, GCodeCannedCycle, line.comment, line.macro) as canned:
             write([], comment=Comment("expanded: %r" % canned))
             simplify_canned_params = {
                 'canned_gcode': canned,
@@ -352,7 +355,8 @@ for line_str in args.infile.readlines():
                 write([simplified_gcode])
 
     else:
-        if args.full:
+        if args.full or (args.singles and len(line.block) > 1):
+            # (modal parameters alongside other gcodes can only be output separately if fully qualified)
             write(effective_gcodes, comment=line.comment, macro=line.macro)
         else:
             write(line.block.gcodes, modal_params=line.block.modal_params, comment=line.comment, macro=line.macro)
-- 
2.43.0


From 5fca2e98348e578a642b457444325901ded3a171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 29/61] fix: pygcode-crop angular axes conditions, and
 positioning

---
 scripts/pygcode-crop | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index b5d1d66..d1c6d98 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -185,6 +185,7 @@ args = parser.parse_args()
 
 # --- Machine
 class NullMachine(Machine):
+    axes = set('XYZABC')
     MODE_CLASS = type('NullMode', (Mode,), {'default_mode': ''})
 
 machine = NullMachine()
@@ -217,6 +218,12 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             if not isinstance(plane, GCodePlaneSelect):
                 plane = GCodeSelectXYPlane()  # default to XY plane
 
+            # Angular axes that have been moved so far
+            rotary_axes = set(
+                k for k in 'ABC'
+                if getattr(old_machine.abs_range_min, k) or getattr(old_machine.abs_range_max, k)
+            )
+
             # --- position machine before first cropped line
             print(Comment("traverse into position, up, over, and down"))
             # rapid move to Z (maximum Z the machine has experienced thus far)
@@ -226,7 +233,7 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             # rapid move to X,Y
             print(GCodeRapidMove(**dict(
                 (k, v) for (k, v) in old_machine.pos.values.items()
-                if k in plane.plane_axes
+                if (k in plane.plane_axes) or (k in rotary_axes)
             )))
             # rapid move to Z (machine.pos.Z)
             print(GCodeRapidMove(**{
-- 
2.43.0


From 2425ec3564f4d8c36e606020e3a20406bde570b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 30/61] fix: pygcode-crop does not output motion or stop codes
 to restore mode

---
 scripts/pygcode-crop | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index d1c6d98..f96b245 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -16,7 +16,7 @@ for pygcode_lib_type in ('installed_lib', 'relative_lib'):
         from pygcode import Machine, Mode
         from pygcode import Line, Comment
         from pygcode import GCodePlaneSelect, GCodeSelectXYPlane
-        from pygcode import GCodeRapidMove
+        from pygcode import GCodeRapidMove, GCodeMotion, GCodeCannedCycle, GCodeProgramControl
 
     except ImportError:
         import sys, os, inspect
@@ -208,7 +208,11 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             pre_crop = False
 
             # Set machine's accumulated mode (from everything that's been cut)
-            mode_str = str(old_machine.mode)
+            # (excluding codes that would move, or stop the machine)
+            mode_str = ' '.join(
+                str(g) for g in old_machine.mode.gcodes
+                if not isinstance(g, (GCodeMotion, GCodeCannedCycle, GCodeProgramControl))
+            )
             if mode_str:
                 print(Comment("machine mode before cropping"))
                 print(mode_str)
-- 
2.43.0


From 1c89005f7afd2cb15cc6ab2343a90a6e4d83d750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 31/61] fix: pygcode-crop traverses in absolute distance mode

---
 scripts/pygcode-crop | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index f96b245..5a884b4 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -16,6 +16,7 @@ for pygcode_lib_type in ('installed_lib', 'relative_lib'):
         from pygcode import Machine, Mode
         from pygcode import Line, Comment
         from pygcode import GCodePlaneSelect, GCodeSelectXYPlane
+        from pygcode import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
         from pygcode import GCodeRapidMove, GCodeMotion, GCodeCannedCycle, GCodeProgramControl
 
     except ImportError:
@@ -230,6 +231,9 @@ for (i, line_str) in enumerate(args.infile.readlines()):
 
             # --- position machine before first cropped line
             print(Comment("traverse into position, up, over, and down"))
+            is_incremental = isinstance(old_machine.mode.distance, GCodeIncrementalDistanceMode)
+            if is_incremental:
+                print(GCodeAbsoluteDistanceMode())
             # rapid move to Z (maximum Z the machine has experienced thus far)
             print(GCodeRapidMove(**{
                 plane.normal_axis: getattr(old_machine.abs_range_max, plane.normal_axis),
@@ -243,6 +247,8 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             print(GCodeRapidMove(**{
                 plane.normal_axis: getattr(old_machine.pos, plane.normal_axis),
             }))
+            if is_incremental:
+                print(old_machine.mode.distance)
             print('')
 
     if (pre_crop, post_crop) == (False, False):
-- 
2.43.0


From 525fa02162333e162f9c2315790c1519b4f43014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 32/61] fix: pygcode-crop preserves motion mode into the
 cropped area

---
 scripts/pygcode-crop | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index 5a884b4..b15ca59 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -17,7 +17,7 @@ for pygcode_lib_type in ('installed_lib', 'relative_lib'):
         from pygcode import Line, Comment
         from pygcode import GCodePlaneSelect, GCodeSelectXYPlane
         from pygcode import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
-        from pygcode import GCodeRapidMove, GCodeMotion, GCodeCannedCycle, GCodeProgramControl
+        from pygcode import GCodeRapidMove, GCodeDwell, GCodeMotion, GCodeCannedCycle, GCodeProgramControl
 
     except ImportError:
         import sys, os, inspect
@@ -193,6 +193,7 @@ machine = NullMachine()
 
 pre_crop = True
 post_crop = False
+is_motion_set = False
 
 (is_first, is_last) = args.range
 
@@ -259,4 +260,17 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             break
         else:
             # inside cropping area
+            if not is_motion_set:
+                # Motion mode (before cropping) was overridden to traverse into
+                # position; fully qualify the first line that's relying on it.
+                block = line.block
+                if block.modal_params:
+                    block.gcodes = old_machine.block_modal_gcodes(block)
+                    block.modal_params = []
+                    is_motion_set = True
+                else:
+                    is_motion_set = any(
+                        isinstance(g, (GCodeMotion, GCodeCannedCycle)) and not isinstance(g, GCodeDwell)
+                        for g in block.gcodes
+                    )
             print(line)
-- 
2.43.0


From 8155479ddca6cf993e9c4a4af3f50e1f333e13a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 33/61] fix: machine's mode retains offset numbers and
 tolerances of modal codes

---
 src/pygcode/gcodes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index c243d6b..c77faed 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -780,6 +780,7 @@ class GCodeToolLength(GCode):
 class GCodeToolLengthOffset(GCodeToolLength):
     """G43: Tool Length Offset"""
     param_letters = set('H')
+    modal_param_letters = param_letters
     word_key = Word('G', 43)
 
 
@@ -791,6 +792,7 @@ class GCodeDynamicToolLengthOffset(GCodeToolLength):
 class GCodeAddToolLengthOffset(GCodeToolLength):
     """G43.2: Appkly Additional Tool Length Offset"""
     param_letters = set('H')
+    modal_param_letters = param_letters
     word_key = Word('G', 43.2)
 
 
@@ -952,24 +954,28 @@ class GCodeCutterRadiusCompOff(GCodeCutterRadiusComp):
 class GCodeCutterCompLeft(GCodeCutterRadiusComp):
     """G41: Cutter Radius Compensation (left)"""
     param_letters = set('D')
+    modal_param_letters = param_letters
     word_key = Word('G', 41)
 
 
 class GCodeCutterCompRight(GCodeCutterRadiusComp):
     """G42: Cutter Radius Compensation (right)"""
     param_letters = set('D')
+    modal_param_letters = param_letters
     word_key = Word('G', 42)
 
 
 class GCodeDynamicCutterCompLeft(GCodeCutterRadiusComp):
     """G41.1: Dynamic Cutter Radius Compensation (left)"""
     param_letters = set('DL')
+    modal_param_letters = param_letters
     word_key = Word('G', 41.1)
 
 
 class GCodeDynamicCutterCompRight(GCodeCutterRadiusComp):
     """G42.1: Dynamic Cutter Radius Compensation (right)"""
     param_letters = set('DL')
+    modal_param_letters = param_letters
     word_key = Word('G', 42.1)
 
 
@@ -996,6 +1002,7 @@ class GCodeExactStopMode(GCodePathControlMode):
 class GCodePathBlendingMode(GCodePathControlMode):
     """G64: Path Blending"""
     param_letters = set('PQ')
+    modal_param_letters = param_letters
     word_key = Word('G', 64)
 
 
-- 
2.43.0


From a3061bda3e61920dfb273858fd5f0d12e49e4687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 34/61] fix: white space after a letter is not part of a tool
 or program name's value

---
 src/pygcode/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/words.py b/src/pygcode/words.py
index 0c57647..89be61e 100644
--- a/src/pygcode/words.py
+++ b/src/pygcode/words.py
@@ -112,7 +112,7 @@ def text2words(block_text, dialect=None):
             value_match = value_regex.search(block_text[index:])
             if value_match is None:
                 raise GCodeWordStrError("word '%s' value invalid" % letter)
-            value = value_match.group() # matched text
+            value = value_match.group().strip() # matched text (without padding)
 
             yield Word(letter, value, dialect=dialect)
 
-- 
2.43.0


From c2d91865538f0a04499a0a66a2288724befdeb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 35/61] fix: print G and M code values in full

---
 src/pygcode/dialects/linuxcnc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/dialects/linuxcnc.py b/src/pygcode/dialects/linuxcnc.py
index 9da818b..378d6b3 100644
--- a/src/pygcode/dialects/linuxcnc.py
+++ b/src/pygcode/dialects/linuxcnc.py
@@ -26,8 +26,8 @@ REGEX_CODE = re.compile(r'^\s*\d+(\.\d)?') # float, but can't be negative
 # Value cleaning functions
 def _clean_codestr(value):
     if value < 10:
-        return "0%g" % value
-    return "%g" % value
+        return "0%.15g" % value
+    return "%.15g" % value # not %g: large values must not lose digits
 
 CLEAN_NONE = lambda v: v
 CLEAN_FLOAT = lambda v: ("%.3f" % v).rstrip('0').rstrip('.') # not %g: large values must not lose digits
-- 
2.43.0


From ac57b90ac8ac32a31588756368efc09a167bf0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 36/61] fix: accept trailing zeros of G and M code values

---
 src/pygcode/dialects/linuxcnc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/dialects/linuxcnc.py b/src/pygcode/dialects/linuxcnc.py
index 378d6b3..929b871 100644
--- a/src/pygcode/dialects/linuxcnc.py
+++ b/src/pygcode/dialects/linuxcnc.py
@@ -21,7 +21,7 @@ from .utils import WordType
 REGEX_FLOAT = re.compile(r'^\s*-?(\d+\.?\d*|\.\d+)') # testcase: ..tests.test_words.WordValueMatchTests.test_float
 REGEX_INT = re.compile(r'^\s*-?\d+')
 REGEX_POSITIVEINT = re.compile(r'^\s*\d+')
-REGEX_CODE = re.compile(r'^\s*\d+(\.\d)?') # float, but can't be negative
+REGEX_CODE = re.compile(r'^\s*\d+(\.\d0*)?') # float, but can't be negative
 
 # Value cleaning functions
 def _clean_codestr(value):
-- 
2.43.0


From f5b269270b2c3b55f10de3faa5211cffaf5d6ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 37/61] fix: ignored modal parameters do not repeat the last
 motion

---
 src/pygcode/machine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index bf748e1..c303318 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -451,6 +451,9 @@ class Machine(object):
                     ' '.join(str(x) for x in unasigned_words), self.mode
                 ))
 
+        if set(w.letter for w in modal_params) <= set(w.letter for w in unasigned_words):
+            return None  # all given parameters are ignored, so there's nothing to do
+
         if modal_gcodes:
             assert len(modal_gcodes) == 1, "more than 1 modal code found"
             return modal_gcodes[0]
-- 
2.43.0


From cd90a1e646210e9b7efb39125472850f2201590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 38/61] fix: printing a semicolon comment before a macro does
 not pad it every time

---
 src/pygcode/comment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/comment.py b/src/pygcode/comment.py
index 32d169e..6b0f912 100644
--- a/src/pygcode/comment.py
+++ b/src/pygcode/comment.py
@@ -17,7 +17,7 @@ class CommentBase(object):
 class CommentSemicolon(CommentBase):
     "Comments of the format: 'G00 X1 Y2 ; something profound'"
     ORDER = 1
-    AUTO_REGEX = re.compile(r'\s*;\s*(?P<text>.*)$')
+    AUTO_REGEX = re.compile(r'\s*;\s*(?P<text>.*?)\s*$')
 
     def __str__(self):
         return "; {text}".format(text=self.text)
-- 
2.43.0


From 99d48fef9b696a28a609a19422a9818c60c91d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 39/61] fix: combined comments keep their text when printed

---
 src/pygcode/comment.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/comment.py b/src/pygcode/comment.py
index 6b0f912..5536592 100644
--- a/src/pygcode/comment.py
+++ b/src/pygcode/comment.py
@@ -62,13 +62,17 @@ def split_line(line_text):
         # Remove comment from given block_str
         index = match.start()
         block_str = block_str[:match.start()] + block_str[match.end():]
-        if (comments_class is None) or (cls.ORDER < comments_class.ORDER):
+        # Combine bracket & semicolon comments in brackets, unless they can't hold the text
+        # (semicolon comments can't hold a '%', or surrounding white space)
+        if (comments_class is None) or (')' in match.group('text')):
             comments_class = cls
 
     # Create comment instance if content was found
     comment_obj = None
     if comments_class:
         comment_text = comments_class.MULTICOMMENT_JOINER.join(comments)
+        if comments_class is CommentSemicolon:
+            comment_text = comment_text.strip()
         comment_obj = comments_class(comment_text)
 
     return (block_str, comment_obj)
-- 
2.43.0


From 1271822d8501fb9b741750b642a6746e99a9da69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 40/61] fix: setting a position's unit converts its values

---
 src/pygcode/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index c303318..07052dc 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -77,7 +77,7 @@ class Position(object):
         elif key in self.POSSIBLE_AXES:
             raise MachineInvalidAxis("'%s' axis is not defined to be set" % key)
         else:
-            self.__dict__[key] = value
+            super(Position, self).__setattr__(key, value)
 
     # Equality
     def __eq__(self, other):
-- 
2.43.0


From 4717c32991ba96ed38e326cbecafada4a7bc3730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 41/61] fix: linearize R arcs that are smaller than the
 tolerance

---
 src/pygcode/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index fa01fe7..3614cfb 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -272,7 +272,7 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     arc_gcode.assert_params()
     if 'R' in arc_gcode.params:
         # R: radius magnitude specified
-        if abs(arc_p_start - arc_p_end) < max_error:
+        if abs(arc_p_start - arc_p_end) < 1e-6:
             raise GCodeParameterError(
                 "arc starts and finishes in the same spot; cannot "
                 "speculate where circle's center is: %r" % arc_gcode
-- 
2.43.0


From 831f302c7f9345f1034e064e33c95595f13b2273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 42/61] fix: simplified canned cycles do not drill the bottom
 twice because of rounding

---
 src/pygcode/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 3614cfb..23e9c19 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -478,7 +478,7 @@ def simplify_canned_cycle(canned_gcode, start_pos,
             while True:
                 # Determine new depth
                 cur_depth += delta
-                if cur_depth < drill_depth:
+                if cur_depth < drill_depth + 1e-6:  # tolerate floating point error
                     cur_depth = drill_depth
 
                 # Rapid to just above, then slowly drill through delta
-- 
2.43.0


From e3588a58d1955feb1fe6e7a0d75eaa3a34855d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 43/61] fix: omit_redundant_modes keeps codes that clear
 retained parameters

---
 src/pygcode/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/utils.py b/src/pygcode/utils.py
index 1de2ddd..8d08619 100644
--- a/src/pygcode/utils.py
+++ b/src/pygcode/utils.py
@@ -90,8 +90,12 @@ def omit_redundant_modes(gcode_iter):
             # (of the same modal group) is not None
             if m.mode.modal_groups[g.modal_group].word == g.word:
                 # machine's mode & g-code's mode match (no machine change)
-                if g.modal_group == MODAL_GROUP_MAP['motion']:
+                if (
+                    g.modal_group == MODAL_GROUP_MAP['motion'] and
+                    set(m.mode.modal_groups[g.modal_group].params) <= set(g.params)
+                ):
                     # finally: g-code sets a motion mode in the machine
+                    #   (and doesn't rely on retained parameters being cleared)
                     g = copy(g) # duplicate gcode object
                     # stop redundant g-code word from being printed
                     g._whitespace_prefix = True
-- 
2.43.0


From 0d39c3476e278c2b5049e6c4b940cc53a2ef2ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 44/61] fix: canned cycles returning to an R level need R, and
 a plane with a normal axis

---
 src/pygcode/gcodes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index c77faed..5ff79c7 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -547,9 +547,11 @@ class GCodeCannedCycle(GCode):
         plane = machine.mode.plane_selection or GCodeSelectXYPlane  # default: XY plane
         if isinstance(machine.mode.canned_cycles_return, GCodeCannedCycleReturnToR):
             # canned return is to this.R, not this.Z (plane dependent)
-            moveto_coords.update({
-                plane.normal_axis: self.R,
-            })
+            moveto_coords.pop(plane.normal_axis, None)
+            if plane.normal_axis in machine.axes:
+                if self.R is None:
+                    raise GCodeParameterError("R is required to return to it: %r" % self)
+                moveto_coords[plane.normal_axis] = self.R
         else:  # default: GCodeCannedCycleReturnPrevLevel
             # Remove this.Z (plane dependent) value (ie: no machine movement on this axis)
             moveto_coords.pop(plane.normal_axis, None)
-- 
2.43.0


From 58e3d8d22f3b4803e996e41f39a2241e26687bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 45/61] fix: deep copies of positions, and what holds them

---
 src/pygcode/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 07052dc..436a16c 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -63,7 +63,7 @@ class Position(object):
 
     # Attributes Get/Set
     def __getattr__(self, key):
-        if key in self.axes:
+        if key in self.__dict__.get('axes', ()):  # not yet set while being deep copied
             return self._value[key]
 
         raise AttributeError("'{cls}' object has no attribute '{key}'".format(
-- 
2.43.0


From b6d486e297e5ca5322acaf2c9e300bd8b698927b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 46/61] fix: refuse digits left between words, instead of
 reading another value

---
 src/pygcode/words.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pygcode/words.py b/src/pygcode/words.py
index 89be61e..f9aa390 100644
--- a/src/pygcode/words.py
+++ b/src/pygcode/words.py
@@ -105,6 +105,10 @@ def text2words(block_text, dialect=None):
         if letter_match:
             # Letter
             letter = letter_match.group('letter').upper()
+            skipped = letter_match.group()[:-1]
+            if index and re.search(r'[1-9]', skipped):
+                # previous word's value was only partially read (eg: X1.5.2, G59.12, X1,5)
+                raise GCodeWordStrError("block code remaining '%s'" % skipped)
             index += letter_match.end() # propogate index to start of value
 
             # Value
-- 
2.43.0


From b91b3af9d750a5457d1fa3e34b45addd06903c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 47/61] fix: only G38.2, G38.3, G38.4 and G38.5 are straight
 probes

---
 src/pygcode/gcodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 5ff79c7..81b3562 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -493,7 +493,7 @@ class GCodeStraightProbe(GCodeMotion):
     """G38.2-G38.5: Straight Probe"""
     @classmethod
     def word_matches(cls, w):
-        return (w.letter == 'G') and (38.2 <= w.value <= 38.5)
+        return (w.letter == 'G') and (w.value in [38.2, 38.3, 38.4, 38.5])
     default_word = Word('G', 38.2)
 
 
-- 
2.43.0


From 86d9ccfcf9ff0534d897ce98b1853909ec9d5b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:16 +0000
Subject: [PATCH 48/61] fix: positions refuse initial values for axes they do
 not have

---
 src/pygcode/machine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 436a16c..169d817 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -51,6 +51,9 @@ class Position(object):
         self._unit = kwargs.pop('unit', self.default_unit)
 
         # Initial Values
+        undefined_axes = set(kwargs) - self.axes
+        if undefined_axes:
+            raise MachineInvalidAxis("axes are not defined to be set: %s" % undefined_axes)
         self._value = defaultdict(lambda: 0.0, dict((k, 0.0) for k in self.axes))
         self._value.update(kwargs)
 
-- 
2.43.0


From e0ac15d59ddbe8c112fe9d92a8b0f157dc8daa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 49/61] fix: setting a mode to a tuple is refused with
 MachineInvalidState

---
 src/pygcode/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 169d817..9991986 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -347,7 +347,7 @@ class Mode(object):
                 # set mode group explicitly, not advisable
                 # (recommended to use self.set_mode(value) instead)
                 if not isinstance(value, GCode):
-                    raise MachineInvalidState("invalid mode value: %r" % value)
+                    raise MachineInvalidState("invalid mode value: %r" % (value,))
                 if value.modal_group != MODAL_GROUP_MAP[key]:
                     raise MachineInvalidState("cannot set '%s' mode as %r, wrong group" % (key, value))
                 self.modal_groups[MODAL_GROUP_MAP[key]] = value.modal_copy()
-- 
2.43.0


From 1a0d055a9df52866ac979dcbe316d37e39d6b208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 50/61] fix: setting a machine's position in other units does
 not change the machine's unit

---
 src/pygcode/machine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 9991986..c140b4f 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -551,7 +551,9 @@ class Machine(object):
     @pos.setter
     def pos(self, value):
         """Set absolute position given current position and coordinate system"""
-        self.abs_pos = self.work2abs(value)
+        abs_pos = self.work2abs(value)
+        abs_pos.unit = self.abs_pos.unit  # machine keeps its own unit
+        self.abs_pos = abs_pos
         self._update_abs_range(self.abs_pos)
 
     def _update_abs_range(self, pos):
-- 
2.43.0


From 64c8a060b301bb17b099247d8d0ca1b87e20d28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 51/61] fix: pygcode-norm refuses malformed word lists and
 precisions as usage errors

---
 scripts/pygcode-norm | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index ecf8383..6b38c85 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -74,10 +74,22 @@ def word_list_type(value):
     """
     canned_code_words = set()
     for word_str in re.split(r'\s*,\s*', value):
-        canned_code_words.add(Word(word_str))
+        try:
+            canned_code_words.add(Word(word_str))
+        except (IndexError, KeyError, ValueError):
+            raise argparse.ArgumentTypeError("invalid word '%s'" % word_str)
 
     return canned_code_words
 
+def precision_type(value):
+    """
+    Convert to a positive distance
+    """
+    precision = float(value)
+    if not precision > 0:
+        raise argparse.ArgumentTypeError("'%s' is not a positive number" % value)
+    return precision
+
 
 # --- Defaults
 DEFAULT_PRECISION = 0.005  # mm
@@ -133,7 +145,7 @@ group.add_argument(
     metavar='{i,o,m}[,{i,o,m}]',
 )
 group.add_argument(
-    '--arc_precision', '-alp', dest='arc_precision', type=float, default=DEFAULT_PRECISION,
+    '--arc_precision', '-alp', dest='arc_precision', type=precision_type, default=DEFAULT_PRECISION,
     help="Maximum positional error when creating linear interpolation codes "
          "(default: %g)." % DEFAULT_PRECISION,
 )
-- 
2.43.0


From 1c49f9140eec12e9b830d1d2501aaa2edfcc370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:46 +0000
Subject: [PATCH 52/61] fix: a new machine uses the coordinate system its
 default mode selects

---
 src/pygcode/machine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index c140b4f..d902cec 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -385,6 +385,8 @@ class Machine(object):
     def __init__(self):
         self.mode = self.MODE_CLASS()
         self.state = self.STATE_CLASS(axes=self.axes)
+        if self.mode.coordinate_system: # selected by default mode
+            self.state.cur_coord_sys = self.mode.coordinate_system.coord_system_id
 
         # Position type (with default axes the same as this machine)
         units_mode = getattr(self.mode, 'units', None)
-- 
2.43.0


From 61bda2d561f0619441302bbaf560ecee433c3d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 53/61] fix: linearising an arc makes all the turns its P word
 asks for

---
 src/pygcode/gcodes.py    | 2 ++
 src/pygcode/transform.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 81b3562..354ce1c 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -443,6 +443,8 @@ class GCodeArcMove(GCodeMotion):
         # --- Parameter Values
         if params_r and (self.R == 0):
             raise GCodeParameterError("cannot plot a circle with a radius of zero: %r" % self)
+        if (self.P is not None) and ((self.P < 1) or (self.P % 1)):
+            raise GCodeParameterError("number of turns must be a positive integer: %r" % self)
 
 
 class GCodeArcMoveCW(GCodeArcMove):
diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 23e9c19..933f46b 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -341,6 +341,9 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
         arc_angle = (a1 - a2) % (2 * pi)
     else:
         arc_angle = -((a2 - a1) % (2 * pi))
+    if arc_gcode.P is not None:
+        # P: number of turns, all but the first are full circles
+        arc_angle += (arc_gcode.P - 1) * (2 * pi if isinstance(arc_gcode, GCodeArcMoveCW) else -2 * pi)
 
     # Helical interpolation
     helical_start = plane.normal * arc_start.dot(plane.normal)
-- 
2.43.0


From df9ac8a6bea501d40f953f9cd3323e8ee0c328dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:57 +0000
Subject: [PATCH 54/61] fix: refuse arguments of wrong types with the
 assertion, tuples included

---
 src/pygcode/gcodes.py    |  6 +++---
 src/pygcode/transform.py | 22 +++++++++++-----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 354ce1c..b8020cc 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -168,7 +168,7 @@ class GCode(object):
                 gcode_word = Word(self.word_letter, gcode_word)  # cast to Word()
         else:
             gcode_word = self._default_word()
-        assert isinstance(gcode_word, Word), "invalid gcode word %r" % gcode_word
+        assert isinstance(gcode_word, Word), "invalid gcode word %r" % (gcode_word,)
         self.word = gcode_word
         self.params = {}
 
@@ -247,7 +247,7 @@ class GCode(object):
         Add given word as a parameter for this gcode
         :param word: Word instance
         """
-        assert isinstance(word, Word), "invalid parameter class: %r" % word
+        assert isinstance(word, Word), "invalid parameter class: %r" % (word,)
         if word.letter not in self.param_letters:
             raise GCodeParameterError("invalid parameter for %s: %s" % (self.__class__.__name__, str(word)))
         if word.letter in self.params:
@@ -324,7 +324,7 @@ class GCode(object):
         :return: GCodeEffect instance; effect the gcode just had on machine
         """
         from .machine import Machine  # importing up (done live to avoid dependency loop)
-        assert isinstance(machine, Machine), "invalid machine type: %r" % machine
+        assert isinstance(machine, Machine), "invalid machine type: %r" % (machine,)
 
         # Set mode
         self._process_mode(machine)
diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 933f46b..2d09dcf 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -242,12 +242,12 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
         arc_dist_mode = DEFAULT_LA_ARCDISTMODE()
 
     # Parameter Type Assertions
-    assert isinstance(arc_gcode, GCodeArcMove), "bad arc_gcode type: %r" % arc_gcode
-    assert isinstance(start_pos, Position), "bad start_pos type: %r" % start_pos
-    assert isinstance(plane, GCodePlaneSelect), "bad plane type: %r" % plane
-    assert issubclass(method_class, ArcLinearizeMethod), "bad method_class type: %r" % method_class
-    assert isinstance(dist_mode, (GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode)), "bad dist_mode type: %r" % dist_mode
-    assert isinstance(arc_dist_mode, (GCodeAbsoluteArcDistanceMode, GCodeIncrementalArcDistanceMode)), "bad arc_dist_mode type: %r" % arc_dist_mode
+    assert isinstance(arc_gcode, GCodeArcMove), "bad arc_gcode type: %r" % (arc_gcode,)
+    assert isinstance(start_pos, Position), "bad start_pos type: %r" % (start_pos,)
+    assert isinstance(plane, GCodePlaneSelect), "bad plane type: %r" % (plane,)
+    assert issubclass(method_class, ArcLinearizeMethod), "bad method_class type: %r" % (method_class,)
+    assert isinstance(dist_mode, (GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode)), "bad dist_mode type: %r" % (dist_mode,)
+    assert isinstance(arc_dist_mode, (GCodeAbsoluteArcDistanceMode, GCodeIncrementalArcDistanceMode)), "bad arc_dist_mode type: %r" % (arc_dist_mode,)
     assert max_error > 0, "max_error must be > 0"
 
     # Arc Start
@@ -417,11 +417,11 @@ def simplify_canned_cycle(canned_gcode, start_pos,
         retract_mode = DEFAULT_SCC_RETRACTMODE()
 
     # Parameter Type Assertions
-    assert isinstance(canned_gcode, GCodeCannedCycle), "bad canned_gcode type: %r" % canned_gcode
-    assert isinstance(start_pos, Position), "bad start_pos type: %r" % start_pos
-    assert isinstance(plane, GCodePlaneSelect), "bad plane type: %r" % plane
-    assert isinstance(dist_mode, (GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode)), "bad dist_mode type: %r" % dist_mode
-    assert isinstance(retract_mode, GCodeCannedReturnMode), "bad retract_mode type: %r" % retract_mode
+    assert isinstance(canned_gcode, GCodeCannedCycle), "bad canned_gcode type: %r" % (canned_gcode,)
+    assert isinstance(start_pos, Position), "bad start_pos type: %r" % (start_pos,)
+    assert isinstance(plane, GCodePlaneSelect), "bad plane type: %r" % (plane,)
+    assert isinstance(dist_mode, (GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode)), "bad dist_mode type: %r" % (dist_mode,)
+    assert isinstance(retract_mode, GCodeCannedReturnMode), "bad retract_mode type: %r" % (retract_mode,)
 
     if isinstance(canned_gcode, GCodeThreadingCycle):
         raise NotImplementedError("simplifying threading cycles has not been implemented")
-- 
2.43.0


From bd57dc71898e9ee4a781e10a79d811cf0d1e828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:27 +0000
Subject: [PATCH 55/61] fix: expand canned cycles in inches to incremental
 moves in inches

---
 src/pygcode/gcodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index b8020cc..aa2ee45 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -1659,8 +1659,9 @@ def _gcodes_abs2rel(start_pos, dist_mode=None, axes='XYZ'):
         def inner(*largs, **kwargs):
             # Create Machine (with minimal information)
             from .machine import Machine, Mode, Position
+            units = GCodeUseInches if (start_pos.unit == GCodeUseInches.unit_id) else GCodeUseMillimeters
             m = type('AbsoluteCoordMachine', (Machine,), {
-                'MODE_CLASS': type('NullMode', (Mode,), {'default_mode': 'G90'}),
+                'MODE_CLASS': type('NullMode', (Mode,), {'default_mode': 'G90 %s' % units.word_key}),
                 'axes': axes,
             })()
             m.pos = start_pos
-- 
2.43.0


From 77c4c6f938e3d7662f3e2102d4a655db54dc073a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:37 +0000
Subject: [PATCH 56/61] fix: linearised arcs keep the words of axes other than
 X, Y and Z

---
 src/pygcode/transform.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 2d09dcf..e4b6b3f 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -370,23 +370,39 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     }
     method = method_class(**method_class_params)
 
+    # Other axes (A,B,C,U,V,W) move in proportion to the angle covered
+    other_coords = arc_gcode.get_param_dict('ABCUVW')
+
+    def other_progress(index):
+        # portion of the arc covered at the end of the line with the given index (0-1)
+        return min(1., (index + (0.5 if method.chord_phase_offset else 1.)) / method.wedge_count)
+
     # Iterate & yield each linear line (start, end) vertices
     if isinstance(dist_mode, GCodeAbsoluteDistanceMode):
         # Absolute coordinates
-        for line_vertices in method.iter_vertices():
+        for (i, line_vertices) in enumerate(method.iter_vertices()):
             (l_start, l_end) = line_vertices
-            yield GCodeLinearMove(**dict(zip('XYZ', l_end.xyz)))
+            coords = dict(zip('XYZ', l_end.xyz))
+            for (axis, other_end) in other_coords.items():
+                other_start = start_pos.values.get(axis, other_end)  # (axis may not be known to machine)
+                coords[axis] = other_end - (other_end - other_start) * (1. - other_progress(i))
+            yield GCodeLinearMove(**coords)
     else:
         # Incremental coordinates (beware cumulative errors)
         cur_pos = arc_start
-        for line_vertices in method.iter_vertices():
+        cur_other = dict((axis, 0.) for axis in other_coords)
+        for (i, line_vertices) in enumerate(method.iter_vertices()):
             (l_start, l_end) = line_vertices
             l_delta = l_end - cur_pos
 
             # round delta coordinates (introduces errors)
             for axis in 'xyz':
                 setattr(l_delta, axis, round(getattr(l_delta, axis), decimal_places))
-            yield GCodeLinearMove(**dict(zip('XYZ', l_delta.xyz)))
+            coords = dict(zip('XYZ', l_delta.xyz))
+            for (axis, other_delta) in other_coords.items():
+                coords[axis] = round(other_delta * other_progress(i) - cur_other[axis], decimal_places)
+                cur_other[axis] += coords[axis]
+            yield GCodeLinearMove(**coords)
             cur_pos += l_delta # mitigate errors by also adding them the accumulated cur_pos
 
 
-- 
2.43.0


From 39cc417b31e1a5396f06d31b5727bca7b3a21e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:20 +0000
Subject: [PATCH 57/61] fix: expand canned cycles from positions of more axes
 than given

---
 src/pygcode/gcodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index aa2ee45..b05e711 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -1662,9 +1662,9 @@ def _gcodes_abs2rel(start_pos, dist_mode=None, axes='XYZ'):
             units = GCodeUseInches if (start_pos.unit == GCodeUseInches.unit_id) else GCodeUseMillimeters
             m = type('AbsoluteCoordMachine', (Machine,), {
                 'MODE_CLASS': type('NullMode', (Mode,), {'default_mode': 'G90 %s' % units.word_key}),
-                'axes': axes,
+                'axes': set(axes) | start_pos.axes,
             })()
-            m.pos = start_pos
+            m.pos = m.Position(unit=start_pos.unit, **start_pos.values)
 
             for gcode in func(*largs, **kwargs):
                 # Verification & passthrough's
-- 
2.43.0


From 8d9fdcd7e48f541e073bec0a2dde838800eb26ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:23 +0000
Subject: [PATCH 58/61] fix: expanded canned cycles keep the words of U, V and
 W

---
 src/pygcode/transform.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index e4b6b3f..2af0e2f 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -452,7 +452,10 @@ def simplify_canned_cycle(canned_gcode, start_pos,
     if not isinstance(plane, GCodeSelectXYPlane):
         raise NotImplementedError("simplifying canned cycles for planes other than X/Y has not been implemented")
 
-    @_gcodes_abs2rel(start_pos=start_pos, dist_mode=dist_mode, axes=axes)
+    # Other axes (U,V,W) move along with X & Y
+    other_coords = canned_gcode.get_param_dict('UVW')
+
+    @_gcodes_abs2rel(start_pos=start_pos, dist_mode=dist_mode, axes=set(axes) | set(other_coords))
     def inner():
         cycle_count = 1 if (canned_gcode.L is None) else canned_gcode.L
         cur_hole_p_axis = start_pos.vector
@@ -467,10 +470,12 @@ def simplify_canned_cycle(canned_gcode, start_pos,
                 retract_depth = canned_gcode.R
                 drill_depth = canned_gcode.Z
                 cur_hole_p_axis = Vector3(**dict(dict(zip('xyz', start_pos.vector.xyz)), **hole_coords))
+                cur_other = other_coords
             else:  # incremental
                 retract_depth = start_pos.Z + canned_gcode.R
                 drill_depth = retract_depth + canned_gcode.Z
                 cur_hole_p_axis += Vector3(**hole_coords)
+                cur_other = dict((k, start_pos.values.get(k, 0.) + v * (i + 1)) for (k, v) in other_coords.items())
 
             if retract_depth < drill_depth:
                 raise NotImplementedError("drilling upward is not supported")
@@ -483,7 +488,7 @@ def simplify_canned_cycle(canned_gcode, start_pos,
             # Move above hole (height of retract_depth)
             if retract_depth > start_pos.Z:
                 yield GCodeRapidMove(Z=retract_depth)
-            yield GCodeRapidMove(X=cur_hole_p_axis.x, Y=cur_hole_p_axis.y)
+            yield GCodeRapidMove(X=cur_hole_p_axis.x, Y=cur_hole_p_axis.y, **cur_other)
             if retract_depth < start_pos.Z:
                 yield GCodeRapidMove(Z=retract_depth)
 
-- 
2.43.0


From d473ecb951281133574c776251c8035a2d0a315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:26 +0000
Subject: [PATCH 59/61] fix: copied machines keep ignoring invalid modal words

---
 src/pygcode/machine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index d902cec..5760d66 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -403,6 +403,7 @@ class Machine(object):
 
     def __copy__(self):
         obj = self.__class__()
+        obj.ignore_invalid_modal = self.ignore_invalid_modal
         obj.mode = copy(self.mode)
         obj.state = copy(self.state)
         obj.abs_pos = copy(self.abs_pos)
-- 
2.43.0


From 0fc07ede8042d134cce036f07ad9168e7d42af48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:20 +0000
Subject: [PATCH 60/61] fix: pygcode-crop restores the positions of U, V and W

---
 scripts/pygcode-crop | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index b15ca59..59f7898 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -186,7 +186,7 @@ args = parser.parse_args()
 
 # --- Machine
 class NullMachine(Machine):
-    axes = set('XYZABC')
+    axes = set('XYZABCUVW')
     MODE_CLASS = type('NullMode', (Mode,), {'default_mode': ''})
 
 machine = NullMachine()
@@ -224,9 +224,9 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             if not isinstance(plane, GCodePlaneSelect):
                 plane = GCodeSelectXYPlane()  # default to XY plane
 
-            # Angular axes that have been moved so far
-            rotary_axes = set(
-                k for k in 'ABC'
+            # Other axes (angular, U, V & W) that have been moved so far
+            other_axes = set(
+                k for k in 'ABCUVW'
                 if getattr(old_machine.abs_range_min, k) or getattr(old_machine.abs_range_max, k)
             )
 
@@ -242,7 +242,7 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             # rapid move to X,Y
             print(GCodeRapidMove(**dict(
                 (k, v) for (k, v) in old_machine.pos.values.items()
-                if (k in plane.plane_axes) or (k in rotary_axes)
+                if (k in plane.plane_axes) or (k in other_axes)
             )))
             # rapid move to Z (machine.pos.Z)
             print(GCodeRapidMove(**{
-- 
2.43.0


From f5289e36f6736da67278f854a58fc53ec4e12759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:23 +0000
Subject: [PATCH 61/61] fix: pygcode-norm tracks all axes, moving them along
 linearised arcs

---
 scripts/pygcode-norm | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index 6b38c85..1f36d5a 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -244,6 +244,7 @@ class MyMode(Mode):
 
 class MyMachine(Machine):
     MODE_CLASS = MyMode
+    axes = set('XYZABCUVW')
     ignore_invalid_modal = args.rm_invalid_modal
 
 machine = MyMachine()
-- 
2.43.0

