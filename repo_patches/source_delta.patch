From 2a6a8f702a7e5e56b8e2a7e85f2696d75026f68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:40 +0000
Subject: [PATCH 01/31] fix: put the clipping sweep line below the polygon for
 every position and aspect ratio

---
 foronoi/graph/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 0d95161..ef01fa9 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -149,7 +149,7 @@ class Polygon(Subject):
 
     def _finish_edge(self, edge):
         # Sweep line position
-        sweep_line = self.min_y - abs(self.max_y)
+        sweep_line = self.min_y - (self.max_x - self.min_x) - (self.max_y - self.min_y)
 
         # Start should be a breakpoint
         start = edge.get_origin(y=sweep_line, max_y=self.max_y)
-- 
2.43.0


From 1c88a0094ded111a5f57ffcf2393cd7574dba1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 02/31] fix: pick the clip point from the same list the
 distances were measured on

---
 foronoi/graph/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index ef01fa9..dcc6b08 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -234,8 +234,8 @@ class Polygon(Subject):
 
         # Find the intersection point that is furthest away from the start
         if points:
+            points = [p for p in points if Algebra.distance(orig, p) <= max_distance]
             distances = [Algebra.distance(orig, p) for p in points]
-            distances = [i for i in distances if i <= max_distance]
             if distances:
                 point = points[np.argmax(distances)]
 
-- 
2.43.0


From 1bdaa48c77f7403e7f622686ce2ac91240d1e245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:44 +0000
Subject: [PATCH 03/31] fix: honour a bounding box top of 0 when clipping
 infinite breakpoints

---
 foronoi/nodes/breakpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/nodes/breakpoint.py b/foronoi/nodes/breakpoint.py
index c3275ad..590562c 100644
--- a/foronoi/nodes/breakpoint.py
+++ b/foronoi/nodes/breakpoint.py
@@ -86,7 +86,7 @@ class Breakpoint:
             result.xd = (i.xd + j.xd) / 2
 
             if j.xd < i.xd:
-                result.yd = max_y or float('inf')
+                result.yd = max_y if max_y is not None else float('inf')
                 return result
 
         # Handle cases where one point's y-coordinate is the same as the sweep line
-- 
2.43.0


From 5f674d0c7dccab0f29f865237fbb08a4bc57dbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:46 +0000
Subject: [PATCH 04/31] fix: move all edges of a merged vertex, not every
 second one

---
 foronoi/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 6c25b95..6b412a6 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -555,7 +555,7 @@ class Algorithm(Subject):
                 v2: Vertex = edge.twin.origin
 
                 # Move connected edges from v1 to v2
-                for connected in v1.connected_edges:
+                for connected in list(v1.connected_edges):
                     connected.origin = v2
                     v1.connected_edges.remove(connected)
                     v2.connected_edges.append(connected)
-- 
2.43.0


From b1f339abb8adaf09e9ed5cb708d6b28ffac3da25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 05/31] fix: do not write an observer's settings into the
 shared presets

---
 foronoi/observers/voronoi_observer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foronoi/observers/voronoi_observer.py b/foronoi/observers/voronoi_observer.py
index bedbbc4..cb62250 100644
--- a/foronoi/observers/voronoi_observer.py
+++ b/foronoi/observers/voronoi_observer.py
@@ -82,20 +82,20 @@ class VoronoiObserver(Observer, ABC):
 
         if message == Message.STEP_FINISHED and self.visualize_steps:
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
-            settings = Presets.construction
+            settings = dict(Presets.construction)
             settings.update(self.settings)
             assert subject.sweep_line == subject.event.yd
             result = vis.plot_all(**settings)
             plt.title(str(subject.event) + "\n")
         elif message == Message.SWEEP_FINISHED and self.visualize_before_clipping:
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
-            settings = Presets.clipping
+            settings = dict(Presets.clipping)
             settings.update(self.settings)
             result = vis.plot_all(**settings)
             plt.title("Sweep finished\n")
         elif message == Message.VORONOI_FINISHED and self.visualize_result:
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
-            settings = Presets.final
+            settings = dict(Presets.final)
             settings.update(self.settings)
             result = vis.plot_all(**settings)
             plt.title("Voronoi completed\n")
-- 
2.43.0


From 0aa54b98c40d83f7f38a4ff61eeddad7535e735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:50 +0000
Subject: [PATCH 06/31] fix: pass the observer's figsize to the visualizer

---
 foronoi/observers/voronoi_observer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foronoi/observers/voronoi_observer.py b/foronoi/observers/voronoi_observer.py
index cb62250..4055cbe 100644
--- a/foronoi/observers/voronoi_observer.py
+++ b/foronoi/observers/voronoi_observer.py
@@ -81,20 +81,20 @@ class VoronoiObserver(Observer, ABC):
             return False
 
         if message == Message.STEP_FINISHED and self.visualize_steps:
-            vis = Visualizer(subject, canvas_offset=self.canvas_offset)
+            vis = Visualizer(subject, canvas_offset=self.canvas_offset, figsize=self.figsize)
             settings = dict(Presets.construction)
             settings.update(self.settings)
             assert subject.sweep_line == subject.event.yd
             result = vis.plot_all(**settings)
             plt.title(str(subject.event) + "\n")
         elif message == Message.SWEEP_FINISHED and self.visualize_before_clipping:
-            vis = Visualizer(subject, canvas_offset=self.canvas_offset)
+            vis = Visualizer(subject, canvas_offset=self.canvas_offset, figsize=self.figsize)
             settings = dict(Presets.clipping)
             settings.update(self.settings)
             result = vis.plot_all(**settings)
             plt.title("Sweep finished\n")
         elif message == Message.VORONOI_FINISHED and self.visualize_result:
-            vis = Visualizer(subject, canvas_offset=self.canvas_offset)
+            vis = Visualizer(subject, canvas_offset=self.canvas_offset, figsize=self.figsize)
             settings = dict(Presets.final)
             settings.update(self.settings)
             result = vis.plot_all(**settings)
-- 
2.43.0


From 1e67a4a9e4d61e6104d9f916ad85f8abba499bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 07/31] fix: draw the bounding circle around its centre

---
 foronoi/visualization/visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index b8f0535..830a9bf 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -202,7 +202,7 @@ class Visualizer:
         if hasattr(self.voronoi.bounding_poly, 'radius'):
             # Draw bounding box
             self.canvas.add_patch(
-                patches.Circle((self.voronoi.bounding_poly.xd, self.voronoi.bounding_poly.xd),
+                patches.Circle((self.voronoi.bounding_poly.xd, self.voronoi.bounding_poly.yd),
                                self.voronoi.bounding_poly.radius,
                                fill=False,
                                edgecolor=Colors.BOUNDING_BOX)
-- 
2.43.0


From 9b88c69673f2bebbf15cd696fce3c68ce8bad836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:54 +0000
Subject: [PATCH 08/31] fix: pass the triangles option of plot_all as
 triangles, not as the event

---
 foronoi/visualization/visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 830a9bf..8cad2a3 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -185,7 +185,7 @@ class Visualizer:
         self.plot_vertices() if vertices else False
         self.plot_sites(show_labels=site_labels) if sites else False
         self.plot_outgoing_edges(scale=scale) if outgoing_edges else False
-        self.plot_event(triangles) if events else False
+        self.plot_event(triangles=triangles) if events else False
         self.plot_arcs(plot_arcs=arcs, show_labels=arc_labels) if beach_line else False
         self._set_limits()
         return self
-- 
2.43.0


From 627db8b77d11fb6ef7c80662f1f9675eec7bd850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:57 +0000
Subject: [PATCH 09/31] fix: honour a sweep line at 0 and empty lists given to
 the plot methods

---
 foronoi/visualization/visualizer.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 8cad2a3..679256f 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -228,7 +228,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        vertices = vertices or self.voronoi.vertices
+        vertices = self.voronoi.vertices if vertices is None else vertices
 
         xs = [vertex.xd for vertex in vertices]
         ys = [vertex.yd for vertex in vertices]
@@ -254,7 +254,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        vertices = vertices or self.voronoi.vertices
+        vertices = self.voronoi.vertices if vertices is None else vertices
         scale = Decimal(str(scale))
 
         for vertex in vertices:
@@ -300,7 +300,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        points = points or self.voronoi.sites
+        points = self.voronoi.sites if points is None else points
 
         xs = [point.xd for point in points]
         ys = [point.yd for point in points]
@@ -335,8 +335,8 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        edges = edges or self.voronoi.edges
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        edges = self.voronoi.edges if edges is None else edges
+        sweep_line = self.voronoi.sweep_line if sweep_line is None else sweep_line
         for edge in edges:
             self._plot_edge(edge, sweep_line, show_labels, color)
             self._plot_edge(edge.twin, sweep_line, print_name=False, color=color)
@@ -360,8 +360,8 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        edges = edges or self.voronoi.edges
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        edges = self.voronoi.edges if edges is None else edges
+        sweep_line = self.voronoi.sweep_line if sweep_line is None else sweep_line
         for edge in edges:
             self._draw_line_from_edge_midpoint_to_incident_point(edge, sweep_line)
             self._draw_line_from_edge_midpoint_to_incident_point(edge.twin, sweep_line)
@@ -389,8 +389,8 @@ class Visualizer:
         self: Visualizer
 
         """
-        arcs = arcs or self.voronoi.arcs
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        arcs = self.voronoi.arcs if arcs is None else arcs
+        sweep_line = self.voronoi.sweep_line if sweep_line is None else sweep_line
 
         # Get axis limits
         min_x, max_x, min_y, max_y = self.min_x, self.max_x, self.min_y, self.max_y
@@ -447,7 +447,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        sweep_line = self.voronoi.sweep_line if sweep_line is None else sweep_line
 
         # Get axis limits
         min_x, max_x, min_y, max_y = self.min_x, self.max_x, self.min_y, self.max_y
@@ -472,7 +472,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        event = event or self.voronoi.event
+        event = self.voronoi.event if event is None else event
         if isinstance(event, CircleEvent):
             self._plot_circle(event, show_triangle=triangles)
 
-- 
2.43.0


From 08a10d9006585cb5721beafd045f722fd73a3bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:20 +0000
Subject: [PATCH 10/31] fix: rebalance the status tree from the changed node on
 every path

---
 foronoi/algorithm.py | 11 +++++++----
 foronoi/tree/tree.py |  1 +
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 6b412a6..b633b53 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -325,6 +325,7 @@ class Algorithm(Subject):
 
         # If the right breakpoint does not intersect, we don't need to insert circle events.
         if not breakpoint_right.does_intersect():
+            self.status_tree = Tree.balance_and_propagate(root)
             return
 
         node_a, node_b, node_c = root.left.predecessor, root.left, root.right.left
@@ -484,14 +485,15 @@ class Algorithm(Subject):
         if arc_node.is_left_child():
 
             # Replace the right breakpoint by the right node
-            root = arc_node.parent.replace_leaf(arc_node.parent.right, root)
+            replacement = arc_node.parent.right
+            root = arc_node.parent.replace_leaf(replacement, root)
 
             # Mark the right breakpoint as removed and right breakpoint
             removed = arc_node.parent.data
             right = removed
 
             # Rebalance the tree
-            root = Tree.balance_and_propagate(root)
+            root = Tree.balance_and_propagate(replacement)
 
             # Find the left breakpoint
             left_breakpoint = Breakpoint(breakpoint=(predecessor.get_value().origin, arc_node.get_value().origin))
@@ -512,14 +514,15 @@ class Algorithm(Subject):
         else:
 
             # Replace the left breakpoint by the left node
-            root = arc_node.parent.replace_leaf(arc_node.parent.left, root)
+            replacement = arc_node.parent.left
+            root = arc_node.parent.replace_leaf(replacement, root)
 
             # Mark the left breakpoint as removed
             removed = arc_node.parent.data
             left = removed
 
             # Rebalance the tree
-            root = Tree.balance_and_propagate(root)
+            root = Tree.balance_and_propagate(replacement)
 
             # Find the right breakpoint
             right_breakpoint = Breakpoint(breakpoint=(arc_node.get_value().origin, successor.get_value().origin))
diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index 07a9a60..167a74a 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -187,6 +187,7 @@ class Tree:
         :return: The root of the balanced tree
         """
 
+        node.update_height()
         node = Tree.balance(node)
 
         if node.parent is None:
-- 
2.43.0


From 86560acfabf63b0db37f0b2a0feb884d31b50046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:39 +0000
Subject: [PATCH 11/31] fix: start every diagram from an empty state

---
 foronoi/algorithm.py     | 10 ++++++++++
 foronoi/graph/polygon.py |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index b633b53..5d71a44 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -108,6 +108,16 @@ class Algorithm(Subject):
             Event queue for upcoming site and circle events
         """
 
+        # Start from an empty state, so that nothing of an earlier run is carried over
+        self.event_queue = PriorityQueue()
+        self.event = None
+        self.status_tree = None
+        self.doubly_connected_edge_list = []
+        self.sweep_line = float("inf")
+        self._arcs = set()
+        self.edges = list()
+        self._vertices = set()
+
         # Store the points for visualization
         self.sites = points
 
diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index dcc6b08..711252b 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -129,6 +129,9 @@ class Polygon(Subject):
         clipped_edges: list(HalfEdge)
             A list of clipped edges
         """
+        # Start with the polygon's own vertices, so that nothing of an earlier run is carried over
+        self.polygon_vertices = [Vertex(point.xd, point.yd) for point in self.points]
+
         resulting_edges = list()
         for edge in edges:
 
-- 
2.43.0


From 7c91d8595edcf985ddc8a396840723cf37e6e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:41 +0000
Subject: [PATCH 12/31] fix: notify every observer when one detaches during a
 notification

---
 foronoi/observers/subject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/observers/subject.py b/foronoi/observers/subject.py
index 021ba7d..27df9bd 100644
--- a/foronoi/observers/subject.py
+++ b/foronoi/observers/subject.py
@@ -46,7 +46,7 @@ class Subject:
         message: Message
             The message type
         """
-        for observer in self._observers:
+        for observer in list(self._observers):
             observer.update(self._root_sender, message, **kwargs)
         return self
 
-- 
2.43.0


From 21767e0f30d5c309941c12300cc12715b90800e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:43 +0000
Subject: [PATCH 13/31] fix: inherit the observers the parent already has

---
 foronoi/observers/subject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foronoi/observers/subject.py b/foronoi/observers/subject.py
index 27df9bd..a3911a7 100644
--- a/foronoi/observers/subject.py
+++ b/foronoi/observers/subject.py
@@ -67,6 +67,7 @@ class Subject:
             The parent to inherit observers from
         """
         parent._add_child(self)
+        self._observers = parent.get_observers()
         self._root_sender = parent
         self._child_sender = self
 
-- 
2.43.0


From 3c8e7121bf6c3f593fe2b4b6b1db409ee9d78c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:45 +0000
Subject: [PATCH 14/31] fix: deleting a tree node with two children

---
 foronoi/tree/tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index 167a74a..9d98d57 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -149,11 +149,11 @@ class Tree:
         if root is None:
             return root
 
-        elif key < root.get_key():
-            root.left = Tree.delete(root.left, key)
+        elif key < root.get_key(**kwargs):
+            root.left = Tree.delete(root.left, key, **kwargs)
 
-        elif key > root.get_key():
-            root.right = Tree.delete(root.right, key)
+        elif key > root.get_key(**kwargs):
+            root.right = Tree.delete(root.right, key, **kwargs)
 
         else:
             if root.left is None:
@@ -164,7 +164,7 @@ class Tree:
 
             temp = root.right.minimum()
             root.data = temp.data
-            root.right = Tree.delete(root.right, temp.value.get_key(**kwargs))
+            root.right = Tree.delete(root.right, temp.get_key(**kwargs), **kwargs)
 
         # If the tree has only one node, simply return it
         if root is None:
-- 
2.43.0


From 93b46bc4cc39ceb2af6891178997d67a2d288252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:01 +0000
Subject: [PATCH 15/31] fix: let the bounding circle return its clipped edges
 as a list

---
 foronoi/contrib/bounding_circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index c04fd74..5113e57 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -98,7 +98,7 @@ class BoundingCircle(Polygon):
                 .plot_polygon() \
                 .show()
 
-        return resulting_edges, self.polygon_vertices
+        return resulting_edges
 
     def trim_edge(self, edge, twisted=False):
 
-- 
2.43.0


From 77f3981d66498e945d7ced5c1701073d753cd515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:24 +0000
Subject: [PATCH 16/31] fix: place the bounding circle's sweep line relative to
 the circle

---
 foronoi/contrib/bounding_circle.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index 5113e57..459bb21 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -24,7 +24,7 @@ class BoundingCircle(Polygon):
         self.max_y = self.yd + 2 * self.radius
         self.min_y = self.yd - 2 * self.radius
         self.voronoi = Algorithm(self)  # A dummy for visualization
-        self.voronoi.sweep_line = self.min_y - abs(self.max_y)
+        self.voronoi.sweep_line = self.min_y - 2 * self.radius
 
         # Important warning about visualization
         warnings.warn("""
@@ -43,8 +43,8 @@ class BoundingCircle(Polygon):
         resulting_edges = []
         for edge in edges:
             result = True
-            A = edge.get_origin(y=-1000)
-            B = edge.twin.get_origin(y=-1000)
+            A = edge.get_origin(y=self.voronoi.sweep_line)
+            B = edge.twin.get_origin(y=self.voronoi.sweep_line)
 
             if DEBUG:
                 Visualizer(self.voronoi, 1) \
@@ -163,8 +163,8 @@ class BoundingCircle(Polygon):
         return is_on(A, B, C)
 
     def cut_line(self, edge):
-        A = edge.get_origin(-1000)
-        B = edge.twin.get_origin(-1000)
+        A = edge.get_origin(self.voronoi.sweep_line)
+        B = edge.twin.get_origin(self.voronoi.sweep_line)
         a, b, c = self.get_line(A, B)
 
         point1, point2 = self.cut_circle(a, b, c)
-- 
2.43.0


From 89e7cd5f178faf384fe418323f91bb881627dd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 17/31] fix: clip infinitely high breakpoints at the bounding
 circle's top

---
 foronoi/contrib/bounding_circle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index 459bb21..c2423c3 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -43,8 +43,8 @@ class BoundingCircle(Polygon):
         resulting_edges = []
         for edge in edges:
             result = True
-            A = edge.get_origin(y=self.voronoi.sweep_line)
-            B = edge.twin.get_origin(y=self.voronoi.sweep_line)
+            A = edge.get_origin(y=self.voronoi.sweep_line, max_y=self.max_y)
+            B = edge.twin.get_origin(y=self.voronoi.sweep_line, max_y=self.max_y)
 
             if DEBUG:
                 Visualizer(self.voronoi, 1) \
@@ -163,8 +163,8 @@ class BoundingCircle(Polygon):
         return is_on(A, B, C)
 
     def cut_line(self, edge):
-        A = edge.get_origin(self.voronoi.sweep_line)
-        B = edge.twin.get_origin(self.voronoi.sweep_line)
+        A = edge.get_origin(self.voronoi.sweep_line, self.max_y)
+        B = edge.twin.get_origin(self.voronoi.sweep_line, self.max_y)
         a, b, c = self.get_line(A, B)
 
         point1, point2 = self.cut_circle(a, b, c)
-- 
2.43.0


From 485c72a856c397fb103d51675105061e82b8813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:23 +0000
Subject: [PATCH 18/31] fix: test nearly vertical lines along their longest
 axis at the bounding circle

---
 foronoi/contrib/bounding_circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index c2423c3..da4c1cb 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -153,7 +153,7 @@ class BoundingCircle(Polygon):
         def is_on(a, b, c):
             "Return true iff point c intersects the line segment from a to b."
             # (or the degenerate case that all 3 points are coincident)
-            return ((within(a.xd, c.xd, b.xd) if a.xd != b.xd else
+            return ((within(a.xd, c.xd, b.xd) if abs(a.xd - b.xd) > abs(a.yd - b.yd) else
                      within(a.yd, c.yd, b.yd)))
 
         def within(p, q, r):
-- 
2.43.0


From f9ca4c9ed5c7ff2e5fcaf5a086749aeeefd26e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:32 +0000
Subject: [PATCH 19/31] fix: README examples that use attributes which do not
 exist

---
 README.md | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index fa3444f..51ba798 100644
--- a/README.md
+++ b/README.md
@@ -73,7 +73,7 @@ v.create_diagram(points=points)
 edges = v.edges
 vertices = v.vertices
 arcs = v.arcs
-points = v.points
+points = v.sites
 
 # Plotting
 # Note: plot_border_to_site() indicates with dashed line to which site a border 
@@ -82,7 +82,7 @@ Visualizer(v, canvas_offset=1)\
     .plot_sites(show_labels=True)\
     .plot_edges(show_labels=False)\
     .plot_vertices()\
-    .plot_border_to_site()\ 
+    .plot_border_to_site() \
     .show()
 
 ```
@@ -110,7 +110,7 @@ More examples can be found in the `examples/` folder.
 
 ### Get coordinates of the cell borders for a point
 ```python
-vertices = v.sites[0].get_vertices()
+vertices = v.sites[0].vertices()
 coords = [(vertex.x, vertex.y) for vertex in vertices]
 print(coords)
 ```
-- 
2.43.0


From 3f0601b5b333a332e8954466b9340a8f81e53334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:55 +0000
Subject: [PATCH 20/31] fix: label the arc a parabola belongs to when an arc
 has no parabola yet

---
 foronoi/visualization/visualizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 679256f..3dfaf79 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -400,6 +400,7 @@ class Visualizer:
         x = np.linspace(float(min_x), float(max_x), 1000)
 
         plot_lines = []
+        plotted_arcs = []
 
         for arc in arcs:
             plot_line = arc.get_plot(x, sweep_line)
@@ -412,6 +413,7 @@ class Visualizer:
                     self.canvas.plot(x, plot_line, linestyle="--", color=Colors.ARC)
 
                 plot_lines.append(plot_line)
+                plotted_arcs.append(arc)
 
         # Plot the bottom of all the arcs
         if len(plot_lines) > 0:
@@ -419,7 +421,7 @@ class Visualizer:
             self.canvas.plot(x, bottom, color=Colors.BEACH_LINE)
 
             if show_labels:
-                self._plot_arc_labels(x, plot_lines, bottom, sweep_line, arcs)
+                self._plot_arc_labels(x, plot_lines, bottom, sweep_line, plotted_arcs)
 
         return self
 
-- 
2.43.0


From b71a57851e412ad553c6f0fc11f81bb807bf9621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:23 +0000
Subject: [PATCH 21/31] fix: start every bounding circle run without vertices
 of an earlier run

---
 foronoi/contrib/bounding_circle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index da4c1cb..6e5840d 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -40,6 +40,9 @@ class BoundingCircle(Polygon):
         return (self.xd - point.xd) ** 2 + (self.yd - point.yd) ** 2 < self.radius ** 2
 
     def finish_edges(self, edges, vertices=None, points=None, event_queue=None):
+        # Start without vertices on the circle, so that nothing of an earlier run is carried over
+        self.polygon_vertices = []
+
         resulting_edges = []
         for edge in edges:
             result = True
-- 
2.43.0


From 45078cbaadb079115a544b436fedb1d043002e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:33 +0000
Subject: [PATCH 22/31] fix: balance the tree when equal keys are inserted

---
 foronoi/tree/tree.py | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index 9d98d57..391cffa 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -119,29 +119,8 @@ class Tree:
         # Update the height of the ancestor node
         root.update_height()
 
-        # If the node is unbalanced, then try out the 4 cases
-        balance = root.balance
-        # root = Tree.balance(root)
-
-        # Case 1 - Left Left
-        if balance > 1 and node_key < root.left.get_key(**kwargs):
-            return Tree.rotate_right(root)
-
-        # Case 2 - Right Right
-        if balance < -1 and node_key > root.right.get_key(**kwargs):
-            return Tree.rotate_left(root)
-
-        # Case 3 - Left Right
-        if balance > 1 and node_key > root.left.get_key(**kwargs):
-            root.left = Tree.rotate_left(root.left)
-            return Tree.rotate_right(root)
-
-        # Case 4 - Right Left
-        if balance < -1 and node_key < root.right.get_key(**kwargs):
-            root.right = Tree.rotate_right(root.right)
-            return Tree.rotate_left(root)
-
-        return root
+        # Balance the tree
+        return Tree.balance(root)
 
     @staticmethod
     def delete(root: Node, key: int, **kwargs):
-- 
2.43.0


From 548872b2d9627d3c482ca189c6eccf4851d68a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:46 +0000
Subject: [PATCH 23/31] fix: keep a region with its latest diagram when an
 earlier one gets an observer

---
 foronoi/observers/subject.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/foronoi/observers/subject.py b/foronoi/observers/subject.py
index a3911a7..d64aad3 100644
--- a/foronoi/observers/subject.py
+++ b/foronoi/observers/subject.py
@@ -82,4 +82,6 @@ class Subject:
         Send the observers to the children
         """
         for child in self._children:
-            child._observers = self.get_observers()
+            # Skip children that joined another parent in the meantime
+            if child._root_sender is self:
+                child._observers = self.get_observers()
-- 
2.43.0


From ee76fea78faeb10ff4cf5c1d42a4597b354cb155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:12 +0000
Subject: [PATCH 24/31] fix: drop edges that do not cross the bounding circle
 instead of failing

---
 foronoi/contrib/bounding_circle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index 6e5840d..4da4bf0 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -1,5 +1,5 @@
 import warnings
-from decimal import Decimal
+from decimal import Decimal, InvalidOperation
 
 from foronoi import Polygon
 from foronoi.algorithm import Algorithm
@@ -200,7 +200,7 @@ class BoundingCircle(Polygon):
         a_sq_b_sq = a ** 2 + b ** 2
         try:
             big_sqrt = Decimal.sqrt(self.radius ** 2 * a_sq_b_sq - d ** 2).real
-        except ValueError:
+        except (ValueError, InvalidOperation):
             return None, None
 
         x1 = self.xd + (a * d + b * big_sqrt) / a_sq_b_sq
-- 
2.43.0


From 197b6d9fbfefcae4bafefdcd37befdfac605a9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:34 +0000
Subject: [PATCH 25/31] fix: list every edge clipped at the bounding circle
 once and delete dropped ones

---
 foronoi/contrib/bounding_circle.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index 4da4bf0..60720f6 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -64,8 +64,6 @@ class BoundingCircle(Polygon):
                 result = result and self.trim_edge(edge)
             elif not self.inside(A):
                 result = result and self.trim_edge(edge)
-            if result:
-                resulting_edges.append(edge)
 
             if DEBUG:
                 Visualizer(self.voronoi, 1) \
@@ -77,9 +75,14 @@ class BoundingCircle(Polygon):
                     .show()
 
             if B is None or not self.inside(B):
-                result = self.trim_edge(edge.twin)
-                if result:
-                    resulting_edges.append(edge.twin)
+                result = result and self.trim_edge(edge.twin)
+
+            # List every edge by one of its half-edges, and remove edges without a part inside
+            if result:
+                resulting_edges.append(edge)
+            else:
+                edge.delete()
+                edge.twin.delete()
 
             if DEBUG:
                 Visualizer(self.voronoi, 1) \
-- 
2.43.0


From 3147510b999d329d66bbcf78fff72a8132c227a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:52 +0000
Subject: [PATCH 26/31] fix: close a bounding circle without boundary vertices

---
 foronoi/graph/polygon.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 711252b..74c7136 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -69,6 +69,11 @@ class Polygon(Subject):
             The list of all vertices including the
         """
         vertices = self._get_ordered_vertices(self.polygon_vertices)
+
+        # Without vertices on the boundary (one cell that fills a circle) there are no edges to create
+        if not vertices:
+            return edges, [i for i in existing_vertices if self.inside(i)]
+
         vertices = list(vertices) + [vertices[0]]  # <- The extra vertex added here, should be removed later
         cell = self._get_closest_point(vertices[0], points)
         previous_edge = None
-- 
2.43.0


From 85fa3850c1056b6b98d3e6c0736d9299a922844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:18 +0000
Subject: [PATCH 27/31] fix: order the boundary around a point strictly inside
 the polygon

The center of the extents of a right triangle lies on its longest side, so
the vertices on half of that side had the same angle and the boundary was
closed in the wrong order.
---
 foronoi/contrib/bounding_circle.py | 1 +
 foronoi/graph/polygon.py           | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index 60720f6..ce8af2e 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -19,6 +19,7 @@ class BoundingCircle(Polygon):
         self.radius = Decimal(str(radius))
         self.polygon_vertices = []
         self.center = Coordinate(self.xd, self.yd)
+        self._inner_point = self.center
         self.max_x = self.xd + 2 * self.radius
         self.min_x = self.xd - 2 * self.radius
         self.max_y = self.yd + 2 * self.radius
diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 74c7136..75b6986 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -27,19 +27,23 @@ class Polygon(Subject):
         center = Coordinate((max_x + min_x) / 2, (max_y + min_y) / 2)
         self.min_y, self.min_x, self.max_y, self.max_x, self.center = min_y, min_x, max_y, max_x, center
 
+        # The corners and boundary vertices are ordered around a point that is always strictly inside the polygon. The
+        # center of the extents is not, it lies on the boundary of a right triangle.
+        self._inner_point = Coordinate(sum(p.xd for p in points) / len(points), sum(p.yd for p in points) / len(points))
+
         self.points = self._order_points(self.points)
         self.polygon_vertices = []
         for point in self.points:
             self.polygon_vertices.append(Vertex(point.xd, point.yd))
 
     def _order_points(self, points):
-        clockwise = sorted(points, key=lambda point: (-180 - Algebra.calculate_angle(point, self.center)) % 360)
+        clockwise = sorted(points, key=lambda point: (-180 - Algebra.calculate_angle(point, self._inner_point)) % 360)
         return clockwise
 
     def _get_ordered_vertices(self, vertices):
         vertices = [vertex for vertex in vertices if vertex.xd is not None]
         clockwise = sorted(vertices,
-                           key=lambda vertex: (-180 - Algebra.calculate_angle(vertex, self.center)) % 360)
+                           key=lambda vertex: (-180 - Algebra.calculate_angle(vertex, self._inner_point)) % 360)
         return clockwise
 
     @staticmethod
-- 
2.43.0


From e6697ca611a372f95b47395c4b3ddaea3b1a34f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:35 +0000
Subject: [PATCH 28/31] fix: let observers be attached to a bounding circle

BoundingCircle did not initialise its Subject part.
---
 foronoi/contrib/bounding_circle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index ce8af2e..2ff92e6 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -4,6 +4,7 @@ from decimal import Decimal, InvalidOperation
 from foronoi import Polygon
 from foronoi.algorithm import Algorithm
 from foronoi.graph import Point, Coordinate, Vertex
+from foronoi.observers.subject import Subject
 
 DEBUG = False
 
@@ -14,6 +15,7 @@ if DEBUG:
 class BoundingCircle(Polygon):
 
     def __init__(self, x, y, radius):
+        Subject.__init__(self)
         self.xd = Decimal(str(x))
         self.yd = Decimal(str(y))
         self.radius = Decimal(str(radius))
-- 
2.43.0


From 32215eda684ea4df3b6650893eeeddb48a822046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:08 +0000
Subject: [PATCH 29/31] fix: quick start page's observer example is no valid
 Python (missing commas)

---
 docs/pages/quickstart.rst | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/docs/pages/quickstart.rst b/docs/pages/quickstart.rst
index 4376a5a..a594261 100644
--- a/docs/pages/quickstart.rst
+++ b/docs/pages/quickstart.rst
@@ -132,9 +132,9 @@ step (event).
                f"output/voronoi/{observer.n_messages:02d}.png"
            ),
 
-           visualize_steps=True            # Default = True
-           visualize_before_clipping=True  # Default = False
-           visualize_result=True           # Default = True
+           visualize_steps=True,            # Default = True
+           visualize_before_clipping=True,  # Default = False
+           visualize_result=True            # Default = True
        )
    )
 
-- 
2.43.0


From a805b334d66cf56fdaff508db97420fa99999a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:08 +0000
Subject: [PATCH 30/31] fix: Point's doc string describes a parameter that does
 not exist

---
 foronoi/graph/point.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/foronoi/graph/point.py b/foronoi/graph/point.py
index 17772f8..da1de0b 100644
--- a/foronoi/graph/point.py
+++ b/foronoi/graph/point.py
@@ -27,8 +27,6 @@ class Point(Coordinate):
             The x-coordinate of the point
         y: Decimal
             They y-coordinate of the point
-        metadata: dict
-            Optional metadata stored in a dictionary
         name: str
             A name to easily identify this point
         first_edge: HalfEdge
-- 
2.43.0


From 63d4f46277ad80c65a8dab27513a234b4afd4bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:38 +0000
Subject: [PATCH 31/31] fix: keep the decimals of a crossing with the bounding
 circle

The vertex at the end of an edge clipped by a circle was made of the
crossing's float coordinates, so that far from the origin it lay off the
circle and off its edge although the crossing is computed in decimals.
---
 foronoi/contrib/bounding_circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index 2ff92e6..b8613ad 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -116,7 +116,7 @@ class BoundingCircle(Polygon):
         if point is None:
             return False
         # Create vertex
-        v = Vertex(point.x, point.y)
+        v = Vertex(point.xd, point.yd)
         v.connected_edges.append(edge)
         edge.origin = v
         self.polygon_vertices.append(v)
-- 
2.43.0

