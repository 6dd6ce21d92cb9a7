From 41efe9405a202e8d91181232c6a6128892d9f5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:16 +0000
Subject: [PATCH 01/51] fix: Graph.filter honours its direction argument

`direction == 'to' or 'to_and_from'` is always true, so every filter went both ways.
---
 abstract/_BasicGraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 040afaa..04d788e 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -79,11 +79,11 @@ class BasicGraph:
 			node = self.get_node(node=x)
 			name = node.name
 			relatives[name] = 1
-			if direction == 'to' or 'to_and_from':
+			if direction in ('to', 'to_and_from'):
 				for ancestor in node.ancestors:
 					relatives[ancestor.name] = 1
 
-			if direction == 'from' or 'to_and_from':
+			if direction in ('from', 'to_and_from'):
 				for descendant in node.descendants:
 					relatives[descendant.name] = 1
 
-- 
2.43.0


From a8eebf98f3804cbffb7203038b4c2d9b30064871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:16 +0000
Subject: [PATCH 02/51] fix: `node in graph` accepts a Node

Looking a Node up among the names compared it with a string, which raises TypeError.
---
 abstract/_BasicGraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 04d788e..4cd9490 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -190,6 +190,8 @@ class BasicGraph:
 		Returns:
 			bool: True if the item is in the graph, False otherwise.
 		"""
+		if isinstance(item, Node):
+			item = item.id
 		return item in self._nodes_dict
 
 	@property
-- 
2.43.0


From 2eb626d74c1b0bed6f30e84bc16a6314b16d9a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:16 +0000
Subject: [PATCH 03/51] fix: add_node attaches and returns a Node it is given

A removed node that was added back kept graph=None, so its parents, children etc.
raised AttributeError; adding a node already present returned None; an unsupported
type raised UnboundLocalError instead of the intended TypeError.
---
 abstract/_BasicGraph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 4cd9490..72118e9 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -308,7 +308,7 @@ class BasicGraph:
 			if node.id in self.nodes_dict:
 				# if the node is already in the graph and node.graph is self then do nothing
 				if node.graph is self and self.nodes_dict[node.id] is node:
-					pass
+					return node
 				else:
 					raise ValueError(f'node with id "{node.id}" is already in a graph!')
 			else:
@@ -318,9 +318,10 @@ class BasicGraph:
 					else:
 						raise ValueError(f'node with id "{node.id}" is already in a graph!')
 				self.nodes_dict[node.id] = node
+				node._graph = self
 				return node
 		else:
-			raise TypeError(f'node of type {type(node)} is not supported!')
+			raise TypeError(f'node of type {type(name)} is not supported!')
 
 	def remove_node(self, node: Union[str, Node]):
 		"""
-- 
2.43.0


From e131049c2a3c036cc8b7fe35f8f153f58bf457ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:17 +0000
Subject: [PATCH 04/51] fix: edges that are not equal are unequal

!= compared only the extra ids, so two different edges were neither == nor !=.
---
 abstract/_GraphObj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index 31a9672..f488619 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -138,7 +138,7 @@ class GraphObj:
 			raise TypeError(f'"{other}" is of type: {type(other)}')
 		if self.graph != other.graph:
 			raise ValueError('two GraphObj from different graphs cannot be compared')
-		return self.raw_id != other.raw_id
+		return self.id != other.id
 
 	def is_similar_to(self, other):
 		"""
-- 
2.43.0


From fa4646ff1e9c95f7053548db21c052e7ffa7d194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 05/51] fix: get_ancestors and get_descendants of objects
 travel breadth first

Depth first, an object first met on a long path used up the depth limit and was not
travelled again from a shorter one, so relatives within max_depth/max_height were
missed; the distance dictionary was overwritten by each branch, losing relatives and
reporting others at the wrong distance; and a deep chain raised RecursionError.
---
 abstract/get_ancestors.py   | 48 ++++++++++++++-----------------------
 abstract/get_descendants.py | 48 ++++++++++++++-----------------------
 2 files changed, 36 insertions(+), 60 deletions(-)

diff --git a/abstract/get_ancestors.py b/abstract/get_ancestors.py
index 6f554b4..e3cb25a 100755
--- a/abstract/get_ancestors.py
+++ b/abstract/get_ancestors.py
@@ -1,44 +1,32 @@
 from typing import List, Dict, Optional, Tuple, Union
 
-def _get_ancestors(obj, _objects_travelled: Optional[List] = None, max_height: Optional[int] = None) -> Tuple[List, Dict]:
+def _get_ancestors(obj, max_height: Optional[int] = None) -> Tuple[List, Dict]:
 	"""
 	Retrieves the ancestors of an object.
 
 	Args:
 		obj: The object to retrieve ancestors from.
-		_objects_travelled (Optional[List]): List of objects already travelled.
 		max_height (Optional[int]): Maximum height for travelling through objects' parents.
 
 	Returns:
 		Tuple[List, Dict]: A tuple containing a list of ancestors and a dictionary of ancestors with their distances.
 	"""
-	if max_height is not None:
-		if max_height <= 0:
-			return [], {}
-		else:
-			max_height -= 1
-	_objects_travelled = _objects_travelled or []
-	_objects_travelled.append(obj)
-	parents = obj.__parents__()
-	if len(parents) == 0:
-		return [], {}
-	else:
-		ancestors = []
-		ancestors_dict = {1: []}
-		for parent in parents:
-			if parent not in _objects_travelled:
-				if parent not in ancestors:
-					ancestors.append(parent)
-					ancestors_dict[1].append(parent)
-				parent_ancestors, parent_ancestors_dict = _get_ancestors(
-					obj=parent, _objects_travelled=_objects_travelled, max_height=max_height
-				)
-				for ancestor in parent_ancestors:
-					if ancestor not in ancestors:
-						ancestors.append(ancestor)
-						for distance in parent_ancestors_dict.keys():
-							ancestors_dict[distance + 1] = parent_ancestors_dict[distance]
-		return ancestors, ancestors_dict
+	ancestors_dict = {}
+	objects_travelled = [obj]
+	current_objects = [obj]
+	distance = 0
+	while len(current_objects) > 0 and (max_height is None or distance < max_height):
+		distance += 1
+		next_objects = []
+		for current_object in current_objects:
+			for parent in current_object.__parents__():
+				if parent not in objects_travelled:
+					objects_travelled.append(parent)
+					next_objects.append(parent)
+		if len(next_objects) > 0:
+			ancestors_dict[distance] = next_objects
+		current_objects = next_objects
+	return objects_travelled[1:], ancestors_dict
 
 
 def get_ancestors(obj, distance: bool = True, max_height: Optional[int] = None) -> Union[List, Dict]:
@@ -53,7 +41,7 @@ def get_ancestors(obj, distance: bool = True, max_height: Optional[int] = None)
 	Returns:
 		Union[List, Dict]: A list of ancestors or a dictionary of ancestors with their distances.
 	"""
-	ancestors, ancestors_dict = _get_ancestors(obj=obj, _objects_travelled=None, max_height=max_height)
+	ancestors, ancestors_dict = _get_ancestors(obj=obj, max_height=max_height)
 	if distance:
 		return ancestors_dict
 	else:
diff --git a/abstract/get_descendants.py b/abstract/get_descendants.py
index 4771e5e..a5ba553 100755
--- a/abstract/get_descendants.py
+++ b/abstract/get_descendants.py
@@ -1,44 +1,32 @@
 from typing import List, Dict, Optional, Tuple, Union
 
-def _get_descendants(obj, _objects_travelled: Optional[List] = None, max_depth: Optional[int] = None) -> Tuple[List, Dict]:
+def _get_descendants(obj, max_depth: Optional[int] = None) -> Tuple[List, Dict]:
 	"""
 	Retrieves the descendants of an object.
 
 	Args:
 		obj: The object to retrieve descendants from.
-		_objects_travelled (Optional[List]): List of objects already travelled.
 		max_depth (Optional[int]): Maximum depth for travelling through objects' children.
 
 	Returns:
 		Tuple[List, Dict]: A tuple containing a list of descendants and a dictionary of descendants with their distances.
 	"""
-	if max_depth is not None:
-		if max_depth <= 0:
-			return [], {}
-		else:
-			max_depth -= 1
-	_objects_travelled = _objects_travelled or []
-	_objects_travelled.append(obj)
-	children = obj.__children__()
-	if len(children) == 0:
-		return [], {}
-	else:
-		descendants = []
-		descendants_dict = {1: []}
-		for child in children:
-			if child not in _objects_travelled:
-				if child not in descendants:
-					descendants.append(child)
-					descendants_dict[1].append(child)
-				child_descendants, child_descendants_dict = _get_descendants(
-					obj=child, _objects_travelled=_objects_travelled, max_depth=max_depth
-				)
-				for descendant in child_descendants:
-					if descendant not in descendants:
-						descendants.append(descendant)
-						for distance in child_descendants_dict.keys():
-							descendants_dict[distance + 1] = child_descendants_dict[distance]
-		return descendants, descendants_dict
+	descendants_dict = {}
+	objects_travelled = [obj]
+	current_objects = [obj]
+	distance = 0
+	while len(current_objects) > 0 and (max_depth is None or distance < max_depth):
+		distance += 1
+		next_objects = []
+		for current_object in current_objects:
+			for child in current_object.__children__():
+				if child not in objects_travelled:
+					objects_travelled.append(child)
+					next_objects.append(child)
+		if len(next_objects) > 0:
+			descendants_dict[distance] = next_objects
+		current_objects = next_objects
+	return objects_travelled[1:], descendants_dict
 
 
 def get_descendants(obj, distance: bool = True, max_depth: Optional[int] = None) -> Union[List, Dict]:
@@ -53,7 +41,7 @@ def get_descendants(obj, distance: bool = True, max_depth: Optional[int] = None)
 	Returns:
 		Union[List, Dict]: A list of descendants or a dictionary of descendants with their distances.
 	"""
-	descendants, descendants_dict = _get_descendants(obj=obj, _objects_travelled=None, max_depth=max_depth)
+	descendants, descendants_dict = _get_descendants(obj=obj, max_depth=max_depth)
 	if distance:
 		return descendants_dict
 	else:
-- 
2.43.0


From ba6af149b160a61454491cb712b4d51441c2c5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:57 +0000
Subject: [PATCH 06/51] fix: distances to ancestors and descendants, and deep
 graphs

With distance=True each branch overwrote the previous one, so relatives were lost or
reported at the wrong distance; they are now found breadth first. The list form is
the same depth-first order as before, but without recursion, so a chain of a thousand
nodes no longer raises RecursionError.
---
 abstract/_BasicGraph.py | 108 +++++++++++++++++++---------------------
 1 file changed, 51 insertions(+), 57 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 72118e9..56929bd 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -502,34 +502,51 @@ class BasicGraph:
 		"""
 		return [node for node in self.nodes if not node.has_children()]
 
-	def _get_ancestors(self, node, nodes_travelled=None):
+	def _get_relatives(self, node, get_neighbours):
 		"""
+		travels depth first, without recursion, from a node; the node itself is only included if it can be reached again
 		:type node: Node or str
-		:type nodes_travelled: list[Node] or None
+		:type get_neighbours: callable
 		:rtype: list[Node]
 		"""
 		node = self.get_node(node)
-		nodes_travelled = nodes_travelled or []
-		nodes_travelled.append(node)
-		parents = self.get_parents(node=node)
-		if len(parents) == 0:
-			return [], {}
-		else:
-			ancestors = []
-			ancestors_dict = {1: []}
-			for parent in parents:
-				if parent not in ancestors:
-					ancestors.append(parent)
-					ancestors_dict[1].append(parent)
-
-				if parent not in nodes_travelled:
-					parent_ancestors, parent_ancestors_dict = self._get_ancestors(node=parent, nodes_travelled=nodes_travelled)
-					for ancestor in parent_ancestors:
-						if ancestor not in ancestors:
-							ancestors.append(ancestor)
-							for distance in parent_ancestors_dict.keys():
-								ancestors_dict[distance+1] = parent_ancestors_dict[distance]
-			return ancestors, ancestors_dict
+		relatives = {}
+		nodes_travelled = {node.id}
+		path = [iter(get_neighbours(node=node))]
+		while len(path) > 0:
+			for neighbour in path[-1]:
+				relatives[neighbour.id] = neighbour
+				if neighbour.id not in nodes_travelled:
+					nodes_travelled.add(neighbour.id)
+					path.append(iter(get_neighbours(node=neighbour)))
+					break
+			else:
+				path.pop()
+		return list(relatives.values())
+
+	def _get_relatives_by_distance(self, node, get_neighbours):
+		"""
+		travels breadth first from a node; the node itself is only included if it can be reached again
+		:type node: Node or str
+		:type get_neighbours: callable
+		:rtype: dict[int,list[Node]]
+		"""
+		relatives = {}
+		found = set()
+		current_nodes = [self.get_node(node)]
+		distance = 0
+		while len(current_nodes) > 0:
+			distance += 1
+			next_nodes = []
+			for current_node in current_nodes:
+				for neighbour in get_neighbours(node=current_node):
+					if neighbour.id not in found:
+						found.add(neighbour.id)
+						next_nodes.append(neighbour)
+			if len(next_nodes) > 0:
+				relatives[distance] = next_nodes
+			current_nodes = next_nodes
+		return relatives
 
 	def get_ancestors(self, node, distance=True):
 		"""
@@ -537,11 +554,10 @@ class BasicGraph:
 		:param bool distance: if True, ancestors and their respective distance to the node will be returned as dict
 		:rtype: dict[int,list[Node]] or list[Node]
 		"""
-		ancestors, ancestors_dict = self._get_ancestors(node=node, nodes_travelled=None)
 		if distance:
-			return ancestors_dict
+			return self._get_relatives_by_distance(node=node, get_neighbours=self.get_parents)
 		else:
-			return ancestors
+			return self._get_relatives(node=node, get_neighbours=self.get_parents)
 
 	def is_node_in_loop(self, node):
 		node = self.get_node(node)
@@ -561,45 +577,23 @@ class BasicGraph:
 		"""
 		return [node for node in self.nodes if node.is_in_loop()]
 
-	def _get_descendants(self, node, nodes_travelled=None):
-		"""
-		:type node: Node or str
-		:type nodes_travelled: list[Node] or None
-		:rtype: list[Node]
-		"""
-		node = self.get_node(node)
-		nodes_travelled = nodes_travelled or []
-		nodes_travelled.append(node)
-		children = self.get_children(node=node)
-		if len(children) == 0:
-			return [], {}
-		else:
-			descendants = []
-			descendants_dict = {1: []}
-			for child in children:
-				if child not in nodes_travelled:
-					if child not in descendants:
-						descendants.append(child)
-						descendants_dict[1].append(child)
-					child_descendants, child_descendants_dict = self._get_descendants(node=child, nodes_travelled=nodes_travelled)
-					for descendant in child_descendants:
-						if descendant not in descendants:
-							descendants.append(descendant)
-							for distance in child_descendants_dict.keys():
-								descendants_dict[distance+1] = child_descendants_dict[distance]
-			return descendants, descendants_dict
-
 	def get_descendants(self, node, distance=True):
 		"""
 		:param Node or str node:
 		:param bool distance: if True, descendants and their respective distance to the node will be returned as dict
 		:rtype: dict[int,list[Node]] or list[Node]
 		"""
-		descendants, descendants_dict = self._get_descendants(node=node, nodes_travelled=None)
+		node = self.get_node(node)
 		if distance:
-			return descendants_dict
+			descendants_dict = self._get_relatives_by_distance(node=node, get_neighbours=self.get_children)
+			descendants_dict = {
+				key: [descendant for descendant in descendants if descendant != node]
+				for key, descendants in descendants_dict.items()
+			}
+			return {key: descendants for key, descendants in descendants_dict.items() if len(descendants) > 0}
 		else:
-			return descendants
+			descendants = self._get_relatives(node=node, get_neighbours=self.get_children)
+			return [descendant for descendant in descendants if descendant != node]
 
 	def get_siblings(self, node):
 		"""
-- 
2.43.0


From 3337ff84c9299e73927bd2c2b09f8b5e0bcbb847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 07/51] fix: Graph.from_object works

It names nodes by hash, an int, which add_node rejected although get_node accepts it;
it connected nodes that were not added yet; and it warned about every relative reached
in two ways.
---
 abstract/_BasicGraph.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 56929bd..02057a1 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -137,19 +137,20 @@ class BasicGraph:
 		descendants = get_descendants(obj=obj, distance=False, max_depth=max_depth)
 		ancestors = get_ancestors(obj=obj, distance=False, max_height=max_height)
 
+		for relative in descendants + ancestors:
+			graph.add_node(name=relative.__hash__(), label=str(relative), if_node_exists='ignore')
+
 		obj_and_descendants = [obj] + descendants
-		for child in descendants:
+		for child in obj_and_descendants:
 			for parent in child.__parents__():
 				if parent in obj_and_descendants:
-					graph.add_node(name=child.__hash__(), label=str(child))
-					graph.connect(start=parent.__hash__(), end=child.__hash__())
+					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')
 
 		obj_and_ancestors = [obj] + ancestors
-		for parent in ancestors:
+		for parent in obj_and_ancestors:
 			for child in parent.__children__():
 				if child in obj_and_ancestors:
-					graph.add_node(name=parent.__hash__(), label=str(parent))
-					graph.connect(start=parent.__hash__(), end=child.__hash__())
+					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')
 
 		return graph
 
@@ -277,7 +278,7 @@ class BasicGraph:
 		Returns:
 			Node: The created node.
 		"""
-		if isinstance(name, str):
+		if isinstance(name, (str, int)):
 			if name in self.nodes_dict:
 				if if_node_exists == 'ignore':
 					pass
-- 
2.43.0


From cd14a3f6ff48e8f25d08ceafa64e8f560b7eefd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 08/51] fix: a graph can be converted and added

__graph__ read an attribute edges do not have, so Graph(graph) and graph + graph
failed as soon as there was an edge, and it passed on a bound method as the label of
every node.
---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 32f52b2..802e146 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -527,7 +527,7 @@ class GraphWithoutDisplay(BasicGraph):
 		edges_list = []
 		for node in self.nodes:
 			nodes_dict[node.id] = {
-				'label': node.display_label_or_value,
+				'label': node._label,
 				'value': node.value,
 				'style': node.style
 			}
@@ -538,7 +538,7 @@ class GraphWithoutDisplay(BasicGraph):
 					edge.end.id,
 					{
 						'id': edge.raw_id,
-						'label': edge.raw_label,
+						'label': edge._label,
 						'value': edge.value,
 						'style': edge.style
 					}
-- 
2.43.0


From 8557ad770ca661708a652b2a686ab93c7ebcd851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 09/51] fix: adding graphs combines the values of both nodes

The value of the second graph's node was added to itself.
---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 802e146..99e5b0a 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -648,7 +648,7 @@ class GraphWithoutDisplay(BasicGraph):
 				for key in set(node1.keys()).union(node2.keys()):
 					if key in node1 and key in node2:
 						if key == 'value':
-							n[key] = add_values_function(node2[key], node2[key])
+							n[key] = add_values_function(node1[key], node2[key])
 						else:
 							n[key] = node1[key] or node2[key]
 					elif key in node1:
-- 
2.43.0


From b62f2a5f1d1cc2b867c8c78cbb8d33e2af4acdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 10/51] fix: adding graphs keeps values such as 0

`0 or None` is None.
---
 abstract/_GraphWithoutDisplay.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 99e5b0a..09ddc5a 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -634,8 +634,10 @@ class GraphWithoutDisplay(BasicGraph):
 
 		if add_values_function is None:
 			def add_values_function(x, y):
-				if x is None or y is None:
-					return x or y
+				if x is None:
+					return y
+				elif y is None:
+					return x
 				else:
 					return x + y
 
-- 
2.43.0


From 23213ed142b5b0d325140566a050e7ec24125fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 11/51] fix: adding graphs does not change the left one

The right graph's style overwrites were written into the left graph's.
---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 09ddc5a..6b0fcbc 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -626,10 +626,10 @@ class GraphWithoutDisplay(BasicGraph):
 		d1 = self.__graph__()
 		d2 = other.__graph__()
 
-		node_styles = d1['node_styles']
+		node_styles = d1['node_styles'].copy()
 		node_styles.update(d2['node_styles'])
 
-		edge_styles = d1['edge_styles']
+		edge_styles = d1['edge_styles'].copy()
 		edge_styles.update(d2['edge_styles'])
 
 		if add_values_function is None:
-- 
2.43.0


From ec5d8e69fb3d1c5020204e20ddf9a36a1baa68bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 12/51] fix: adding graphs gives the same node order every time

The order came from a set of names, which differs between runs of Python.
---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 6b0fcbc..8924aff 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -642,7 +642,7 @@ class GraphWithoutDisplay(BasicGraph):
 					return x + y
 
 		nodes = {}
-		for the_id in set(d1['nodes'].keys()).union(d2['nodes'].keys()):
+		for the_id in {**d1['nodes'], **d2['nodes']}:
 			if the_id in d1['nodes'] and the_id in d2['nodes']:
 				node1 = d1['nodes'][the_id]
 				node2 = d2['nodes'][the_id]
-- 
2.43.0


From 502a404ee87f7ed5d8b4c4d5bf5df4d6302653ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 13/51] fix: converting a graph does not add a line to its
 label every time

A graph without a label could not be converted at all.
---
 abstract/_GraphWithoutDisplay.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 8924aff..7eaa3e9 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -435,7 +435,9 @@ class GraphWithoutDisplay(BasicGraph):
 				self._ordering = dictionary['ordering']
 
 			if 'label' in dictionary:
-				self._label = '\n' + dictionary['label']
+				self._label = dictionary['label']
+				if self._label is not None and not self._label.startswith('\n'):
+					self._label = '\n' + self._label
 
 			if 'tooltip' in dictionary:
 				self._tooltip = dictionary['tooltip']
-- 
2.43.0


From 33ff93b661b5471520e17e41ace50260a20684ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 14/51] fix: converting and adding graphs keeps tooltips

---
 abstract/_GraphWithoutDisplay.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 7eaa3e9..30819a0 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -531,6 +531,7 @@ class GraphWithoutDisplay(BasicGraph):
 			nodes_dict[node.id] = {
 				'label': node._label,
 				'value': node.value,
+				'tooltip': node._tooltip,
 				'style': node.style
 			}
 
@@ -542,6 +543,7 @@ class GraphWithoutDisplay(BasicGraph):
 						'id': edge.raw_id,
 						'label': edge._label,
 						'value': edge.value,
+						'tooltip': edge._tooltip,
 						'style': edge.style
 					}
 				])
-- 
2.43.0


From 741f8d2a0c492d5956da39318a74d9b917037c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 15/51] fix: a copied or unpickled graph keeps its settings

Only the nodes and two flags were kept, so rendering a copy (or a filtered graph), or
setting the style of one of its nodes, raised AttributeError.
---
 abstract/_BasicGraph.py          |  4 +++-
 abstract/_GraphWithoutDisplay.py | 15 ++++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 02057a1..6f32458 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -31,7 +31,9 @@ class BasicGraph:
 		self._edge_label_converter = edge_label_converter
 		# if a dictionary or an object with a __graph__() method is passed use that to create the graph
 
-	_STATE_ATTRIBUTES = ['_nodes_dict', '_is_strict', '_ordering', '_node_counter']
+	_STATE_ATTRIBUTES = [
+		'_nodes_dict', '_is_strict', '_ordering', '_node_counter', '_node_label_converter', '_edge_label_converter'
+	]
 
 	#  for pickling and copying
 	def __getstate__(self) -> Dict:
diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 30819a0..bcbaf7e 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -5,7 +5,7 @@ from graphviz import Source
 import os
 from functools import wraps
 import random
-from colouration import Colour
+from colouration import Colour, Scheme
 from .styling import stylize_with_pensieve, stylize_randomly
 from typing import Optional, Union, Dict, Callable
 from .Node import Node
@@ -108,6 +108,14 @@ class GraphWithoutDisplay(BasicGraph):
 		if obj:
 			self.append(obj=obj)
 
+	_STATE_ATTRIBUTES = BasicGraph._STATE_ATTRIBUTES + [
+		'_background_colour', '_direction', '_label', '_label_location', '_label_colour', '_label_url',
+		'_label_background_colour', '_tooltip', '_font', '_font_size', '_kwargs',
+		'_global_node_style_overwrite', '_global_edge_style_overwrite',
+		'_node_style_overwrites', '_edge_style_overwrites', '_node_colour_overwrites', '_edge_colour_overwrites',
+		'_colour_scheme', '_stylist', '_style_overwrite_allowed'
+	]
+
 	def __getstate__(self) -> Dict:
 		"""
 		Returns the state of the graph for pickling.
@@ -115,6 +123,9 @@ class GraphWithoutDisplay(BasicGraph):
 			Dict: The state of the graph.
 		"""
 		state = super().__getstate__()
+		if isinstance(self._colour_scheme, Scheme):
+			# a Scheme cannot be copied or pickled but its colours can
+			state['_colour_scheme'] = self._colour_scheme.colours
 		return state
 
 	def update_nodes(self):
@@ -132,6 +143,8 @@ class GraphWithoutDisplay(BasicGraph):
 			state: The pickled state of the graph.
 		"""
 		super().__setstate__(state=state)
+		if isinstance(self._colour_scheme, list):
+			self._colour_scheme = Scheme(colours=self._colour_scheme, normalize_lightness=None)
 		'''
 		self._node_style = state['node_style']
 		self._edge_style = state['edge_style']
-- 
2.43.0


From 0dab47224a1bc4ba316247a2b2610546e490711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 16/51] fix: styles can be copied with deepcopy and pickled

A NodeStyle's state had no opacity, so restoring it raised KeyError, and with it copying
or filtering any graph with styles; the flags that inverting colours needs were missing
as well.
---
 abstract/styling/EdgeStyle.py |  4 +++-
 abstract/styling/NodeStyle.py | 11 ++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index bd2b272..74d5f42 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -119,7 +119,8 @@ class EdgeStyle:
 			'_text_size': self._text_size,
 			'_arrow_size': self._arrow_size,
 			'_label_style': self._label_style,
-			'_line_width': self._line_width
+			'_line_width': self._line_width,
+			'_text_colour_based_on_main_colour': self._text_colour_based_on_main_colour
 		}
 
 	def __setstate__(self, state):
@@ -131,6 +132,7 @@ class EdgeStyle:
 		self._arrow_size = state['_arrow_size']
 		self._label_style = state['_label_style']
 		self._line_width = state['_line_width']
+		self._text_colour_based_on_main_colour = state.get('_text_colour_based_on_main_colour', False)
 
 	@property
 	def _graphviz_dictionary(self):
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index d48223d..78a46d4 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -166,11 +166,16 @@ class NodeStyle:
 			'_colour': self._colour,
 			'_fill_colour': self._fill_colour,
 			'_border_colour': self._border_colour,
+			'_opacity': self._opacity,
 			'_font': self._font,
 			'_text_colour': self._text_colour,
 			'_text_size': self._text_size,
 			'_shape': self._shape,
-			'_shape_style': self._shape_style
+			'_shape_style': self._shape_style,
+			'_fill_colour_based_on_main_colour': self._fill_colour_based_on_main_colour,
+			'_border_colour_based_on_main_colour': self._border_colour_based_on_main_colour,
+			'_text_colour_based_on_main_colour': self._text_colour_based_on_main_colour,
+			'_lighter_fill': self._lighter_fill
 		}
 
 	def __setstate__(self, state):
@@ -183,6 +188,10 @@ class NodeStyle:
 		self._text_size = state['_text_size']
 		self._shape = state['_shape']
 		self._shape_style = state['_shape_style']
+		self._fill_colour_based_on_main_colour = state['_fill_colour_based_on_main_colour']
+		self._border_colour_based_on_main_colour = state['_border_colour_based_on_main_colour']
+		self._text_colour_based_on_main_colour = state['_text_colour_based_on_main_colour']
+		self._lighter_fill = state['_lighter_fill']
 
 	@property
 	def _graphviz_dictionary(self):
-- 
2.43.0


From df3b9e607aa89a06f11932896ffd5ec07d1881c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 17/51] fix: copies of styles keep the label style and the
 lighter fill

---
 abstract/styling/EdgeStyle.py | 2 +-
 abstract/styling/NodeStyle.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index 74d5f42..e083100 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -56,7 +56,7 @@ class EdgeStyle:
 		result = self.__class__(
 			colour=self._colour, opacity=self._opacity,
 			font=self._font, text_colour=self._text_colour, text_size=self._text_size,
-			arrow_size=self._arrow_size, line_width=self._line_width
+			arrow_size=self._arrow_size, label_style=self._label_style, line_width=self._line_width
 		)
 		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
 		return result
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index 78a46d4..acecdcb 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -89,7 +89,7 @@ class NodeStyle:
 		result = self.__class__(
 			colour=self._colour, fill_colour=self._fill_colour, border_colour=self._border_colour,
 			opacity=self._opacity, font=self._font, text_colour=self._text_colour, text_size=self._text_size,
-			shape=self._shape, shape_style=self._shape_style
+			shape=self._shape, shape_style=self._shape_style, lighter_fill=self._lighter_fill
 		)
 		result._fill_colour_based_on_main_colour = self._fill_colour_based_on_main_colour
 		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
-- 
2.43.0


From b5d251d3b66c9aa2a7948c6dec3732e2157d28d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 18/51] fix: inverting a style inverts fill and border colours
 that were set

Setting them did not clear the flag that they are based on the main colour, so they
were replaced rather than inverted; setting the text colour does.
---
 abstract/styling/NodeStyle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index acecdcb..feb2f7c 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -135,6 +135,7 @@ class NodeStyle:
 	def fill_colour(self, fill_colour):
 		if fill_colour is not None:
 			self._fill_colour = Colour(fill_colour)
+			self._fill_colour_based_on_main_colour = False
 
 	@property
 	def border_colour(self):
@@ -147,6 +148,7 @@ class NodeStyle:
 	def border_colour(self, border_colour):
 		if border_colour is not None:
 			self._border_colour = Colour(border_colour)
+			self._border_colour_based_on_main_colour = False
 
 	@property
 	def text_colour(self):
-- 
2.43.0


From 29539aeb64720d17ac27a9d010c01f156442a52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 19/51] fix: graphs in which a node outside a loop leads into
 it can be rendered

The nodes of the loop it leads to got no style, and styling their edges raised
AttributeError. The graph with loops in the README is one of these.
---
 abstract/styling/stylize_with_pensieve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/styling/stylize_with_pensieve.py b/abstract/styling/stylize_with_pensieve.py
index 9764f88..c17f538 100755
--- a/abstract/styling/stylize_with_pensieve.py
+++ b/abstract/styling/stylize_with_pensieve.py
@@ -31,7 +31,7 @@ def stylize_with_pensieve(
 
 	# branch nodes
 	for node in graph.nodes:
-		if not is_root_or_parents_are_in_loop(node) and not node.is_in_loop():
+		if not is_root_or_parents_are_in_loop(node):
 			if node.style is None:
 				node.style = inherit_style(
 					node=node, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=node_style
-- 
2.43.0


From cf73339ccabb27653589c7de2160d49f3bdd2f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:39 +0000
Subject: [PATCH 20/51] fix: the value of an edge scales its own arrow only

Each style was copied from the previous edge's, so the values multiplied from edge to
edge; and a value that is not a number made rendering raise TypeError.
---
 abstract/styling/stylize_edges_based_on_nodes.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/abstract/styling/stylize_edges_based_on_nodes.py b/abstract/styling/stylize_edges_based_on_nodes.py
index 299c341..d199620 100755
--- a/abstract/styling/stylize_edges_based_on_nodes.py
+++ b/abstract/styling/stylize_edges_based_on_nodes.py
@@ -7,13 +7,13 @@ def stylize_edges_based_on_nodes(graph, edge_style=None, edge_darkness_ratio=0.1
 			colour = edge.start.style.colour.darken(ratio=edge_darkness_ratio)
 
 			if edge_style is None:
-				edge_style = EdgeStyle(colour=colour)
+				style = EdgeStyle(colour=colour)
 			else:
-				edge_style = edge_style.copy()
-				edge_style.reset_colours()
-				edge_style.colour = colour
+				style = edge_style.copy()
+				style.reset_colours()
+				style.colour = colour
 
-			if edge.value is not None:
-				edge_style._arrow_size *= edge.value
+			if isinstance(edge.value, (int, float)):
+				style._arrow_size *= edge.value
 
-			edge.style = edge_style
\ No newline at end of file
+			edge.style = style
\ No newline at end of file
-- 
2.43.0


From 9dd1081e6725dcfcb0a8d160c2815a7a90cd4d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:39 +0000
Subject: [PATCH 21/51] fix: a graph with the random stylist can be rendered
 twice

Nodes that have a style already, their own or from the first time, raised RuntimeError.
---
 abstract/styling/stylize_randomly.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/abstract/styling/stylize_randomly.py b/abstract/styling/stylize_randomly.py
index ce200d7..7c6a55e 100755
--- a/abstract/styling/stylize_randomly.py
+++ b/abstract/styling/stylize_randomly.py
@@ -23,14 +23,15 @@ def stylize_randomly(
 
 	# all nodes
 	for node in nodes:
-		colour = get_least_used_colour(colours_used)
-		if node_style is None:
-			style = NodeStyle(colour=colour)
-		else:
-			style = node_style.copy()
-			style.reset_colours()
-			style.colour = colour
-		node.style = style
+		if node.style is None or graph._style_overwrite_allowed:
+			colour = get_least_used_colour(colours_used)
+			if node_style is None:
+				style = NodeStyle(colour=colour)
+			else:
+				style = node_style.copy()
+				style.reset_colours()
+				style.colour = colour
+			node.style = style
 
 	# branch edges
 	stylize_edges_based_on_nodes(graph=graph, edge_style=edge_style, edge_darkness_ratio=edge_darkness_ratio)
-- 
2.43.0


From f05b5c3425da6429f9e578b42c8159596c86687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 22/51] fix: a graph with a global style can be rendered twice

The second time every node and edge has a style, which raised RuntimeError; so did a
node or edge with a style of its own, although the global style complements it below.
---
 abstract/_GraphWithoutDisplay.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index bcbaf7e..0285645 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -249,11 +249,13 @@ class GraphWithoutDisplay(BasicGraph):
 				smart_global_node_style_overwrite = self._global_node_style_overwrite
 
 			for node in self.nodes:
-				node.style = smart_global_node_style_overwrite
+				if node.style is None or self._style_overwrite_allowed:
+					node.style = smart_global_node_style_overwrite
 
 		if self._global_edge_style_overwrite is not None:
 			for edge in self.edges:
-				edge.style = self._global_edge_style_overwrite
+				if edge.style is None or self._style_overwrite_allowed:
+					edge.style = self._global_edge_style_overwrite
 
 		if self._stylist == 'pensieve':
 			stylize_with_pensieve(graph=self)
-- 
2.43.0


From 36e7911e68b8158455046bced4187d9beee2025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 23/51] fix: an empty graph with automatic node shapes can be
 rendered

---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 0285645..a08c8ce 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -242,7 +242,7 @@ class GraphWithoutDisplay(BasicGraph):
 			smart_global_node_style_overwrite = None
 			if 'shape' in self._global_node_style_overwrite:
 				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
-					if max([len(str(node.name)) for node in self.nodes]) < 3:
+					if max([len(str(node.name)) for node in self.nodes], default=0) < 3:
 						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
 						smart_global_node_style_overwrite['shape'] = 'circle'
 			if smart_global_node_style_overwrite is None:
@@ -288,7 +288,7 @@ class GraphWithoutDisplay(BasicGraph):
 			smart_global_node_style_overwrite = None
 			if 'shape' in self._global_node_style_overwrite:
 				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
-					if max([len(str(node.name)) for node in self.nodes]) < 3:
+					if max([len(str(node.name)) for node in self.nodes], default=0) < 3:
 						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
 						smart_global_node_style_overwrite['shape'] = 'circle'
 			if smart_global_node_style_overwrite is None:
-- 
2.43.0


From 2eaa8f84f4e079297ce234d9fadea5ed168b784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 24/51] fix: global styles can be style objects

Graph(node_style=...) is documented to take a NodeStyle, which raised TypeError when
rendering, as did an EdgeStyle for edge_style; only dictionaries worked.
---
 abstract/_GraphWithoutDisplay.py | 8 ++++----
 abstract/styling/EdgeStyle.py    | 4 +++-
 abstract/styling/NodeStyle.py    | 4 +++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index a08c8ce..282ffc0 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -240,7 +240,7 @@ class GraphWithoutDisplay(BasicGraph):
 		"""Applies styles to the nodes and edges in the graph."""
 		if self._global_node_style_overwrite is not None:
 			smart_global_node_style_overwrite = None
-			if 'shape' in self._global_node_style_overwrite:
+			if isinstance(self._global_node_style_overwrite, dict) and 'shape' in self._global_node_style_overwrite:
 				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
 					if max([len(str(node.name)) for node in self.nodes], default=0) < 3:
 						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
@@ -250,12 +250,12 @@ class GraphWithoutDisplay(BasicGraph):
 
 			for node in self.nodes:
 				if node.style is None or self._style_overwrite_allowed:
-					node.style = smart_global_node_style_overwrite
+					node.style = smart_global_node_style_overwrite.copy()
 
 		if self._global_edge_style_overwrite is not None:
 			for edge in self.edges:
 				if edge.style is None or self._style_overwrite_allowed:
-					edge.style = self._global_edge_style_overwrite
+					edge.style = self._global_edge_style_overwrite.copy()
 
 		if self._stylist == 'pensieve':
 			stylize_with_pensieve(graph=self)
@@ -286,7 +286,7 @@ class GraphWithoutDisplay(BasicGraph):
 
 		if self._global_node_style_overwrite is not None:
 			smart_global_node_style_overwrite = None
-			if 'shape' in self._global_node_style_overwrite:
+			if isinstance(self._global_node_style_overwrite, dict) and 'shape' in self._global_node_style_overwrite:
 				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
 					if max([len(str(node.name)) for node in self.nodes], default=0) < 3:
 						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index e083100..22ac5cd 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -36,8 +36,10 @@ class EdgeStyle:
 
 	def complement(self, dictionary):
 		"""
-		:type dictionary: dict
+		:type dictionary: dict or EdgeStyle
 		"""
+		if isinstance(dictionary, EdgeStyle):
+			dictionary = dictionary.__getstate__()
 		for key, value in dictionary.items():
 			if hasattr(self, key):
 				setattr(self, key, value)
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index feb2f7c..eba0723 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -41,8 +41,10 @@ class NodeStyle:
 
 	def complement(self, dictionary):
 		"""
-		:type dictionary: dict
+		:type dictionary: dict or NodeStyle
 		"""
+		if isinstance(dictionary, NodeStyle):
+			dictionary = dictionary.__getstate__()
 		for key, value in dictionary.items():
 			if hasattr(self, key):
 				setattr(self, key, value)
-- 
2.43.0


From a21c4515e60b18a708b60d4786000b6d81793e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 25/51] fix: edge_styles are used as styles

They were stored as the colours of the edges, which rendered as color="{...}". They now
complement the style of the edge as node_styles do, and may be keyed by the full id of
the edge, as in the dictionary a graph is converted to.
---
 abstract/_GraphWithoutDisplay.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 282ffc0..a40c165 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -266,7 +266,7 @@ class GraphWithoutDisplay(BasicGraph):
 			self.nodes_dict[name].style.complement(style)
 
 		for edge_id, style in self._edge_style_overwrites.items():
-			self.edges_dict[edge_id].style = style
+			self.edges_dict[edge_id].style.complement(style)
 
 		for name, colour in self._node_colour_overwrites.items():
 			node = self.nodes_dict[name]
@@ -486,12 +486,12 @@ class GraphWithoutDisplay(BasicGraph):
 				if len(parent_child_edge_dict) == 2:
 					parent, child = parent_child_edge_dict
 					edge = self.connect(start=parent, end=child)
-					edges_dict[(parent, child)] = edge.id
+					edges_dict[(parent, child)] = edges_dict[edge.id] = edge.id
 
 				elif len(parent_child_edge_dict) == 3:
 					parent, child, edge_dict = parent_child_edge_dict
 					edge = self.connect(start=parent, end=child, **edge_dict)
-					edges_dict[(parent, child)] = edge.id
+					edges_dict[(parent, child)] = edges_dict[edge.id] = edge.id
 
 				elif len(parent_child_edge_dict) < 2:
 					raise ValueError('Too few objects in an edge definition!')
@@ -505,7 +505,7 @@ class GraphWithoutDisplay(BasicGraph):
 			if 'edge_styles' in dictionary:
 				for parent_child_edge_id, edge_style in dictionary['edge_styles'].items():
 					edge_id = edges_dict[parent_child_edge_id]
-					self._edge_colour_overwrites[edge_id] = edge_style
+					self._edge_style_overwrites[edge_id] = edge_style
 
 			if 'node_colours' in dictionary:
 				for name, colour in dictionary['node_colours'].items():
-- 
2.43.0


From ed345b6a116e12d5851d85fdadc5504093d13975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:23 +0000
Subject: [PATCH 26/51] fix: a graph can be rendered after removing a node or
 edge with its own style or colour

The style or colour given for it in the dictionary the graph was made from stays, and
raised KeyError; filtering such a graph has the same effect.
---
 abstract/_GraphWithoutDisplay.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index a40c165..98ec1de 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -263,26 +263,28 @@ class GraphWithoutDisplay(BasicGraph):
 			stylize_randomly(graph=self)
 
 		for name, style in self._node_style_overwrites.items():
-			self.nodes_dict[name].style.complement(style)
+			if name in self.nodes_dict:
+				self.nodes_dict[name].style.complement(style)
 
 		for edge_id, style in self._edge_style_overwrites.items():
-			self.edges_dict[edge_id].style.complement(style)
+			if edge_id in self.edges_dict:
+				self.edges_dict[edge_id].style.complement(style)
 
 		for name, colour in self._node_colour_overwrites.items():
-			node = self.nodes_dict[name]
-			style = node.style.copy()
-			style.reset_colours()
-			style.colour = colour
-			node.style = style
+			if name in self.nodes_dict:
+				node = self.nodes_dict[name]
+				style = node.style.copy()
+				style.reset_colours()
+				style.colour = colour
+				node.style = style
 
 		for edge_id, colour in self._edge_colour_overwrites.items():
-			edge = self.edges_dict[edge_id]
-			_ = edge.style.colour
-			style = edge.style.copy()
-			style.reset_colours()
-			style.colour = colour
-			edge.style = style
-			_ = edge.style.colour
+			if edge_id in self.edges_dict:
+				edge = self.edges_dict[edge_id]
+				style = edge.style.copy()
+				style.reset_colours()
+				style.colour = colour
+				edge.style = style
 
 		if self._global_node_style_overwrite is not None:
 			smart_global_node_style_overwrite = None
-- 
2.43.0


From b57a4efa25b113482f4882145f8d65edb1871e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:03 +0000
Subject: [PATCH 27/51] fix: names, labels and tooltips with quotes give valid
 Graphviz text

Only quotes in node labels were escaped, and in the label itself rather than where it is
written, so node.label was not the label that was given; a backslash at the end or in
front of a quote broke those as well.
---
 abstract/Edge.py                 |  8 ++++----
 abstract/Node.py                 | 13 ++++++-------
 abstract/_GraphObj.py            | 11 +++++++++++
 abstract/_GraphWithoutDisplay.py |  7 ++++---
 4 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/abstract/Edge.py b/abstract/Edge.py
index 8761318..b5de531 100755
--- a/abstract/Edge.py
+++ b/abstract/Edge.py
@@ -1,4 +1,4 @@
-from ._GraphObj import GraphObj
+from ._GraphObj import GraphObj, escape_quotes
 from .styling.EdgeStyle import EdgeStyle
 from .Node import Node
 from typing import Optional, Union, Dict, Tuple
@@ -144,9 +144,9 @@ class Edge(GraphObj):
 		label_or_value = self.display_label_or_value()
 		style = self.style
 		if label_or_value is not None:
-			parts.append(f'label="{label_or_value}"')
+			parts.append(f'label="{escape_quotes(label_or_value)}"')
 		if self._tooltip is not None:
-			parts.append(f'tooltip="{self._tooltip}"')
+			parts.append(f'tooltip="{escape_quotes(self._tooltip)}"')
 		if style is not None:
 			parts.append(style.get_graphviz_str())
 
@@ -155,7 +155,7 @@ class Edge(GraphObj):
 		else:
 			second_part = ''
 
-		return f'"{self.start.name}" -> "{self.end.name}"' + second_part
+		return f'"{escape_quotes(self.start.name)}" -> "{escape_quotes(self.end.name)}"' + second_part
 
 	@property
 	def start(self) -> Node:
diff --git a/abstract/Node.py b/abstract/Node.py
index 63f52f1..6040821 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -1,4 +1,4 @@
-from ._GraphObj import GraphObj
+from ._GraphObj import GraphObj, escape_quotes
 from .styling.NodeStyle import NodeStyle
 from typing import Optional, Union, List, Dict
 
@@ -221,10 +221,9 @@ class Node(GraphObj):
 	def label(self) -> str:
 		"""Gets the label of the node."""
 		if self._label:
-			result = str(self._label)
+			return str(self._label)
 		else:
-			result = str(self.id)
-		return result.replace('"', '\\"')
+			return str(self.id)
 
 	@label.setter
 	def label(self, label: str):
@@ -318,16 +317,16 @@ class Node(GraphObj):
 			str: The Graphviz representation.
 		"""
 
-		parts = [f'label="{self.display_label()}"']
+		parts = [f'label="{escape_quotes(self.display_label())}"']
 
 		if self._tooltip is not None:
-			parts.append(f'tooltip="{self._tooltip}"')
+			parts.append(f'tooltip="{escape_quotes(self._tooltip)}"')
 
 		style = self.style
 		if style is not None:
 			parts.append(style.get_graphviz_str())
 
-		return f'"{self.id}" [' + ' '.join(parts) + ']'
+		return f'"{escape_quotes(self.id)}" [' + ' '.join(parts) + ']'
 
 	def connect_to(self, node: 'Node', **kwargs) -> 'GraphObj':
 		"""
diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index f488619..89cc314 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -1,4 +1,5 @@
 import hashlib
+import re
 import base32hex
 
 
@@ -8,6 +9,16 @@ def make_hash_sha256(obj):
 	return base32hex.b32encode(hasher.digest()).replace('=', '-')
 
 
+def escape_quotes(text):
+	"""
+	makes text safe between the double quotes of a Graphviz string: escapes quotes, and backslashes that would escape
+	the character after the text or be lost; other backslashes are kept for Graphviz, e.g. in \\n or \\l
+	:rtype: str
+	"""
+	text = re.sub(r'(\\+)(?="|\r?\n|\Z)', r'\1\1', str(text))
+	return text.replace('"', '\\"')
+
+
 class GraphObj:
 	def __init__(self, graph, id, value=None, label=None, tooltip=None, style=None, **kwargs):
 		self._graph = graph
diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 98ec1de..3594a94 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -10,6 +10,7 @@ from .styling import stylize_with_pensieve, stylize_randomly
 from typing import Optional, Union, Dict, Callable
 from .Node import Node
 from .Edge import Edge
+from ._GraphObj import escape_quotes
 
 DEFAULT_BACKGROUND_COLOUR_NAME = '#FAFAFA'
 DEFAULT_PAD = 0.1
@@ -342,7 +343,7 @@ class GraphWithoutDisplay(BasicGraph):
 					else:
 						attributes['label'] = f'<\n{html}>'
 				else:
-					attributes['label'] = f'"{self._label}"'
+					attributes['label'] = f'"{escape_quotes(self._label)}"'
 
 			if self._label_location is not None:
 				attributes['labelloc'] = f'"{self._label_location[0]}"'
@@ -357,7 +358,7 @@ class GraphWithoutDisplay(BasicGraph):
 				attributes['target'] = '"_blank"'
 
 		if self._tooltip is not None:
-			attributes['tooltip'] = f'"{self._tooltip}"'
+			attributes['tooltip'] = f'"{escape_quotes(self._tooltip)}"'
 
 		#if dpi is not None:
 		#	attributes['dpi'] = f'{dpi}'
@@ -365,7 +366,7 @@ class GraphWithoutDisplay(BasicGraph):
 			if isinstance(value, int):
 				attributes[key] = value
 			else:
-				attributes[key] = f'"{value}"'
+				attributes[key] = f'"{escape_quotes(value)}"'
 
 		if len(attributes) > 0:
 			second_part += '\t graph [' + ', '.join([f'{key} = {value}' for key, value in attributes.items()]) + ' ];\n'
-- 
2.43.0


From eb23ee96f95321eac9440e673308240c0a0ffe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:03 +0000
Subject: [PATCH 28/51] fix: render writes the format of its path

The README says it is inferred from the path, but it was always pdf.
---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 3594a94..e692866 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -753,7 +753,7 @@ class GraphWithoutDisplay(BasicGraph):
 			to_save = self.get_graphviz_source(
 				direction=direction, pad=pad, dpi=dpi, height=height, width=width, output_format=output_format
 			)
-			to_save.render(filename=filename, view=view)
+			to_save.render(filename=filename, view=view, format=output_format or None)
 			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None)
 
 	"""
-- 
2.43.0


From ee0e2d7128bc6f315945030924d48250eb0dd8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:03 +0000
Subject: [PATCH 29/51] fix: graphs with different nodes or edges are not
 similar

With as many nodes, or edges at a node, under other names is_similar_to raised KeyError.
---
 abstract/Node.py        | 4 ++++
 abstract/_BasicGraph.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/abstract/Node.py b/abstract/Node.py
index 6040821..c565144 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -120,10 +120,14 @@ class Node(GraphObj):
 		if len(self._inward_edges_dict) != len(other._inward_edges_dict):
 			return False
 		for id, outward_edge in self._outward_edges_dict.items():
+			if id not in other._outward_edges_dict:
+				return False
 			other_outward_edge = other._outward_edges_dict[id]
 			if not outward_edge.is_similar_to(other=other_outward_edge):
 				return False
 		for id, inward_edge in self._inward_edges_dict.items():
+			if id not in other._inward_edges_dict:
+				return False
 			other_inward_edge = other._inward_edges_dict[id]
 			if not inward_edge.is_similar_to(other=other_inward_edge):
 				return False
diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 6f32458..6fcaa69 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -748,6 +748,8 @@ class BasicGraph:
 			return False
 
 		for name, node in self._nodes_dict.items():
+			if name not in other._nodes_dict:
+				return False
 			other_node = other._nodes_dict[name]
 			if not node.is_similar_to(other=other_node):
 				return False
-- 
2.43.0


From 797d6d19cf45dd3a092311a66095f7062c9d65bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:03 +0000
Subject: [PATCH 30/51] fix: indented text may start with an empty line

The level of the previous line, which an empty line takes, was not set yet.
---
 abstract/parse_indentations_function.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abstract/parse_indentations_function.py b/abstract/parse_indentations_function.py
index 7c3e8c5..85410e4 100755
--- a/abstract/parse_indentations_function.py
+++ b/abstract/parse_indentations_function.py
@@ -15,6 +15,7 @@ def parse_indentations(lines: List[str], indent: Optional[str] = None) -> Genera
 	"""
 	regex = re.compile(r'^(?P<indent>(?: {4})*)(?P<name>\S.*)')
 	stack = []
+	level = 0
 
 	for index, line in enumerate(lines):
 		line = line.rstrip('\n')
-- 
2.43.0


From 9f051fc64acf1a24ad1cd43927973da9676276b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:03 +0000
Subject: [PATCH 31/51] fix: parsing indented text does not change spaces after
 the indentation

As many occurrences of the indentation were replaced as it has characters, so with an
indentation of two spaces also occurrences inside the content.
---
 abstract/parse_indentations_function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abstract/parse_indentations_function.py b/abstract/parse_indentations_function.py
index 85410e4..7697d75 100755
--- a/abstract/parse_indentations_function.py
+++ b/abstract/parse_indentations_function.py
@@ -23,7 +23,8 @@ def parse_indentations(lines: List[str], indent: Optional[str] = None) -> Genera
 			if line.startswith('\t') or line.startswith(' '):
 				indent = re.findall(pattern=r'^[ \t]+', string=line)[0]
 		if indent is not None:
-			line = line.replace(indent, " " * 4, len(line) - len(line.lstrip(indent)))
+			stripped = line.lstrip(indent)
+			line = line[:len(line) - len(stripped)].replace(indent, " " * 4) + stripped
 		if len(line) > 0:
 			match = regex.match(line)
 			if not match:
-- 
2.43.0


From 1540ed11d8dd3254996bfe53d8fff08f6bc310ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 32/51] fix: a copy of a graph with styles is similar to it

Styles were compared by identity.
---
 abstract/_GraphObj.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index 89cc314..f53433d 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -158,7 +158,10 @@ class GraphObj:
 		"""
 		condition_1 = self.id == other.id
 		condition_2 = self._value == other._value
-		condition_3 = self._style == other._style
+		if self._style is None or other._style is None:
+			condition_3 = self._style is other._style
+		else:
+			condition_3 = self._style.get_graphviz_str() == other._style.get_graphviz_str()
 		condition_4 = self._parameters == other._parameters
 		return  condition_1 and condition_2 and condition_3 and condition_4
 
-- 
2.43.0


From 9252066c47cc56bccc19daced3783a0c2738026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 33/51] fix: the time to render a graph does not double with
 every node

Inheriting styles followed every path from the roots to every node, so that graphs as
dense as Graph.random(25) were never finished. Each style is now found once.
---
 abstract/styling/inherit_style.py         | 24 ++++++++++++++++++++---
 abstract/styling/stylize_with_pensieve.py |  4 +++-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/abstract/styling/inherit_style.py b/abstract/styling/inherit_style.py
index 0e12ff5..2ec48ae 100755
--- a/abstract/styling/inherit_style.py
+++ b/abstract/styling/inherit_style.py
@@ -15,11 +15,25 @@ def get_diverging_number(i, n, reverse):
 	return sorted(generate_diverging_numbers(n), reverse=reverse)[i]
 
 
-def inherit_style(node, pale_ratio, divergence_ratio, main_style):
+def inherit_style(node, pale_ratio, divergence_ratio, main_style, inherited_styles=None):
 	"""
 	:type node: Node
+	:type inherited_styles: dict or NoneType
+	:param inherited_styles: styles found before, so that each is found once and not once for every path to its node
 	:rtype: NodeStyle
 	"""
+	if inherited_styles is None:
+		inherited_styles = {}
+	key = (node.id, divergence_ratio)
+	if key not in inherited_styles:
+		inherited_styles[key] = _inherit_style(
+			node=node, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=main_style,
+			inherited_styles=inherited_styles
+		)
+	return inherited_styles[key]
+
+
+def _inherit_style(node, pale_ratio, divergence_ratio, main_style, inherited_styles):
 	if is_root_or_parents_are_in_loop(node):
 		if main_style is None:
 			return node.style.copy()
@@ -32,7 +46,8 @@ def inherit_style(node, pale_ratio, divergence_ratio, main_style):
 			rank = node.get_child_rank(parent=parent)
 			if main_style is None:
 				style = inherit_style(
-					node=parent, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=main_style
+					node=parent, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=main_style,
+					inherited_styles=inherited_styles
 				)
 			else:
 				style = main_style
@@ -50,7 +65,10 @@ def inherit_style(node, pale_ratio, divergence_ratio, main_style):
 			return new_style
 		else:
 			styles = [
-				inherit_style(node=parent, pale_ratio=pale_ratio, divergence_ratio=0, main_style=main_style)
+				inherit_style(
+					node=parent, pale_ratio=pale_ratio, divergence_ratio=0, main_style=main_style,
+					inherited_styles=inherited_styles
+				)
 				for parent in node.parents
 				if not node.is_in_loop_with(parent)
 			]
diff --git a/abstract/styling/stylize_with_pensieve.py b/abstract/styling/stylize_with_pensieve.py
index c17f538..899d204 100755
--- a/abstract/styling/stylize_with_pensieve.py
+++ b/abstract/styling/stylize_with_pensieve.py
@@ -30,11 +30,13 @@ def stylize_with_pensieve(
 				node.style = style
 
 	# branch nodes
+	inherited_styles = {}
 	for node in graph.nodes:
 		if not is_root_or_parents_are_in_loop(node):
 			if node.style is None:
 				node.style = inherit_style(
-					node=node, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=node_style
+					node=node, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=node_style,
+					inherited_styles=inherited_styles
 				)
 
 	# branch edges
-- 
2.43.0


From 3ffabc6f9fecdeceec02f79e00889e8e14d68efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:46 +0000
Subject: [PATCH 34/51] fix: the tree of a deep graph can be shown

Recursion raised RecursionError for a chain of about a thousand nodes.
---
 abstract/Node.py | 47 ++++++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/abstract/Node.py b/abstract/Node.py
index c565144..c100945 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -289,29 +289,30 @@ class Node(GraphObj):
 		if already_added is None:
 			already_added = []
 
-		tree_string = self.label
-
-		if self in already_added:
-			tree_string += '*\n'
-
-		else:
-			tree_string += '\n'
-			num_children = len(self.children)
-
-			for child_num, child in enumerate(self.children):
-
-				already_added.append(self)
-				if child_num+1 == num_children:
-					tree_string += indentation + CORNER + ' ' + child.get_tree_str(
-						indentation=indentation + '  ', already_added=already_added
-					)
-
-				else:
-					tree_string += indentation + TWO_WAY + ' ' + child.get_tree_str(
-						indentation=indentation + VERTICAL + ' ', already_added=already_added
-					)
-
-		return tree_string
+		lines = []
+		to_add = [(self, '', indentation)]
+		while len(to_add) > 0:
+			node, prefix, indentation = to_add.pop()
+
+			if node in already_added:
+				lines.append(prefix + node.label + '*\n')
+
+			else:
+				lines.append(prefix + node.label + '\n')
+				children = node.children
+				num_children = len(children)
+				if num_children > 0:
+					already_added.append(node)
+
+				branches = []
+				for child_num, child in enumerate(children):
+					if child_num+1 == num_children:
+						branches.append((child, indentation + CORNER + ' ', indentation + '  '))
+					else:
+						branches.append((child, indentation + TWO_WAY + ' ', indentation + VERTICAL + ' '))
+				to_add.extend(reversed(branches))
+
+		return ''.join(lines)
 
 	def get_graphviz_str(self) -> str:
 		"""
-- 
2.43.0


From 24ff12e4428183ac4d26bd4a1543f9aaf5f26c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 35/51] fix: a deep graph can be rendered whatever the order of
 its nodes

Inheriting styles recursed from a node up to its root, so a chain of about 600 nodes
added from the last to the first raised RecursionError.
---
 abstract/styling/inherit_style.py | 35 ++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/abstract/styling/inherit_style.py b/abstract/styling/inherit_style.py
index 2ec48ae..1ed0ddc 100755
--- a/abstract/styling/inherit_style.py
+++ b/abstract/styling/inherit_style.py
@@ -24,13 +24,34 @@ def inherit_style(node, pale_ratio, divergence_ratio, main_style, inherited_styl
 	"""
 	if inherited_styles is None:
 		inherited_styles = {}
-	key = (node.id, divergence_ratio)
-	if key not in inherited_styles:
-		inherited_styles[key] = _inherit_style(
-			node=node, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=main_style,
-			inherited_styles=inherited_styles
-		)
-	return inherited_styles[key]
+	to_find = [(node, divergence_ratio)]
+	while len(to_find) > 0:
+		# those that a style is inherited from are found first, so that a long line of nodes does not need deep recursion
+		current_node, current_ratio = to_find[-1]
+		missing = [
+			(parent, ratio) for parent, ratio in _get_nodes_to_inherit_from(current_node, current_ratio)
+			if (parent.id, ratio) not in inherited_styles
+		]
+		if len(missing) > 0:
+			to_find.extend(missing)
+		else:
+			to_find.pop()
+			key = (current_node.id, current_ratio)
+			if key not in inherited_styles:
+				inherited_styles[key] = _inherit_style(
+					node=current_node, pale_ratio=pale_ratio, divergence_ratio=current_ratio, main_style=main_style,
+					inherited_styles=inherited_styles
+				)
+	return inherited_styles[(node.id, divergence_ratio)]
+
+
+def _get_nodes_to_inherit_from(node, divergence_ratio):
+	if is_root_or_parents_are_in_loop(node):
+		return []
+	elif len(node.parents) == 1:
+		return [(node.parents[0], divergence_ratio)]
+	else:
+		return [(parent, 0) for parent in node.parents if not node.is_in_loop_with(parent)]
 
 
 def _inherit_style(node, pale_ratio, divergence_ratio, main_style, inherited_styles):
-- 
2.43.0


From 00a442abfc430b9bb2caa2c5a3516b9b3078a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:31 +0000
Subject: [PATCH 36/51] fix: overriding the style of one node or edge does not
 change others with the same style

A style object given to several nodes, or passed on when a graph is converted or added, was
changed in place when rendering.
---
 abstract/_GraphWithoutDisplay.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index e692866..472c153 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -237,6 +237,13 @@ class GraphWithoutDisplay(BasicGraph):
 		"""
 		return {edge.id: edge.style for node in self.nodes for edge in node.outward_edges if edge.has_style()}
 
+	@staticmethod
+	def _complement_style(node_or_edge, style):
+		# the style of a node or edge can belong to others as well, which should not change
+		new_style = node_or_edge.style.copy()
+		new_style.complement(style)
+		node_or_edge._style = new_style
+
 	def stylize(self):
 		"""Applies styles to the nodes and edges in the graph."""
 		if self._global_node_style_overwrite is not None:
@@ -265,11 +272,11 @@ class GraphWithoutDisplay(BasicGraph):
 
 		for name, style in self._node_style_overwrites.items():
 			if name in self.nodes_dict:
-				self.nodes_dict[name].style.complement(style)
+				self._complement_style(self.nodes_dict[name], style)
 
 		for edge_id, style in self._edge_style_overwrites.items():
 			if edge_id in self.edges_dict:
-				self.edges_dict[edge_id].style.complement(style)
+				self._complement_style(self.edges_dict[edge_id], style)
 
 		for name, colour in self._node_colour_overwrites.items():
 			if name in self.nodes_dict:
@@ -298,11 +305,11 @@ class GraphWithoutDisplay(BasicGraph):
 				smart_global_node_style_overwrite = self._global_node_style_overwrite
 
 			for node in self.nodes:
-				node.style.complement(smart_global_node_style_overwrite)
+				self._complement_style(node, smart_global_node_style_overwrite)
 
 		if self._global_edge_style_overwrite is not None:
 			for edge in self.edges:
-				edge.style.complement(self._global_edge_style_overwrite)
+				self._complement_style(edge, self._global_edge_style_overwrite)
 
 	def get_graphviz_header(
 			self, dpi: int = 300, direction: Optional[str] = None, 
-- 
2.43.0


From e0ae146f0eb6a8d7c894d5098d1d584bf460b873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:23 +0000
Subject: [PATCH 37/51] fix: nodes with names of different types can be ordered

---
 abstract/Node.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/abstract/Node.py b/abstract/Node.py
index c100945..2fda0d2 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -247,21 +247,26 @@ class Node(GraphObj):
 		"""Returns a string representation of the node for debugging."""
 		return str(self)
 
+	@property
+	def _rank(self):
+		# names can be str or int, which cannot be compared with each other
+		return self.index, isinstance(self.name, str), self.name
+
 	def __lt__(self, other: 'Node') -> bool:
 		"""Less than comparison for sorting nodes."""
-		return (self.index, self.name) < (other.index, other.name)
+		return self._rank < other._rank
 
 	def __gt__(self, other: 'Node') -> bool:
 		"""Greater than comparison for sorting nodes."""
-		return (self.index, self.name) > (other.index, other.name)
+		return self._rank > other._rank
 
 	def __le__(self, other: 'Node') -> bool:
 		"""Less than or equal comparison for sorting nodes."""
-		return (self.index, self.name) <= (other.index, other.name)
+		return self._rank <= other._rank
 
 	def __ge__(self, other: 'Node') -> bool:
 		"""Greater than or equal comparison for sorting nodes."""
-		return (self.index, self.name) >= (other.index, other.name)
+		return self._rank >= other._rank
 
 	def __eq__(self, other: 'Node') -> bool:
 		"""Equality comparison for nodes."""
-- 
2.43.0


From 2ea3bab1b63465389218f12c3193cd054d7bdfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:53 +0000
Subject: [PATCH 38/51] fix: colours given to nodes and edges need no
 permission to overwrite styles

---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 472c153..0d6551d 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -284,7 +284,7 @@ class GraphWithoutDisplay(BasicGraph):
 				style = node.style.copy()
 				style.reset_colours()
 				style.colour = colour
-				node.style = style
+				node._style = style
 
 		for edge_id, colour in self._edge_colour_overwrites.items():
 			if edge_id in self.edges_dict:
@@ -292,7 +292,7 @@ class GraphWithoutDisplay(BasicGraph):
 				style = edge.style.copy()
 				style.reset_colours()
 				style.colour = colour
-				edge.style = style
+				edge._style = style
 
 		if self._global_node_style_overwrite is not None:
 			smart_global_node_style_overwrite = None
-- 
2.43.0


From 33ad2e7e6c6a7afe00d7181a6f64af13bc51e0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:22 +0000
Subject: [PATCH 39/51] fix: a graph can be converted or added after an edge
 with an overriding style was removed

---
 abstract/_GraphWithoutDisplay.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 0d6551d..23fc0e6 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -573,6 +573,9 @@ class GraphWithoutDisplay(BasicGraph):
 					}
 				])
 
+		# edges that were removed cannot have a style in the representation
+		edges_dict = self.edges_dict
+
 		return {
 			'strict': self._is_strict,
 			'ordering': self._ordering,
@@ -580,7 +583,7 @@ class GraphWithoutDisplay(BasicGraph):
 			'label': self._label,
 			'label_url': self._label_url,
 			'node_styles': self._node_style_overwrites,
-			'edge_styles': self._edge_style_overwrites,
+			'edge_styles': {edge_id: style for edge_id, style in self._edge_style_overwrites.items() if edge_id in edges_dict},
 			'global_node_style': self._global_node_style_overwrite,
 			'global_edge_style': self._global_edge_style_overwrite,
 			'node_colours': self._node_colour_overwrites,
-- 
2.43.0


From 59bc2795ca97d84829bf60d3a619578fbc77fe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:22 +0000
Subject: [PATCH 40/51] fix: conversion of a graph keeps the colours given to
 edges

---
 abstract/_GraphWithoutDisplay.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 23fc0e6..d046842 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -587,6 +587,7 @@ class GraphWithoutDisplay(BasicGraph):
 			'global_node_style': self._global_node_style_overwrite,
 			'global_edge_style': self._global_edge_style_overwrite,
 			'node_colours': self._node_colour_overwrites,
+			'edge_colours': {edge_id: colour for edge_id, colour in self._edge_colour_overwrites.items() if edge_id in edges_dict},
 			'nodes': nodes_dict,
 			'edges': edges_list
 		}
-- 
2.43.0


From ca890633ebf9de46e4f1084ec952781a05a59cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:22 +0000
Subject: [PATCH 41/51] fix: the sum of graphs keeps the colours given to nodes
 and edges

---
 abstract/_GraphWithoutDisplay.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index d046842..dd78997 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -665,6 +665,12 @@ class GraphWithoutDisplay(BasicGraph):
 		edge_styles = d1['edge_styles'].copy()
 		edge_styles.update(d2['edge_styles'])
 
+		node_colours = d1['node_colours'].copy()
+		node_colours.update(d2['node_colours'])
+
+		edge_colours = d1['edge_colours'].copy()
+		edge_colours.update(d2['edge_colours'])
+
 		if add_values_function is None:
 			def add_values_function(x, y):
 				if x is None:
@@ -720,6 +726,8 @@ class GraphWithoutDisplay(BasicGraph):
 			'ordering': d1['ordering'],
 			'node_styles': node_styles,
 			'edge_styles': edge_styles,
+			'node_colours': node_colours,
+			'edge_colours': edge_colours,
 			'nodes': nodes,
 			'edges': edges
 		}
-- 
2.43.0


From 99123ec2cc6d762673cd9c51d864780c03298b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:03 +0000
Subject: [PATCH 42/51] fix: the label of a graph with a background can have
 any characters and lines

---
 abstract/_GraphWithoutDisplay.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index dd78997..a2714cd 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -2,6 +2,7 @@ from ._BasicGraph import BasicGraph
 from .styling.NodeStyle import NodeStyle
 from .styling.EdgeStyle import EdgeStyle
 from graphviz import Source
+from html import escape
 import os
 from functools import wraps
 import random
@@ -344,8 +345,10 @@ class GraphWithoutDisplay(BasicGraph):
 				attributes['label'] = f'{self._label}'
 			else:
 				if self._label_background_colour is not None:
-					html = f'<table border="0" cellborder="0"><tr><td bgcolor="{self._label_background_colour}" title="{self._label}">{self._label} </td></tr></table>'
-					if self._label_location[0] == 't':
+					title = escape(self._label)
+					text = escape(self._label.strip('\n')).replace('\n', '<br/>')
+					html = f'<table border="0" cellborder="0"><tr><td bgcolor="{self._label_background_colour}" title="{title}">{text} </td></tr></table>'
+					if self._label_location is not None and self._label_location[0] == 't':
 						attributes['label'] = f'<{html}\n>'
 					else:
 						attributes['label'] = f'<\n{html}>'
-- 
2.43.0


From 47bfcae7f349e90c32e24dd1a5e865a93ebb66ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:03 +0000
Subject: [PATCH 43/51] fix: the font, colour and link of the label of a graph
 can have quotes

---
 abstract/_GraphWithoutDisplay.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index a2714cd..40b8ec5 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -360,11 +360,11 @@ class GraphWithoutDisplay(BasicGraph):
 			if self._font_size is not None:
 				attributes['fontsize'] = f'{self._font_size}'
 			if self._font is not None:
-				attributes['fontname'] = f'"{self._font}"'
+				attributes['fontname'] = f'"{escape_quotes(self._font)}"'
 			if self._label_colour is not None:
-				attributes['fontcolor'] = f'"{self._label_colour}"'
+				attributes['fontcolor'] = f'"{escape_quotes(self._label_colour)}"'
 			if self._label_url is not None:
-				attributes['href'] = f'"{self._label_url}"'
+				attributes['href'] = f'"{escape_quotes(self._label_url)}"'
 				attributes['target'] = '"_blank"'
 
 		if self._tooltip is not None:
-- 
2.43.0


From ca04026a6f55b4f199d0e4dcbaf94eaef1146240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:03 +0000
Subject: [PATCH 44/51] fix: conversion of a graph keeps a label in HTML

---
 abstract/_GraphWithoutDisplay.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 40b8ec5..8a9069e 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -464,7 +464,8 @@ class GraphWithoutDisplay(BasicGraph):
 
 			if 'label' in dictionary:
 				self._label = dictionary['label']
-				if self._label is not None and not self._label.startswith('\n'):
+				is_html = self._label is not None and self._label.startswith('<') and self._label.endswith('>')
+				if self._label is not None and not self._label.startswith('\n') and not is_html:
 					self._label = '\n' + self._label
 
 			if 'tooltip' in dictionary:
-- 
2.43.0


From 6c2dc7559f3cfa8689735aff13da00a697e85fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:16 +0000
Subject: [PATCH 45/51] fix: adding again or connecting again does not change a
 frozen node or edge in part

---
 abstract/_BasicGraph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 6fcaa69..9d4a8d2 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -290,6 +290,8 @@ class BasicGraph:
 					raise KeyError(f'duplicate node id:"{name}"!')
 
 				node = self.get_node(node=name)
+				if value is not None and node.is_frozen:
+					raise RuntimeError('GraphObj is frozen!')
 				if style is not None:
 					node.style = style
 				if label is not None:
@@ -699,6 +701,8 @@ class BasicGraph:
 				raise ValueError(f'Error! Edge {edge_id} already exists!')
 
 			edge = start.get_outward_edge(id=edge_id)
+			if value is not None and edge.is_frozen:
+				raise RuntimeError('GraphObj is frozen!')
 			if style is not None:
 				edge.style = style
 			if label is not None:
-- 
2.43.0


From b3cc2d1182f0801a78dc30c40f51a2004d5ad081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:16 +0000
Subject: [PATCH 46/51] fix: the answer of __graph__ does not share the styles
 and colours of the graph

---
 abstract/_GraphWithoutDisplay.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 8a9069e..c8cebea 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -586,11 +586,11 @@ class GraphWithoutDisplay(BasicGraph):
 			'colour_scheme': self._colour_scheme,
 			'label': self._label,
 			'label_url': self._label_url,
-			'node_styles': self._node_style_overwrites,
-			'edge_styles': {edge_id: style for edge_id, style in self._edge_style_overwrites.items() if edge_id in edges_dict},
+			'node_styles': {name: style.copy() for name, style in self._node_style_overwrites.items()},
+			'edge_styles': {edge_id: style.copy() for edge_id, style in self._edge_style_overwrites.items() if edge_id in edges_dict},
 			'global_node_style': self._global_node_style_overwrite,
 			'global_edge_style': self._global_edge_style_overwrite,
-			'node_colours': self._node_colour_overwrites,
+			'node_colours': self._node_colour_overwrites.copy(),
 			'edge_colours': {edge_id: colour for edge_id, colour in self._edge_colour_overwrites.items() if edge_id in edges_dict},
 			'nodes': nodes_dict,
 			'edges': edges_list
-- 
2.43.0


From df0e38fcb6b9748aa5e2a44f4c3570fb932e59f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:26 +0000
Subject: [PATCH 47/51] fix: copy.copy of a graph does not take the nodes away
 from it

---
 abstract/_BasicGraph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 9d4a8d2..ee5d751 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -54,6 +54,11 @@ class BasicGraph:
 			for node in self.nodes:
 				node._graph = self
 
+	# a shallow copy would take the nodes away from the original
+	def __copy__(self) -> 'BasicGraph':
+		"""Returns a copy of the graph for copy.copy."""
+		return self.copy()
+
 	# methods that return a new graph
 	def copy(self) -> 'BasicGraph':
 		"""Creates a copy of the graph.
-- 
2.43.0


From 5762945004e2a0b017f7b45489aa9f3e4ba61e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:31 +0000
Subject: [PATCH 48/51] fix: the answer of __graph__ does not share the global
 styles of the graph

---
 abstract/_GraphWithoutDisplay.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index c8cebea..875649f 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -547,6 +547,10 @@ class GraphWithoutDisplay(BasicGraph):
 		graph.append(obj=obj)
 		return graph
 
+	@staticmethod
+	def _copy_style(style):
+		return None if style is None else style.copy()
+
 	def __graph__(self) -> Dict:
 		"""
 		Returns the dictionary representation of the graph.
@@ -588,8 +592,8 @@ class GraphWithoutDisplay(BasicGraph):
 			'label_url': self._label_url,
 			'node_styles': {name: style.copy() for name, style in self._node_style_overwrites.items()},
 			'edge_styles': {edge_id: style.copy() for edge_id, style in self._edge_style_overwrites.items() if edge_id in edges_dict},
-			'global_node_style': self._global_node_style_overwrite,
-			'global_edge_style': self._global_edge_style_overwrite,
+			'global_node_style': self._copy_style(self._global_node_style_overwrite),
+			'global_edge_style': self._copy_style(self._global_edge_style_overwrite),
 			'node_colours': self._node_colour_overwrites.copy(),
 			'edge_colours': {edge_id: colour for edge_id, colour in self._edge_colour_overwrites.items() if edge_id in edges_dict},
 			'nodes': nodes_dict,
-- 
2.43.0


From 82f4c15bd328fb1ed3866c114b5433e3671f97ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:32 +0000
Subject: [PATCH 49/51] fix: a graph made from another graph does not share the
 styles of its nodes and edges

---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 875649f..287ee6c 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -565,7 +565,7 @@ class GraphWithoutDisplay(BasicGraph):
 				'label': node._label,
 				'value': node.value,
 				'tooltip': node._tooltip,
-				'style': node.style
+				'style': self._copy_style(node.style)
 			}
 
 			for edge in node.outward_edges:
@@ -577,7 +577,7 @@ class GraphWithoutDisplay(BasicGraph):
 						'label': edge._label,
 						'value': edge.value,
 						'tooltip': edge._tooltip,
-						'style': edge.style
+						'style': self._copy_style(edge.style)
 					}
 				])
 
-- 
2.43.0


From b51e55ecad5e1405c36e11a0faab8c35953cbabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:32 +0000
Subject: [PATCH 50/51] fix: quotes and backslashes in the attributes of styles
 do not break the text for Graphviz

---
 abstract/styling/EdgeStyle.py | 3 ++-
 abstract/styling/NodeStyle.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index 22ac5cd..b2aeda0 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -1,4 +1,5 @@
 from colouration import Colour
+from .._GraphObj import escape_quotes
 
 
 DEFAULT_COLOUR = Colour(hexadecimal='#AAAAAA')
@@ -161,7 +162,7 @@ class EdgeStyle:
 				key = key.strip('"')
 
 			if isinstance(value, str):
-				value = value.strip('"')
+				value = escape_quotes(value.strip('"'))
 
 			if value is not None:
 				key_values.append((key, value))
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index eba0723..e014e6a 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -1,4 +1,5 @@
 from colouration import Colour
+from .._GraphObj import escape_quotes
 
 
 DEFAULT_COLOUR = Colour(hexadecimal='#AAAAAA')
@@ -223,7 +224,7 @@ class NodeStyle:
 				key = key.strip('"')
 
 			if isinstance(value, str):
-				value = value.strip('"')
+				value = escape_quotes(value.strip('"'))
 
 			if value is not None:
 				key_values.append((key, value))
-- 
2.43.0


From c04f9a184b401b4dad08a754224700836bc75fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:05 +0000
Subject: [PATCH 51/51] fix: line ends of Windows in outlines, where an empty
 line was refused

---
 abstract/parse_indentations_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/parse_indentations_function.py b/abstract/parse_indentations_function.py
index 7697d75..de83c5e 100755
--- a/abstract/parse_indentations_function.py
+++ b/abstract/parse_indentations_function.py
@@ -18,7 +18,7 @@ def parse_indentations(lines: List[str], indent: Optional[str] = None) -> Genera
 	level = 0
 
 	for index, line in enumerate(lines):
-		line = line.rstrip('\n')
+		line = line.rstrip('\r\n')
 		if indent is None:
 			if line.startswith('\t') or line.startswith(' '):
 				indent = re.findall(pattern=r'^[ \t]+', string=line)[0]
-- 
2.43.0

