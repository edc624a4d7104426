From 37a229a907f287fb9e3725f3fa960b1ddb0df00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:52 +0000
Subject: [PATCH 01/53] fix: apply edits in document order when predicting
 config

Config + ConfigDelta (and Config + edit-config) applied new nodes first and
then existing nodes in the order of the original config, ignoring the order
in the edit. Reordering a user-ordered list or leaf-list, e.g. from a,b,c to
c,b,a, was therefore predicted wrongly.
---
 src/ncdiff/netconf.py | 47 ++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index d93cd67..383c2f8 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -479,10 +479,33 @@ class NetconfCalculator(BaseCalculator):
             ]
         in_s_not_in_o, in_o_not_in_s, in_s_and_in_o = \
             self._group_kids(node_sum, node_other)
-        for child_self in in_s_not_in_o:
-            pass
+        peers = {child_other: child_self
+                 for child_self, child_other in in_s_and_in_o}
+
+        # Edits have to be applied in the document order, as one edit can
+        # refer to the position of a node changed by an earlier edit.
+        for child_other in node_other.getchildren():
+            s_node = self.device.get_schema_node(child_other)
+
+            if child_other in peers:
+                child_self = peers[child_other]
+                if s_node.get('type') in supported_node_type:
+                    getattr(
+                        self,
+                        '_node_add_with_peer_{}'.format(
+                            s_node.get('type').replace('-', '')
+                        )
+                    )(child_self, child_other)
+
+                if not list(child_self):
+                    if (
+                        s_node.get('type') == 'container' and
+                        s_node.get('presence') != 'true' and
+                        child_self.getparent() is node_sum
+                    ):
+                        node_sum.remove(child_self)
+                continue
 
-        for child_other in in_o_not_in_s:
             this_operation = child_other.get(operation_tag, default='merge')
 
             # delete
@@ -504,7 +527,6 @@ class NetconfCalculator(BaseCalculator):
                 this_operation == 'replace' or
                 this_operation == 'create'
             ):
-                s_node = self.device.get_schema_node(child_other)
                 if s_node.get('type') in supported_node_type:
                     getattr(
                         self,
@@ -522,23 +544,6 @@ class NetconfCalculator(BaseCalculator):
                     )
                 )
 
-        for child_self, child_other in in_s_and_in_o:
-            s_node = self.device.get_schema_node(child_self)
-            if s_node.get('type') in supported_node_type:
-                getattr(
-                    self,
-                    '_node_add_with_peer_{}'.format(
-                        s_node.get('type').replace('-', '')
-                    )
-                )(child_self, child_other)
-
-            if not list(child_self):
-                if (
-                    s_node.get('type') == 'container' and
-                    s_node.get('presence') != 'true'
-                ):
-                    node_sum.remove(child_self)
-
     def _node_add_without_peer_leaf(self, node_sum, child_other):
         '''_node_add_without_peer_leaf
 
-- 
2.43.0


From 00b5079da38f1dc1951b55a2594b13d5c5367a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:40 +0000
Subject: [PATCH 02/53] fix: predict the implicit deletion of other cases of a
 choice

ConfigDelta relies on RFC7950 section 7.9: creating a node in one case of a
choice deletes nodes of all other cases. Config + ConfigDelta did not, so
nodes of two cases coexisted in the predicted config.
---
 src/ncdiff/netconf.py | 94 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 92 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 383c2f8..eb4ff0e 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -487,8 +487,10 @@ class NetconfCalculator(BaseCalculator):
         for child_other in node_other.getchildren():
             s_node = self.device.get_schema_node(child_other)
 
-            if child_other in peers:
-                child_self = peers[child_other]
+            # the peer might have been removed by an earlier edit, as it
+            # belongs to another case of the same choice
+            child_self = peers.get(child_other)
+            if child_self is not None and child_self.getparent() is node_sum:
                 if s_node.get('type') in supported_node_type:
                     getattr(
                         self,
@@ -534,6 +536,7 @@ class NetconfCalculator(BaseCalculator):
                             s_node.get('type').replace('-', '')
                         )
                     )(node_sum, child_other)
+                self._remove_other_cases(node_sum, child_other)
 
             else:
                 raise ConfigDeltaError(
@@ -544,6 +547,90 @@ class NetconfCalculator(BaseCalculator):
                     )
                 )
 
+    @staticmethod
+    def _get_cases(schema_node):
+        '''_get_cases
+
+        Low-level api: Given a schema node, find choices and cases the schema
+        node belongs to. Choices can be nested.
+
+        Parameters
+        ----------
+
+        schema_node : `Element`
+            A schema node.
+
+        Returns
+        -------
+
+        dict
+            A dictionary whose keys are choice nodes and values are case nodes.
+        '''
+
+        cases = {}
+        parent = schema_node.getparent()
+        while parent is not None and parent.get('type') in ['choice', 'case']:
+            if parent.get('type') == 'case':
+                cases[parent.getparent()] = parent
+            parent = parent.getparent()
+        return cases
+
+    def _in_other_case(self, schema_node, cases):
+        '''_in_other_case
+
+        Low-level api: Return True if a schema node belongs to a case that
+        cannot coexist with the given cases.
+
+        Parameters
+        ----------
+
+        schema_node : `Element`
+            A schema node.
+
+        cases : `dict`
+            A dictionary whose keys are choice nodes and values are case nodes.
+
+        Returns
+        -------
+
+        bool
+            True if the schema node belongs to another case of a choice in
+            cases.
+        '''
+
+        return any(choice in cases and cases[choice] is not case
+                   for choice, case in self._get_cases(schema_node).items())
+
+    def _remove_other_cases(self, node_sum, child_other):
+        '''_remove_other_cases
+
+        Low-level api: child_other has been added to node_sum. If it belongs to
+        a case, nodes from all other cases of the choice are removed from
+        node_sum. RFC7950 section 7.9 is a reference of this method.
+
+        Parameters
+        ----------
+
+        node_sum : `Element`
+            A config node in a config tree.
+
+        child_other : `Element`
+            A child of a config node in another config tree.
+
+        Returns
+        -------
+
+        None
+            There is no return of this method.
+        '''
+
+        cases = self._get_cases(self.device.get_schema_node(child_other))
+        if cases and node_sum.find(child_other.tag) is not None:
+            for child in node_sum.getchildren():
+                s_node = self.device.get_schema_node(child)
+                if self._in_other_case(s_node, cases):
+                    node_sum.remove(child)
+
     def _node_add_without_peer_leaf(self, node_sum, child_other):
         '''_node_add_without_peer_leaf
 
@@ -670,6 +757,9 @@ class NetconfCalculator(BaseCalculator):
             e = etree.SubElement(node_sum, child_other.tag,
                                  nsmap=child_other.nsmap)
             self.node_add(e, child_other)
+            s_node = self.device.get_schema_node(child_other)
+            if len(e) == 0 and s_node.get('presence') != 'true':
+                node_sum.remove(e)
         elif (
             this_operation == 'replace' or
             this_operation == 'create'
-- 
2.43.0


From 8d0e5c7ee7080514027b34fb9092e4efcacf4430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:23 +0000
Subject: [PATCH 03/53] fix: do not delete nodes of another case explicitly

A delta that switches a choice to another case omits deletions of the old
case, as they happen implicitly and an explicit delete is then rejected with
data-missing. This was not done when diff_type is 'replace', nor when the
old node is in a nested choice.
---
 src/ncdiff/netconf.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index eb4ff0e..27fd01f 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -334,10 +334,12 @@ class NetconfCalculator(BaseCalculator):
         in_s_not_in_o, in_o_not_in_s, in_s_and_in_o = \
             self._group_kids(node_self, node_other)
         ordered_by_user = {}
+        choice_nodes = {}
 
         for child_self in in_s_not_in_o:
             child_self.set(operation_tag, 'replace')
             s_node = self.device.get_schema_node(child_self)
+            choice_nodes.update(self._get_cases(s_node))
             if s_node.get('type') == 'leaf-list':
                 if (
                     s_node.get('ordered-by') == 'user' and
@@ -353,6 +355,10 @@ class NetconfCalculator(BaseCalculator):
                     ordered_by_user[s_node.tag] = keys
 
         for child_other in in_o_not_in_s:
+            s_node = self.device.get_schema_node(child_other)
+            # nodes in another case are deleted implicitly
+            if self._in_other_case(s_node, choice_nodes):
+                continue
             child_self = etree.Element(child_other.tag,
                                        nsmap=child_other.nsmap)
             siblings = list(node_self.iterchildren(tag=child_other.tag))
@@ -360,7 +366,6 @@ class NetconfCalculator(BaseCalculator):
                 siblings[-1].addnext(child_self)
             else:
                 node_self.append(child_self)
-            s_node = self.device.get_schema_node(child_other)
             if s_node.get('type') == 'leaf-list':
                 child_self.set(operation_tag, self.preferred_delete)
                 self._merge_text(child_other, child_self)
@@ -1210,10 +1215,8 @@ class NetconfCalculator(BaseCalculator):
                 self.set_delete_operation(child_other, child_self)
             else:
                 child_other.set(operation_tag, self.preferred_delete)
-            if s_node.getparent().get('type') == 'case':
-                # key: choice node, value: case node
-                choice_nodes[s_node.getparent().getparent()] = \
-                    s_node.getparent()
+            # key: choice node, value: case node
+            choice_nodes.update(self._get_cases(s_node))
         for child_other in in_o_not_in_s:
             child_self = etree.Element(child_other.tag,
                                        nsmap=child_other.nsmap)
@@ -1231,12 +1234,7 @@ class NetconfCalculator(BaseCalculator):
                 # - Node in case but choice node not in self
                 # - Node in case and choice node in self and the same case also
                 #   in self
-                if s_node.getparent().get('type') == 'case':
-                    choice_node = s_node.getparent().getparent()
-                    if choice_node not in choice_nodes or \
-                       s_node.getparent() == choice_nodes[choice_node]:
-                        node_self.append(child_self)
-                else:
+                if not self._in_other_case(s_node, choice_nodes):
                     node_self.append(child_self)
             if s_node.get('type') == 'leaf-list':
                 if s_node.get('ordered-by') == 'user' and \
-- 
2.43.0


From b7c685de1f314b20c22245d70669fd478254ac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:23 +0000
Subject: [PATCH 04/53] fix: do not set operation replace on nc:config

When preferred_replace is 'replace' and a leaf-list at the root level differs,
the operation attribute was set on the nc:config element, which is not a data
node, and the delta did not delete anything.
---
 src/ncdiff/netconf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 27fd01f..d48bb11 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -1153,7 +1153,8 @@ class NetconfCalculator(BaseCalculator):
             There is no return of this method.
         '''
 
-        if self.preferred_replace != 'merge':
+        # nc:config is not a data node so it cannot be replaced
+        if self.preferred_replace != 'merge' and depth > 0:
             t_self = [
                 c.tag for c in list(node_self)
                 if self.device.get_schema_node(c).get('type') == 'leaf-list'
-- 
2.43.0


From 29f60ea935c3068d26761263684ae26ebd91e020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:30 +0000
Subject: [PATCH 05/53] fix: support data nodes in a choice at the root level
 of a module

Nodes in a root-level choice were not considered as roots of the model, so
any config containing them was rejected with ModelMissing.
---
 src/ncdiff/manager.py |  7 ++++++-
 src/ncdiff/model.py   | 11 ++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index f4cea8b..b6c1c9e 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -382,7 +382,12 @@ class ModelDevice(manager.Manager):
 
         def get_access_type(model_name, root):
             check_models([model_name])
-            node = list(self.models[model_name].tree.iterchildren(tag=root))[0]
+            try:
+                node = self.get_schema_node(
+                    etree.SubElement(etree.Element(config_tag), root))
+            except ConfigError:
+                # a choice or a case, which does not exist in a data tree
+                return None
             return node.get('access')
 
         # allow for operation string type
diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 8ebc5e4..51fd216 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -107,7 +107,16 @@ class Model(object):
 
     @property
     def roots(self):
-        return [c.tag for c in self.tree]
+        def get_roots(node):
+            ret = []
+            for child in node:
+                ret.append(child.tag)
+                if child.get('type') in ['choice', 'case']:
+                    # choice and case do not exist in a data tree
+                    ret += get_roots(child)
+            return ret
+
+        return list(dict.fromkeys(get_roots(self.tree)))
 
     def emit_tree(self, tree):
         '''emit_tree
-- 
2.43.0


From 081ce291d1db5d942c91741c1ea7ad2808f5f8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:52 +0000
Subject: [PATCH 06/53] fix: keep a list key that equals its default value

A key leaf whose value is the default in the model was trimmed from the
config. The list entry was then lost, or rejected because of missing key.
---
 src/ncdiff/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index aa351b8..74e328d 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -401,8 +401,11 @@ class Config(object):
             # cleanup leaf with default value
             # TBD: the leaf's type has a default value and the leaf is not
             # mandatory.
+            # According to RFC7950 section 7.8.2, default values of list keys
+            # are ignored.
             elif (
                 child_schema_node.get('type') == 'leaf' and
+                child_schema_node.get('is_key') != 'true' and
                 child_schema_node.get('default') is not None and
                 child.text == child_schema_node.get('default')
             ):
-- 
2.43.0


From 5bd854110d7c291cf7ad14ef5c8bc170df09b4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:35 +0000
Subject: [PATCH 07/53] fix: compare identityref list keys by namespace instead
 of prefix

Text of a list key was parsed with the schema node of the list, so identityref
keys that are spelled with different prefixes were not recognized as the same
list entry.
---
 src/ncdiff/calculator.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index 52ba99c..ecc804a 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -153,13 +153,11 @@ class BaseCalculator(object):
                                           self.device.get_xpath(node)))
             return s[0]
 
-        def build_index_tuple(node, keys, s_node):
+        def build_index_tuple(node, keys):
             """
             build a tuple containing the text of all fields listed in keys, taken from node
-
-            s_node is passed to prevent it being looked up twice.
             """
-            out = [self._parse_text(find_one_child(node, k), s_node) for k in keys]
+            out = [self._parse_text(find_one_child(node, k)) for k in keys]
             return tuple(out)
 
         type_for_tag = {}
@@ -192,7 +190,7 @@ class BaseCalculator(object):
                 key = self._parse_text(child, s_node)
             elif node_type == 'list':
                 keys = self._get_list_keys(s_node)
-                key = build_index_tuple(child, keys, s_node)
+                key = build_index_tuple(child, keys)
             return (tag, key)
 
         # build the hashmap for node_one
-- 
2.43.0


From 081c720029345a81884ba92327360a7614c07a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:50 +0000
Subject: [PATCH 08/53] fix: ignore whitespace in list entries when comparing
 configs

A config built from a pretty-printed Element was not equal to the same config
without whitespace if it contained a list, since text of list nodes was
compared.
---
 src/ncdiff/calculator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index ecc804a..6c2f4f7 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -409,8 +409,8 @@ class BaseCalculator(object):
             instanceid = InstanceIdentifier(self.device, node)
             return instanceid.default
         else:
-            if schema_node.get("type") == "container":
-                # prevent whitespace in container to cause problems
+            if schema_node.get("type") in ["container", "list"]:
+                # prevent whitespace in container or list to cause problems
                 return None
             return node.text
 
-- 
2.43.0


From b7266bc82edd70e0f1b96dae75d5180cebe30cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:15 +0000
Subject: [PATCH 09/53] fix: ignore XML comments in config

A comment inside a config raised TypeError when Config is instantiated.
---
 src/ncdiff/netconf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index d48bb11..15eca8a 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -35,6 +35,9 @@ def _inserterror(direction, path, attr_name, attr_value=None):
 
 
 def _copy_element(new_parent, element):
+    # comments and processing instructions are not config data
+    if not isinstance(element.tag, str):
+        return
     new_child = etree.SubElement(new_parent, element.tag,
                                  attrib=element.attrib,
                                  nsmap=element.nsmap)
-- 
2.43.0


From cd1a71a3ec35dd4a1af3a36520c44671109fdf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:04 +0000
Subject: [PATCH 10/53] fix: reject edit attributes on leaf nodes when
 validating config

---
 src/ncdiff/config.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 74e328d..d8beaa4 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -485,8 +485,7 @@ class Config(object):
                                   "be found:\n{}"
                                   .format(self.device.get_xpath(child), self))
 
-            if len(child) > 0:
-                self._validate_node(child)
+            self._validate_node(child)
 
             # clean up empty NP containers
             if (
-- 
2.43.0


From b2060815de0e5daf8a26c07b66d1d11332c1b02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:05 +0000
Subject: [PATCH 11/53] fix: quote list keys that contain an apostrophe in
 insert attributes

---
 src/ncdiff/netconf.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 15eca8a..5fc3d0d 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -451,7 +451,8 @@ class NetconfCalculator(BaseCalculator):
                             for k, n in key_nodes.items()
                         }
                         id_list = [
-                            "[{}='{}']".format(ids[k], key_nodes[k].text)
+                            "[{}={}]".format(
+                                ids[k], self._quote(key_nodes[k].text))
                             for k in keys
                         ]
                         item.set(key_tag, ''.join(id_list))
@@ -1353,7 +1354,10 @@ class NetconfCalculator(BaseCalculator):
                                 for k, n in key_nodes.items()
                             }
                             id_list = [
-                                "[{}='{}']".format(ids[k], key_nodes[k].text)
+                                "[{}={}]".format(
+                                    ids[k],
+                                    self._quote(key_nodes[k].text),
+                                )
                                 for k in keys
                             ]
                             item.set(key_tag, ''.join(id_list))
@@ -1447,6 +1451,27 @@ class NetconfCalculator(BaseCalculator):
             else:
                 child.set(operation_tag, 'delete')
 
+    @staticmethod
+    def _quote(text):
+        '''_quote
+
+        Low-level api: Put a key value in quotes to form a predicate.
+
+        Parameters
+        ----------
+
+        text : `str`
+            A key value.
+
+        Returns
+        -------
+
+        str
+            Quoted key value.
+        '''
+
+        return '"{}"'.format(text) if "'" in str(text) else "'{}'".format(text)
+
     @staticmethod
     def _url_to_prefix(node, id):
         '''_url_to_prefix
-- 
2.43.0


From c801279292341c4b030340833522e070bcae5180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:59 +0000
Subject: [PATCH 12/53] fix: handle empty values in user-ordered lists and
 leaf-lists

---
 src/ncdiff/netconf.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 5fc3d0d..f80ee23 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -442,7 +442,7 @@ class NetconfCalculator(BaseCalculator):
                     item.set(insert_tag, 'after')
                     precursor = sequence[i - 1]
                     if ordered_by_user[tag] == 'leaf-list':
-                        item.set(value_tag, precursor.text)
+                        item.set(value_tag, precursor.text or '')
                     else:
                         keys = ordered_by_user[tag]
                         key_nodes = {k: precursor.find(k) for k in keys}
@@ -452,7 +452,7 @@ class NetconfCalculator(BaseCalculator):
                         }
                         id_list = [
                             "[{}={}]".format(
-                                ids[k], self._quote(key_nodes[k].text))
+                                ids[k], self._quote(key_nodes[k].text or ''))
                             for k in keys
                         ]
                         item.set(key_tag, ''.join(id_list))
@@ -713,7 +713,7 @@ class NetconfCalculator(BaseCalculator):
                                  'value')
                 siblings = node_sum.findall(child_other.tag)
                 sibling = [s for s in siblings
-                           if s.text == child_other.get(value_tag)]
+                           if (s.text or '') == child_other.get(value_tag)]
                 if not sibling:
                     path = self.device.get_xpath(child_other)
                     value = child_other.get(value_tag)
@@ -725,7 +725,7 @@ class NetconfCalculator(BaseCalculator):
                                  'value')
                 siblings = node_sum.findall(child_other.tag)
                 sibling = [s for s in siblings
-                           if s.text == child_other.get(value_tag)]
+                           if (s.text or '') == child_other.get(value_tag)]
                 if not sibling:
                     path = self.device.get_xpath(child_other)
                     value = child_other.get(value_tag)
@@ -955,7 +955,7 @@ class NetconfCalculator(BaseCalculator):
                                      'value')
                     siblings = parent_self.findall(child_other.tag)
                     sibling = [s for s in siblings
-                               if s.text == child_other.get(value_tag)]
+                               if (s.text or '') == child_other.get(value_tag)]
                     if not sibling:
                         path = self.device.get_xpath(child_other)
                         value = child_other.get(value_tag)
@@ -969,7 +969,7 @@ class NetconfCalculator(BaseCalculator):
                                      'value')
                     siblings = parent_self.findall(child_other.tag)
                     sibling = [s for s in siblings
-                               if s.text == child_other.get(value_tag)]
+                               if (s.text or '') == child_other.get(value_tag)]
                     if not sibling:
                         path = self.device.get_xpath(child_other)
                         value = child_other.get(value_tag)
@@ -1345,7 +1345,7 @@ class NetconfCalculator(BaseCalculator):
                         item.set(insert_tag, 'after')
                         precursor = sequence[i - 1]
                         if ordered_by_user[tag] == 'leaf-list':
-                            item.set(value_tag, precursor.text)
+                            item.set(value_tag, precursor.text or '')
                         else:
                             keys = ordered_by_user[tag]
                             key_nodes = {k: precursor.find(k) for k in keys}
@@ -1356,7 +1356,7 @@ class NetconfCalculator(BaseCalculator):
                             id_list = [
                                 "[{}={}]".format(
                                     ids[k],
-                                    self._quote(key_nodes[k].text),
+                                    self._quote(key_nodes[k].text or ''),
                                 )
                                 for k in keys
                             ]
@@ -1470,7 +1470,7 @@ class NetconfCalculator(BaseCalculator):
             Quoted key value.
         '''
 
-        return '"{}"'.format(text) if "'" in str(text) else "'{}'".format(text)
+        return '"{}"'.format(text) if "'" in text else "'{}'".format(text)
 
     @staticmethod
     def _url_to_prefix(node, id):
-- 
2.43.0


From 77a3066d94492b7bd3eac85a5498d7d24a69f7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:34 +0000
Subject: [PATCH 13/53] fix: empty delta of equal configs with user-ordered
 nodes at root level

---
 src/ncdiff/netconf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index f80ee23..f569793 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -206,7 +206,11 @@ class NetconfCalculator(BaseCalculator):
     def sub(self):
         ele1 = deepcopy(self.etree1)
         ele2 = deepcopy(self.etree2)
-        if self.diff_type == 'replace' and self.replace_depth == 0:
+        if self.eq:
+            # node_sub() assumes that two configs are different
+            for child in ele1.getchildren():
+                ele1.remove(child)
+        elif self.diff_type == 'replace' and self.replace_depth == 0:
             self.get_config_replace(ele1, ele2)
         else:
             self.node_sub(ele1, ele2, depth=0)
-- 
2.43.0


From 82b23d968d5a8ef788ade054c480a3a4fdaccedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:54 +0000
Subject: [PATCH 14/53] fix: generate a random seed when only random_depth is
 given

---
 src/ncdiff/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index d8beaa4..690e2b5 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -673,7 +673,7 @@ class ConfigDelta(object):
             raise ValueError("argument 'random_depth' must be a non-negative "
                              "integer or None, but not {} '{}'"
                              .format(type(random_depth), random_depth))
-        self._random_seed = random_seed
+        self.random_seed = random_seed
         if not isinstance(config_src, Config):
             raise TypeError("argument 'config_src' must be "
                             "yang.ncdiff.Config, but not '{}'"
-- 
2.43.0


From e07f898f81bb835353dd2102f36059aa0744953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:37 +0000
Subject: [PATCH 15/53] fix: find the statement of a config node in a list or a
 choice

---
 src/ncdiff/manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index b6c1c9e..580532f 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -740,9 +740,11 @@ class ModelDevice(manager.Manager):
         '''
         if self.compiler is None:
             return None
+        schema_node = Composer(self, node).schema_node
         return self.compiler.context.get_statement(
-            modulename=self.get_model_name(node),
-            xpath=self.get_xpath(node, type=Tag.LXML_XPATH, instance=False),
+            modulename=self.get_model_name(schema_node),
+            xpath=self.get_xpath(
+                schema_node, type=Tag.LXML_XPATH, instance=False),
         )
 
     def default_in_use(self, schema_node):
-- 
2.43.0


From e81877bf3b3c4d32fe135ab8494b1e38062decd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:27 +0000
Subject: [PATCH 16/53] fix: quote values that contain a double quote or are
 empty in get_xpath

---
 src/ncdiff/composer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/composer.py b/src/ncdiff/composer.py
index 3053a97..be4a154 100755
--- a/src/ncdiff/composer.py
+++ b/src/ncdiff/composer.py
@@ -193,6 +193,9 @@ class Composer(object):
                           'oc-eth:config/oc-eth:port-speed')
         """
 
+        def quote(text):
+            return "'{}'".format(text) if '"' in text else '"{}"'.format(text)
+
         def convert(default_ns, nodes, type):
             ret = ''
             for index, node in enumerate(nodes):
@@ -204,7 +207,10 @@ class Composer(object):
                     if n.schema_node is not None:
                         if n.schema_node.get('type') == 'leaf-list' and \
                            not (index == len(nodes)-1 and not instance):
-                            ret += '[text()="{}"]'.format(node.text)
+                            if node.text:
+                                ret += '[text()={}]'.format(quote(node.text))
+                            else:
+                                ret += '[.=""]'
                         elif (
                             n.schema_node.get('type') == 'list' and
                             not (index == len(nodes)-1 and not instance)
@@ -214,8 +220,8 @@ class Composer(object):
                                                              dst=type)[1]
                                 key_node = node.find(key)
                                 if key_node is not None:
-                                    ret += '[{}="{}"]'.format(id,
-                                                              key_node.text)
+                                    ret += '[{}={}]'.format(
+                                        id, quote(key_node.text or ''))
             return ret
 
         nodes = list(reversed(list(self.node.iterancestors())))[1:] + \
-- 
2.43.0


From ac1c0e7ab84618f2f000260e98236b795fd9e776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:25 +0000
Subject: [PATCH 17/53] fix: empty diff of equal running configs with repeated
 lines

---
 src/ncdiff/runningconfig.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index 8508937..b50da93 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -308,12 +308,13 @@ class ListDiff(object):
         for index, item in enumerate(diff_1):
             key, value, info = item
             if info == '?':
-                keys_after = set([k for k, v, i in diff_1[index+1:]])
+                keys_after = set([k for k, v, i in diff_1[index+1:]
+                                  if i != '?'])
                 if keys_before & keys_after:
                     diff_2.append((key, value, ''))
             else:
                 diff_2.append((key, value, info))
-            keys_before.add(key)
+                keys_before.add(key)
 
         return diff_2
 
-- 
2.43.0


From ec6b950eb0ba926c388a5a09e71c9220cb52b49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:51 +0000
Subject: [PATCH 18/53] fix: compare running config commands at word boundaries

---
 src/ncdiff/runningconfig.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index b50da93..02d0859 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -541,9 +541,9 @@ class RunningConfigDiff(object):
                     # - service timestamps debug datetime msec
                     # + service timestamps debug datetime msec localtime
                     #   show-timezone
-                    key_len = len(k)
                     matching_positive_keys = [
-                        key for key in positive_keys if key[:key_len] == k]
+                        key for key in positive_keys
+                        if key == k or key.startswith(k + ' ')]
                     if not matching_positive_keys:
                         self.append_command('no ' + k,
                                             negative_list, positive_list)
@@ -816,12 +816,9 @@ class RunningConfigDiff(object):
             for idx2_tmp in range(idx1_tmp + 1, len(cmds)):
                 idx2 = cmds[idx2_tmp]
                 c2 = negative_list[idx2]
-                if c1 == c2 or len(c1) == len(c2):
-                    continue
-                if len(c1) < len(c2):
-                    if c1 == c2[:len(c1)]:
-                        indexes.add(idx2)
-                elif c1[:len(c2)] == c2:
+                if c2.startswith(c1 + ' '):
+                    indexes.add(idx2)
+                elif c1.startswith(c2 + ' '):
                     indexes.add(idx1)
         if indexes:
             for idx in sorted(indexes, reverse=True):
@@ -837,12 +834,9 @@ class RunningConfigDiff(object):
             for idx2_tmp in range(idx1_tmp + 1, len(cmds)):
                 idx2 = cmds[idx2_tmp]
                 c2 = positive_list[idx2]
-                if c1 == c2 or len(c1) == len(c2):
-                    continue
-                if len(c1) < len(c2):
-                    if c1 == c2[:len(c1)]:
-                        indexes.add(idx1)
-                elif c1[:len(c2)] == c2:
+                if c2.startswith(c1 + ' '):
+                    indexes.add(idx1)
+                elif c1.startswith(c2 + ' '):
                     indexes.add(idx2)
         if indexes:
             for idx in sorted(indexes, reverse=True):
-- 
2.43.0


From f785b640dea7c370d4020873bfe77089ea4ac6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:23 +0000
Subject: [PATCH 19/53] fix: send all commands of an overwritable kind that
 have values

---
 src/ncdiff/runningconfig.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index 02d0859..7c6c78b 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -590,9 +590,14 @@ class RunningConfigDiff(object):
                         del negative_list[idx_negative]
 
                     # Overwrite previous matching positive CLIs
+                    # without a value. Such a CLI comes from a no command, e.g.,
+                    # "no ip address" is deleted. CLIs with values have to be
+                    # kept as there might be multiple IP addresses.
                     exact_cmd = m.group(0).strip()
                     if exact_cmd in idx_positive_dict:
-                        idx_positive_list.append(idx_positive_dict[exact_cmd])
+                        idx = idx_positive_dict[exact_cmd]
+                        if positive_list[idx].strip() == exact_cmd:
+                            idx_positive_list.append(idx)
                     idx_positive_dict[exact_cmd] = idx_positive
 
         if idx_positive_list:
-- 
2.43.0


From 4305030bbf6d57d6cf84a8173f01100c84c7b27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:50 +0000
Subject: [PATCH 20/53] fix: keep all nodes of the requested kind in model diff
 views

---
 src/ncdiff/model.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 51fd216..c76f061 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1817,16 +1817,11 @@ class ModelDiff(object):
         '''
 
         for child in list(parent):
-            diff = child.get('diff')
-            type = child.get('type')
-            if diff and diff != msg:
-                parent.remove(child)
-            elif (
-                type == 'container' or
-                type == 'list' or
-                type == 'choice' or
-                type == 'case'
-            ):
-                if ModelDiff.trim(child, msg):
+            no_child = ModelDiff.trim(child, msg)
+            if child.get('diff') != msg:
+                if no_child:
                     parent.remove(child)
+                elif child.get('diff'):
+                    # needed only because of its descendants
+                    del child.attrib['diff']
         return len(list(parent)) == 0
-- 
2.43.0


From 32b4ba97e3044f194addc7495c3b961f55384c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:11 +0000
Subject: [PATCH 21/53] fix: report attribute changes of all kinds of nodes in
 model diff

---
 src/ncdiff/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index c76f061..e2ca257 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1592,11 +1592,11 @@ class ModelDiff(object):
                 if ModelDiff.node_equal(peer, child):
                     continue
                 else:
-                    if child.attrib['type'] in ['leaf-list', 'leaf']:
-                        ModelDiff.copy_node(ret, child, 'modified')
+                    if dict(peer.attrib) != dict(child.attrib):
+                        ret_child = ModelDiff.copy_node(ret, child, 'modified')
                     else:
                         ret_child = ModelDiff.copy_node(ret, child, '')
-                        ModelDiff.compare_nodes(peer, child, ret_child)
+                    ModelDiff.compare_nodes(peer, child, ret_child)
         for child in node1:
             peer = ModelDiff.get_peer(child.tag, node2)
             if peer is None:
-- 
2.43.0


From 1dbea3e25ea6d3d65cb8c9196c9a5e5ca9af39c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:37 +0000
Subject: [PATCH 22/53] fix: compute identity values independently of previous
 compilations

---
 src/ncdiff/model.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index e2ca257..1abc63f 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1054,7 +1054,7 @@ class ModelCompiler(object):
         required_module_set = imports | depends
         required_module_set.add(module)
         self.context.internal_reset()
-        for m in required_module_set:
+        for m in sorted(required_module_set):
             modulefile = os.path.join(self.context.repository.dirs[0],
                                       m + '.yang')
             if os.path.isfile(modulefile):
@@ -1085,6 +1085,7 @@ class ModelCompiler(object):
         else:
             st.set('prefix', statement.arg)
 
+        self.identity_deps = {}
         for m_statement in self.context.modules.values():
             if m_statement.keyword == 'module':
                 namespace = etree.SubElement(st, 'namespace')
@@ -1104,24 +1105,18 @@ class ModelCompiler(object):
                 # prepare self.identity_deps
                 for idn in m_statement.i_identities.values():
                     curr_idn = m_statement.arg + ':' + idn.arg
-                    base_idn = idn.search_one("base")
-                    if base_idn is None:
-                        # identity does not have a base
-                        self.identity_deps.setdefault(curr_idn, [])
-                    else:
-                        # identity has a base
+                    self.identity_deps.setdefault(curr_idn, [])
+                    for base_idn in idn.search("base"):
                         base_idns = base_idn.arg.split(':')
                         if len(base_idns) > 1:
-                            # base is located in another module
-                            mn = m_statement.i_prefixes.get(base_idns[0])
+                            # base might be located in another module
+                            mn = idn.i_module.i_prefixes.get(base_idns[0])
                             b_idn = base_idns[1] if mn is None \
                                 else mn[0] + ':' + base_idns[1]
                         else:
-                            b_idn = module + ':' + base_idn.arg
-                        if self.identity_deps.get(b_idn) is None:
-                            self.identity_deps.setdefault(b_idn, [])
-                        else:
-                            self.identity_deps[b_idn].append(curr_idn)
+                            b_idn = m_statement.arg + ':' + base_idn.arg
+                        self.identity_deps.setdefault(b_idn, [])
+                        self.identity_deps[b_idn].append(curr_idn)
 
         for child in vm.i_children:
             if child.keyword in statements.data_definition_keywords:
-- 
2.43.0


From 87f00186aba690a06702f5bbd5244ab5a507b69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:58 +0000
Subject: [PATCH 23/53] fix: support modules that use the prefix of another
 module

---
 src/ncdiff/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 1abc63f..adcfd54 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -98,7 +98,7 @@ class Model(object):
         self.prefixes = {c.attrib['prefix']: c.text for c in ns}
         self.prefix = tree.attrib['prefix']
         self.url = self.prefixes[self.prefix]
-        self.urls = {v: k for k, v in self.prefixes.items()}
+        self.urls = {c.text: c.attrib['prefix'] for c in ns}
         self.convert_tree()
         self.width = {}
 
@@ -1086,7 +1086,9 @@ class ModelCompiler(object):
             st.set('prefix', statement.arg)
 
         self.identity_deps = {}
-        for m_statement in self.context.modules.values():
+        # another module might use the same prefix, so the module itself is last
+        for m_statement in sorted(self.context.modules.values(),
+                                  key=lambda m: m is vm):
             if m_statement.keyword == 'module':
                 namespace = etree.SubElement(st, 'namespace')
                 namespace.set('prefix', m_statement.i_prefix)
-- 
2.43.0


From 5f9399a3eb5e7d30950c505494e1ce67c5c8753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:21 +0000
Subject: [PATCH 24/53] fix: do not hang when a YANG file cannot be parsed

---
 src/ncdiff/model.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index adcfd54..d177988 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -535,21 +535,25 @@ class ContextWorker(Thread):
             except queue.Empty:
                 pass
             else:
-                with open(modulefile, 'r', encoding='utf-8') as f:
-                    text = f.read()
-                kwargs = {
-                    'ref': modulefile,
-                    'text': text,
-                }
-                if 'primary_module' in varnames:
-                    kwargs['primary_module'] = True
-                if 'format' in varnames:
-                    kwargs['format'] = 'yang'
-                if 'in_format' in varnames:
-                    kwargs['in_format'] = 'yang'
-                module_statement = self.context.add_module(**kwargs)
-                if module_statement is not None:
-                    self.context.update_dependencies(module_statement)
+                try:
+                    with open(modulefile, 'r', encoding='utf-8') as f:
+                        text = f.read()
+                    kwargs = {
+                        'ref': modulefile,
+                        'text': text,
+                    }
+                    if 'primary_module' in varnames:
+                        kwargs['primary_module'] = True
+                    if 'format' in varnames:
+                        kwargs['format'] = 'yang'
+                    if 'in_format' in varnames:
+                        kwargs['in_format'] = 'yang'
+                    module_statement = self.context.add_module(**kwargs)
+                    if module_statement is not None:
+                        self.context.update_dependencies(module_statement)
+                except Exception:
+                    logger.exception('Got error while parsing {}'
+                                     .format(modulefile))
                 self.context.modulefile_queue.task_done()
         logger.debug('Thread {} exits'.format(current_thread().name))
 
-- 
2.43.0


From a3f09e5488dcb39a85837ce9f0c384a57331783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:44 +0000
Subject: [PATCH 25/53] fix: create the dependency tree before the parser
 threads start

---
 src/ncdiff/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index d177988..c66fecb 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -711,6 +711,7 @@ class CompilerContext(Context):
         self.dependencies = read_xml(dependencies_file)
 
     def load_context(self):
+        self.dependencies = etree.Element('modules')
         self.modulefile_queue = queue.Queue()
         for filename in os.listdir(self.repository.dirs[0]):
             if filename.lower().endswith('.yang'):
-- 
2.43.0


From 2c8f09a79ebf00e43e8ef02dcbdf6d2154c50fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:14 +0000
Subject: [PATCH 26/53] fix: download a shared dependency only once

---
 src/ncdiff/model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index c66fecb..cf48886 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -7,7 +7,7 @@ import logging
 from lxml import etree
 from copy import deepcopy
 from ncclient import operations
-from threading import Thread, current_thread
+from threading import Lock, Thread, current_thread
 from pyang import statements
 try:
     from pyang.repository import FileRepository
@@ -795,6 +795,7 @@ class ModelDownloader(object):
         repo = FileRepository(path=self.dir_yang)
         self.context = CompilerContext(repository=repo)
         self.download_queue = queue.Queue()
+        self.download_lock = Lock()
         self.num_threads = 2
 
     @property
@@ -903,11 +904,12 @@ class ModelDownloader(object):
                 kwargs['in_format'] = 'yang'
             module_statement = self.context.add_module(**kwargs)
             dependencies = self.context.update_dependencies(module_statement)
-            s = dependencies - self.to_be_downloaded
+            with self.download_lock:
+                s = dependencies - self.to_be_downloaded
+                self.to_be_downloaded.update(s)
             if s:
                 logger.info('{} requires submodules: {}'
                             .format(module, ', '.join(s)))
-                self.to_be_downloaded.update(s)
                 for m in s:
                     self.download_queue.put(m)
         else:
-- 
2.43.0


From 1ed4c707ca59a55df5d270aa2c962d3b33007bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:40 +0000
Subject: [PATCH 27/53] fix: skip a downloaded module that cannot be parsed

---
 src/ncdiff/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index cf48886..55d8358 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -903,6 +903,10 @@ class ModelDownloader(object):
             if 'in_format' in varnames:
                 kwargs['in_format'] = 'yang'
             module_statement = self.context.add_module(**kwargs)
+            if module_statement is None:
+                logger.warning("Module or submodule '{}' cannot be parsed"
+                               .format(module))
+                return
             dependencies = self.context.update_dependencies(module_statement)
             with self.download_lock:
                 s = dependencies - self.to_be_downloaded
-- 
2.43.0


From 7b3e40ed43c6c56737761adb1514069324155509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:05 +0000
Subject: [PATCH 28/53] fix: remove capabilities.txt first when cleaning up the
 folder of models

---
 src/ncdiff/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 55d8358..64d67e0 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -833,7 +833,10 @@ class ModelDownloader(object):
                         .format(self.yang_capabilities))
             return
 
-        # clean up folder self.dir_yang
+        # clean up folder self.dir_yang. self.yang_capabilities goes first, as an
+        # incomplete folder must not match device capabilities.
+        if os.path.isfile(self.yang_capabilities):
+            os.remove(self.yang_capabilities)
         for root, dirs, files in os.walk(self.dir_yang):
             for f in files:
                 os.remove(os.path.join(root, f))
-- 
2.43.0


From c664669a74497668df7ec39dba338ec0caa997c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:57 +0000
Subject: [PATCH 29/53] fix: download models again after a failed download

---
 src/ncdiff/model.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 64d67e0..a805f0f 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -517,6 +517,7 @@ class DownloadWorker(Thread):
                     self.downloader.download(module)
                 except Exception:
                     logger.exception('Got error while downloading')
+                    self.downloader.download_failed = True
                 self.downloader.download_queue.task_done()
         logger.debug('Thread {} exits'.format(current_thread().name))
 
@@ -842,6 +843,7 @@ class ModelDownloader(object):
                 os.remove(os.path.join(root, f))
 
         # download all
+        self.download_failed = False
         self.to_be_downloaded = set(self.device.models_loadable)
         self.context.dependencies = etree.Element('modules')
         for module in sorted(list(self.to_be_downloaded)):
@@ -853,10 +855,13 @@ class ModelDownloader(object):
             worker.start()
         self.download_queue.join()
 
-        # write self.yang_capabilities
-        capabilities = '\n'.join(sorted(list(self.device.server_capabilities)))
-        with open(self.yang_capabilities, 'wb') as f:
-            f.write(capabilities.encode('utf-8'))
+        # write self.yang_capabilities, unless something has to be downloaded
+        # again next time
+        if not self.download_failed:
+            capabilities = \
+                '\n'.join(sorted(list(self.device.server_capabilities)))
+            with open(self.yang_capabilities, 'wb') as f:
+                f.write(capabilities.encode('utf-8'))
 
         # write dependencies
         self.context.write_dependencies()
-- 
2.43.0


From db2c43c5e9f033c57deae7f81a8abd690317e321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:05 +0000
Subject: [PATCH 30/53] fix: do not fail to send elements that contain comments

---
 src/ncdiff/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/__init__.py b/src/ncdiff/__init__.py
index 8b26785..cc44a1d 100755
--- a/src/ncdiff/__init__.py
+++ b/src/ncdiff/__init__.py
@@ -98,7 +98,8 @@ if getattr(transport, 'notify', None):
 # https://bugs.launchpad.net/lxml/+bug/1424232
 def _append(self, element):
     def recreate(parent_src, parent_dst):
-        for child_src in parent_src:
+        # comments and processing instructions are not sent
+        for child_src in parent_src.iterchildren(tag=etree.Element):
             child_dst = etree.SubElement(parent_dst,
                                          child_src.tag,
                                          attrib=child_src.attrib,
-- 
2.43.0


From 97840ae9fcaac2dbe9f862231062ffef6fb538ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:13 +0000
Subject: [PATCH 31/53] fix: do not request notifications as data of a model

---
 src/ncdiff/manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 580532f..8461264 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -388,6 +388,9 @@ class ModelDevice(manager.Manager):
             except ConfigError:
                 # a choice or a case, which does not exist in a data tree
                 return None
+            if node.get('type') == 'notification':
+                # a notification does not exist in a data tree either
+                return None
             return node.get('access')
 
         # allow for operation string type
-- 
2.43.0


From 4f6743affa8c9b6a8dcfb0a6119e258657473942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:12 +0000
Subject: [PATCH 32/53] fix: remove containers without config when extracting
 config

---
 src/ncdiff/manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 8461264..41134d1 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -529,6 +529,10 @@ class ModelDevice(manager.Manager):
                     parent.remove(child)
                 elif len(child) > 0:
                     remove_read_only(child)
+                    if len(child) == 0 and \
+                       schema_node.get('type') == 'container' and \
+                       schema_node.get('presence') != 'true':
+                        parent.remove(child)
 
         config = Config(self, reply, validate=True,
                         remove_deprecated=remove_deprecated)
-- 
2.43.0


From cf9d894546ca6ccf751eccda62023ef7976e20f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:19 +0000
Subject: [PATCH 33/53] fix: give each namespace a prefix of its own

---
 src/ncdiff/manager.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 41134d1..9f3df64 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -1013,11 +1013,22 @@ class ModelDevice(manager.Manager):
         urls = set()
         for node in root.iter():
             urls.update([u for p, u in node.nsmap.items()])
-        ret = {url: get_prefix(url) for url in urls}
+        # a prefix of a model is not necessarily unique
+        ret = {}
+        others = []
+        for url in sorted(urls, key=lambda u: (u not in special_prefixes, u)):
+            prefix = get_prefix(url)
+            if prefix is None:
+                logger.warning('{} cannot be found in namespaces of any ' \
+                               'models'.format(url))
+                others.append(url)
+            elif prefix in ret:
+                others.append(url)
+            else:
+                ret[prefix] = url
         i = 0
-        for url in [url for url in ret if ret[url] is None]:
-            logger.warning('{} cannot be found in namespaces of any ' \
-                           'models'.format(url))
-            ret[url] = 'ns{:02d}'.format(i)
-            i += 1
-        return {p: u for u, p in ret.items()}
+        for url in others:
+            while 'ns{:02d}'.format(i) in ret:
+                i += 1
+            ret['ns{:02d}'.format(i)] = url
+        return ret
-- 
2.43.0


From 4fc742da52246c78e4264ead421455aaa6ae8ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:48 +0000
Subject: [PATCH 34/53] fix: load a compiled model file that declares its
 encoding

---
 src/ncdiff/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 9f3df64..85f244c 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -309,7 +309,7 @@ class ModelDevice(manager.Manager):
             file_name, file_ext = os.path.splitext(model)
             if file_ext.lower() == '.xml':
                 logger.debug('Read model file {}'.format(model))
-                with open(model, 'r') as f:
+                with open(model, 'rb') as f:
                     xml = f.read()
                 parser = etree.XMLParser(remove_blank_text=True)
                 tree = etree.XML(xml, parser)
-- 
2.43.0


From c6f26cb8edfc53dc94fe43d33ab354f570b6a249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:01 +0000
Subject: [PATCH 35/53] fix: update namespaces when models are scanned again

---
 src/ncdiff/manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 85f244c..b844a9b 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -272,6 +272,7 @@ class ModelDevice(manager.Manager):
             d = ModelDownloader(self, folder)
             d.download_all(check_before_download=(download == 'check'))
         self.compiler = ModelCompiler(folder)
+        self._namespaces = None
 
     def load_model(self, model):
         '''load_model
-- 
2.43.0


From d65f97c0d18fa8326f0cb330504239ea23c6fe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:44 +0000
Subject: [PATCH 36/53] fix: find models whose names contain an underscore or a
 period

---
 src/ncdiff/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index b844a9b..4bd457e 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -202,7 +202,7 @@ class ModelDevice(manager.Manager):
                         "'ietf-yang-library':\n{}".format(reply))
 
         # RFC6020 section 5.6.4
-        regexp_str = r'module=([a-zA-Z0-9-]+)\&{0,1}'
+        regexp_str = r'module=([a-zA-Z0-9_.-]+)\&{0,1}'
         modules = []
         for capability in iter(self.server_capabilities):
             match = re.search(regexp_str, capability)
-- 
2.43.0


From 09a110f13a23f9bed691d0955093737a2c142bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:45 +0000
Subject: [PATCH 37/53] fix: find models listed by ietf-yang-library

---
 src/ncdiff/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 4bd457e..ccbcbcd 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -135,6 +135,7 @@ class ModelDevice(manager.Manager):
         NC_MONITORING = xml_.NETCONF_MONITORING_NS
         YANG_LIB = 'urn:ietf:params:netconf:capability:yang-library'
         YANG_LIB_1_0 = YANG_LIB + ':1.0'
+        YANG_LIB_NS = 'urn:ietf:params:xml:ns:yang:ietf-yang-library'
         NC_MONITORING_FILTER = """
             <filter xmlns="urn:ietf:params:xml:ns:netconf:base:1.0" type="subtree">
               <netconf-state xmlns="urn:ietf:params:xml:ns:yang:ietf-netconf-monitoring">
@@ -179,7 +180,7 @@ class ModelDevice(manager.Manager):
         # RFC7950 section 5.6.4
         if [c for c in self.server_capabilities
                 if c[:len(YANG_LIB_1_0)] == YANG_LIB_1_0]:
-            n = {'nc': nc_url, 'yanglib': YANG_LIB}
+            n = {'nc': nc_url, 'yanglib': YANG_LIB_NS}
             p = '/nc:rpc-reply/nc:data/yanglib:modules-state' \
                 '/yanglib:module/yanglib:name'
             try:
-- 
2.43.0


From b6c8b9d4d9a0508e0deab4cef3b93f0ada78bd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:58 +0000
Subject: [PATCH 38/53] fix: show mandatory anyxml and anydata in compiled
 models

---
 src/ncdiff/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index a805f0f..b4cfe64 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1184,6 +1184,10 @@ class ModelCompiler(object):
             cases = [c.arg for c in child.search('case')]
             if cases:
                 n.set('values', '|'.join(cases))
+        elif child.keyword in ['anyxml', 'anydata']:
+            sm = child.search_one('mandatory')
+            if sm is not None and sm.arg == 'true':
+                n.set('mandatory', 'true')
         elif child.keyword in ['leaf', 'leaf-list']:
             self.set_leaf_datatype_value(child, n)
             sm = child.search_one('mandatory')
-- 
2.43.0


From 9b4b5487680351129564229964d9c9aa07b34033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:30 +0000
Subject: [PATCH 39/53] fix: set access of nodes in actions and nested
 notifications

---
 src/ncdiff/model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index b4cfe64..e36dc14 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1236,7 +1236,11 @@ class ModelCompiler(object):
 
         if hasattr(child, 'i_children'):
             for c in child.i_children:
-                if mode == 'rpc' and c.keyword in ['input', 'output']:
+                if (
+                    c.keyword in ['input', 'output'] and
+                    child.keyword in ['rpc', 'action'] or
+                    c.keyword == 'notification'
+                ):
                     self.depict_a_schema_node(module, n, c, mode=c.keyword)
                 else:
                     self.depict_a_schema_node(module, n, c, mode=mode)
@@ -1245,7 +1249,7 @@ class ModelCompiler(object):
     def set_access(statement, node, mode):
         if (
             mode in ['input', 'rpc'] or
-            statement.keyword == 'rpc' or
+            statement.keyword in ['rpc', 'action'] or
             statement.keyword == ('tailf-common', 'action')
         ):
             node.set('access', 'write')
-- 
2.43.0


From beb3293412f33b04603c3f05b5a92bb772b5d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:20 +0000
Subject: [PATCH 40/53] fix: use the default value of a typedef in compiled
 models

---
 src/ncdiff/model.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index e36dc14..6edc2a4 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1164,6 +1164,8 @@ class ModelCompiler(object):
         if sm is not None and sm.arg in ['deprecated', 'obsolete']:
             n.set('status', sm.arg)
         sm = child.search('default')
+        if not sm:
+            sm = self.typedef_default(child)
         if sm is not None and len(sm) > 0:
             n.set('default', ",".join(map(lambda x: x.arg, sm)))
         if child.keyword == 'list':
@@ -1245,6 +1247,29 @@ class ModelCompiler(object):
                 else:
                     self.depict_a_schema_node(module, n, c, mode=mode)
 
+    @staticmethod
+    def typedef_default(statement):
+        # RFC 7950 7.6.1 and 7.7.2: the default of the type is used when a leaf
+        # is not mandatory, or when a leaf-list has no min-elements
+        if (
+            statement.keyword not in ['leaf', 'leaf-list'] or
+            hasattr(statement, 'i_is_key')
+        ):
+            return []
+        sm = statement.search_one('mandatory')
+        if sm is not None and sm.arg == 'true':
+            return []
+        sm = statement.search_one('min-elements')
+        if sm is not None and sm.arg != '0':
+            return []
+        sm = statement.search_one('type')
+        while sm is not None and getattr(sm, 'i_typedef', None) is not None:
+            default = sm.i_typedef.search('default')
+            if default:
+                return default
+            sm = sm.i_typedef.search_one('type')
+        return []
+
     @staticmethod
     def set_access(statement, node, mode):
         if (
-- 
2.43.0


From 0101c156c74ec2fc86e1775cb8636f680ae47d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:02 +0000
Subject: [PATCH 41/53] fix: resolve prefixes in values of types derived from
 identityref

---
 src/ncdiff/calculator.py | 36 ++++++++++++++++++++++++++++--------
 src/ncdiff/model.py      | 24 +++++++++++++++++++++++-
 2 files changed, 51 insertions(+), 9 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index 6c2f4f7..9a4aaa5 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -400,12 +400,10 @@ class BaseCalculator(object):
 
         if schema_node is None:
             schema_node = self.device.get_schema_node(node)
-        if schema_node.get('datatype') is not None and \
-          (schema_node.get('datatype')[:11] == 'identityref'):
+        if self._basetype(schema_node) == 'identityref':
             idref = IdentityRef(self.device, node)
             return idref.default
-        elif schema_node.get('datatype') is not None and \
-             schema_node.get('datatype') == 'instance-identifier':
+        elif self._basetype(schema_node) == 'instance-identifier':
             instanceid = InstanceIdentifier(self.device, node)
             return instanceid.default
         else:
@@ -414,6 +412,30 @@ class BaseCalculator(object):
                 return None
             return node.text
 
+    @staticmethod
+    def _basetype(schema_node):
+        '''_basetype
+
+        Low-level api: Return the built-in type of a leaf or a leaf-list if its
+        values contain prefixes. It might be derived from the built-in type by
+        typedef or leafref.
+
+        Parameters
+        ----------
+
+        schema_node : `Element`
+            An Element node in schema tree.
+
+        Returns
+        -------
+
+        str
+            'identityref', 'instance-identifier' or something else.
+        '''
+
+        datatype = schema_node.get('datatype', '')
+        return schema_node.get('basetype', datatype.split(':')[0])
+
     def _same_text(self, node1, node2):
         '''_same_text
 
@@ -465,13 +487,11 @@ class BaseCalculator(object):
             to_node.text = None
             return
         schema_node = self.device.get_schema_node(from_node)
-        if schema_node.get('datatype') is not None and \
-           schema_node.get('datatype')[:11] == 'identityref':
+        if self._basetype(schema_node) == 'identityref':
             idref = IdentityRef(self.device,
                                 from_node, to_node=to_node)
             to_node.text = idref.converted
-        elif schema_node.get('datatype') is not None and \
-             schema_node.get('datatype') == 'instance-identifier':
+        elif self._basetype(schema_node) == 'instance-identifier':
             instanceid = InstanceIdentifier(self.device,
                                             from_node, to_node=to_node)
             to_node.text = instanceid.converted
diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 6edc2a4..8f1adca 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1321,6 +1321,14 @@ class ModelCompiler(object):
                 datatype = sm.arg
             leaf_node.set('datatype', datatype)
 
+            # values of these types contain prefixes
+            basetype = self.basetype(leaf_statement)
+            if (
+                basetype in ['identityref', 'instance-identifier'] and
+                basetype != sm.arg
+            ):
+                leaf_node.set('basetype', basetype)
+
             type_values = self.type_values(sm)
             if type_values:
                 leaf_node.set('values', type_values)
@@ -1330,6 +1338,20 @@ class ModelCompiler(object):
                     '|'.join([m.arg for m in sm.search('type')])
                 )
 
+    @staticmethod
+    def basetype(leaf_statement):
+        visited = []
+        while leaf_statement is not None and leaf_statement not in visited:
+            visited.append(leaf_statement)
+            sm = leaf_statement.search_one('type')
+            while getattr(sm, 'i_typedef', None) is not None:
+                sm = sm.i_typedef.search_one('type')
+            if sm is None or sm.arg != 'leafref':
+                break
+            pointer = getattr(leaf_statement, 'i_leafref_ptr', None)
+            leaf_statement = None if pointer is None else pointer[0]
+        return None if sm is None else sm.arg
+
     def type_values(self, type_statement):
         if type_statement is None:
             return ''
@@ -1734,7 +1756,7 @@ class ModelDiff(object):
 
         known_attrib = ['type', 'access', 'mandatory', 'presence', 'values',
                         'key', 'is_key', 'prefix', 'datatype', 'if-feature',
-                        'ordered-by', 'default']
+                        'ordered-by', 'default', 'basetype']
         for node in element.iter():
             for attrib in node.attrib.keys():
                 if attrib not in known_attrib:
-- 
2.43.0


From 53ee85604b2d7ba0a1b4631c7ba64988a58b3732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:04 +0000
Subject: [PATCH 42/53] fix: list indirectly derived identities in compiled
 models

---
 src/ncdiff/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 8f1adca..a14c650 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1396,7 +1396,11 @@ class ModelCompiler(object):
                 idn_key = my_modulename + ':' + base_idn.arg
 
             value_stmts = []
-            values = self.identity_deps.get(idn_key, [])
+            values = list(self.identity_deps.get(idn_key, []))
+            for value in values:
+                # identities are derived from the base directly or indirectly
+                values.extend(i for i in self.identity_deps.get(value, [])
+                              if i not in values)
             for value in values:
                 ids = value.split(':')
                 value_stmts.append(self.module_prefixes[ids[0]] + ':' + ids[1])
-- 
2.43.0


From 8b9612fec268252694e6fd0b4169bf03c67eba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:13 +0000
Subject: [PATCH 43/53] fix: negate commands that begin like an overwritable
 command

---
 src/ncdiff/runningconfig.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index 7c6c78b..d47ff67 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -576,12 +576,11 @@ class RunningConfigDiff(object):
 
                     # Remove matching negative CLIs
                     exact_cmd = 'no ' + m.group(0).lstrip()
-                    len_exact_cmd = len(exact_cmd)
                     for idx_negative, line in enumerate(negative_list):
                         cmd_line = line.lstrip()
                         if (
-                            len(cmd_line) >= len_exact_cmd and
-                            cmd_line[:len_exact_cmd] == exact_cmd
+                            cmd_line == exact_cmd or
+                            cmd_line.startswith(exact_cmd.rstrip() + ' ')
                         ):
                             break
                     else:
-- 
2.43.0


From 382a4dbabc385a5a1e31c739bf177b2b9b448578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:17 +0000
Subject: [PATCH 44/53] fix: keep lines after client commands out of the client
 sections

---
 src/ncdiff/runningconfig.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index d47ff67..4718759 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -419,7 +419,7 @@ class RunningConfigDiff(object):
         list_2 = self.config2list(str_in_2)
         return self.handle_orderless(list_1, list_2, 0)
 
-    def config2list(self, str_in):
+    def config2list(self, str_in, parent=''):
         list_ret = []
         last_line = ''
         last_section = ''
@@ -439,7 +439,7 @@ class RunningConfigDiff(object):
                     if last_indentation > 0:
                         list_ret.append((
                             last_line.rstrip(),
-                            self.config2list(last_section),
+                            self.config2list(last_section, last_line),
                             '',
                         ))
                     else:
@@ -471,8 +471,11 @@ class RunningConfigDiff(object):
                 else:
                     last_section += line[last_indentation:] + '\n'
             else:
+                # Only siblings that are displayed below the first one are
+                # followed by children without indentation.
                 if any(
-                    [re.search(regx, line) for regx in MISSING_INDENT_COMMANDS]
+                    [re.search(regx, line) and re.search(regx, parent)
+                     for regx in MISSING_INDENT_COMMANDS]
                 ):
                     missing_indent = True
                 elif missing_indent:
@@ -485,7 +488,7 @@ class RunningConfigDiff(object):
                     if last_indentation > 0:
                         list_ret.append((
                             last_line.rstrip(),
-                            self.config2list(last_section),
+                            self.config2list(last_section, last_line),
                             '',
                         ))
                     else:
@@ -496,7 +499,10 @@ class RunningConfigDiff(object):
         if last_line:
             if last_indentation > 0:
                 list_ret.append((
-                    last_line.rstrip(), self.config2list(last_section), ''))
+                    last_line.rstrip(),
+                    self.config2list(last_section, last_line),
+                    '',
+                ))
             else:
                 list_ret.append((last_line.rstrip(), None, ''))
         return list_ret
-- 
2.43.0


From fe5f71862fb065cf542c17558611ba76d3a9c40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:42 +0000
Subject: [PATCH 45/53] fix: accept line breaks between the keys of a list

---
 src/ncdiff/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index a14c650..a9167af 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1171,7 +1171,8 @@ class ModelCompiler(object):
         if child.keyword == 'list':
             sm = child.search_one('key')
             if sm is not None:
-                n.set('key', sm.arg)
+                # keys might be separated by line breaks
+                n.set('key', ' '.join(sm.arg.split()))
             sm = child.search_one('ordered-by')
             if sm is not None and sm.arg == 'user':
                 n.set('ordered-by', 'user')
-- 
2.43.0


From 2f1530f6cbfbef6921b84df30953f02dd04c96c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:05 +0000
Subject: [PATCH 46/53] fix: do not share elements between a config and its
 copy

---
 src/ncdiff/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 690e2b5..383e948 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -78,7 +78,7 @@ class Config(object):
             self.parser = NetconfParser(self.device, config)
             self.ele = self.parser.ele
         elif isinstance(config, Config):
-            self.ele = config.ele
+            self.ele = deepcopy(config.ele)
         else:
             raise TypeError("argument 'config' must be None, XML string, "
                             "or Element, but not '{}'"
-- 
2.43.0


From a9235108f4d8054fa83597a427d27230ab8468b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:23 +0000
Subject: [PATCH 47/53] fix: keep the double quotes of literals with
 apostrophes

---
 src/ncdiff/ref.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index f992b0e..70211e1 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -299,9 +299,10 @@ class InstanceIdentifier(IdentityRef):
 
     @staticmethod
     def convert_literal(literal):
-        converted_literal = literal[1:-1]
-        converted_literal = re.sub("'", "''", converted_literal)
-        return "'" + re.sub('""', '"', converted_literal) + "'"
+        if "'" in literal:
+            # There is no way to write an apostrophe between apostrophes
+            return literal
+        return "'" + re.sub('""', '"', literal[1:-1]) + "'"
 
     def parse_quote(self):
         string = self.string(1)
-- 
2.43.0


From e37dd367589d568ff11fd9c33dfc6f1f5ef1edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:54 +0000
Subject: [PATCH 48/53] fix: accept spaces in instance-identifiers

---
 src/ncdiff/ref.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index 70211e1..74bf945 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -163,11 +163,11 @@ class InstanceIdentifier(IdentityRef):
         '''
 
         IdentityRef.__init__(self, device, node, to_node=to_node)
-        self.str_list = [(self.node.text, 0, self.node.text)]
+        self.reset_str_list()
 
     @property
     def converted(self):
-        self.str_list = [(self.node.text, 0, self.node.text)]
+        self.reset_str_list()
         self.parse_quote()
         self.parse_square_bracket(to_node=self.to_node)
         self.parse_element(to_node=self.to_node)
@@ -176,13 +176,21 @@ class InstanceIdentifier(IdentityRef):
 
     @property
     def default(self):
-        self.str_list = [(self.node.text, 0, self.node.text)]
+        self.reset_str_list()
         self.parse_quote()
         self.parse_square_bracket()
         self.parse_element()
         self.convert_str_list()
         return ''.join([p[2] for p in self.str_list])
 
+    def reset_str_list(self):
+        # RFC7950 section 14: spaces are allowed in predicates, and they do not
+        # matter outside of literals
+        text = re.sub(r"""("[^"]*"|'[^']*')|[ \t]+""",
+                      lambda match: match.group(1) or '',
+                      self.node.text or '')
+        self.str_list = [(text, 0, text)]
+
     def string(self, phase_num):
         return ''.join([p[0] for p in self.str_list
                         if p[1] == 0 or p[1] >= phase_num])
-- 
2.43.0


From 890f4c2bef64daf709a5d2873a05b33a34b90618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:11 +0000
Subject: [PATCH 49/53] fix: quote values holding both kinds of quotes in XPath
 expressions

---
 src/ncdiff/composer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/composer.py b/src/ncdiff/composer.py
index be4a154..a2083ea 100755
--- a/src/ncdiff/composer.py
+++ b/src/ncdiff/composer.py
@@ -194,7 +194,13 @@ class Composer(object):
         """
 
         def quote(text):
-            return "'{}'".format(text) if '"' in text else '"{}"'.format(text)
+            if '"' not in text:
+                return '"{}"'.format(text)
+            if "'" not in text:
+                return "'{}'".format(text)
+            # There is no literal in XPath 1.0 with both kinds of quotes
+            pieces = ['"{}"'.format(piece) for piece in text.split('"')]
+            return 'concat({})'.format(", '\"', ".join(pieces))
 
         def convert(default_ns, nodes, type):
             ret = ''
-- 
2.43.0


From 33db6e2edcccc739351dc1221faee2806ddcdde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:39 +0000
Subject: [PATCH 50/53] fix: write keys of insert attributes with the prefixes
 of their own node

---
 src/ncdiff/netconf.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index f569793..32a2757 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -450,10 +450,7 @@ class NetconfCalculator(BaseCalculator):
                     else:
                         keys = ordered_by_user[tag]
                         key_nodes = {k: precursor.find(k) for k in keys}
-                        ids = {
-                            k: self._url_to_prefix(n, k)
-                            for k, n in key_nodes.items()
-                        }
+                        ids = {k: self._url_to_prefix(item, k) for k in keys}
                         id_list = [
                             "[{}={}]".format(
                                 ids[k], self._quote(key_nodes[k].text or ''))
@@ -1354,8 +1351,7 @@ class NetconfCalculator(BaseCalculator):
                             keys = ordered_by_user[tag]
                             key_nodes = {k: precursor.find(k) for k in keys}
                             ids = {
-                                k: self._url_to_prefix(n, k)
-                                for k, n in key_nodes.items()
+                                k: self._url_to_prefix(item, k) for k in keys
                             }
                             id_list = [
                                 "[{}={}]".format(
-- 
2.43.0


From 40423b0d4dcd591e721cf23d697abb642b8a0354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:39 +0000
Subject: [PATCH 51/53] fix: compile submodules that augment another module
 with their module

---
 src/ncdiff/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index a9167af..5550394 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1041,6 +1041,9 @@ class ModelCompiler(object):
             if list(filter(lambda i: i.get('module') == module,
                            m.findall('./imports/import'))):
                 depends.add(m.get('id'))
+                # a submodule cannot be compiled without its module
+                depends.update(i.get('module')
+                               for i in m.findall('./belongs-to'))
             if list(filter(lambda i: i.get('module') == module,
                            m.findall('./includes/include'))):
                 depends.add(m.get('id'))
-- 
2.43.0


From cce11c1b3903858376695b9ae48260f777f88a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:09 +0000
Subject: [PATCH 52/53] fix: accept a positional target on devices without
 candidate

---
 src/ncdiff/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index ccbcbcd..2781415 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -436,7 +436,8 @@ class ModelDevice(manager.Manager):
                 args_list = list(args)
                 args_list[0] = args[0].ele
                 args = tuple(args_list)
-            if 'target' not in kwargs and \
+            # target is the third positional argument
+            if 'target' not in kwargs and len(args) < 3 and \
                'urn:ietf:params:netconf:capability:candidate:1.0' not in \
                self.server_capabilities and \
                'urn:ietf:params:netconf:capability:writable-running:1.0' in \
-- 
2.43.0


From 5ee55342623def7e3f338e440dbf4f284f4b0b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:10 +0000
Subject: [PATCH 53/53] fix: send configs and deltas given to edit_config in
 any position

---
 src/ncdiff/manager.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 2781415..dbdc3e5 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -7,7 +7,7 @@ from ncclient import manager, operations, transport, xml_
 from ncclient.devices.default import DefaultDeviceHandler
 
 from .model import Model, ModelDownloader, ModelCompiler
-from .config import Config
+from .config import Config, ConfigDelta
 from .errors import ModelError, ModelMissing, ConfigError
 from .composer import Tag, Composer
 
@@ -395,6 +395,14 @@ class ModelDevice(manager.Manager):
                 return None
             return node.get('access')
 
+        def get_element(config):
+            if isinstance(config, Config):
+                return config.ele
+            elif isinstance(config, ConfigDelta):
+                return config.nc
+            else:
+                return config
+
         # allow for operation string type
         if type(operation) is str:
             try:
@@ -432,10 +440,10 @@ class ModelDevice(manager.Manager):
                                      'models: {}'.format(str(models)[1:-1]))
                 kwargs['filter'] = build_filter(models, roots)
         elif cls == operations.edit.EditConfig:
-            if args and isinstance(args[0], Config):
-                args_list = list(args)
-                args_list[0] = args[0].ele
-                args = tuple(args_list)
+            if args:
+                args = (get_element(args[0]),) + tuple(args[1:])
+            elif 'config' in kwargs:
+                kwargs['config'] = get_element(kwargs['config'])
             # target is the third positional argument
             if 'target' not in kwargs and len(args) < 3 and \
                'urn:ietf:params:netconf:capability:candidate:1.0' not in \
-- 
2.43.0

