From 989549545af56d829ffd17b327e2cf115dd7f043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 01/73] fix: merge must not modify the receiver's value in
 place

---
 yangson/instance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 0d9a575..79a91a7 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -320,7 +320,7 @@ class InstanceNode:
         return self._merge_container(newval)
 
     def _merge_list(self, value: ArrayValue) -> "InstanceNode":
-        inst = self._copy(self.value)
+        inst = self._copy(self.value.copy())
         if isinstance(self.schema_node, LeafListNode):
             inst.value += [
                 en for en in value if en in set(value) - set(self.value)]
@@ -338,7 +338,7 @@ class InstanceNode:
         return inst
 
     def _merge_container(self, value: ObjectValue) -> "InstanceNode":
-        inst = self._copy(self.value)
+        inst = self._copy(self.value.copy())
         rest = []
         for k in value:
             if k in self.value:
-- 
2.43.0


From c51d765e228db57c786072d3fc802011bef97956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 02/73] fix: merge appends entries of keyless lists instead of
 mixing them up

---
 yangson/instance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index 79a91a7..791ae42 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -326,6 +326,9 @@ class InstanceNode:
                 en for en in value if en in set(value) - set(self.value)]
             return inst
         keys = self.schema_node._key_members
+        if not keys:
+            inst.value += value
+            return inst
         mki = {}
         for i in range(len(value)):
             mki[tuple([value[i][k] for k in keys])] = i
-- 
2.43.0


From c57182f5f334d4c02e6c29777a1699a55dc1c747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 03/73] fix: merge on array entries (raw values, leaf-list
 entries) and anyxml

---
 yangson/instance.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 791ae42..20da597 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -310,7 +310,8 @@ class InstanceNode:
         Returns:
             Copy of the receiver with the merged value.
         """
-        if (isinstance(self.schema_node, (LeafNode, AnydataNode)) or
+        if (isinstance(self.schema_node, (LeafNode, AnyContentNode)) or
+                not isinstance(self.value, StructuredValue) or
                 not self.value):
             return self.update(value, raw)
         newval = self.schema_node.from_raw(
@@ -879,6 +880,14 @@ class ArrayEntry(InstanceNode):
         """
         return super().update(self._cook_value(value, raw), False)
 
+    def merge(self, value: Union[RawValue, Value],
+              raw: bool = False) -> "ArrayEntry":
+        """Merge receiver's value with another value.
+
+        This method overrides the superclass method.
+        """
+        return super().merge(self._cook_value(value, raw), False)
+
     def previous(self) -> "ArrayEntry":
         """Return an instance node corresponding to the previous entry.
 
@@ -1360,7 +1369,7 @@ class InstanceIdParser(Parser):
 
 
 from .schemanode import (       # NOQA
-            AnyContentNode, AnydataNode, CaseNode,
+            AnyContentNode, CaseNode,
             ChoiceNode, DataNode, InputNode,
             InternalNode, LeafNode, LeafListNode, ListNode, NotificationNode,
             OutputNode, RpcActionNode, SequenceNode, SchemaTreeNode,
-- 
2.43.0


From c523c281dc338f7e640c7aee64ec4f91eebb0b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 04/73] fix: insert_after returns an entry with the index of
 the new entry

---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 20da597..689b2a8 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -953,7 +953,7 @@ class ArrayEntry(InstanceNode):
         nbef = self.before.copy()
         nbef.appendleft(self.value)
         return ArrayEntry(
-            self.index, nbef, self.after, self._cook_value(value, raw),
+            self.index + 1, nbef, self.after, self._cook_value(value, raw),
             self.parinst, self.schema_node, datetime.now())
 
     def _cook_value(self, value: Union[RawValue, Value], raw: bool) -> Value:
-- 
2.43.0


From 6e10a7d500991b6a4e5af3f5a1bce88b45ce5052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 05/73] fix: members are stored and looked up under their
 normalized names

---
 yangson/instance.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 689b2a8..bc7d193 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -211,9 +211,10 @@ class InstanceNode:
             raise InstanceValueError(self, "member of non-object")
         csn = self._member_schema_node(name)
         newval = self.value.copy()
-        newval[name] = (csn.from_raw(value, self.json_pointer()) if raw
-                        else value)
-        return self._copy(newval)._member(name)
+        iname = csn.iname()
+        newval[iname] = (csn.from_raw(value, self.json_pointer()) if raw
+                         else value)
+        return self._copy(newval)._member(iname)
 
     def delete_item(self, key: InstanceKey) -> "InstanceNode":
         """Delete an item (member or entry) from receiver's value.
@@ -229,6 +230,8 @@ class InstanceNode:
             raise InstanceValueError(self, "scalar value")
         newval = self.value.copy()
         try:
+            if isinstance(self.value, ObjectValue):
+                key = self._local_name(key)
             del newval[key]
         except (KeyError, IndexError, TypeError):
             raise NonexistentInstance(self, f"item '{key}'") from None
@@ -612,10 +615,16 @@ class InstanceNode:
         if isinstance(self.value, ObjectValue):
             return [m for m in self.value if not m.startswith("@")]
 
+    def _local_name(self, name: InstanceName) -> InstanceName:
+        """Strip a redundant module name from the name of a member."""
+        if isinstance(name, str):
+            p, s, loc = name.partition(":")
+            if s and p == self.namespace:
+                return loc
+        return name
+
     def _member(self, name: InstanceName) -> "ObjectMember":
-        pts = name.partition(":")
-        if pts[1] and pts[0] == self.namespace:
-            name = pts[2]
+        name = self._local_name(name)
         sibs = self.value.copy()
         try:
             return ObjectMember(
@@ -800,6 +809,7 @@ class ObjectMember(InstanceNode):
             NonexistentInstance: If sibling member `name` doesn't exist.
         """
         ssn = self.parinst._member_schema_node(name)
+        name = ssn.iname()
         try:
             sibs = self.siblings.copy()
             newval = sibs.pop(name)
-- 
2.43.0


From f5b40de284c153b569c6796b10454a38ff505638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:21 +0000
Subject: [PATCH 06/73] fix: look_up on a list entry raises InstanceValueError
 as documented

---
 yangson/instance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index bc7d193..2ae24b9 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -249,7 +249,8 @@ class InstanceNode:
             InstanceValueError: If the receiver's value is not a YANG list.
             NonexistentInstance: If no entry with matching keys exists.
         """
-        if not isinstance(self.schema_node, ListNode):
+        if not (isinstance(self.schema_node, ListNode) and
+                isinstance(self.value, ArrayValue)):
             raise InstanceValueError(self, "lookup on non-list")
         if raw:
             for k in keys:
-- 
2.43.0


From e049e2ab601eda289e009932d6ce71360956c15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:13 +0000
Subject: [PATCH 07/73] fix: XPath conversions and comparisons follow XPath 1.0

Numbers are converted from string values by the XPath Number grammar (True,
1e3, inf, identityrefs and bits used to be taken as numbers or to crash),
node-set comparisons with node-sets, booleans, strings and numbers follow
section 3.4, and/or return booleans and treat NaN as false.
---
 yangson/nodeset.py  | 176 +++++++++++++++++++++-----------------------
 yangson/xpathast.py |  55 ++++++--------
 2 files changed, 106 insertions(+), 125 deletions(-)

diff --git a/yangson/nodeset.py b/yangson/nodeset.py
index f26b457..fc63d4b 100644
--- a/yangson/nodeset.py
+++ b/yangson/nodeset.py
@@ -16,8 +16,11 @@
 # along with Yangson.  If not, see <http://www.gnu.org/licenses/>.
 
 """XPath node-set"""
+from decimal import Decimal
+from math import isinf, isnan
+from operator import eq, ge, gt, le, lt, ne
+import re
 from typing import Callable, Union
-from numbers import Number
 from .instance import InstanceNode
 
 # Type aliases
@@ -26,17 +29,60 @@ NodeExpr = Callable[[InstanceNode], "NodeSet"]
 XPathValue = Union["NodeSet", str, float, bool]
 
 
-def comparison(meth):
-    def wrap(self, arg):
-        if isinstance(arg, NodeSet):
-            for n in arg:
-                if n.is_internal():
-                    continue
-                if meth(self, str(n)):
-                    return True
-            return False
-        return meth(self, arg)
-    return wrap
+_number_re = re.compile(r"[ \t\r\n]*-?([0-9]+(\.[0-9]*)?|\.[0-9]+)[ \t\r\n]*",
+                        re.ASCII)
+
+
+def to_number(val: XPathValue) -> float:
+    """Convert an XPath value to a number [XPath 1.0, sec. 4.4]."""
+    if isinstance(val, (bool, int, float)):
+        return float(val)
+    sval = to_string(val)
+    return float(sval) if _number_re.fullmatch(sval) else float("nan")
+
+
+def to_string(val: XPathValue) -> str:
+    """Convert an XPath value to a string [XPath 1.0, sec. 4.2]."""
+    if isinstance(val, bool):
+        return "true" if val else "false"
+    if isinstance(val, float):
+        if isnan(val):
+            return "NaN"
+        if isinf(val):
+            return "Infinity" if val > 0 else "-Infinity"
+        if val == int(val):
+            return str(int(val))
+        return format(Decimal(repr(val)), "f")
+    return str(val)
+
+
+def to_boolean(val: XPathValue) -> bool:
+    """Convert an XPath value to a boolean [XPath 1.0, sec. 4.3]."""
+    return not isnan(val) and val != 0 if isinstance(val, float) else bool(val)
+
+
+def compare(left: XPathValue, right: XPathValue, oper: Callable) -> bool:
+    """Compare two XPath values [XPath 1.0, sec. 3.4].
+
+    Args:
+        left: Left operand.
+        right: Right operand.
+        oper: Comparison function from the `operator` module.
+    """
+    equality = oper in (eq, ne)
+    if isinstance(left, NodeSet) or isinstance(right, NodeSet):
+        if isinstance(left, bool) or isinstance(right, bool):
+            return compare(to_boolean(left), to_boolean(right), oper)
+        lvals = left._strings() if isinstance(left, NodeSet) else [left]
+        rvals = right._strings() if isinstance(right, NodeSet) else [right]
+        return any(compare(x, y, oper) for x in lvals for y in rvals)
+    if not equality:
+        return oper(to_number(left), to_number(right))
+    if isinstance(left, bool) or isinstance(right, bool):
+        return oper(to_boolean(left), to_boolean(right))
+    if isinstance(left, str) and isinstance(right, str):
+        return oper(left, right)
+    return oper(to_number(left), to_number(right))
 
 
 class NodeSet(list):
@@ -49,94 +95,38 @@ class NodeSet(list):
         return self.__class__(
             {m.path: m for n in self for m in trans(n)}.values())
 
+    def _strings(self) -> list[str]:
+        """Return string values of leaf instances in the receiver."""
+        return [str(n) for n in self if not n.is_internal()]
+
     def __float__(self) -> float:
-        return (float(self[0].value) if self else float("nan"))
+        return to_number(self)
+
+    def first(self) -> InstanceNode:
+        """Return the receiver's node that is first in document order."""
+        return min(self, key=lambda n: n.path)
+
+    def sorted(self) -> "NodeSet":
+        """Return the receiver's nodes in document order."""
+        return self.__class__(sorted(self, key=lambda n: n.path))
 
     def __str__(self) -> str:
-        return str(self[0]) if self else ""
+        return str(self.first()) if self else ""
 
-    @comparison
     def __eq__(self, val: XPathValue) -> bool:
-        for n in self:
-            if n.is_internal():
-                continue
-            if isinstance(val, str):
-                if str(n) == val:
-                    return True
-            elif isinstance(n.value, Number):
-                if float(n.value) == val:
-                    return True
-            elif n.value == val:
-                return True
-        return False
-
-    @comparison
+        return compare(self, val, eq)
+
     def __ne__(self, val: XPathValue) -> bool:
-        for n in self:
-            if n.is_internal():
-                continue
-            if isinstance(val, str):
-                if str(n) != val:
-                    return True
-            elif isinstance(n.value, Number):
-                if float(n.value) != val:
-                    return True
-            elif n.value != val:
-                return True
-        return False
-
-    @comparison
+        return compare(self, val, ne)
+
     def __gt__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
-        for n in self:
-            try:
-                if float(n.value) > val:
-                    return True
-            except (ValueError, TypeError):
-                continue
-        return False
-
-    @comparison
+        return compare(self, val, gt)
+
     def __lt__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
-        for n in self:
-            try:
-                if float(n.value) < val:
-                    return True
-            except (ValueError, TypeError):
-                continue
-        return False
-
-    @comparison
+        return compare(self, val, lt)
+
     def __ge__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
-        for n in self:
-            try:
-                if float(n.value) >= val:
-                    return True
-            except (ValueError, TypeError):
-                continue
-        return False
-
-    @comparison
+        return compare(self, val, ge)
+
     def __le__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
-        for n in self:
-            try:
-                if float(n.value) <= val:
-                    return True
-            except (ValueError, TypeError):
-                continue
-        return False
+        return compare(self, val, le)
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 0fb6756..98dd22b 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -24,7 +24,8 @@ class is intended to be public:
 * Expr: XPath 1.0 expression with YANG 1.1 extensions.
 """
 import decimal
-from math import ceil, copysign, floor, isnan
+from math import ceil, copysign, floor
+from operator import eq, ge, gt, le, lt, ne
 from elementpath import RegexError, translate_pattern
 from xml.sax.saxutils import quoteattr
 import re
@@ -35,7 +36,8 @@ from .exceptions import InvalidArgument, XPathTypeError
 from .instance import (EntryIndex, EntryKeys, EntryValue, InstanceNode,
                        MemberName)
 from .instroute import InstanceRoute
-from .nodeset import NodeExpr, NodeSet, XPathValue
+from .nodeset import (NodeExpr, NodeSet, XPathValue, compare, to_boolean,
+                      to_number, to_string)
 from .typealiases import QualName
 
 
@@ -75,25 +77,19 @@ class Expr:
         return self._eval(XPathContext(node, node, 1, 1))
 
     def _eval_float(self, xctx: XPathContext) -> float:
-        val = self._eval(xctx)
-        try:
-            return float(val)
-        except ValueError:
-            return float('nan')
+        return to_number(self._eval(xctx))
 
     def _eval_string(self, xctx: XPathContext) -> str:
+        return to_string(self._eval(xctx))
+
+    def _eval_boolean(self, xctx: XPathContext) -> bool:
+        return to_boolean(self._eval(xctx))
+
+    def _eval_nodeset(self, xctx: XPathContext) -> NodeSet:
         val = self._eval(xctx)
-        if isinstance(val, float):
-            try:
-                if int(val) == val:
-                    return str(int(val))
-            except OverflowError:
-                return "Infinity" if val > 0 else "-Infinity"
-            except ValueError:
-                return "NaN"
-        if isinstance(val, bool):
-            return str(val).lower()
-        return str(val)
+        if isinstance(val, NodeSet):
+            return val
+        raise XPathTypeError(str(val))
 
     def _xfunc_name(self) -> str:
         """Return XPath function name based on the class.
@@ -213,7 +209,7 @@ class OrExpr(BinaryExpr):
         return self._as_str("or")
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return self.left._eval(xctx) or self.right._eval(xctx)
+        return self.left._eval_boolean(xctx) or self.right._eval_boolean(xctx)
 
 
 class AndExpr(BinaryExpr):
@@ -224,7 +220,8 @@ class AndExpr(BinaryExpr):
         return self._as_str("and")
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return self.left._eval(xctx) and self.right._eval(xctx)
+        return (self.left._eval_boolean(xctx) and
+                self.right._eval_boolean(xctx))
 
 
 class EqualityExpr(BinaryExpr):
@@ -246,7 +243,7 @@ class EqualityExpr(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
         lres, rres = self._eval_ops(xctx)
-        return lres != rres if self.negate else lres == rres
+        return compare(lres, rres, ne if self.negate else eq)
 
 
 class RelationalExpr(BinaryExpr):
@@ -272,8 +269,8 @@ class RelationalExpr(BinaryExpr):
     def _eval(self, xctx: XPathContext) -> bool:
         lres, rres = self._eval_ops(xctx)
         if self.less:
-            return lres <= rres if self.equal else lres < rres
-        return lres >= rres if self.equal else lres > rres
+            return compare(lres, rres, le if self.equal else lt)
+        return compare(lres, rres, ge if self.equal else gt)
 
 
 class AdditiveExpr(BinaryExpr):
@@ -542,10 +539,7 @@ class FuncBitIsSet(BinaryExpr):
 class FuncBoolean(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
-        val = self.expr._eval(xctx)
-        if isinstance(val, float) and isnan(val):
-            return False
-        return bool(val)
+        return self.expr._eval_boolean(xctx)
 
 
 class FuncCeiling(UnaryExpr):
@@ -714,17 +708,14 @@ class FuncNormalizeSpace(UnaryExpr):
 class FuncNot(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return not self.expr._eval(xctx)
+        return not self.expr._eval_boolean(xctx)
 
 
 class FuncNumber(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
         if self.expr is None:
-            try:
-                return float(xctx.cnode.value)
-            except ValueError:
-                return float('nan')
+            return to_number(NodeSet([xctx.cnode]))
         return self.expr._eval_float(xctx)
 
 
-- 
2.43.0


From 5fed484ab547870948520cd56010139f0e3dee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 08/73] fix: must and when expressions returning NaN are false

---
 yangson/instance.py   |  2 +-
 yangson/schemanode.py |  8 ++++----
 yangson/schpattern.py |  2 +-
 yangson/xpathast.py   | 12 ++++++++++++
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 2ae24b9..3398218 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -686,7 +686,7 @@ class InstanceNode:
                 cn = cn.parent
                 if cn is sn:
                     return wd._member(iname)._node_set()
-                if (cn.when and not cn.when.evaluate(self) or
+                if (cn.when and not cn.when.holds(self) or
                     isinstance(cn, CaseNode) and
                         cn.qual_name != cn.parent.default_case):
                     return []
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 12d83df..f49d853 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -989,7 +989,7 @@ class DataNode(SchemaNode):
         if iname in pnode.value:
             return pnode
         nm = pnode.put_member(iname, (None,))
-        if not self.when or self.when.evaluate(nm):
+        if not self.when or self.when.holds(nm):
             wd = self._default_value(nm, ctype, lazy)
             if wd.value is not None:
                 return wd.up()
@@ -997,7 +997,7 @@ class DataNode(SchemaNode):
 
     def _check_must(self, inst: InstanceNode) -> None:
         for m in self.must:
-            if not m.expression.evaluate(inst):
+            if not m.expression.holds(inst):
                 raise SemanticError(inst, m.error_tag, m.error_message)
 
     def _pattern_entry(self) -> SchemaPattern:
@@ -1463,7 +1463,7 @@ class ChoiceNode(InternalNode):
 
     def _add_defaults(self, inst: InstanceNode,
                       ctype: Optional[ContentType]) -> InstanceNode:
-        if self.when and not self.when.evaluate(inst):
+        if self.when and not self.when.holds(inst):
             return inst
         ac = self._active_case(inst.value)
         if ac:
@@ -1471,7 +1471,7 @@ class ChoiceNode(InternalNode):
         elif self.default_case:
             n = dc = self.get_child(*self.default_case)
             while n is not self:
-                if n.when and not n.when.evaluate(inst):
+                if n.when and not n.when.holds(inst):
                     return inst
                 n = n.parent
             return dc._add_defaults(inst, ctype)
diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index 7a53ce9..dea4189 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -130,7 +130,7 @@ class Conditional(SchemaPattern):
         return not self.when or self._val_when
 
     def _eval_when(self, cnode: "InstanceNode") -> None:
-        self._val_when = bool(self.when.evaluate(cnode))
+        self._val_when = self.when.holds(cnode)
 
     def _active(self, ctype: ContentType) -> bool:
         return super()._active(ctype) and self.check_when()
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 98dd22b..f880842 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -76,6 +76,18 @@ class Expr:
         """
         return self._eval(XPathContext(node, node, 1, 1))
 
+    def holds(self, node: InstanceNode) -> bool:
+        """Evaluate the receiver as a condition.
+
+        Args:
+            node: Context node for XPath evaluation.
+
+        Raises:
+            XPathTypeError: If a subexpression of the receiver is of a wrong
+                type.
+        """
+        return self._eval_boolean(XPathContext(node, node, 1, 1))
+
     def _eval_float(self, xctx: XPathContext) -> float:
         return to_number(self._eval(xctx))
 
-- 
2.43.0


From 56f192c76e9b6d161a645927e5fbe6d55f659e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 09/73] fix: XPath predicates and parent/self axes

A numeric predicate selects exactly the nodes whose position equals the number
(negative, fractional, NaN and varying numbers included); predicates of a step
are applied separately for every context node; parent::name, and self, parent
and descendant-or-self axes at the root do not crash; operands that have to be
node-sets are checked.
---
 yangson/instance.py | 15 +++++++++++++--
 yangson/xpathast.py | 44 ++++++++++++++++++--------------------------
 2 files changed, 31 insertions(+), 28 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 3398218..958c277 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -662,6 +662,10 @@ class InstanceNode:
             raise NonexistentSchemaNode(self.schema_node.qual_name, *qname)
         return res
 
+    def _node_test(self, qname: Union[QualName, bool, None]) -> bool:
+        """XPath - return ``True`` if the receiver satisfies a node test."""
+        return not qname or self.qual_name == qname
+
     def _node_set(self) -> list["InstanceNode"]:
         """XPath - return the list of all receiver's nodes."""
         return list(self) if isinstance(self.value, ArrayValue) else [self]
@@ -699,8 +703,7 @@ class InstanceNode:
     def _descendants(self, qname: Union[QualName, bool] = None,
                      with_self: bool = False) -> list["InstanceNode"]:
         """XPath - return the list of receiver's descendants."""
-        res = ([] if not with_self or (qname and self.qual_name != qname)
-               else [self])
+        res = [self] if with_self and self._node_test(qname) else []
         for c in self._children():
             if not qname or c.qual_name == qname:
                 res.append(c)
@@ -764,6 +767,14 @@ class RootNode(InstanceNode):
             return et[0]
         return et
 
+    def _node_test(self, qname: Union[QualName, bool, None]) -> bool:
+        """Override the superclass method (the root has no name)."""
+        return not qname
+
+    def _parent(self) -> list[InstanceNode]:
+        """Override the superclass method."""
+        return []
+
     def _copy(self, newval: Value, newts: datetime = None) -> InstanceNode:
         return RootNode(newval, self.schema_node, self.schema_data,
                         newts if newts else newval.timestamp)
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index f880842..e696a90 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -147,13 +147,8 @@ class Expr:
             size = len(ns)
             for i in range(size):
                 pval = p._eval(XPathContext(ns[i], xctx.origin, i + 1, size))
-                try:
-                    if isinstance(pval, float) and pval > 0:
-                        res.append(ns[int(pval) - 1])
-                        break
-                except IndexError:
-                    return res
-                if pval:
+                if (pval == i + 1 if isinstance(pval, float)
+                        else to_boolean(pval)):
                     res.append(ns[i])
             ns = res
         return ns
@@ -367,8 +362,8 @@ class UnionExpr(BinaryExpr):
         return self._as_str("|")
 
     def _eval(self, xctx: XPathContext) -> NodeSet:
-        lres, rres = self._eval_ops(xctx)
-        return lres.union(rres)
+        lres = self.left._eval_nodeset(xctx)
+        return lres.union(self.right._eval_nodeset(xctx))
 
 
 class Literal(Expr):
@@ -407,13 +402,9 @@ class PathExpr(BinaryExpr):
         return self._as_str("/", spaces=False)
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
-        ns = self.left._eval(xctx)
-        if not isinstance(ns, NodeSet):
-            raise XPathTypeError(str(ns))
-        res = NodeSet([])
-        for n in ns:
-            res = res.union(self.right._eval(xctx.update_cnode(n)))
-        return res
+        ns = self.left._eval_nodeset(xctx)
+        return ns.bind(
+            lambda n: self.right._eval_nodeset(xctx.update_cnode(n)))
 
 
 class FilterExpr(Expr):
@@ -430,16 +421,18 @@ class FilterExpr(Expr):
         return self.primary.syntax_tree(indent) + self._predicates_str(indent)
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
-        res = self.primary._eval(xctx)
-        return self._apply_predicates(res, xctx)
+        if not self.predicates:
+            return self.primary._eval(xctx)
+        res = self.primary._eval_nodeset(xctx)
+        return self._apply_predicates(res.sorted(), xctx)
 
 
 class LocationPath(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
-        lres = self.left._eval(xctx)
-        ns = lres.bind(self.right._node_trans())
-        return self.right._apply_predicates(ns, xctx)
+        lres = self.left._eval_nodeset(xctx)
+        return lres.bind(
+            lambda n: self.right._eval_nodeset(xctx.update_cnode(n)))
 
     def __str__(self) -> str:
         sep = "" if isinstance(self.left, Root) else "/"
@@ -521,13 +514,12 @@ class Step(Expr):
             Axis.following_sibling:
                 lambda n, qn=self.qname: n._following_siblings(qn),
             Axis.parent: (
-                lambda n, qn=self.qname: [] if qn and qn != n.parent.qual_name
-                else n._parent()),
+                lambda n, qn=self.qname: [
+                    p for p in n._parent() if p._node_test(qn)]),
             Axis.preceding_sibling:
                 lambda n, qn=self.qname: n._preceding_siblings(qn),
             Axis.self:
-                lambda n, qn=self.qname: [] if qn and qn != n.qual_name
-                else [n],
+                lambda n, qn=self.qname: [n] if n._node_test(qn) else [],
         }[self.axis]
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
@@ -737,7 +729,7 @@ class FuncPosition(Expr):
         return "position()"
 
     def _eval(self, xctx: XPathContext) -> int:
-        return xctx.position
+        return float(xctx.position)
 
 
 class FuncReMatch(BinaryExpr):
-- 
2.43.0


From 3e707ecc269aedc781e45383434907d5899c7834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 10/73] fix: XPath core and YANG functions, div and mod

Corrects the sign of mod and of division by negative zero, floor, ceiling and
round of NaN and infinities, rounding in substring(), repeated characters in
translate(), sum() of strings, white space in normalize-space(), deref() and
enum-value() of empty or unsuitable node-sets, bit-is-set() on other types,
derived-from() with several nodes, and the first node in document order being
used where a single node is needed.
---
 yangson/xpathast.py | 123 +++++++++++++++++++-------------------------
 1 file changed, 54 insertions(+), 69 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index e696a90..a3aa428 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -23,8 +23,7 @@ class is intended to be public:
 
 * Expr: XPath 1.0 expression with YANG 1.1 extensions.
 """
-import decimal
-from math import ceil, copysign, floor
+from math import ceil, copysign, floor, fmod, isfinite, isnan
 from operator import eq, ge, gt, le, lt, ne
 from elementpath import RegexError, translate_pattern
 from xml.sax.saxutils import quoteattr
@@ -41,6 +40,14 @@ from .nodeset import (NodeExpr, NodeSet, XPathValue, compare, to_boolean,
 from .typealiases import QualName
 
 
+def _round(val: float) -> float:
+    """Round to the nearest integer, ties towards positive infinity."""
+    if not isfinite(val):
+        return val
+    res = floor(val)
+    return copysign(float(res + 1 if val - res >= 0.5 else res), val)
+
+
 class XPathContext:
 
     def __init__(self, cnode: InstanceNode, origin: InstanceNode,
@@ -327,11 +334,12 @@ class MultiplicativeExpr(BinaryExpr):
             try:
                 return lres / rres
             except ZeroDivisionError:
-                return (float("nan") if lres == 0.0
-                        else copysign(float('inf'), lres))
+                if lres == 0.0 or isnan(lres):
+                    return float("nan")
+                return copysign(float('inf'), lres) * copysign(1.0, rres)
         try:
-            return copysign(lres % rres, lres)
-        except ZeroDivisionError:
+            return fmod(lres, rres)
+        except ValueError:
             return float('nan')
 
 
@@ -530,14 +538,13 @@ class Step(Expr):
 class FuncBitIsSet(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
-        ns = self.left._eval(xctx)
-        if not isinstance(ns, NodeSet):
-            raise XPathTypeError(str(ns))
+        ns = self.left._eval_nodeset(xctx)
         bit = self.right._eval_string(xctx)
-        try:
-            return bit in ns[0].value
-        except (IndexError, TypeError):
+        if not ns:
             return False
+        node = ns.first()
+        return (isinstance(node.value, tuple) and bit in node.value and
+                not node.schema_node._is_identityref())
 
 
 class FuncBoolean(UnaryExpr):
@@ -549,7 +556,8 @@ class FuncBoolean(UnaryExpr):
 class FuncCeiling(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        return float(ceil(self.expr._eval_float(xctx)))
+        val = self.expr._eval_float(xctx)
+        return copysign(float(ceil(val)), val) if isfinite(val) else val
 
 
 class FuncConcat(Expr):
@@ -577,10 +585,7 @@ class FuncContains(BinaryExpr):
 class FuncCount(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> int:
-        ns = self.expr._eval(xctx)
-        if isinstance(ns, NodeSet):
-            return float(len(ns))
-        raise XPathTypeError(repr(ns))
+        return float(len(self.expr._eval_nodeset(xctx)))
 
 
 class FuncCurrent(Expr):
@@ -595,11 +600,8 @@ class FuncCurrent(Expr):
 class FuncDeref(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> NodeSet:
-        ns = self.expr._eval(xctx)
-        if not isinstance(ns, NodeSet):
-            raise XPathTypeError(str(ns))
-        ref = ns[0]
-        return NodeSet(ref._deref())
+        ns = self.expr._eval_nodeset(xctx)
+        return NodeSet(ns.first()._deref() if ns else [])
 
 
 class FuncDerivedFrom(BinaryExpr):
@@ -614,18 +616,15 @@ class FuncDerivedFrom(BinaryExpr):
         return ("derived-from-or-self" if self.or_self else "derived-from")
 
     def _properties_str(self) -> str:
-        return ("OR-SELF, " if self.or_self
-                else "") + self.sctx.schema_data.namespace(self.mid)
+        return "OR-SELF" if self.or_self else ""
 
     def _eval(self, xctx: XPathContext) -> bool:
-        ns = self.left._eval(xctx)
-        if not isinstance(ns, NodeSet):
-            raise XPathTypeError(str(ns))
+        ns = self.left._eval_nodeset(xctx)
         i = self.sctx.schema_data.translate_pname(
             self.right._eval_string(xctx), self.sctx.text_mid)
         for n in ns:
             if not n.schema_node._is_identityref():
-                return False
+                continue
             if self.or_self and n.value == i:
                 return True
             if self.sctx.schema_data.is_derived_from(n.value, i):
@@ -636,13 +635,13 @@ class FuncDerivedFrom(BinaryExpr):
 class FuncEnumValue(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        ns = self.expr._eval(xctx)
-        if not isinstance(ns, NodeSet):
-            raise XPathTypeError(str(ns))
+        ns = self.expr._eval_nodeset(xctx)
+        if not ns:
+            return float('nan')
+        node = ns.first()
         try:
-            node = ns[0]
             return float(node.schema_node.type.enum[node.value])
-        except (AttributeError, IndexError, KeyError):
+        except (AttributeError, KeyError, TypeError):
             return float('nan')
 
 
@@ -658,7 +657,8 @@ class FuncFalse(Expr):
 class FuncFloor(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        return float(floor(self.expr._eval_float(xctx)))
+        val = self.expr._eval_float(xctx)
+        return copysign(float(floor(val)), val) if isfinite(val) else val
 
 
 class FuncLast(Expr):
@@ -687,13 +687,10 @@ class FuncName(UnaryExpr):
         if self.expr is None:
             node = xctx.cnode
         else:
-            ns = self.expr._eval(xctx)
-            try:
-                node = ns[0]
-            except TypeError:
-                raise XPathTypeError(str(ns))
-            except IndexError:
+            ns = self.expr._eval_nodeset(xctx)
+            if not ns:
                 return ""
+            node = ns.first()
         if node.parinst is None:
             return ""
         if self.local:
@@ -706,7 +703,7 @@ class FuncNormalizeSpace(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> str:
         string = self.expr._eval_string(xctx) if self.expr else str(xctx.cnode)
-        return " ".join(string.strip().split())
+        return " ".join([w for w in re.split("[ \t\r\n]+", string) if w])
 
 
 class FuncNot(UnaryExpr):
@@ -747,12 +744,7 @@ class FuncReMatch(BinaryExpr):
 class FuncRound(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        dec = decimal.Decimal(self.expr._eval_float(xctx))
-        try:
-            return float(dec.to_integral_value(
-                decimal.ROUND_HALF_UP if dec > 0 else decimal.ROUND_HALF_DOWN))
-        except decimal.InvalidOperation:
-            return float('nan')
+        return _round(self.expr._eval_float(xctx))
 
 
 class FuncStartsWith(BinaryExpr):
@@ -790,23 +782,17 @@ class FuncSubstring(BinaryExpr):
         return res + ")"
 
     def _children_ast(self, indent: int) -> str:
-        return super()._children_ast(indent) + self.length.syntax_tree(indent)
+        res = super()._children_ast(indent)
+        return res + self.length.syntax_tree(indent) if self.length else res
 
     def _eval(self, xctx: XPathContext) -> str:
         string = self.left._eval_string(xctx)
-        rres = self.right._eval_float(xctx)
-        try:
-            start = round(rres) - 1
-        except (ValueError, OverflowError):
-            return "" if self.length or rres != float("-inf") else string
+        start = _round(self.right._eval_float(xctx))
         if self.length is None:
-            return string[max(start, 0):]
-        length = self.length._eval_float(xctx)
-        try:
-            end = start + round(length)
-        except (ValueError, OverflowError):
-            return string[max(start, 0):] if length == float('inf') else ""
-        return string[max(start, 0):end]
+            return "".join([c for i, c in enumerate(string, 1) if i >= start])
+        end = start + _round(self.length._eval_float(xctx))
+        return "".join(
+            [c for i, c in enumerate(string, 1) if start <= i < end])
 
 
 class FuncSubstringAfter(BinaryExpr):
@@ -828,13 +814,10 @@ class FuncSubstringBefore(BinaryExpr):
 class FuncSum(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        ns = self.expr._eval(xctx)
-        if not isinstance(ns, NodeSet):
-            raise XPathTypeError(str(ns))
-        try:
-            return float(sum([n.value for n in ns]))
-        except TypeError:
-            return float('nan')
+        ns = self.expr._eval_nodeset(xctx)
+        return float(sum(
+            [to_number(n.value if isinstance(n.value, bool) else NodeSet([n]))
+             for n in ns]))
 
 
 class FuncTranslate(BinaryExpr):
@@ -852,8 +835,10 @@ class FuncTranslate(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> str:
         string, old = self._eval_ops_string(xctx)
-        new = self.nchars._eval_string(xctx)[:len(old)]
-        ttab = str.maketrans(old[:len(new)], new, old[len(new):])
+        new = self.nchars._eval_string(xctx)
+        ttab = {}
+        for i, c in enumerate(old):
+            ttab.setdefault(ord(c), new[i:i + 1])
         return string.translate(ttab)
 
 
-- 
2.43.0


From 40954763ec8008faa3b6d177ce21b0966c789411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 11/73] fix: defaults in conditional groups and cases, dummy
 nodes, metadata members

Defaults of nodes in a uses or augment whose when condition is false are not in
use; a case added by a conditional augment is recognized as active; XPath sees
the defaults of the active case rather than those of the default case, the
dummy node for when has no children, and metadata members are not nodes.
---
 yangson/instance.py   |  7 +++---
 yangson/schemanode.py | 58 ++++++++++++++++++++++++++++++-------------
 2 files changed, 45 insertions(+), 20 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 958c277..730b170 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -674,7 +674,8 @@ class InstanceNode:
                   qname: Union[QualName, bool] = None) -> list["InstanceNode"]:
         """XPath - return the list of receiver's children."""
         sn = self.schema_node
-        if not isinstance(sn, InternalNode):
+        if not (isinstance(sn, InternalNode) and
+                isinstance(self.value, ObjectValue)):
             return []
         if qname:
             cn = sn.get_data_child(*qname)
@@ -692,11 +693,11 @@ class InstanceNode:
                     return wd._member(iname)._node_set()
                 if (cn.when and not cn.when.holds(self) or
                     isinstance(cn, CaseNode) and
-                        cn.qual_name != cn.parent.default_case):
+                        cn is not cn._choice()._selected_case(self.value)):
                     return []
         res = []
         wd = sn._add_defaults(self, ContentType.all, lazy=True)
-        for mn in wd.value:
+        for mn in wd._member_names():
             res.extend(wd._member(mn)._node_set())
         return res
 
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index f49d853..e310876 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -704,7 +704,7 @@ class InternalNode(SchemaNode):
             if isinstance(c, DataNode):
                 inst = c._default_instance(inst, ctype, lazy)
             elif not isinstance(c, (RpcActionNode, NotificationNode)):
-                inst = c._add_defaults(inst, ctype)
+                inst = c._add_defaults(inst, ctype, lazy)
         return inst
 
     def _state_roots(self) -> list[SchemaNode]:
@@ -888,6 +888,13 @@ class GroupNode(InternalNode):
     def _pattern_entry(self) -> SchemaPattern:
         return super()._schema_pattern()
 
+    def _add_defaults(self, inst: InstanceNode, ctype: Optional[ContentType],
+                      lazy: bool = False) -> InstanceNode:
+        """Extend the superclass method."""
+        if self.when and not self.when.holds(inst):
+            return inst
+        return super()._add_defaults(inst, ctype, lazy)
+
     def _flatten(self) -> list[SchemaNode]:
         res = []
         for c in self.children:
@@ -1461,29 +1468,39 @@ class ChoiceNode(InternalNode):
         """Override the superclass property."""
         return self._mandatory
 
-    def _add_defaults(self, inst: InstanceNode,
-                      ctype: Optional[ContentType]) -> InstanceNode:
+    def _add_defaults(self, inst: InstanceNode, ctype: Optional[ContentType],
+                      lazy: bool = False) -> InstanceNode:
+        """Extend the superclass method."""
         if self.when and not self.when.holds(inst):
             return inst
-        ac = self._active_case(inst.value)
-        if ac:
-            return ac._add_defaults(inst, ctype)
-        elif self.default_case:
-            n = dc = self.get_child(*self.default_case)
-            while n is not self:
-                if n.when and not n.when.holds(inst):
-                    return inst
-                n = n.parent
-            return dc._add_defaults(inst, ctype)
-        else:
+        n = case = self._selected_case(inst.value)
+        if case is None:
             return inst
+        while n is not self:
+            if n.when and not n.when.holds(inst):
+                return inst
+            n = n.parent
+        return case._add_defaults(inst, ctype, lazy)
+
+    def _cases(self) -> list["CaseNode"]:
+        """Return receiver's cases including those in anonymous groups."""
+        res = []
+        todo = self.children[:]
+        while todo:
+            c = todo.pop(0)
+            if isinstance(c, CaseNode):
+                res.append(c)
+            else:
+                todo.extend(c.children)
+        return res
 
-    def _active_case(self, value: ObjectValue) -> Optional["CaseNode"]:
-        """Return receiver's case that's active in an instance node value."""
-        for c in self.children:
+    def _selected_case(self, value: ObjectValue) -> Optional["CaseNode"]:
+        """Return the active case or else the default case, if any."""
+        for c in self._cases():
             for cc in c.data_children():
                 if cc.iname() in value:
                     return c
+        return self.get_child(*self.default_case) if self.default_case else None
 
     def _pattern_entry(self) -> SchemaPattern:
         if not self.children:
@@ -1536,6 +1553,13 @@ class ChoiceNode(InternalNode):
 class CaseNode(InternalNode):
     """Case node."""
 
+    def _choice(self) -> ChoiceNode:
+        """Return the choice that the receiver belongs to."""
+        res = self.parent
+        while not isinstance(res, ChoiceNode):
+            res = res.parent
+        return res
+
     def _pattern_entry(self) -> SchemaPattern:
         return super()._schema_pattern()
 
-- 
2.43.0


From 2377b45dd93158ebd5d274064dad0980071b2f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 12/73] fix: choices in schema patterns, mandatory propagation,
 documented error tags

A mandatory choice with a single case is enforced, cases added by a conditional
augment stay alternatives, an error about missing data does not crash if no
particular member is required, containers become mandatory in configuration
independent of the order of their children, and the tags of uniqueness errors
are those documented.
---
 yangson/schemanode.py | 30 ++++++++++++++++++------------
 yangson/schpattern.py |  7 +++++--
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index e310876..a3de999 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -663,10 +663,11 @@ class InternalNode(SchemaNode):
             p = newp
         if not p.nullable(ctype):
             mms = p._mandatory_members(ctype)
-            msg = "one of " if len(mms) > 1 else ""
-            raise SchemaError(
-                inst, "missing-data",
-                "expected " + msg + ", ".join([repr(m) for m in mms]))
+            msg = None
+            if mms:
+                msg = ("expected " + ("one of " if len(mms) > 1 else "") +
+                       ", ".join([repr(m) for m in mms]))
+            raise SchemaError(inst, "missing-data", msg)
 
     def _make_schema_patterns(self) -> None:
         """Build schema pattern for the receiver and its data descendants."""
@@ -1140,9 +1141,8 @@ class ContainerNode(DataNode, InternalNode):
         return res
 
     def _add_mandatory_child(self, node: SchemaNode):
-        propagate = not (self.presence or self.mandatory)
         super()._add_mandatory_child(node)
-        if propagate:
+        if not self.presence:
             self.parent._add_mandatory_child(self)
 
     def _default_instance(self, pnode: InstanceNode, ctype: ContentType,
@@ -1387,7 +1387,7 @@ class ListNode(SequenceNode, InternalNode):
                 uvals.append(uval)
             tups = set(product(*uvals))
             if tups & allvals:
-                raise SemanticError(inst, f"data-not-unique: entry {i}")
+                raise SemanticError(inst, "data-not-unique", f"entry {i}")
             else:
                 allvals |= tups
 
@@ -1503,11 +1503,17 @@ class ChoiceNode(InternalNode):
         return self.get_child(*self.default_case) if self.default_case else None
 
     def _pattern_entry(self) -> SchemaPattern:
-        if not self.children:
+        prev = NotAllowed()
+        for c in self._cases():
+            pat = c._schema_pattern()
+            gr = c.parent
+            while gr is not self:   # conditional augments
+                if gr.when:
+                    pat = ConditionalPattern(pat, gr.when)
+                gr = gr.parent
+            prev = ChoicePattern(pat, prev, self.name)
+        if isinstance(prev, NotAllowed):    # no cases
             return Empty()
-        prev = self.children[0]._schema_pattern()
-        for c in self.children[1:]:
-            prev = ChoicePattern(c._schema_pattern(), prev, self.name)
         prev.ctype = self.content_type()
         if not self.mandatory:
             prev = SchemaPattern.optional(prev)
@@ -1631,7 +1637,7 @@ class LeafListNode(SequenceNode, TerminalNode):
     def _check_list_props(self, inst: InstanceNode) -> None:
         if (self.content_type() == ContentType.config and
                 len(set(inst.value)) < len(inst.value)):
-            raise SemanticError(inst, "repeated-leaf-list-value")
+            raise SemanticError(inst, "repeated-leaf-list-values")
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         if self._default is None:
diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index dea4189..9e18176 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -280,8 +280,11 @@ class ChoicePattern(Alternative, Typeable):
                 f"Choice {self.name}\n{self.left.tree(indent + 2)}\n"
                 f"{self.right.tree(indent + 2)}")
 
-    def _members(self, ctype: ContentType) -> list[InstanceName]:
-        return super()._members(ctype) if self._active(ctype) else []
+    def _mandatory_members(self, ctype: ContentType) -> list[InstanceName]:
+        """Override the superclass method."""
+        if self._active(ctype):
+            return ((self.left._mandatory_members(ctype) or []) +
+                    (self.right._mandatory_members(ctype) or []))
 
 
 class Pair(SchemaPattern):
-- 
2.43.0


From c568b9938419c4ba9b2f148ae01dc2155482b223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:22 +0000
Subject: [PATCH 13/73] fix: XPath tokens, absolute paths and printing

---
 yangson/datatype.py    |  5 +++-
 yangson/parser.py      |  2 +-
 yangson/xpathast.py    | 39 ++++++++++++++++---------
 yangson/xpathparser.py | 65 ++++++++++++++++++++++++++++--------------
 4 files changed, 74 insertions(+), 37 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index ed91a47..5379b9d 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -638,7 +638,10 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
     def _handle_properties(self, stmt: Statement, sctx: SchemaContext) -> None:
         super()._handle_properties(stmt, sctx)
         pathst = cast(Statement, stmt.find1("path", required=True))
-        self.path = XPathParser(cast(str, pathst.argument), sctx).parse()
+        xpp = XPathParser(cast(str, pathst.argument), sctx)
+        self.path = xpp.parse()
+        if not xpp.at_end():
+            raise InvalidArgument(pathst.argument)
 
     def canonical_string(self, val: ScalarValue) -> Optional[str]:
         return self.ref_type.canonical_string(val)
diff --git a/yangson/parser.py b/yangson/parser.py
index df76597..7d87839 100644
--- a/yangson/parser.py
+++ b/yangson/parser.py
@@ -47,7 +47,7 @@ class Parser:
     uint_re = re.compile(_uint)
     """Regular expression for unsigned integer."""
 
-    ufloat_re = re.compile(fr"{_uint}(\.{_uint})?|\.{_uint}")
+    ufloat_re = re.compile(r"[0-9]+(\.[0-9]*)?|\.[0-9]+")
     """Regular expression for unsigned float."""
 
     def __init__(self, text: str) -> None:
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index a3aa428..319cecd 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -23,10 +23,10 @@ class is intended to be public:
 
 * Expr: XPath 1.0 expression with YANG 1.1 extensions.
 """
+from decimal import Decimal
 from math import ceil, copysign, floor, fmod, isfinite, isnan
 from operator import eq, ge, gt, le, lt, ne
 from elementpath import RegexError, translate_pattern
-from xml.sax.saxutils import quoteattr
 import re
 from typing import Optional
 from .schemadata import SchemaContext
@@ -380,7 +380,9 @@ class Literal(Expr):
         self.value = value
 
     def __str__(self) -> str:
-        return quoteattr(self.value)
+        val = self.value.translate(
+            {9: "&#9;", 10: "&#10;", 13: "&#13;"})
+        return f"'{val}'" if '"' in val else f'"{val}"'
 
     def _properties_str(self) -> str:
         return self.value
@@ -395,7 +397,7 @@ class Number(Expr):
         self.value = value
 
     def __str__(self) -> str:
-        return str(self.value)
+        return format(Decimal(repr(self.value)), "f")
 
     def _properties_str(self) -> str:
         return str(self.value)
@@ -422,8 +424,10 @@ class FilterExpr(Expr):
         self.predicates = predicates
 
     def __str__(self) -> str:
-        return (str(self.primary) +
-                "".join([f"[{p}]" for p in self.predicates]))
+        prim = str(self.primary)
+        if not type(self.primary).__name__.startswith("Func"):
+            prim = f"({prim})"
+        return prim + "".join([f"[{p}]" for p in self.predicates])
 
     def _children_ast(self, indent) -> str:
         return self.primary.syntax_tree(indent) + self._predicates_str(indent)
@@ -443,8 +447,13 @@ class LocationPath(BinaryExpr):
             lambda n: self.right._eval_nodeset(xctx.update_cnode(n)))
 
     def __str__(self) -> str:
-        sep = "" if isinstance(self.left, Root) else "/"
-        return f"{self.left}{sep}{self.right}"
+        left = self.left
+        if isinstance(left, Root):
+            return f"/{self.right}"
+        if isinstance(left, LocationPath) and left.right._abbreviates():
+            parent = "" if isinstance(left.left, Root) else left.left
+            return f"{parent}//{self.right}"
+        return f"{left}/{self.right}"
 
     def as_instance_route(self) -> InstanceRoute:
         return InstanceRoute(self.left.as_instance_route() +
@@ -474,12 +483,11 @@ class Step(Expr):
         self.predicates = predicates
 
     def __str__(self) -> str:
-        if self.axis == Axis.descendant_or_self and self.qname is None:
-            return ""
-        if self.axis == Axis.self and self.qname is None:
-            return "."
-        if self.axis == Axis.parent and self.qname is None:
-            return ".."
+        if self.qname is None and not self.predicates:
+            if self.axis == Axis.self:
+                return "."
+            if self.axis == Axis.parent:
+                return ".."
         if self.qname:
             qn = f"{self.qname[1]}:{self.qname[0]}"
         elif self.qname is None:
@@ -490,6 +498,11 @@ class Step(Expr):
         prs = "".join([f"[{p}]" for p in self.predicates])
         return ax + qn + prs
 
+    def _abbreviates(self) -> bool:
+        """Is the receiver the step that is abbreviated as ``//``?"""
+        return (self.axis == Axis.descendant_or_self and self.qname is None and
+                not self.predicates)
+
     def as_instance_route(self) -> InstanceRoute:
         m = MemberName(*self.qname)
         if not self.predicates:
diff --git a/yangson/xpathparser.py b/yangson/xpathparser.py
index 3df7793..1746701 100644
--- a/yangson/xpathparser.py
+++ b/yangson/xpathparser.py
@@ -24,6 +24,7 @@ This module defines the following classes:
 The module also defines the following exceptions:
 
 """
+import re
 from typing import Optional, Union
 from .schemadata import SchemaContext
 from .enumerations import Axis, MultiplicativeOp
@@ -44,6 +45,8 @@ from .xpathast import (
 class XPathParser(Parser):
     """Parser for XPath expressions."""
 
+    step_start_re = re.compile(r"[.*A-Za-z_]")
+
     def __init__(self, text: str, sctx: SchemaContext) -> None:
         """Initialize the parser instance.
 
@@ -67,9 +70,20 @@ class XPathParser(Parser):
         self.skip_ws()
         return self._or_expr()
 
+    def _operator_name(self, name: str) -> bool:
+        """If operator `name` comes next, return ``True`` and advance offset.
+
+        A longer name that just starts with `name` is a different token.
+        """
+        start = self.offset
+        if self.match_regex(self.ident_re) == name:
+            return True
+        self.offset = start
+        return False
+
     def _or_expr(self) -> Expr:
         op1 = self._and_expr()
-        while self.test_string("or"):
+        while self._operator_name("or"):
             self.skip_ws()
             op2 = self._and_expr()
             op1 = OrExpr(op1, op2)
@@ -77,7 +91,7 @@ class XPathParser(Parser):
 
     def _and_expr(self) -> Expr:
         op1 = self._equality_expr()
-        while self.test_string("and"):
+        while self._operator_name("and"):
             self.skip_ws()
             op2 = self._equality_expr()
             op1 = AndExpr(op1, op2)
@@ -139,9 +153,9 @@ class XPathParser(Parser):
         while True:
             if self.test_string("*"):
                 mulop = MultiplicativeOp.multiply
-            elif self.test_string("div"):
+            elif self._operator_name("div"):
                 mulop = MultiplicativeOp.divide
-            elif self.test_string("mod"):
+            elif self._operator_name("mod"):
                 mulop = MultiplicativeOp.modulo
             else:
                 return op1
@@ -197,7 +211,7 @@ class XPathParser(Parser):
     def _path_expr(self, fname: str) -> Expr:
         fexpr = self._filter_expr(fname)
         if self.test_string("/"):
-            return PathExpr(fexpr, self._location_path())
+            return PathExpr(fexpr, self._relative_path(self._after_slash()))
         return fexpr
 
     def _filter_expr(self, fname: str) -> Expr:
@@ -227,21 +241,36 @@ class XPathParser(Parser):
     def _predicate(self) -> Expr:
         return self._or_expr()
 
-    def _location_path(self) -> LocationPath:
-        if self.test_string("/"):
+    def _location_path(self) -> Expr:
+        if not self.test_string("/"):
+            return self._relative_path(self._step())
+        if not self.input.startswith("/", self.offset):
             self.skip_ws()
-            if self.at_end():
+            if self.at_end() or not self.step_start_re.match(
+                    self.input, self.offset):
                 return Root()
-            op1 = LocationPath(Root(), self._step())
-        else:
-            op1 = self._step()
+        return self._relative_path(self._after_slash(Root()))
+
+    def _relative_path(self, op1: Expr) -> Expr:
+        """Parse the remaining steps of a location path."""
         while self.test_string("/"):
-            self.skip_ws()
-            op2 = self._step()
-            op1 = LocationPath(op1, op2)
+            op1 = self._after_slash(op1)
         return op1
 
+    def _after_slash(self, op1: Optional[Expr] = None) -> Expr:
+        """Parse what follows a slash after `op1`."""
+        if self.test_string("/"):
+            dos = Step(Axis.descendant_or_self, None, [])
+            op1 = dos if op1 is None else LocationPath(op1, dos)
+        self.skip_ws()
+        step = self._step()
+        return step if op1 is None else LocationPath(op1, step)
+
     def _step(self) -> Step:
+        if self.test_string("."):
+            axis = Axis.parent if self.test_string(".") else Axis.self
+            self.skip_ws()
+            return Step(axis, None, [])
         return Step(*self._axis_qname(), self._predicates())
 
     def _axis_qname(self) -> tuple[Axis, Union[QualName, bool, None]]:
@@ -249,14 +278,6 @@ class XPathParser(Parser):
         if next == "*":
             self.adv_skip_ws()
             return (Axis.child, False)
-        if next == "/":
-            self.skip_ws()
-            return (Axis.descendant_or_self, None)
-        if next == ".":
-            self.offset += 1
-            res = (Axis.parent if self.test_string(".") else Axis.self, None)
-            self.skip_ws()
-            return res
         try:
             yid = self.yang_identifier()
         except UnexpectedInput:
-- 
2.43.0


From 0cdcdaf29c543a51f9abd361c2ddc445211b5dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:28 +0000
Subject: [PATCH 14/73] fix: value spaces and canonical forms of types, deref
 of any node

---
 yangson/constraint.py |  44 +++++----
 yangson/datatype.py   | 216 ++++++++++++++++++++----------------------
 yangson/instance.py   |   4 +-
 3 files changed, 132 insertions(+), 132 deletions(-)

diff --git a/yangson/constraint.py b/yangson/constraint.py
index d1a94c0..a7faeba 100644
--- a/yangson/constraint.py
+++ b/yangson/constraint.py
@@ -73,6 +73,17 @@ class Intervals(Constraint, Generic[N]):
                 return True
         return False
 
+    def _includes(self, lo: N, hi: N) -> bool:
+        """Return ``True`` if all values from `lo` to `hi` are permitted."""
+        for r in self.intervals:
+            if r[0] <= lo <= r[-1]:
+                if hi <= r[-1]:
+                    return True
+                if not isinstance(lo, int):
+                    return False
+                lo = r[-1] + 1      # integers continue in the next interval
+        return False
+
     def __str__(self) -> str:
         """Return string representation of the receiver."""
         return " | ".join([f"{r[0]!s}..{r[-1]!s}" if len(r) > 1 else str(r[0])
@@ -88,7 +99,8 @@ class Intervals(Constraint, Generic[N]):
             error_message: error message for the new expression.
 
         Raises:
-            InvalidArgument: If parsing of `expr` fails.
+            InvalidArgument: If parsing of `expr` fails, or if it isn't a
+                restriction of the receiver.
         """
         def parse(x: str) -> N:
             res = self.parser(x)
@@ -96,27 +108,21 @@ class Intervals(Constraint, Generic[N]):
                 raise InvalidArgument(expr)
             return res
 
-        def simpl(rng: list[N]) -> list[N]:
-            return ([rng[0]] if rng[0] == rng[1] else rng)
-
-        def to_num(xs): return [parse(x) for x in xs]
         lo = self.intervals[0][0]
         hi = self.intervals[-1][-1]
-        ran = []
-        for p in [p.strip() for p in expr.split("|")]:
-            r = [i.strip() for i in p.split("..")]
-            if len(r) > 2:
+
+        def bound(x: str) -> N:
+            return lo if x == "min" else hi if x == "max" else parse(x)
+
+        res: list[list[N]] = []
+        for part in expr.split("|"):
+            ends = [bound(x.strip()) for x in part.split("..")]
+            if (len(ends) > 2 or ends[0] > ends[-1] or
+                    res and ends[0] <= res[-1][-1] or
+                    not self._includes(ends[0], ends[-1])):
                 raise InvalidArgument(expr)
-            ran.append(r)
-        if ran[0][0] != "min":
-            lo = parse(ran[0][0])
-        if ran[-1][-1] != "max":
-            hi = parse(ran[-1][-1])
-        self.intervals = (
-            [simpl([lo, hi])] if len(ran) == 1 else (
-                [simpl([lo, parse(ran[0][-1])])] +
-                [to_num(r) for r in ran[1:-1]] +
-                [simpl([parse(ran[-1][0]), hi])]))
+            res.append(ends if ends[0] != ends[-1] else ends[:1])
+        self.intervals = res
         if error_tag:
             self.error_tag = error_tag
         if error_message:
diff --git a/yangson/datatype.py b/yangson/datatype.py
index 5379b9d..7826836 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -45,7 +45,6 @@ This module implements the following classes:
 """
 from abc import ABC, abstractmethod
 import base64
-import binascii
 import decimal
 import xml.etree.ElementTree as ET
 import re
@@ -55,7 +54,8 @@ from typing import (Any, cast, ClassVar, Generic, Optional, Type,
 from .constraint import Intervals, Pattern
 from .exceptions import (
     InvalidArgument, ParserException, ModuleNotRegistered, UnknownPrefix,
-    InvalidLeafrefPath, MissingModuleNamespace, XPathTypeError)
+    InvalidLeafrefPath, MissingModuleNamespace, NonexistentInstance,
+    NotSupported, XPathTypeError)
 from .schemadata import SchemaContext
 from .instance import InstanceNode, InstanceIdParser
 from .instroute import InstanceRoute
@@ -68,6 +68,11 @@ if TYPE_CHECKING:
     from .schemanode import TerminalNode
 
 
+def _xml_number(xml: ET.Element) -> str:
+    """Return text of an element, without surrounding white space."""
+    return (xml.text or "").strip(" \t\r\n")
+
+
 class DataType(ABC, Generic[S, RS]):
     """Abstract class for YANG data types."""
 
@@ -147,6 +152,10 @@ class DataType(ABC, Generic[S, RS]):
         """Return canonical form of a value."""
         return str(val)
 
+    def _deref(self, node: InstanceNode) -> list[InstanceNode]:
+        """Return the list of nodes that an instance `node` refers to."""
+        return []
+
     def from_yang(self, text: str) -> S:
         """Parse value specified as default in a YANG module.
 
@@ -282,9 +291,12 @@ class BitsType(DataType[tuple[str, ...], str]):
         self.bit: dict[str, int] = {}
 
     def __contains__(self, val: tuple[str, ...]) -> bool:
+        if not isinstance(val, tuple):
+            self._set_error_info()
+            return False
         for b in val:
             if b not in self.bit:
-                self._set_error_info(error_message="unknown bit " + b)
+                self._set_error_info(error_message=f"unknown bit {b}")
                 return False
         return True
 
@@ -294,18 +306,16 @@ class BitsType(DataType[tuple[str, ...], str]):
 
     def from_raw(self, raw: str) -> Optional[tuple[str, ...]]:
         try:
-            return tuple(raw.split())
+            bits = dict.fromkeys(raw.split())
         except AttributeError:
             return None
+        return tuple(sorted(bits, key=lambda b: self.bit.get(b, -1)))
 
     def parse_value(self, text: str) -> Optional[tuple[str, ...]]:
         return self.from_raw(text)
 
     def from_xml(self, xml: ET.Element) -> Optional[tuple[str, ...]]:
-        try:
-            return tuple(cast(str, xml.text).split())
-        except AttributeError:
-            return None
+        return self.from_raw(xml.text or "")
 
     def to_raw(self, val: tuple[str, ...]) -> Optional[str]:
         return self.canonical_string(val)
@@ -336,18 +346,11 @@ class BitsType(DataType[tuple[str, ...], str]):
         """Handle **bit** statements."""
         nextpos = 0
         for bst in stmt.find_all("bit"):
-            if not sctx.schema_data.if_features(bst, sctx.text_mid):
-                continue
-            label = cast(str, bst.argument)
             pst = bst.find1("position")
-            if pst:
-                pos = int(cast(str, pst.argument))
-                self.bit[label] = pos
-                if pos > nextpos:
-                    nextpos = pos
-            else:
-                self.bit[label] = nextpos
-            nextpos += 1
+            pos = int(cast(str, pst.argument)) if pst else nextpos
+            nextpos = max(nextpos, pos + 1)
+            if sctx.schema_data.if_features(bst, sctx.text_mid):
+                self.bit[cast(str, bst.argument)] = pos
 
     def _handle_restrictions(self, stmt: Statement,
                              sctx: SchemaContext) -> None:
@@ -477,7 +480,7 @@ class StringType(LinearType[str]):
         return raw if isinstance(raw, str) else None
 
     def from_xml(self, xml: ET.Element) -> Optional[str]:
-        return self.from_raw(cast(str, xml.text))
+        return xml.text or ""
 
     def to_raw(self, val: str) -> Optional[str]:
         return val if val in self else None
@@ -517,7 +520,7 @@ class BinaryType(LinearType[bytes]):
         """Override superclass method."""
         try:
             return base64.b64decode(raw, validate=True)
-        except (TypeError, binascii.Error):
+        except (TypeError, ValueError):
             return None
 
     def parse_value(self, text: str) -> Optional[bytes]:
@@ -525,10 +528,7 @@ class BinaryType(LinearType[bytes]):
 
     def from_xml(self, xml: ET.Element) -> Optional[bytes]:
         """Override superclass method."""
-        try:
-            return base64.b64decode(cast(str, xml.text), validate=True)
-        except TypeError:
-            return None
+        return self.from_raw(xml.text or "")
 
     def to_raw(self, val: bytes) -> Optional[str]:
         return self.canonical_string(val)
@@ -552,7 +552,7 @@ class EnumerationType(DataType[str, str]):
         self.enum: dict[str, int] = {}
 
     def __contains__(self, val: str) -> bool:
-        if val in self.enum:
+        if isinstance(val, str) and val in self.enum:
             return True
         self._set_error_info()
         return False
@@ -576,20 +576,16 @@ class EnumerationType(DataType[str, str]):
     def _handle_properties(self, stmt: Statement,
                            sctx: SchemaContext) -> None:
         """Handle **enum** statements."""
-        nextval = 0
+        highest: Optional[int] = None
         for est in stmt.find_all("enum"):
-            if not sctx.schema_data.if_features(est, sctx.text_mid):
-                continue
-            label = cast(str, est.argument)
             vst = est.find1("value")
             if vst:
                 val = int(cast(str, vst.argument))
-                self.enum[label] = val
-                if val > nextval:
-                    nextval = val
             else:
-                self.enum[label] = nextval
-            nextval += 1
+                val = 0 if highest is None else highest + 1
+            highest = val if highest is None else max(highest, val)
+            if sctx.schema_data.if_features(est, sctx.text_mid):
+                self.enum[cast(str, est.argument)] = val
 
     def _handle_restrictions(self, stmt: Statement,
                              sctx: SchemaContext) -> None:
@@ -633,7 +629,11 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
         super().__init__(sctx, name)
 
     def __contains__(self, val: ScalarValue) -> bool:
-        return val in self.ref_type
+        if val in self.ref_type:
+            return True
+        self._set_error_info(self.ref_type.error_tag,
+                             self.ref_type.error_message)
+        return False
 
     def _handle_properties(self, stmt: Statement, sctx: SchemaContext) -> None:
         super()._handle_properties(stmt, sctx)
@@ -689,7 +689,10 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         return "instance-identifier"
 
     def __contains__(self, val: InstanceRoute) -> bool:
-        return isinstance(val, InstanceRoute)
+        if isinstance(val, InstanceRoute):
+            return True
+        self._set_error_info()
+        return False
 
     def yang_type(self) -> YangIdentifier:
         """Override the superclass method."""
@@ -717,11 +720,20 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
 
     def from_yang(self, text: str) -> InstanceRoute:
         """Override the superclass method."""
-        return XPathParser(text, self.sctx).parse().as_instance_route()
+        xpp = XPathParser(text, self.sctx)
+        try:
+            route = xpp.parse().as_instance_route()
+        except (ParserException, NotSupported):
+            raise InvalidArgument(text)
+        if not xpp.at_end():
+            raise InvalidArgument(text)
+        return route
 
-    @staticmethod
-    def _deref(node: InstanceNode) -> list[InstanceNode]:
-        return [node.top().goto(cast(InstanceRoute, node.value))]
+    def _deref(self, node: InstanceNode) -> list[InstanceNode]:
+        try:
+            return [node.top().goto(cast(InstanceRoute, node.value))]
+        except NonexistentInstance:
+            return []
 
 
 class IdentityrefType(DataType[QualName, YangIdentifier]):
@@ -733,6 +745,9 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
         self.bases: list[QualName] = []
 
     def __contains__(self, val: QualName) -> bool:
+        if not (isinstance(val, tuple) and len(val) == 2):
+            self._set_error_info()
+            return False
         for b in self.bases:
             if not self.sctx.schema_data.is_derived_from(val, b):
                 self._set_error_info(
@@ -857,6 +872,9 @@ class NumericType(DataType[N, RN]):
 class Decimal64Type(NumericType[decimal.Decimal, str]):
     """Class representing YANG "decimal64" type."""
 
+    lexical = re.compile(r"[-+]?[0-9]+(\.[0-9]+)?")
+    """Regular expression for the lexical representation."""
+
     def __init__(self, sctx: SchemaContext, name: YangIdentifier) -> None:
         """Initialize the class instance."""
         super().__init__(sctx, name)
@@ -885,9 +903,10 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
 
         According to [RFC7951]_, a raw instance must be string.
         """
+        if not (isinstance(raw, str) and self.lexical.fullmatch(raw)):
+            return None
         try:
-            return (decimal.Decimal(raw).quantize(self._epsilon)
-                    if isinstance(raw, str) else None)
+            return decimal.Decimal(raw).quantize(self._epsilon)
         except decimal.InvalidOperation:
             return None
 
@@ -895,11 +914,7 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
         return self.from_raw(text)
 
     def from_xml(self, xml: ET.Element) -> Optional[decimal.Decimal]:
-        try:
-            return (decimal.Decimal(xml.text).quantize(self._epsilon)
-                    if isinstance(xml.text, str) else None)
-        except decimal.InvalidOperation:
-            return None
+        return self.from_raw(_xml_number(xml))
 
     def to_raw(self, val: decimal.Decimal) -> str:
         return self.canonical_string(val)
@@ -912,7 +927,10 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
             return None
         if val == 0:
             return "0.0"
-        sval = str(val.quantize(self._epsilon)).rstrip("0")
+        try:
+            sval = format(val.quantize(self._epsilon), "f").rstrip("0")
+        except decimal.InvalidOperation:
+            return None
         return (sval + "0") if sval.endswith(".") else sval
 
     def _type_digest(self, config: bool) -> dict[str, Any]:
@@ -924,6 +942,9 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
 class IntegralType(NumericType[int, RN]):
     """Abstract class for integral data types."""
 
+    lexical = re.compile("[-+]?[0-9]+")
+    """Regular expression for the (decimal) lexical representation."""
+
     octhex = re.compile("[-+]?0([x0-9])")
     """Regular expression for octal or hexadecimal default."""
 
@@ -939,33 +960,27 @@ class IntegralType(NumericType[int, RN]):
     def parse_value(self, text: str) -> Optional[int]:
         """Override superclass method."""
         try:
-            return int(text)
-        except ValueError:
+            return int(text) if self.lexical.fullmatch(text) else None
+        except ValueError:          # too many digits
             return None
 
     def from_raw(self, raw: RN) -> Optional[int]:
         if not isinstance(raw, int) or isinstance(raw, bool):
             return None
-        try:
-            return int(raw)
-        except (ValueError, TypeError):
-            return None
+        return raw
 
     def from_xml(self, xml: ET.Element) -> Optional[int]:
-        try:
-            return int(xml.text) if isinstance(xml.text, str) else None
-        except (ValueError, TypeError):
-            return None
+        return self.parse_value(_xml_number(xml))
 
     def from_yang(self, text: str) -> int:
         """Override the superclass method."""
         mo = self.octhex.match(text)
-        if mo:
-            base = 16 if mo.group(1) == "x" else 8
-        else:
-            base = 10
+        if mo is None:
+            return super().from_yang(text)
+        if "_" in text:
+            raise InvalidArgument(text)
         try:
-            return int(text, base)
+            return int(text, 16 if mo.group(1) == "x" else 8)
         except (ValueError, TypeError):
             raise InvalidArgument(text)
 
@@ -1007,22 +1022,7 @@ class Int64Type(IntegralType[str]):
 
         According to [RFC7951]_, a raw instance must be string.
         """
-        if not isinstance(raw, str) or isinstance(raw, bool):
-            return None
-        try:
-            return int(raw)
-        except (ValueError, TypeError):
-            return None
-
-    def from_xml(self, xml: ET.Element) -> Optional[int]:
-        """Override superclass method.
-
-        XML is always delivered as a text element
-        """
-        try:
-            return int(xml.text) if isinstance(xml.text, str) else None
-        except (ValueError, TypeError):
-            return None
+        return self.parse_value(raw) if isinstance(raw, str) else None
 
     def to_raw(self, val: int) -> Optional[str]:
         return self.canonical_string(val)
@@ -1068,22 +1068,7 @@ class Uint64Type(IntegralType[str]):
 
         According to [RFC7951]_, a raw instance must be string.
         """
-        if not isinstance(raw, str):
-            return None
-        try:
-            return int(raw)
-        except (ValueError, TypeError):
-            return None
-
-    def from_xml(self, xml: ET.Element) -> Optional[int]:
-        """Override superclass method.
-
-        XML is always delivered as a text element
-        """
-        try:
-            return int(xml.text) if isinstance(xml.text, str) else None
-        except (ValueError, TypeError):
-            return None
+        return self.parse_value(raw) if isinstance(raw, str) else None
 
     def to_raw(self, val: int) -> Optional[str]:
         return self.canonical_string(val)
@@ -1101,31 +1086,40 @@ class UnionType(DataType[ScalarValue, RawScalar]):
         self.types: list[DataType] = []
 
     def __contains__(self, val: ScalarValue) -> bool:
-        for t in self.types:
-            try:
-                if val in t:
-                    return True
-            except TypeError:
-                continue
-        return False
+        if self._member_type(val) is None:
+            self._set_error_info()
+            return False
+        return True
 
-    def to_raw(self, val: ScalarValue) -> Optional[RawScalar]:
+    def _member_type(self, val: ScalarValue) -> Optional[DataType]:
+        """Return the first member type that contains the value."""
         for t in self.types:
             if val in t:
-                return t.to_raw(val)
+                return t
         return None
 
+    def to_raw(self, val: ScalarValue) -> Optional[RawScalar]:
+        t = self._member_type(val)
+        return None if t is None else t.to_raw(val)
+
     def to_xml(self, val: ScalarValue) -> Optional[str]:
-        for t in self.types:
-            if val in t:
-                return t.to_xml(val)
-        return None
+        t = self._member_type(val)
+        return None if t is None else t.to_xml(val)
 
     def canonical_string(self, val: ScalarValue) -> Optional[str]:
+        t = self._member_type(val)
+        return None if t is None else t.canonical_string(val)
+
+    def from_yang(self, text: str) -> ScalarValue:
+        """Override the superclass method."""
         for t in self.types:
+            try:
+                val = t.from_yang(text)
+            except InvalidArgument:
+                continue
             if val in t:
-                return t.canonical_string(val)
-        return None
+                return val
+        raise InvalidArgument(text)
 
     def parse_value(self, text: str) -> Optional[ScalarValue]:
         for t in self.types:
diff --git a/yangson/instance.py b/yangson/instance.py
index 730b170..0fa725c 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -729,8 +729,8 @@ class InstanceNode:
 
     def _deref(self) -> list["InstanceNode"]:
         """XPath: return the list of nodes that the receiver refers to."""
-        return ([] if self.is_internal() else
-                self.schema_node.type._deref(self))
+        return (self.schema_node.type._deref(self)
+                if isinstance(self.schema_node, TerminalNode) else [])
 
 
 class RootNode(InstanceNode):
-- 
2.43.0


From fe0d469f67b6921b0bfbda5d70b270df57f262db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:59 +0000
Subject: [PATCH 15/73] fix: containers with mandatory configuration only are
 not required in pure state data

---
 yangson/schemanode.py | 19 +++++++++++++++++--
 yangson/schpattern.py | 27 +++++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index a3de999..7b501d2 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -124,6 +124,12 @@ class SchemaNode:
         """Is the receiver mandatory node in a configuration?"""
         return self.mandatory and self.config
 
+    @property
+    def mandatory_nonconfig(self) -> bool:
+        """Is the receiver mandatory node in pure state data?"""
+        return (self.mandatory and
+                self.content_type().value & ContentType.nonconfig.value != 0)
+
     @property
     def status(self) -> NodeStatus:
         """Return receiver's definition status."""
@@ -1135,6 +1141,13 @@ class ContainerNode(DataNode, InternalNode):
         """Override the superclass property."""
         return bool(self._mandatory_children[1])
 
+    @property
+    def mandatory_nonconfig(self) -> bool:
+        """Override the superclass property."""
+        return not self.presence and any(
+            c.mandatory_nonconfig
+            for cs in self._mandatory_children for c in cs)
+
     def _node_digest(self) -> dict[str, Any]:
         res = super()._node_digest()
         res["presence"] = self.presence
@@ -1161,8 +1174,10 @@ class ContainerNode(DataNode, InternalNode):
         if self._status == NodeStatus.deprecated:
             return SchemaPattern.optional(m)
         if self.mandatory:
-            return (m if self.mandatory_config else
-                    SchemaPattern.optional_config(m))
+            if not self.mandatory_config:
+                return SchemaPattern.optional_config(m)
+            return (m if self.mandatory_nonconfig else
+                    SchemaPattern.optional_nonconfig(m))
         else:
             return SchemaPattern.optional(m)
 
diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index 9e18176..66b755c 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -37,6 +37,11 @@ class SchemaPattern:
         """Make `p` an optional in configuration."""
         return Alternative.combine(EmptyConfig(), p)
 
+    @staticmethod
+    def optional_nonconfig(p: "SchemaPattern") -> "SchemaPattern":
+        """Make `p` an optional in state data."""
+        return Alternative.combine(EmptyNonconfig(), p)
+
     def nullable(self, ctype: ContentType) -> bool:
         """Return ``True`` the receiver is nullable."""
         return False
@@ -101,6 +106,28 @@ class EmptyConfig(SchemaPattern, metaclass=_Singleton):
         return [] if ctype.value & ContentType.nonconfig.value else None
 
 
+class EmptyNonconfig(SchemaPattern, metaclass=_Singleton):
+    """A pattern empty in pure state data, not allowed otherwise."""
+
+    def nullable(self, ctype: ContentType) -> bool:
+        """Override the superclass method."""
+        return ctype == ContentType.nonconfig
+
+    def deriv(self, x: str, ctype: ContentType) -> SchemaPattern:
+        """Return derivative of the receiver."""
+        return NotAllowed()
+
+    def tree(self, indent: int = 0):
+        return " " * indent + "EmptyNonconfig"
+
+    def __str__(self) -> str:
+        return "EmptyNonconfig"
+
+    def _mandatory_members(
+            self, ctype: ContentType) -> Optional[list[InstanceName]]:
+        return [] if ctype.value & ContentType.config.value else None
+
+
 class NotAllowed(SchemaPattern, metaclass=_Singleton):
 
     def deriv(self, x: str, ctype: ContentType) -> SchemaPattern:
-- 
2.43.0


From 2ac41da4635ea4b973d8d5cab63802cd825aa868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:57 +0000
Subject: [PATCH 16/73] fix: instance-identifiers may refer to defaults,
 comparison of different route selectors

---
 yangson/datatype.py | 17 +++++++++++++++--
 yangson/instance.py |  9 +++++----
 yangson/xpathast.py |  5 +++--
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 7826836..1f1bae7 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -52,13 +52,15 @@ from typing import (Any, cast, ClassVar, Generic, Optional, Type,
                     TYPE_CHECKING)
 
 from .constraint import Intervals, Pattern
+from .enumerations import ContentType
 from .exceptions import (
     InvalidArgument, ParserException, ModuleNotRegistered, UnknownPrefix,
     InvalidLeafrefPath, MissingModuleNamespace, NonexistentInstance,
     NotSupported, XPathTypeError)
 from .schemadata import SchemaContext
-from .instance import InstanceNode, InstanceIdParser
+from .instance import InstanceNode, InstanceIdParser, MemberName
 from .instroute import InstanceRoute
+from .instvalue import ObjectValue
 from .nodeset import NodeSet
 from .statement import Statement
 from .typealiases import (InstanceIdentifier, L, N, RN, QualName, RawScalar,
@@ -730,10 +732,21 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         return route
 
     def _deref(self, node: InstanceNode) -> list[InstanceNode]:
+        inst = node.top()
         try:
-            return [node.top().goto(cast(InstanceRoute, node.value))]
+            for sel in cast(InstanceRoute, node.value):
+                try:
+                    inst = sel.goto_step(inst)
+                except NonexistentInstance:
+                    # the target may be present as a default
+                    if not (isinstance(sel, MemberName) and
+                            isinstance(inst.value, ObjectValue)):
+                        raise
+                    inst = sel.goto_step(inst.schema_node._add_defaults(
+                        inst, ContentType.all, lazy=True))
         except NonexistentInstance:
             return []
+        return [inst]
 
 
 class IdentityrefType(DataType[QualName, YangIdentifier]):
diff --git a/yangson/instance.py b/yangson/instance.py
index 0fa725c..1641549 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1080,7 +1080,8 @@ class MemberName:
         self.namespace = ns
 
     def __eq__(self, other: object) -> bool:
-        return self.name == other.name and self.namespace == other.namespace
+        return (isinstance(other, MemberName) and self.name == other.name and
+                self.namespace == other.namespace)
 
     def __str__(self) -> str:
         return "/" + self.iname()
@@ -1133,7 +1134,7 @@ class EntryIndex:
         self.index = index
 
     def __eq__(self, other: object) -> bool:
-        return self.index == other.index
+        return isinstance(other, EntryIndex) and self.index == other.index
 
     def __str__(self) -> str:
         return f"[{self.index + 1}]"
@@ -1167,7 +1168,7 @@ class EntryValue:
         return f"[.={json.dumps(self.value)}]"
 
     def __eq__(self, other: object) -> bool:
-        return self.value == other.value
+        return isinstance(other, EntryValue) and self.value == other.value
 
     def parse_value(self, sn: "DataNode") -> ScalarValue:
         """Let schema node's type parse the receiver's value."""
@@ -1217,7 +1218,7 @@ class EntryKeys:
         return "".join(res)
 
     def __eq__(self, other: object) -> bool:
-        return self.keys == other.keys
+        return isinstance(other, EntryKeys) and self.keys == other.keys
 
     def parse_keys(self, sn: "DataNode") -> dict[InstanceName, ScalarValue]:
         """Parse key dictionary in the context of a schema node.
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 319cecd..431168a 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -556,8 +556,9 @@ class FuncBitIsSet(BinaryExpr):
         if not ns:
             return False
         node = ns.first()
-        return (isinstance(node.value, tuple) and bit in node.value and
-                not node.schema_node._is_identityref())
+        return (isinstance(node.value, tuple) and
+                not isinstance(node.value, InstanceRoute) and
+                bit in node.value and not node.schema_node._is_identityref())
 
 
 class FuncBoolean(UnaryExpr):
-- 
2.43.0


From a1ab6cda436d15942c8f91aadd4abb7acbac52f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:08 +0000
Subject: [PATCH 17/73] fix: XPath axes and functions spelled with underscores
 are not accepted

---
 yangson/xpathparser.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/yangson/xpathparser.py b/yangson/xpathparser.py
index 1746701..35475ab 100644
--- a/yangson/xpathparser.py
+++ b/yangson/xpathparser.py
@@ -218,13 +218,13 @@ class XPathParser(Parser):
         if fname is None:
             prim = self._or_expr()
         else:
-            mname = "_func_" + fname.replace("-", "_")
-            try:
-                prim = getattr(self, mname)()
-            except AttributeError:
+            func = None if "_" in fname else getattr(
+                self, "_func_" + fname.replace("-", "_"), None)
+            if func is None:
                 if fname in ("id", "lang", "namespace-uri"):
-                    raise NotSupported(self, f"function '{fname}()'") from None
-                raise InvalidXPath(self) from None
+                    raise NotSupported(self, f"function '{fname}()'")
+                raise InvalidXPath(self)
+            prim = func()
         self.char(")")
         self.skip_ws()
         return FilterExpr(prim, self._predicates())
@@ -295,7 +295,7 @@ class XPathParser(Parser):
             if next == ":":
                 self.adv_skip_ws()
                 try:
-                    axis = Axis[yid.replace("-", "_")]
+                    axis = Axis[yid.translate({45: "_", 95: "-"})]
                 except KeyError:
                     if yid in ("attribute", "following",
                                "namespace", "preceding"):
-- 
2.43.0


From 87d2f9ba4e3706a15b41e81d46ff373823d49895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:24 +0000
Subject: [PATCH 18/73] fix: the attribute axis is reported as not supported
 when parsed

---
 yangson/enumerations.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/yangson/enumerations.py b/yangson/enumerations.py
index 52130ad..dbef4cc 100644
--- a/yangson/enumerations.py
+++ b/yangson/enumerations.py
@@ -80,8 +80,6 @@ class Axis(Enum):
     """Ancestors of the context node."""
     ancestor_or_self = 2
     """Context node and its ancestors."""
-    attribute = 3
-    """Attributes of the context node."""
     child = 4
     """Children of the context node."""
     descendant = 5
-- 
2.43.0


From 68172d609bcb74d33e94eeb9eefe576d6889aed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:39 +0000
Subject: [PATCH 19/73] fix: parse range and length bounds strictly

---
 yangson/constraint.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/yangson/constraint.py b/yangson/constraint.py
index a7faeba..960f74c 100644
--- a/yangson/constraint.py
+++ b/yangson/constraint.py
@@ -49,10 +49,7 @@ class Intervals(Constraint, Generic[N]):
     @staticmethod
     def default_parser(x: str) -> Optional[N]:
         """The default parser for numbers."""
-        try:
-            return int(x)
-        except ValueError:
-            return None
+        return int(x) if re.fullmatch("[-+]?[0-9]+", x) else None
 
     def __init__(self, intervals: list[list[N]],
                  parser: Optional[Callable[[str], Optional[N]]] = None,
-- 
2.43.0


From d1aad901e64d1ebc28c0f4e916049f00d0d04b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:39 +0000
Subject: [PATCH 20/73] fix: refuse enum and bit restrictions that are not
 subsets

---
 yangson/datatype.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 1f1bae7..a0d42ad 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -75,6 +75,30 @@ def _xml_number(xml: ET.Element) -> str:
     return (xml.text or "").strip(" \t\r\n")
 
 
+def _restrict_assigned(assigned: dict[str, int], stmts: list[Statement],
+                       keyword: YangIdentifier) -> dict[str, int]:
+    """Return the part of assigned names selected by a restriction.
+
+    Args:
+        assigned: Names and numbers of the restricted type.
+        stmts: Statements **enum** or **bit** of the restriction.
+        keyword: Keyword of the substatement that assigns a number.
+
+    Raises:
+        InvalidArgument: If a statement introduces a new name, or assigns
+            a different number.
+    """
+    res = {}
+    for st in stmts:
+        name = cast(str, st.argument)
+        nst = st.find1(keyword)
+        if (name not in assigned or
+                nst and int(cast(str, nst.argument)) != assigned[name]):
+            raise InvalidArgument(name)
+        res[name] = assigned[name]
+    return res
+
+
 class DataType(ABC, Generic[S, RS]):
     """Abstract class for YANG data types."""
 
@@ -291,6 +315,7 @@ class BitsType(DataType[tuple[str, ...], str]):
         """Initialize the class instance."""
         super().__init__(sctx, name)
         self.bit: dict[str, int] = {}
+        self._assigned: dict[str, int] = {}
 
     def __contains__(self, val: tuple[str, ...]) -> bool:
         if not isinstance(val, tuple):
@@ -351,6 +376,7 @@ class BitsType(DataType[tuple[str, ...], str]):
             pst = bst.find1("position")
             pos = int(cast(str, pst.argument)) if pst else nextpos
             nextpos = max(nextpos, pos + 1)
+            self._assigned[cast(str, bst.argument)] = pos
             if sctx.schema_data.if_features(bst, sctx.text_mid):
                 self.bit[cast(str, bst.argument)] = pos
 
@@ -359,6 +385,7 @@ class BitsType(DataType[tuple[str, ...], str]):
         bst = stmt.find_all("bit")
         if not bst:
             return
+        self._assigned = _restrict_assigned(self._assigned, bst, "position")
         new = set([b.argument for b in bst if
                    sctx.schema_data.if_features(b, sctx.text_mid)])
         for bit in set(self.bit) - new:
@@ -552,6 +579,7 @@ class EnumerationType(DataType[str, str]):
         """Initialize the class instance."""
         super().__init__(sctx, name)
         self.enum: dict[str, int] = {}
+        self._assigned: dict[str, int] = {}
 
     def __contains__(self, val: str) -> bool:
         if isinstance(val, str) and val in self.enum:
@@ -586,6 +614,7 @@ class EnumerationType(DataType[str, str]):
             else:
                 val = 0 if highest is None else highest + 1
             highest = val if highest is None else max(highest, val)
+            self._assigned[cast(str, est.argument)] = val
             if sctx.schema_data.if_features(est, sctx.text_mid):
                 self.enum[cast(str, est.argument)] = val
 
@@ -594,6 +623,7 @@ class EnumerationType(DataType[str, str]):
         est = stmt.find_all("enum")
         if not est:
             return
+        self._assigned = _restrict_assigned(self._assigned, est, "value")
         new = set([e.argument for e in est if
                    sctx.schema_data.if_features(e, sctx.text_mid)])
         for en in set(self.enum) - new:
-- 
2.43.0


From 6b2474843e338764f0a30ff7497413551e50660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:39 +0000
Subject: [PATCH 21/73] fix: allow lengths up to 2^64-1

---
 yangson/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index a0d42ad..4eda69b 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -473,7 +473,7 @@ class LinearType(DataType[L, str]):
         if lstmt:
             if self.length is None:
                 self.length = Intervals[int](
-                    [[0, 4294967295]], error_message="invalid length")
+                    [[0, 18446744073709551615]], error_message="invalid length")
             self.length.restrict_with(
                 cast(str, lstmt.argument), *lstmt.get_error_info())
 
-- 
2.43.0


From 095b0e3c8819b01f1fb6a3ef71f04ee1aa3ccab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:39 +0000
Subject: [PATCH 22/73] fix: strings cannot contain characters excluded by YANG

---
 yangson/datatype.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 4eda69b..4f6c70d 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -487,13 +487,17 @@ class LinearType(DataType[L, str]):
 class StringType(LinearType[str]):
     """Class representing YANG "string" type."""
 
+    illegal = re.compile("[\\x00-\\x08\\x0b\\x0c\\x0e-\\x1f\\ud800-\\udfff"
+                         "\\ufdd0-\\ufdef\\ufffe\\uffff]")
+    """Regular expression for characters that aren't permitted."""
+
     def __init__(self, sctx: SchemaContext, name: YangIdentifier) -> None:
         """Initialize the class instance."""
         super().__init__(sctx, name)
         self.patterns: list[Pattern] = []
 
     def __contains__(self, val: str) -> bool:
-        if not isinstance(val, str):
+        if not isinstance(val, str) or self.illegal.search(val):
             self._set_error_info()
             return False
         if not super().__contains__(val):
-- 
2.43.0


From e6452d7f506a1d96838f634144a0dcd1dacec73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:39 +0000
Subject: [PATCH 23/73] fix: refuse base64 with excess padding

---
 yangson/datatype.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 4f6c70d..c1321f5 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -552,7 +552,8 @@ class BinaryType(LinearType[bytes]):
     def from_raw(self, raw: str) -> Optional[bytes]:
         """Override superclass method."""
         try:
-            return base64.b64decode(raw, validate=True)
+            res = base64.b64decode(raw, validate=True)
+            return res if len(raw) % 4 == 0 else None
         except (TypeError, ValueError):
             return None
 
-- 
2.43.0


From 5ff1c8fedda0802369e28d3ef1df35deaaf2447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:39 +0000
Subject: [PATCH 24/73] fix: refuse fraction-digits outside 1..18

---
 yangson/datatype.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index c1321f5..245e000 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -943,6 +943,8 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
     def _handle_properties(self, stmt: Statement, sctx: SchemaContext) -> None:
         fd = cast(Statement, stmt.find1("fraction-digits", required=True))
         self.fraction_digits = int(cast(str, fd.argument))
+        if not 1 <= self.fraction_digits <= 18:
+            raise InvalidArgument(cast(str, fd.argument))
         self._epsilon = decimal.Decimal(10) ** -self.fraction_digits
         super()._handle_properties(stmt, sctx)
 
-- 
2.43.0


From e7206923b491435262ddfbd8c83668ea9120ece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:39 +0000
Subject: [PATCH 25/73] fix: decimal64 contains no numbers with more fraction
 digits, nor NaN

---
 yangson/datatype.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 245e000..fd2a890 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -929,10 +929,15 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
         self._epsilon = decimal.Decimal(0)
 
     def __contains__(self, val: decimal.Decimal) -> bool:
-        if not isinstance(val, decimal.Decimal):
+        if not isinstance(val, decimal.Decimal) or val.is_nan():
             self._set_error_info()
             return False
-        return super().__contains__(val)
+        if not super().__contains__(val):
+            return False
+        if val.quantize(self._epsilon) == val:
+            return True
+        self._set_error_info()
+        return False
 
     @property
     def _range(self) -> list[decimal.Decimal]:
-- 
2.43.0


From b889016c1f74793e4aecfbb3f7f5c8a609f48306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 26/73] fix: printed instance routes denote the entry they were
 made from

---
 yangson/instance.py | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 1641549..6b56639 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1002,21 +1002,36 @@ class ArrayEntry(InstanceNode):
                           self.parinst, self.schema_node, ts)
 
     def _instance_route_entry(self):
+        try:
+            sel = self._value_selector()
+            if (sel and sel.peek_step(ArrayValue([self.value]),
+                                      self.schema_node)[0] is not None and
+                    sel.peek_step(ArrayValue(reversed(self.before)),
+                                  self.schema_node)[0] is None):
+                return sel
+        except (InvalidKeyValue, NonexistentInstance, YangTypeError):
+            pass
+        return EntryIndex(self._key)
+
+    def _value_selector(self) -> Optional[Union["EntryValue", "EntryKeys"]]:
+        """Return the selector based on value or keys, if there is any."""
         sn = self.schema_node
         if isinstance(sn, LeafListNode):
-            return EntryValue(str(self.value))
-        if not sn.keys:
-            return EntryIndex(self._key)
-        kdict = {}
-        for k in sn.keys:
-            try:
+            res = EntryValue(str(self))
+            texts = [res.value]
+        elif sn.keys:
+            kdict = {}
+            for k in sn.keys:
                 if k[1] == sn.ns:
                     kdict[(k[0], None)] = str(self[k[0]])
                 else:
                     kdict[k] = str(self[f"{k[1]}:{k[0]}"])
-            except NonexistentInstance:
-                return EntryIndex(self._key)
-        return EntryKeys(kdict)
+            res = EntryKeys(kdict)
+            texts = kdict.values()
+        else:
+            return None
+        # a quoted string cannot contain both kinds of quotes
+        return None if any("'" in t and '"' in t for t in texts) else res
 
     def _ancestors_or_self(
             self: "ArrayEntry",
@@ -1062,6 +1077,11 @@ class ArrayEntry(InstanceNode):
         return [self.up().up()]
 
 
+def _quoted(text: str) -> str:
+    """Return `text` as a quoted string of an instance identifier."""
+    return f"'{text}'" if '"' in text else f'"{text}"'
+
+
 class MemberName:
     """Selectors of object members.
 
@@ -1165,7 +1185,7 @@ class EntryValue:
         self.value = value
 
     def __str__(self) -> str:
-        return f"[.={json.dumps(self.value)}]"
+        return f"[.={_quoted(self.value)}]"
 
     def __eq__(self, other: object) -> bool:
         return isinstance(other, EntryValue) and self.value == other.value
@@ -1214,7 +1234,7 @@ class EntryKeys:
         res = []
         for k in self.keys:
             kn = f"{k[1]}:{k[0]}" if k[1] else k[0]
-            res.append(f"[{kn}={json.dumps(self.keys[k])}]")
+            res.append(f"[{kn}={_quoted(self.keys[k])}]")
         return "".join(res)
 
     def __eq__(self, other: object) -> bool:
-- 
2.43.0


From 8bdbe2ca1adc79fc2a1bca70237e78e11329070f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:12 +0000
Subject: [PATCH 27/73] fix: routes and identifiers that do not match the tree
 fail with documented exceptions, top-level names need a prefix

---
 yangson/instance.py   | 35 ++++++++++++++++++++++++++++-------
 yangson/schemanode.py |  2 ++
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 6b56639..a47afbe 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1112,7 +1112,11 @@ class MemberName:
 
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Optional[Value], "DataNode"]:
-        cn = sn.get_data_child(self.name, self.namespace)
+        cn = (sn.get_data_child(self.name, self.namespace)
+              if isinstance(sn, InternalNode) else None)
+        if cn is None:
+            raise NonexistentSchemaNode(
+                sn.qual_name, self.name, self.namespace)
         try:
             return (val[cn.iname()], cn)
         except (IndexError, KeyError, TypeError):
@@ -1161,12 +1165,16 @@ class EntryIndex:
 
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Optional[Value], "DataNode"]:
+        if not isinstance(val, ArrayValue):
+            return None, sn
         try:
             return val[self.index], sn
-        except (IndexError, KeyError, TypeError):
+        except IndexError:
             return None, sn
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
+        if not isinstance(inst.value, ArrayValue):
+            raise InstanceValueError(inst, "index into non-array")
         return inst[self.index]
 
 
@@ -1192,6 +1200,8 @@ class EntryValue:
 
     def parse_value(self, sn: "DataNode") -> ScalarValue:
         """Let schema node's type parse the receiver's value."""
+        if not isinstance(sn, LeafListNode):
+            raise BadSchemaNodeType(sn.qual_name, "leaf-list")
         res = sn.type.parse_value(self.value)
         if res is None:
             raise InvalidKeyValue(self.value)
@@ -1199,15 +1209,20 @@ class EntryValue:
 
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Value, "DataNode"]:
+        pval = self.parse_value(sn)
+        if not isinstance(val, ArrayValue):
+            return None, sn
         try:
-            return (val[val.index(self.parse_value(sn))], sn)
+            return (val[val.index(pval)], sn)
         except ValueError:
             return None, sn
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
+        pval = self.parse_value(inst.schema_node)
+        if not isinstance(inst.value, ArrayValue):
+            raise InstanceValueError(inst, "value lookup on non-array")
         try:
-            return inst._entry(
-                inst.value.index(self.parse_value(inst.schema_node)))
+            return inst._entry(inst.value.index(pval))
         except ValueError:
             raise NonexistentInstance(
                 inst, f"entry '{self.value!s}'") from None
@@ -1246,11 +1261,15 @@ class EntryKeys:
         Args:
             sn: Schema node corresponding to a list.
         """
+        if not isinstance(sn, ListNode):
+            raise BadSchemaNodeType(sn.qual_name, "list")
         res = {}
         for k in self.keys:
             knod = sn.get_data_child(*k)
             if knod is None:
                 raise NonexistentSchemaNode(sn.qual_name, *k)
+            if not isinstance(knod, LeafNode):
+                raise BadSchemaNodeType(knod.qual_name, "leaf")
             kval = knod.type.parse_value(self.keys[k])
             if kval is None:
                 raise InvalidKeyValue(self.keys[k])
@@ -1266,6 +1285,8 @@ class EntryKeys:
             sn:  Current schema node.
         """
         keys = self.parse_keys(sn)
+        if not isinstance(val, ArrayValue):
+            return (None, sn)
         for en in val:
             flag = True
             try:
@@ -1312,6 +1333,8 @@ class ResourceIdParser(Parser):
         sn = self.schema_node
         while True:
             name, ns = self.prefixed_name()
+            if not isinstance(sn, InternalNode):
+                raise NonexistentSchemaNode(sn.qual_name, name, ns)
             cn = sn.get_data_child(name, ns)
             if cn is None:
                 for cn in sn.children:
@@ -1338,8 +1361,6 @@ class ResourceIdParser(Parser):
             keys = self.up_to("/")
         except EndOfInput:
             keys = self.remaining()
-        if not keys:
-            raise UnexpectedInput(self, "entry value or keys")
         if isinstance(sn, LeafListNode):
             return EntryValue(unquote(keys))
         ks = keys.split(",")
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 7b501d2..9d648d9 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -503,6 +503,8 @@ class InternalNode(SchemaNode):
                        ns: YangIdentifier = None) -> Optional["DataNode"]:
         """Return data node directly under the receiver."""
         ns = ns if ns else self.ns
+        if ns is None:
+            return None
         todo = []
         for child in self.children:
             if child.name == name and child.ns == ns:
-- 
2.43.0


From a2321b4b84046c4de955cee5eed6d020ad73107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 28/73] fix: instance-identifiers that are not strings are
 refused as raw data

---
 yangson/datatype.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index fd2a890..6a28dac 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -736,6 +736,8 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         return "instance-identifier"
 
     def from_raw(self, raw: InstanceIdentifier) -> Optional[InstanceRoute]:
+        if not isinstance(raw, str):
+            return None
         try:
             return InstanceIdParser(raw).parse()
         except ParserException:
-- 
2.43.0


From 5f0a8ddd3b3ee302c3d86da67278a5d37f2b0e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 29/73] fix: metadata annotations are read and written wherever
 RFC 7952 has them

---
 yangson/instance.py   | 102 +++++++++++++++++++++++++++++++-----------
 yangson/schemanode.py |  54 +++++++++++++---------
 2 files changed, 110 insertions(+), 46 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index a47afbe..c9bbfac 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -45,7 +45,8 @@ from .exceptions import (BadSchemaNodeType, EndOfInput, InstanceException,
                          NonDataNode, NonexistentSchemaNode, UnexpectedInput,
                          YangTypeError)
 from .instroute import InstanceRoute
-from .instvalue import (ArrayValue, InstanceKey, ObjectValue, Value,
+from .instvalue import (ArrayValue, InstanceKey, MetadataObject,
+                        ObjectValue, Value,
                         ScalarValue, StructuredValue)
 from .parser import Parser
 from .typealiases import (InstanceName, JSONPointer, QualName, RawScalar,
@@ -471,10 +472,32 @@ class InstanceNode:
             if (m[0] != '@' and isinstance(self.value[m], ObjectValue)
                     and '@' in self.value[m]):
                 attr[m] = self.value[m]['@']
-            elif m[0] == '@':
+            elif m[0] == '@' and isinstance(self.value[m], dict):
                 attr[m[1:]] = self.value[m]
         return attr
 
+    def _entry_attributes(self, entry: "ArrayEntry") -> dict:
+        """Return a copy of the metadata of a (leaf-)list entry."""
+        res = None
+        if isinstance(entry.value, ObjectValue):
+            res = entry.value.get('@')
+        elif isinstance(self, ObjectMember):
+            metadata = self.siblings.get('@' + self.name)
+            if isinstance(metadata, list) and entry.index < len(metadata):
+                res = metadata[entry.index]
+        return res.copy() if res else {}
+
+    def _raw_metadata(self, metadata: MetadataObject) -> dict:
+        """Return metadata in the raw form."""
+        if isinstance(self.schema_node, AnyContentNode):
+            return metadata
+        annotations = self.schema_node.schema_root().annotations
+        res = {}
+        for name, val in metadata.items():
+            ann = annotations.get(self.schema_node._iname2qname(name))
+            res[name] = ann.type.to_raw(val) if ann else val
+        return res
+
     def raw_value(self, filter: OutputFilter = OutputFilter()) -> RawValue:
         """Return receiver's value in a raw form (ready for JSON encoding)."""
         if isinstance(self.schema_node, AnyContentNode):
@@ -482,43 +505,70 @@ class InstanceNode:
         if isinstance(self.value, ObjectValue):
             value = {}
             attr = self._get_attributes()
+            if self.value.get('@'):
+                value['@'] = self._raw_metadata(self.value['@'])
             for m in self.value:
                 if m[0] != '@':
-                    m_attr = attr.get(m, {})
+                    m_attr = attr.get(m, {}).copy()
                     member = self[m]
+                    entry_attrs = []
                     add1 = filter.begin_member(self, member, m_attr)
                     if add1:
-                        member_value = member.raw_value(filter)
+                        if (isinstance(member.value, ArrayValue) and
+                                isinstance(member.schema_node, SequenceNode)):
+                            member_value = member._raw_entries(
+                                filter, entry_attrs)
+                        else:
+                            member_value = member.raw_value(filter)
                     add2 = filter.end_member(self, member, m_attr)
                     if add1 and add2:
                         value[m] = member_value
-
-                        if m_attr:
-                            if isinstance(value[m], dict):
-                                value[m]['@'] = attr[m]
-                            else:
-                                value['@'+m] = attr[m]
+                        if isinstance(member_value, dict):
+                            member_value.pop('@', None)
+                            if m_attr:
+                                owner = self if '@'+m in self.value else member
+                                member_value['@'] = owner._raw_metadata(m_attr)
+                        elif m_attr:
+                            value['@'+m] = self._raw_metadata(m_attr)
+                        elif any(entry_attrs):
+                            value['@'+m] = [
+                                self._raw_metadata(e_attr) if e_attr else None
+                                for e_attr in entry_attrs]
 
             return value
         if isinstance(self.value, ArrayValue):
-            value = list()
-            for en in self:
-                if isinstance(en, dict) and '@' in en.value:
-                    e_attr = en['@']
-                else:
-                    e_attr = {}
-                add1 = filter.begin_element(self, en, e_attr)
-                if add1:
-                    member_value = en.raw_value(filter)
-                add2 = filter.end_element(self, en, e_attr)
-                if (add1 and add2 and member_value is not None
-                        and member_value != {}):
-                    if e_attr:
-                        member_value['@'] = e_attr
-                    value.append(member_value)
-            return value
+            return self._raw_entries(filter, [])
         return self.schema_node.type.to_raw(self.value)
 
+    def _raw_entries(self, filter: OutputFilter,
+                     leaf_attrs: list[dict]) -> list[RawValue]:
+        """Return entries of an array in the raw form.
+
+        Args:
+            filter: Output filter.
+            leaf_attrs: List receiving the metadata of leaf-list entries.
+        """
+        value = list()
+        for en in self:
+            e_attr = self._entry_attributes(en)
+            add1 = filter.begin_element(self, en, e_attr)
+            if add1:
+                member_value = en.raw_value(filter)
+            add2 = filter.end_element(self, en, e_attr)
+            if not (add1 and add2) or member_value is None:
+                continue
+            if isinstance(en.value, ObjectValue):
+                member_value.pop('@', None)
+                if not member_value and en._member_names():
+                    # nothing is left of the entry
+                    continue
+                if e_attr:
+                    member_value['@'] = self._raw_metadata(e_attr)
+            else:
+                leaf_attrs.append(e_attr)
+            value.append(member_value)
+        return value
+
     def to_xml(self, filter: OutputFilter = OutputFilter(),
                elem: ET.Element = None):
         """put receiver's value into a XML element"""
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 9d648d9..75bb52c 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -547,29 +547,41 @@ class InternalNode(SchemaNode):
         res = ObjectValue()
         for qn in rval:
             if qn.startswith("@"):
-                if qn != "@":
-                    tgt = qn[1:]
-                    if tgt not in rval:
-                        raise MissingAnnotationTarget(jptr, tgt)
-                    jptr += '/' + tgt
-                res[qn] = self._process_metadata(rval[qn], jptr)
-            else:
-                cn = self._iname2qname(qn)
-                ch = self.get_data_child(*cn)
-                if jptr == "" and ch is None:
-                    ch = self.get_child(*cn)
-                    if not isinstance(ch, SchemaTreeNode):
-                        ch = None
-                npath = jptr + "/" + qn
-                if ch is None:
-                    raise RawMemberError(npath)
-                if jptr == "" or self.ns != ch.ns:
-                    iname = '{1}:{0}'.format(*ch.qual_name)
+                if qn == "@":
+                    res[qn] = self._process_metadata(rval[qn], jptr)
+                    continue
+                tgt = qn[1:]
+                if tgt not in rval:
+                    raise MissingAnnotationTarget(jptr, tgt)
+                npath = jptr + "/" + tgt
+                ch, iname = self._raw_member(tgt, jptr)
+                if isinstance(ch, LeafListNode) and isinstance(
+                        rval[qn], list):
+                    res["@" + iname] = [
+                        None if md is None else
+                        self._process_metadata(md, npath) for md in rval[qn]]
                 else:
-                    iname = ch.name
-                res[iname] = ch.from_raw(rval[qn], npath)
+                    res["@" + iname] = self._process_metadata(rval[qn], npath)
+            else:
+                ch, iname = self._raw_member(qn, jptr)
+                res[iname] = ch.from_raw(rval[qn], jptr + "/" + qn)
         return res
 
+    def _raw_member(self, name: InstanceName,
+                    jptr: JSONPointer) -> tuple[SchemaNode, InstanceName]:
+        """Return schema node and instance name of a member of a raw object."""
+        cn = self._iname2qname(name)
+        ch = self.get_data_child(*cn)
+        if jptr == "" and ch is None:
+            ch = self.get_child(*cn)
+            if not isinstance(ch, SchemaTreeNode):
+                ch = None
+        if ch is None:
+            raise RawMemberError(jptr + "/" + name)
+        if jptr == "" or self.ns != ch.ns:
+            return ch, '{1}:{0}'.format(*ch.qual_name)
+        return ch, ch.name
+
     def from_xml(self, rval: ET.Element,
                  jptr: JSONPointer = "") -> ObjectValue:
         res = ObjectValue()
@@ -617,6 +629,8 @@ class InternalNode(SchemaNode):
 
     def _process_metadata(self, rmo: RawMetadataObject,
                           jptr: JSONPointer) -> MetadataObject:
+        if not isinstance(rmo, dict):
+            raise RawTypeError(jptr, "object")
         res = {}
         ans = self.schema_root().annotations
         for mem in rmo:
-- 
2.43.0


From 342c9c7a4b1df8bf68fb57dc8e7361a5898e7e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 30/73] fix: prefixes of identities and instance-identifiers in
 XML follow the namespace declarations, metadata attributes are declared

---
 yangson/datamodel.py  |  3 ++
 yangson/datatype.py   | 89 ++++++++++++++++++++++++++++++++++---------
 yangson/instance.py   | 67 +++++++++++++++++---------------
 yangson/schemanode.py |  2 +-
 4 files changed, 110 insertions(+), 51 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index b5a86d9..be02446 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -149,6 +149,9 @@ class DataModel:
                 raise NonexistentSchemaNode(self.schema.qual_name, loc, p)
             if isinstance(subsn, SchemaTreeNode):
                 schema = subsn
+            else:
+                raise BadSchemaNodeType(subsn.qual_name,
+                                        "notification or rpc")
         else:
             schema = self.schema
         cooked = cast(ObjectValue, schema.from_xml(root))
diff --git a/yangson/datatype.py b/yangson/datatype.py
index 6a28dac..7236c6e 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -48,7 +48,7 @@ import base64
 import decimal
 import xml.etree.ElementTree as ET
 import re
-from typing import (Any, cast, ClassVar, Generic, Optional, Type,
+from typing import (Any, Callable, cast, ClassVar, Generic, Optional, Type,
                     TYPE_CHECKING)
 
 from .constraint import Intervals, Pattern
@@ -58,7 +58,8 @@ from .exceptions import (
     InvalidLeafrefPath, MissingModuleNamespace, NonexistentInstance,
     NotSupported, XPathTypeError)
 from .schemadata import SchemaContext
-from .instance import InstanceNode, InstanceIdParser, MemberName
+from .instance import (EntryKeys, InstanceNode, InstanceIdParser,
+                       MemberName)
 from .instroute import InstanceRoute
 from .instvalue import ObjectValue
 from .nodeset import NodeSet
@@ -153,6 +154,10 @@ class DataType(ABC, Generic[S, RS]):
     def to_raw(self, val: S) -> Optional[RS]:
         """Return a raw value ready to be serialized in JSON."""
 
+    def xml_modules(self, val: S) -> set[YangIdentifier]:
+        """Return names of modules that serve as prefixes in the XML form."""
+        return set()
+
     def to_xml(self, val: S) -> Optional[str]:
         """Return XML text value ready to be serialized in XML."""
         return str(val) if val in self else None
@@ -692,6 +697,9 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
     def to_raw(self, val: ScalarValue) -> Optional[RawScalar]:
         return self.ref_type.to_raw(val)
 
+    def xml_modules(self, val: ScalarValue) -> set[YangIdentifier]:
+        return self.ref_type.xml_modules(val)
+
     def to_xml(self, val: ScalarValue) -> Optional[str]:
         return self.ref_type.to_xml(val)
 
@@ -747,7 +755,46 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         return self.from_raw(text)
 
     def from_xml(self, xml: ET.Element) -> Optional[InstanceRoute]:
-        return self.from_raw(cast(InstanceIdentifier, xml.text))
+        def module(prefix: str) -> str:
+            url = xml.attrib.get("xmlns:" + prefix)
+            mdata = self.sctx.schema_data.modules_by_ns.get(url)
+            return mdata.main_module[0] if mdata else prefix
+        route = self.from_raw(cast(InstanceIdentifier, xml.text))
+        return route and self._translate(route, module, False)
+
+    def xml_modules(self, val: InstanceRoute) -> set[YangIdentifier]:
+        """Override the superclass method."""
+        res = set()
+        self._translate(val, lambda ns: res.add(ns) or ns, True)
+        return res
+
+    @staticmethod
+    def _translate(route: InstanceRoute, module: Callable[[str], str],
+                   explicit: bool) -> InstanceRoute:
+        """Return route with other module names.
+
+        Args:
+            route: Instance route.
+            module: Function translating module names.
+            explicit: Flag indicating that module names are used everywhere,
+                otherwise only where they differ from that of the parent.
+        """
+        res = []
+        cur = None
+        for sel in route:
+            if isinstance(sel, MemberName):
+                mod = module(sel.namespace) if sel.namespace else cur
+                sel = MemberName(
+                    sel.name, mod if explicit or mod != cur else None)
+                cur = mod
+            elif isinstance(sel, EntryKeys):
+                keys = {}
+                for (name, ns), val in sel.keys.items():
+                    mod = module(ns) if ns else cur
+                    keys[name, mod if explicit or mod != cur else None] = val
+                sel = EntryKeys(keys)
+            res.append(sel)
+        return InstanceRoute(res)
 
     def to_raw(self, val: InstanceRoute) -> InstanceIdentifier:
         """Override the superclass method."""
@@ -755,7 +802,7 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
 
     def to_xml(self, val: InstanceRoute) -> InstanceIdentifier:
         """Override the superclass method."""
-        return str(val)
+        return str(self._translate(val, lambda ns: ns, True))
 
     def from_yang(self, text: str) -> InstanceRoute:
         """Override the superclass method."""
@@ -821,22 +868,22 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
             i1, s, i2 = cast(str, xml.text).partition(":")
         except AttributeError:
             return None
+        # bindings of prefixes are provided by XMLParser
+        ns_url = xml.attrib.get('xmlns:' + i1 if s else 'xmlns')
+        if ns_url:
+            mdata = self.sctx.schema_data.modules_by_ns.get(ns_url)
+            if mdata is None:
+                return None
+            ns = mdata.main_module[0]
+        elif s and i1 != self.sctx.default_ns:
+            return None
+        else:
+            ns = self.sctx.default_ns
+        return (i2 if s else i1, ns)
 
-        if not s:
-            # not prefixed, so assume default ns
-            return (i1, self.sctx.default_ns)
-        elif i1 == self.sctx.default_ns:
-            # prefixed with default ns
-            return (i2, self.sctx.default_ns)
-
-        # the following code has issues (Issue #79)
-        ns_url = xml.attrib.get('xmlns:'+i1)
-        if not ns_url:
-            raise MissingModuleNamespace(cast(str, ns_url))
-        module = self.sctx.schema_data.modules_by_ns.get(ns_url)
-        if not module:
-            raise MissingModuleNamespace(ns_url)
-        return (i2, module.main_module[0])
+    def xml_modules(self, val: QualName) -> set[YangIdentifier]:
+        """Override the superclass method."""
+        return {val[1]}
 
     def to_raw(self, val: QualName) -> YangIdentifier:
         return self.canonical_string(val)
@@ -1159,6 +1206,10 @@ class UnionType(DataType[ScalarValue, RawScalar]):
         t = self._member_type(val)
         return None if t is None else t.to_raw(val)
 
+    def xml_modules(self, val: ScalarValue) -> set[YangIdentifier]:
+        t = self._member_type(val)
+        return set() if t is None else t.xml_modules(val)
+
     def to_xml(self, val: ScalarValue) -> Optional[str]:
         t = self._member_type(val)
         return None if t is None else t.to_xml(val)
diff --git a/yangson/instance.py b/yangson/instance.py
index c9bbfac..2265c8d 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -572,8 +572,6 @@ class InstanceNode:
     def to_xml(self, filter: OutputFilter = OutputFilter(),
                elem: ET.Element = None):
         """put receiver's value into a XML element"""
-        has_default_ns = False
-
         if elem is None:
             element = ET.Element(self.schema_node.name)
 
@@ -599,10 +597,7 @@ class InstanceNode:
 
                     if isinstance(m.schema_node, (ListNode, LeafListNode)):
                         for en in m:
-                            if isinstance(en, dict) and '@' in en.value:
-                                e_attr = en['@'].copy()
-                            else:
-                                e_attr = {}
+                            e_attr = m._entry_attributes(en)
                             add1 = filter.begin_element(m, en, e_attr)
                             if add1:
                                 child = ET.Element(sn.name)
@@ -614,8 +609,7 @@ class InstanceNode:
                                 en.to_xml(filter, child)
                             add2 = filter.end_element(m, en, e_attr)
                             if add1 and add2:
-                                for a in e_attr:
-                                    child.attrib[a] = str(e_attr[a])
+                                en._set_xml_attributes(child, e_attr)
                                 childs.append(child)
                     else:
                         child = ET.Element(sn.name)
@@ -629,13 +623,7 @@ class InstanceNode:
                         childs.append(child)
                 if filter.end_member(self, m, m_attr):
                     for c in childs:
-                        for a in m_attr:
-                            # should only happen if the child was no list
-                            if a == 'ietf-netconf-with-defaults:default':
-                                c.attrib['wd:default'] = str(m_attr[a])
-                                has_default_ns = True
-                            else:
-                                c.attrib[a] = str(m_attr[a])
+                        m._set_xml_attributes(c, m_attr)
                         element.append(c)
             if elem is None and len(element) == 0:
                 return None
@@ -645,22 +633,41 @@ class InstanceNode:
         else:
             sn = self.schema_node
             if isinstance(sn, TerminalNode):
-                if isinstance(sn.type, IdentityrefType):
-                    module = self.schema_data.modules_by_name.get(
-                        self.value[1])
-                    if not module:
-                        raise MissingModuleNamespace(sn.ns)
-                    element.attrib[
-                        'xmlns:'+self.value[1]] = module.xml_namespace
+                self._declare_xml_modules(
+                    element, sn.type.xml_modules(self.value))
                 element.text = sn.type.to_xml(self.value)
+        return element
 
-        if elem is not None:
-            return element
-        else:
-            if has_default_ns:
-                element.attrib[
-                    'xmlns:wd'] = 'urn:ietf:params:xml:ns:netconf:default:1.0'
-            return element
+    def _declare_xml_modules(self, element: ET.Element,
+                             modules: set[YangIdentifier]) -> None:
+        """Let module names be prefixes of their namespaces."""
+        for name in sorted(modules):
+            module = self.schema_data.modules_by_name.get(name)
+            if not module:
+                raise MissingModuleNamespace(name)
+            element.attrib['xmlns:'+name] = module.xml_namespace
+
+    def _set_xml_attributes(self, element: ET.Element,
+                            metadata: MetadataObject) -> None:
+        """Add metadata as attributes of an XML element."""
+        annotations = self.schema_node.schema_root().annotations
+        for name, val in metadata.items():
+            prefix = name.partition(":")[0] if ":" in name else None
+            ann = annotations.get(self.schema_node._iname2qname(name))
+            if name == 'ietf-netconf-with-defaults:default':
+                name = 'wd:default'
+                element.attrib['xmlns:wd'] = \
+                    'urn:ietf:params:xml:ns:netconf:default:1.0'
+            elif prefix:
+                self._declare_xml_modules(element, {prefix})
+            if ann:
+                self._declare_xml_modules(element, ann.type.xml_modules(val))
+                text = ann.type.to_xml(val)
+            elif isinstance(val, bool):
+                text = str(val).lower()
+            else:
+                text = str(val)
+            element.attrib[name] = text or ""
 
     def _member_names(self) -> list[InstanceName]:
         if isinstance(self.value, ObjectValue):
@@ -1489,5 +1496,3 @@ from .schemanode import (       # NOQA
             InternalNode, LeafNode, LeafListNode, ListNode, NotificationNode,
             OutputNode, RpcActionNode, SequenceNode, SchemaTreeNode,
             TerminalNode)
-from .datatype import (         # NOQA
-            IdentityrefType)
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 75bb52c..994d811 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1072,7 +1072,7 @@ class TerminalNode(SchemaNode):
         return res
 
     def from_xml(self, rval: ET.Element, jptr: JSONPointer = "") -> Value:
-        res = self.type.from_xml(rval)
+        res = None if len(rval) else self.type.from_xml(rval)
         if res is None:
             raise RawTypeError(jptr, self.type.yang_type() + " value")
         return res
-- 
2.43.0


From 756a80f93f2f5246915030d703d9a8fb910aa547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 31/73] fix: structured values are compared by content,
 booleans and numbers are different values

---
 yangson/instance.py   | 31 +++++++++++++++----------------
 yangson/instvalue.py  | 35 ++++++++++++++++++++++++++++++++---
 yangson/schemanode.py | 11 ++++++-----
 3 files changed, 53 insertions(+), 24 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 2265c8d..08953eb 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -47,7 +47,7 @@ from .exceptions import (BadSchemaNodeType, EndOfInput, InstanceException,
 from .instroute import InstanceRoute
 from .instvalue import (ArrayValue, InstanceKey, MetadataObject,
                         ObjectValue, Value,
-                        ScalarValue, StructuredValue)
+                        ScalarValue, StructuredValue, value_key)
 from .parser import Parser
 from .typealiases import (InstanceName, JSONPointer, QualName, RawScalar,
                           RawValue, SchemaRoute, YangIdentifier)
@@ -262,7 +262,7 @@ class InstanceNode:
             flag = True
             for k in keys:
                 try:
-                    if en[k] != keys[k]:
+                    if value_key(en[k]) != value_key(keys[k]):
                         flag = False
                         break
                 except KeyError:
@@ -328,8 +328,8 @@ class InstanceNode:
     def _merge_list(self, value: ArrayValue) -> "InstanceNode":
         inst = self._copy(self.value.copy())
         if isinstance(self.schema_node, LeafListNode):
-            inst.value += [
-                en for en in value if en in set(value) - set(self.value)]
+            present = {value_key(en) for en in self.value}
+            inst.value += [en for en in value if value_key(en) not in present]
             return inst
         keys = self.schema_node._key_members
         if not keys:
@@ -337,9 +337,9 @@ class InstanceNode:
             return inst
         mki = {}
         for i in range(len(value)):
-            mki[tuple([value[i][k] for k in keys])] = i
+            mki[tuple([value_key(value[i][k]) for k in keys])] = i
         for i in range(len(self.value)):
-            kval = tuple([self.value[i][k] for k in keys])
+            kval = tuple([value_key(self.value[i][k]) for k in keys])
             if kval in mki:
                 inst = inst[i].merge(value[mki[kval]]).up()
                 del mki[kval]
@@ -1269,20 +1269,19 @@ class EntryValue:
         pval = self.parse_value(sn)
         if not isinstance(val, ArrayValue):
             return None, sn
-        try:
-            return (val[val.index(pval)], sn)
-        except ValueError:
-            return None, sn
+        for en in val:
+            if value_key(en) == value_key(pval):
+                return (en, sn)
+        return None, sn
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
         pval = self.parse_value(inst.schema_node)
         if not isinstance(inst.value, ArrayValue):
             raise InstanceValueError(inst, "value lookup on non-array")
-        try:
-            return inst._entry(inst.value.index(pval))
-        except ValueError:
-            raise NonexistentInstance(
-                inst, f"entry '{self.value!s}'") from None
+        for i, en in enumerate(inst.value):
+            if value_key(en) == value_key(pval):
+                return inst._entry(i)
+        raise NonexistentInstance(inst, f"entry '{self.value!s}'")
 
 
 class EntryKeys:
@@ -1348,7 +1347,7 @@ class EntryKeys:
             flag = True
             try:
                 for k in keys:
-                    if en[k] != keys[k]:
+                    if value_key(en[k]) != value_key(keys[k]):
                         flag = False
                         break
             except KeyError:
diff --git a/yangson/instvalue.py b/yangson/instvalue.py
index c706834..76a5aa4 100644
--- a/yangson/instvalue.py
+++ b/yangson/instvalue.py
@@ -24,7 +24,8 @@ This module implements the following classes:
 * ObjectValue: Cooked object value of an instance node.
 """
 from datetime import datetime
-from typing import Union
+import decimal
+from typing import Optional, Union
 from .typealiases import InstanceName, PrefName, ScalarValue
 
 # Type aliases
@@ -41,6 +42,18 @@ MetadataObject = dict[PrefName, ScalarValue]
 """Metadata object [RFC 7952]_."""
 
 
+def value_key(value: Value) -> tuple[Optional[type], Value]:
+    """Return an object identifying a value.
+
+    Native numbers and booleans may be equal even if the values are different,
+    for example ``1`` and ``True``.
+    """
+    for typ in (bool, int, decimal.Decimal):
+        if isinstance(value, typ):
+            return typ, value
+    return None, value
+
+
 class StructuredValue:
     """Abstract class for array and object values."""
 
@@ -66,7 +79,11 @@ class StructuredValue:
         Args:
         :param val: value to compare
         """
-        return self.__class__ == val.__class__ and hash(self) == hash(val)
+        raise NotImplementedError()
+
+    def __ne__(self, val: "StructuredValue") -> bool:
+        """Return ``True`` if the receiver is not equal to `val`."""
+        return not self == val
 
     def __hash__(self) -> int:
         """Return hash value for the receiver."""
@@ -81,6 +98,11 @@ class ArrayValue(StructuredValue, list):
         StructuredValue.__init__(self, ts)
         list.__init__(self, val)
 
+    def __eq__(self, val: StructuredValue) -> bool:
+        """Override the superclass method."""
+        return (self.__class__ == val.__class__ and len(self) == len(val) and
+                all(value_key(x) == value_key(y) for x, y in zip(self, val)))
+
     def __hash__(self) -> int:
         """Return hash value for the receiver."""
         return tuple([x.__hash__() for x in self]).__hash__()
@@ -94,7 +116,14 @@ class ObjectValue(StructuredValue, dict):
         StructuredValue.__init__(self, ts)
         dict.__init__(self, val)
 
+    def __eq__(self, val: StructuredValue) -> bool:
+        """Override the superclass method."""
+        return (self.__class__ == val.__class__ and
+                self.keys() == val.keys() and
+                all(value_key(self[k]) == value_key(val[k]) for k in self))
+
     def __hash__(self) -> int:
         """Return hash value for the receiver."""
-        sks = sorted(self.keys())
+        # metadata objects aren't hashable
+        sks = sorted(k for k in self.keys() if not k.startswith("@"))
         return tuple([(k, self[k].__hash__()) for k in sks]).__hash__()
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 994d811..dd99146 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -58,7 +58,7 @@ from .exceptions import (
 from .instance import (ArrayEntry, InstanceNode, MemberName, ObjectMember)
 from .instroute import InstanceRoute
 from .instvalue import (
-    ArrayValue, EntryValue, MetadataObject, ObjectValue, Value)
+    ArrayValue, EntryValue, MetadataObject, ObjectValue, Value, value_key)
 from .schemadata import IdentityAdjacency, SchemaContext, SchemaData
 from .schpattern import (ChoicePattern, ConditionalPattern, Empty, Member,
                          NotAllowed, Pair, SchemaPattern)
@@ -1398,13 +1398,14 @@ class ListNode(SequenceNode, InternalNode):
             en = inst.value[i]
             try:
                 kval = tuple([en[k] for k in self._key_members])
+                ukey = tuple([value_key(k) for k in kval])
             except KeyError as e:
                 raise SchemaError(inst._entry(i),
                                   "list-key-missing", e.args[0]) from None
-            if kval in ukeys:
+            if ukey in ukeys:
                 raise SemanticError(inst, "non-unique-key",
                                     repr(kval[0] if len(kval) < 2 else kval))
-            ukeys.add(kval)
+            ukeys.add(ukey)
 
     def _check_unique(self, unique: list[LocationPath],
                       inst: InstanceNode) -> None:
@@ -1414,7 +1415,7 @@ class ListNode(SequenceNode, InternalNode):
             den = en.add_defaults()
             uvals = []
             for uex in unique:
-                uval = [n.value for n in uex.evaluate(den)]
+                uval = [value_key(n.value) for n in uex.evaluate(den)]
                 uvals.append(uval)
             tups = set(product(*uvals))
             if tups & allvals:
@@ -1667,7 +1668,7 @@ class LeafListNode(SequenceNode, TerminalNode):
 
     def _check_list_props(self, inst: InstanceNode) -> None:
         if (self.content_type() == ContentType.config and
-                len(set(inst.value)) < len(inst.value)):
+                len({value_key(v) for v in inst.value}) < len(inst.value)):
             raise SemanticError(inst, "repeated-leaf-list-values")
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-- 
2.43.0


From ccad45e1206cd21fda23133b6b438bc6839937f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 32/73] fix: queries about derived identities do not change the
 identities

---
 yangson/schemadata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 3685539..6b1c284 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -472,10 +472,11 @@ class SchemaData:
     def derived_from(self, identity: QualName) -> MutableSet[QualName]:
         """Return list of identities transitively derived from `identity`."""
         try:
-            res = self.identity_adjs[identity].derivs
+            derivs = self.identity_adjs[identity].derivs
         except KeyError:
             return set()
-        for id in res.copy():
+        res = set(derivs)
+        for id in derivs:
             res |= self.derived_from(id)
         return res
 
-- 
2.43.0


From 12de3b94012c7c023188457643444fcd5a395cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 33/73] fix: identities of import-only modules take part in
 derivation

---
 yangson/datamodel.py  | 9 +++++++++
 yangson/datatype.py   | 9 +++++++--
 yangson/schemadata.py | 4 ++--
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index be02446..711a58f 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -234,6 +234,15 @@ class DataModel:
                 self.schema_data, self.schema_data.namespace(mid), mid)
             self.schema._handle_substatements(
                 self.schema_data.modules[mid].statement, sctx)
+        for mid in self.schema_data.modules:
+            # identities in modules that aren't implemented may be used
+            # as bases
+            if mid not in self.schema_data._module_sequence:
+                sctx = SchemaContext(
+                    self.schema_data, self.schema_data.namespace(mid), mid)
+                for idst in self.schema_data.modules[mid].statement.find_all(
+                        "identity"):
+                    self.schema._identity_stmt(idst, sctx)
         for mid in self.schema_data._module_sequence:
             sctx = SchemaContext(
                 self.schema_data, self.schema_data.namespace(mid), mid)
diff --git a/yangson/datatype.py b/yangson/datatype.py
index 7236c6e..d74d1db 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -845,6 +845,10 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
         if not (isinstance(val, tuple) and len(val) == 2):
             self._set_error_info()
             return False
+        if val[1] not in self.sctx.schema_data.implement:
+            self._set_error_info(
+                error_message=f"module '{val[1]}' not implemented")
+            return False
         for b in self.bases:
             if not self.sctx.schema_data.is_derived_from(val, b):
                 self._set_error_info(
@@ -917,8 +921,9 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
     def _type_digest(self, config: bool) -> dict[str, Any]:
         res = super()._type_digest(config)
         if config:
-            res["identities"] = list(
-                self.sctx.schema_data.derived_from_all(self.bases))
+            sd = self.sctx.schema_data
+            res["identities"] = [i for i in sd.derived_from_all(self.bases)
+                                 if i[1] in sd.implement]
         return res
 
 
diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 6b1c284..39be8c1 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -196,8 +196,6 @@ class SchemaData:
 
     def _process_imports(self) -> None:
         impl = set(self.implement.items())
-        if len(impl) == 0:
-            return
         deps = {mid: set() for mid in impl}
         impby = {mid: set() for mid in impl}
         for mid in self.modules:
@@ -217,6 +215,8 @@ class SchemaData:
                 if mm in impl and imid in impl:
                     deps[mm].add(imid)
                     impby[imid].add(mm)
+        if len(impl) == 0:
+            return
         free = [mid for mid in deps if len(deps[mid]) == 0]
         if not free:
             raise CyclicImports()
-- 
2.43.0


From c4c09af4daf53601d87a268771ea2dcf4ab3bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 34/73] fix: if-feature expressions follow the YANG grammar:
 names like notify, repeated not, separators

---
 yangson/schemadata.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 39be8c1..4deb58c 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -25,6 +25,7 @@ This module implements the following classes:
 * SchemaData: Repository of YANG schema structures and methods.
 * FeatureExprParser: Parser for if-feature expressions.
 """
+import re
 from collections.abc import MutableSet
 from typing import Any, Optional, Sequence
 from .exceptions import (
@@ -517,6 +518,11 @@ class SchemaData:
 class FeatureExprParser(Parser):
     """Parser and evaluator for if-feature expressions."""
 
+    # keywords are always separated by whitespace
+    _or_re = re.compile(r"[ \n\t\r]+or[ \n\t\r]+")
+    _and_re = re.compile(r"[ \n\t\r]+and[ \n\t\r]+")
+    _not_re = re.compile(r"not[ \n\t\r]+")
+
     def __init__(self, text: str, schema_data: SchemaData,
                  mid: ModuleId) -> None:
         """Initialize the parser instance.
@@ -550,36 +556,29 @@ class FeatureExprParser(Parser):
 
     def _feature_disj(self) -> bool:
         x = self._feature_conj()
-        if self.test_string("or"):
-            if not self.skip_ws():
-                raise InvalidFeatureExpression(self)
+        if self.match_regex(self._or_re):
             return self._feature_disj() or x
         return x
 
     def _feature_conj(self) -> bool:
         x = self._feature_term()
-        if self.test_string("and"):
-            if not self.skip_ws():
-                raise InvalidFeatureExpression(self)
+        if self.match_regex(self._and_re):
             return self._feature_conj() and x
         return x
 
     def _feature_term(self) -> bool:
-        if self.test_string("not"):
-            if not self.skip_ws():
-                raise InvalidFeatureExpression(self)
-            return not self._feature_atom()
+        if self.match_regex(self._not_re):
+            return not self._feature_term()
         return self._feature_atom()
 
     def _feature_atom(self) -> bool:
         if self.peek() == "(":
             self.adv_skip_ws()
             res = self._feature_disj()
-            self.char(")")
             self.skip_ws()
+            self.char(")")
             return res
         n, p = self.prefixed_name()
-        self.skip_ws()
         try:
             mdata = self.schema_data.modules[self.mid]
         except KeyError:
-- 
2.43.0


From 7efc740e4f931f83ed0e8555eac4c791543d0854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:56 +0000
Subject: [PATCH 35/73] fix: let refine statements change the description of
 their target node

---
 yangson/schemanode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index dd99146..38ec5c4 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -783,6 +783,7 @@ class InternalNode(SchemaNode):
         if not sctx.schema_data.if_features(stmt, sctx.text_mid):
             target.parent.children.remove(target)
         else:
+            target._get_description(stmt)
             target._handle_substatements(stmt, sctx)
 
     def _uses_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-- 
2.43.0


From 9cd03e5e56b4ad162a0c86e6a66991ad2e943772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:35 +0000
Subject: [PATCH 36/73] fix: config true in refine or deviate statements
 overrides config false

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 38ec5c4..0855513 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -320,6 +320,8 @@ class SchemaNode:
     def _config_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         if stmt.argument == "false":
             self._ctype = ContentType.nonconfig
+        else:
+            self._ctype = None
 
     def _status_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         if stmt.argument == "deprecated":
-- 
2.43.0


From 2edf88368720e7fd49de140f7f476b021318b3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 37/73] fix: deviate delete finds the unique statement to be
 deleted

---
 yangson/schemanode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 0855513..c7b5719 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1466,9 +1466,9 @@ class ListNode(SequenceNode, InternalNode):
                 self.unique = []
             self._unique_stmt(stmt, sctx)
         elif action == "delete":
-            uniq = self._parse_unique(stmt, sctx)
+            uniq = [str(u) for u in self._parse_unique(stmt, sctx)]
             for i in range(len(self.unique)):
-                if self.unique[i] == uniq:
+                if [str(u) for u in self.unique[i]] == uniq:
                     del self.unique[i]
                     return
 
-- 
2.43.0


From 374258f180dae9c137d861f8d051c4a160235a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:06 +0000
Subject: [PATCH 38/73] fix: process augments until no more targets appear,
 regardless of their order

---
 yangson/datamodel.py  | 10 ++++++++--
 yangson/schemanode.py | 13 +++++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index 711a58f..d871bba 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -243,12 +243,18 @@ class DataModel:
                 for idst in self.schema_data.modules[mid].statement.find_all(
                         "identity"):
                     self.schema._identity_stmt(idst, sctx)
+        augs = []
         for mid in self.schema_data._module_sequence:
             sctx = SchemaContext(
                 self.schema_data, self.schema_data.namespace(mid), mid)
             mod = self.schema_data.modules[mid].statement
-            for aug in mod.find_all("augment"):
-                self.schema._augment_stmt(aug, sctx)
+            augs += [(aug, sctx) for aug in mod.find_all("augment")]
+        while augs:         # targets may be defined by other augments
+            todo = [(aug, sctx) for aug, sctx in augs
+                    if not self.schema._augment_stmt(aug, sctx)]
+            if len(todo) == len(augs):
+                break
+            augs = todo
         for mid in self.schema_data._module_sequence:
             sctx = SchemaContext(
                 self.schema_data, self.schema_data.namespace(mid), mid)
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index c7b5719..b9adb1c 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -752,19 +752,24 @@ class InternalNode(SchemaNode):
         node._handle_substatements(stmt, sctx)
 
     def _augment_stmt(self, stmt: Statement,
-                      sctx: SchemaContext) -> None:
-        """Handle **augment** statement."""
+                      sctx: SchemaContext) -> bool:
+        """Handle **augment** statement.
+
+        Returns:
+            ``False`` if the target node is missing.
+        """
         if not sctx.schema_data.if_features(stmt, sctx.text_mid):
-            return
+            return True
         target = self.get_schema_descendant(
             sctx.schema_data.sni2route(stmt.argument, sctx))
         if target is None:      # silently ignore missing target
-            return
+            return False
         if stmt.find1("when"):
             gr = GroupNode()
             target._add_child(gr)
             target = gr
         target._handle_substatements(stmt, sctx)
+        return True
 
     def _deviation_stmt(self, stmt: Statement,
                         sctx: SchemaContext) -> None:
-- 
2.43.0


From 80d1534b5d41c662b3cf9752d3fea17d97ff8caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:06 +0000
Subject: [PATCH 39/73] fix: defaults in refine replace the defaults of a
 leaf-list

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index b9adb1c..180515c 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -791,6 +791,8 @@ class InternalNode(SchemaNode):
             target.parent.children.remove(target)
         else:
             target._get_description(stmt)
+            if isinstance(target, LeafListNode) and stmt.find1("default"):
+                target._default = None      # replaced by the new defaults
             target._handle_substatements(stmt, sctx)
 
     def _uses_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-- 
2.43.0


From 550dfdebbc3672cb48f05c94f4218e408712fc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:06 +0000
Subject: [PATCH 40/73] fix: deviate delete of leaf-list defaults

---
 yangson/schemanode.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 180515c..576319b 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1693,12 +1693,10 @@ class LeafListNode(SequenceNode, TerminalNode):
             if action == "replace":
                 self._default = []
             self._default_stmt(stmt, sctx)
-        elif action == "delete":
-            val = self.type.parse_value(stmt.argument)
-            for i in range(len(self._default)):
-                if self._default[i] == val:
-                    del self._default[i]
-                    return
+        elif self._default and stmt.argument in self._default:
+            self._default.remove(stmt.argument)
+            if not self._default:
+                self._default = None
 
     def _post_process(self) -> None:
         super()._post_process()
-- 
2.43.0


From d24661a15c50222e40e15a6657e71712d45b4599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 41/73] fix: unquoted strings end at separators and braces also
 after a slash

---
 yangson/statement.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index c4872e4..8c68605 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -354,6 +354,12 @@ class ModuleParser(Parser):
         Raises:
             EndOfInput: If past the end of input.
         """
+        def back():
+            self.offset -= 1
+            return 0
+
+        def forbidden():
+            raise UnexpectedInput(self, "unquoted string")
         start = self.offset
         self.dfa([
             {  # state 0: argument
@@ -364,12 +370,18 @@ class ModuleParser(Parser):
                 "\r": lambda: -1,
                 "\n": lambda: -1,
                 "{": lambda: -1,
+                "}": forbidden,
+                "*": lambda: 2,
                 '/': lambda: 1
             },
             {  # state 1: comment?
-                "": lambda: 0,
+                "": back,
                 "/": self._back_break,
                 "*": self._back_break
+            },
+            {  # state 2: stray end of comment?
+                "": back,
+                "/": forbidden
             }])
         self._arg = self.input[start:self.offset]
 
-- 
2.43.0


From ede2287df8690604ad8dd2f32d9eddc9163a555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 42/73] fix: extension statements are not modules

---
 yangson/statement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index 8c68605..b7826e1 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -154,7 +154,7 @@ class ModuleParser(Parser):
         self.opt_separator()
         start = self.offset
         res = self.statement()
-        if res.keyword not in ["module", "submodule"]:
+        if res.prefix or res.keyword not in ["module", "submodule"]:
             self.offset = start
             raise UnexpectedInput(self, "'module' or 'submodule'")
         if self.name is not None and res.argument != self.name:
-- 
2.43.0


From 40253a8d503d45e7c45fd67d82f2b316f6a0b537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 43/73] fix: refuse unfinished comments after the module
 statement

---
 yangson/statement.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index b7826e1..410fef7 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -22,7 +22,8 @@ This module implements the following classes:
 * ModuleParser: Recursive-descent parser for YANG modules.
 * Statement: YANG statements.
 """
-from typing import Final, Optional
+import re
+from typing import Final, Optional, Pattern
 from .exceptions import (
     EndOfInput, StatementNotFound, UnexpectedInput, InvalidArgument,
     ModuleNameMismatch, ModuleRevisionMismatch)
@@ -128,6 +129,10 @@ class ModuleParser(Parser):
                                            "\\": "\\"}
     """Dictionary for mapping escape sequences to characters."""
 
+    end_re: Final[Pattern] = re.compile(
+        r"([ \t\n]|\r\n|//[^\n]*(\n|$)|/\*([^*]|\*(?!/))*\*/)*")
+    """Regular expression for what may follow the module statement."""
+
     def __init__(self, text: str, name: YangIdentifier = None,
                  rev: str = "") -> None:
         """Initialize the parser instance.
@@ -163,10 +168,13 @@ class ModuleParser(Parser):
         modrev = revst.argument if revst else ""
         if self.rev != modrev:
             raise ModuleRevisionMismatch(modrev, self.rev)
+        end = self.offset
         try:
             self.opt_separator()
         except EndOfInput:
-            return res
+            if self.end_re.fullmatch(self.input, end):
+                return res
+            raise
         raise UnexpectedInput(self, "end of input")
 
     def _back_break(self) -> int:
-- 
2.43.0


From 98438e5f3297911d2b52910343051fe156455038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 44/73] fix: report positions of bad escapes, accept any number
 of escapes

---
 yangson/statement.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index 410fef7..588cf71 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -188,11 +188,9 @@ class ModuleParser(Parser):
         Args:
             text: Text to unescape.
         """
-        chop = text.split("\\", 1)
         try:
-            return (chop[0] if len(chop) == 1
-                    else chop[0] + cls.unescape_map[chop[1][0]] +
-                    cls.unescape(chop[1][1:]))
+            return re.sub(r"\\(.)", lambda m: cls.unescape_map[m[1]], text,
+                          flags=re.S)
         except KeyError:
             raise InvalidArgument(text) from None
 
@@ -340,6 +338,9 @@ class ModuleParser(Parser):
         def escape():
             self._escape = True
             return 1
+
+        def bad_escape():
+            raise UnexpectedInput(self, "escape sequence")
         self._escape = False                 # any escaped chars?
         self.offset += 1
         start = self.offset
@@ -350,7 +351,8 @@ class ModuleParser(Parser):
                 "\\": escape
             },
             {  # state 1: after escape
-                "": lambda: 0
+                "": bad_escape,
+                **{c: lambda: 0 for c in self.unescape_map}
             }])
         self._arg += (self.unescape(self.input[start:self.offset])
                       if self._escape else self.input[start:self.offset])
-- 
2.43.0


From fb61d25b56c1ee73ee10a8e848eff35c0b42c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 45/73] fix: trim indentation and trailing white space in
 double-quoted strings

---
 yangson/statement.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index 588cf71..a59cbb8 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -354,10 +354,34 @@ class ModuleParser(Parser):
                 "": bad_escape,
                 **{c: lambda: 0 for c in self.unescape_map}
             }])
-        self._arg += (self.unescape(self.input[start:self.offset])
-                      if self._escape else self.input[start:self.offset])
+        text = self.input[start:self.offset]
+        if "\n" in text:
+            before = self.input[self.input.rfind("\n", 0, start) + 1:start]
+            text = self._trim_lines(text, len(before.expandtabs(8)))
+        self._arg += self.unescape(text) if self._escape else text
         self.offset += 1
 
+    @staticmethod
+    def _trim_lines(text: str, indent: int) -> str:
+        """Trim white space around line breaks in a double-quoted string.
+
+        Args:
+            text: Text to be trimmed.
+            indent: Number of columns to remove from the start of lines.
+        """
+        fst, *rest = text.split("\n")
+        res = [fst]
+        for line in rest:
+            width = pos = 0
+            while width < indent and line[pos:pos + 1] in (" ", "\t"):
+                width += 8 if line[pos] == "\t" else 1
+                pos += 1
+            res.append(" " * (width - indent) + line[pos:])
+        for i in range(len(rest)):
+            eol = "\r" if res[i].endswith("\r") else ""
+            res[i] = res[i][:len(res[i]) - len(eol)].rstrip(" \t") + eol
+        return "\n".join(res)
+
     def unq_argument(self) -> str:
         """Parse unquoted argument.
 
-- 
2.43.0


From 2f555baa318d7f1a1fb681136ca9c65395cebca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:16 +0000
Subject: [PATCH 46/73] fix: only quoted strings may be concatenated with +

---
 yangson/statement.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index a59cbb8..602be97 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -289,10 +289,13 @@ class ModuleParser(Parser):
                 sub.superstmt = res
         return res
 
-    def argument(self) -> bool:
+    def argument(self, first: bool = True) -> bool:
         """Parse statement argument.
 
         Return ``True`` if the argument is followed by block of substatements.
+
+        Args:
+            first: Is this the beginning of the argument?
         """
         next = self.peek()
         if next == "'":
@@ -301,7 +304,7 @@ class ModuleParser(Parser):
         elif next == '"':
             quoted = True
             self.dq_argument()
-        elif self._arg == "":
+        elif first:
             quoted = False
             self.unq_argument()
         else:
@@ -315,7 +318,7 @@ class ModuleParser(Parser):
         elif quoted and next == "+":
             self.offset += 1
             self.opt_separator()
-            return self.argument()
+            return self.argument(False)
         else:
             raise UnexpectedInput(self, "';', '{'" +
                                   (" or '+'" if quoted else ""))
-- 
2.43.0


From f8aebc28bda95032c83b33ae3d3dab43f4b3c69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 47/73] fix: data paths that are empty or continue below a leaf

---
 yangson/datamodel.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index d871bba..a406584 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -185,15 +185,12 @@ class DataModel:
         Raises:
             InvalidSchemaPath: If the schema path is invalid.
         """
-        addr = self.schema_data.path2route(path)
-        node: InternalNode = self.schema
-        for p in addr:
-            child = node.get_data_child(*p)
-            if child is None:
+        node = self.schema
+        for p in self.schema_data.path2route(path):
+            if not isinstance(node, InternalNode):
                 return None
-            if isinstance(child, InternalNode):
-                node = child
-        return child
+            node = node.get_data_child(*p)
+        return node
 
     def ascii_tree(self, no_types: bool = False,
                    val_count: bool = False) -> str:
-- 
2.43.0


From d250124a2bd7f6ccc3d2ddc9bff0357ed5b8bece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 48/73] fix: nodes inside an rpc, action or notification aren't
 data children of its parent

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 576319b..8c04714 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -516,6 +516,8 @@ class InternalNode(SchemaNode):
             elif not isinstance(child, DataNode):
                 todo.append(child)
         for c in todo:
+            if isinstance(c, SchemaTreeNode):   # contents of operations
+                continue
             res = c.get_data_child(name, ns)
             if res:
                 return res
-- 
2.43.0


From a474cd8393f6bbf7d78bb978a2c528ce9aaafdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 49/73] fix: instance names and data paths of operations and
 notifications

---
 yangson/schemanode.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 8c04714..e05b1de 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1793,9 +1793,9 @@ class RpcActionNode(SchemaTreeNode):
         """Override the superclass method."""
         return super(GroupNode, self).iname()
 
-    def data_parent(self) -> None:
+    def data_parent(self) -> Optional[InternalNode]:
         """Override the superclass method."""
-        return self.parent
+        return super(GroupNode, self).data_parent()
 
     def _handle_substatements(self, stmt: Statement,
                               sctx: SchemaContext) -> None:
@@ -1873,6 +1873,14 @@ class NotificationNode(SchemaTreeNode):
         self.default_deny: DefaultDeny = DefaultDeny.none
         self._ctype = ContentType.nonconfig
 
+    def iname(self) -> InstanceName:
+        """Override the superclass method."""
+        return super(GroupNode, self).iname()
+
+    def data_parent(self) -> Optional[InternalNode]:
+        """Override the superclass method."""
+        return super(GroupNode, self).data_parent()
+
     def _flatten(self) -> list[SchemaNode]:
         return [self]
 
-- 
2.43.0


From f12905a60b7d1f61a21452b1a1002ede2f13016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 50/73] fix: ASCII tree crashed if only empty groups are under
 a node

---
 yangson/schemanode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index e05b1de..7ba699d 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -885,11 +885,11 @@ class InternalNode(SchemaNode):
         def suffix(sn):
             return f" {{{sn.val_count}}}\n" if val_count and isinstance(
                 sn, (SchemaTreeNode, DataNode)) else "\n"
-        if not self.children:
-            return ""
         cs = []
         for c in self.children:
             cs.extend(c._flatten())
+        if not cs:
+            return ""
         cs.sort(key=lambda x: x.qual_name)
         res = ""
         for c in cs[:-1]:
-- 
2.43.0


From 3ad5ee3ab8f7359d40f2685533ea2474c35393b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 51/73] fix: names in conditional groups were always qualified
 in the ASCII tree

---
 yangson/schemanode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 7ba699d..6bf4094 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -242,7 +242,10 @@ class SchemaNode:
 
     def _tree_name(self) -> str:
         """Return the receiver's name to be displayed in ASCII tree."""
-        return cast(str, self.name if self.parent and self.ns == self.parent.ns
+        parent = self.parent
+        while parent and parent.name is None:       # anonymous groups
+            parent = parent.parent
+        return cast(str, self.name if parent and self.ns == parent.ns
                     else f"{self.ns}:{self.name}")
 
     def _validate(self, inst: InstanceNode, scope: ValidationScope,
-- 
2.43.0


From d0f168cb8961c6d3bff290295a10359f1425c8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 52/73] fix: schema digest of conditional operations and of
 leaf-list defaults

---
 yangson/schemanode.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 6bf4094..0d7f28a 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -657,8 +657,13 @@ class InternalNode(SchemaNode):
             cdig = rc[c.iname()] = c._node_digest()
             if self.config and not c.config:
                 cdig["config"] = False
-        for c in [c for c in self.children if isinstance(c, SchemaTreeNode)]:
-            rc[c.iname()] = c._node_digest()
+        todo = self.children[:]
+        while todo:
+            c = todo.pop(0)
+            if isinstance(c, (RpcActionNode, NotificationNode)):
+                rc[c.iname()] = c._node_digest()
+            elif c.name is None:        # anonymous group
+                todo.extend(c.children)
         return res
 
     def _validate(self, inst: InstanceNode,
@@ -1102,7 +1107,9 @@ class TerminalNode(SchemaNode):
         res["type"] = self.type._type_digest(self.config)
         df = self.default
         if df is not None:
-            res["default"] = self.type.to_raw(df)
+            res["default"] = ([self.type.to_raw(d) for d in df]
+                              if isinstance(df, ArrayValue)
+                              else self.type.to_raw(df))
         if self.units:
             res["units"] = self.units
         return res
-- 
2.43.0


From cb82773b83d1a48f8dcd373e5ab1c2142ba263f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:44 +0000
Subject: [PATCH 53/73] fix: state_roots() crashed on anydata and anyxml

---
 yangson/schemanode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 0d7f28a..8685c33 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1772,6 +1772,9 @@ class AnyContentNode(DataNode):
     def _tree_line(self, no_type: bool = False) -> str:
         return super()._tree_line() + ("" if self._mandatory else "?")
 
+    def _state_roots(self) -> list[SchemaNode]:
+        return TerminalNode._state_roots(self)
+
     def _ascii_tree(self, indent: str, no_types: bool, val_count: bool) -> str:
         return ""
 
-- 
2.43.0


From a77bd688b1a780da613fb9b5342886b51e55ed98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:44 +0000
Subject: [PATCH 54/73] fix: splitting an empty instance route

---
 yangson/schemanode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 8685c33..1464cff 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1015,7 +1015,7 @@ class DataNode(SchemaNode):
             if not sroute:
                 break
             inst = sroute.pop()
-            if inst != route[i].iname():
+            if i >= len(route) or inst != route[i].iname():
                 return None
             while True:         # skip up to next MemberName
                 i += 1
-- 
2.43.0


From 698264e08f42ca4e4def5ff67e25b326a5b42193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:04 +0000
Subject: [PATCH 55/73] fix: refuse YANG library data with missing
 module-set-id or values of wrong types

---
 yangson/schemadata.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 4deb58c..7d72502 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -128,6 +128,7 @@ class SchemaData:
             ModuleNotFound: If a YANG module wasn't found in any of the
                 directories specified in `mod_path`.
         """
+        self._check_yang_library(yang_lib)
         try:
             for item in yang_lib["ietf-yang-library:modules-state"]["module"]:
                 name = item["name"]
@@ -172,6 +173,36 @@ class SchemaData:
         self._process_imports()
         self._check_feature_dependences()
 
+    @staticmethod
+    def _check_yang_library(yang_lib: dict[str, Any]) -> None:
+        """Check the structure of YANG library data.
+
+        Raises:
+            BadYangLibraryData: If YANG library data is invalid.
+        """
+        def check(value: Any, what: str, typ: type) -> Any:
+            if not isinstance(value, typ):
+                raise BadYangLibraryData("invalid " + what)
+            return value
+        try:
+            state = check(check(yang_lib, "library", dict)[
+                "ietf-yang-library:modules-state"], "modules-state", dict)
+            check(state["module-set-id"], "module-set-id", str)
+            for item in check(state["module"], "module", list):
+                check(item, "module", dict)
+                check(item["name"], "name", str)
+                check(item["revision"], "revision", str)
+                if item["conformance-type"] not in ("implement", "import"):
+                    raise BadYangLibraryData("invalid conformance-type")
+                for feat in check(item.get("feature", []), "feature", list):
+                    check(feat, "feature", str)
+                for sub in check(item.get("submodule", []), "submodule", list):
+                    check(sub, "submodule", dict)
+                    check(sub["name"], "name", str)
+                    check(sub["revision"], "revision", str)
+        except KeyError as e:
+            raise BadYangLibraryData("missing " + str(e)) from None
+
     def _load_module(self, name: YangIdentifier,
                      rev: RevisionDate, mdata: ModuleData) -> Statement:
         """Read and parse a YANG module or submodule."""
-- 
2.43.0


From 5b8c64949397c04b8cf63dec835011229a9efd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:04 +0000
Subject: [PATCH 56/73] fix: imports cannot refer to submodules

---
 yangson/schemadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 7d72502..d1c2853 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -242,6 +242,8 @@ class SchemaData:
                         raise ModuleNotRegistered(*imid)
                 else:                              # use last revision
                     imid = self.last_revision(impn)
+                if self.modules[imid].main_module != imid:
+                    raise ModuleNotRegistered(*imid)   # submodule
                 self.modules[mid].prefix_map[prefix] = imid
                 mm = self.modules[mid].main_module
                 if mm in impl and imid in impl:
-- 
2.43.0


From 25d5f99fb4b7c06e950c237c29b657866a200005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:04 +0000
Subject: [PATCH 57/73] fix: order of module processing doesn't depend on hash
 randomization

---
 yangson/schemadata.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index d1c2853..a25dc6a 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -227,9 +227,10 @@ class SchemaData:
         raise ModuleNotFound(name, rev)
 
     def _process_imports(self) -> None:
-        impl = set(self.implement.items())
+        # the order of processing must be reproducible
+        impl = list(self.implement.items())
         deps = {mid: set() for mid in impl}
-        impby = {mid: set() for mid in impl}
+        impby = {mid: {} for mid in impl}
         for mid in self.modules:
             mod = self.modules[mid].statement
             for impst in mod.find_all("import"):
@@ -248,7 +249,7 @@ class SchemaData:
                 mm = self.modules[mid].main_module
                 if mm in impl and imid in impl:
                     deps[mm].add(imid)
-                    impby[imid].add(mm)
+                    impby[imid][mm] = True
         if len(impl) == 0:
             return
         free = [mid for mid in deps if len(deps[mid]) == 0]
@@ -257,7 +258,8 @@ class SchemaData:
         while free:
             nid = free.pop()
             self._module_sequence.append(nid)
-            self._module_sequence.extend(self.modules[nid].submodules)
+            self._module_sequence.extend(
+                sorted(self.modules[nid].submodules))
             for mid in impby[nid]:
                 deps[mid].remove(nid)
                 if len(deps[mid]) == 0:
-- 
2.43.0


From f124ff27f6a14e5bac5daacc4ac2e51b3c4c5c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 58/73] fix: yangson reports failures of all kinds with the
 documented exit status

---
 yangson/__main__.py | 46 ++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/yangson/__main__.py b/yangson/__main__.py
index 89d0a90..e61b63d 100644
--- a/yangson/__main__.py
+++ b/yangson/__main__.py
@@ -27,10 +27,10 @@ from typing import Optional
 from yangson import DataModel
 from yangson.enumerations import ContentType, ValidationScope
 from yangson.exceptions import (
-    BadYangLibraryData, FeaturePrerequisiteError, InvalidArgument,
-    MultipleImplementedRevisions, ModuleNotFound, ModuleNotRegistered,
-    NonexistentSchemaNode, RawMemberError, RawTypeError,
-    SchemaError, SemanticError, YangTypeError)
+    BadSchemaNodeType, BadYangLibraryData, FeaturePrerequisiteError,
+    InvalidArgument, MultipleImplementedRevisions, ModuleNotFound,
+    ModuleNotRegistered, NonexistentSchemaNode, RawMemberError, RawTypeError,
+    SchemaError, SemanticError, YangsonException, YangTypeError)
 from yangson.typealiases import PrefName
 
 
@@ -127,15 +127,17 @@ def main(infile: Optional[str] = None, pickled: bool = False,
         try:
             with open(infile, "rb") as pif:
                 dm = pickle.load(pif)
-        except (FileNotFoundError, pickle.UnpicklingError) as e:
-            print("Pickle file:", str(e), file=sys.stderr)
+        except Exception as e:  # wrong data may cause any exception
+            print("Pickle file:", str(e) or repr(e), file=sys.stderr)
+            return 1
+        if not isinstance(dm, DataModel):
+            print("Pickle file: not a data model", file=sys.stderr)
             return 1
     else:
         try:
             with open(infile, encoding="utf-8") as ylf:
                 yl = ylf.read()
-        except (FileNotFoundError, PermissionError, UnicodeDecodeError,
-                json.decoder.JSONDecodeError) as e:
+        except (OSError, UnicodeDecodeError) as e:
             print("YANG library:", str(e), file=sys.stderr)
             return 1
         sp = path if path else os.environ.get("YANG_MODPATH", ".")
@@ -157,6 +159,10 @@ def main(infile: Optional[str] = None, pickled: bool = False,
         except ModuleNotRegistered as e:
             print("Module not registered:", str(e), file=sys.stderr)
             return 2
+        except (YangsonException, OSError, UnicodeDecodeError) as e:
+            print("Data model problem:", type(e).__name__, str(e),
+                  file=sys.stderr)
+            return 2
     if set_id:
         print(dm.module_set_id())
         return 0
@@ -167,19 +173,19 @@ def main(infile: Optional[str] = None, pickled: bool = False,
         print(dm.schema_digest())
         return 0
     if dump:
-        with open(dump, "wb") as pif:
-            try:
+        try:
+            with open(dump, "wb") as pif:
                 pickle.dump(dm, pif, pickle.HIGHEST_PROTOCOL)
-                return 0
-            except pickle.PicklingError as e:
-                print("Pickling failed:", str(e), file=sys.stderr)
+            return 0
+        except (OSError, pickle.PicklingError) as e:
+            print("Pickling failed:", str(e), file=sys.stderr)
+            return 1
     if not validate:
         return 0
     try:
         with open(validate, encoding="utf-8") as instf:
             itxt = json.load(instf)
-    except (FileNotFoundError, PermissionError, UnicodeDecodeError,
-            json.decoder.JSONDecodeError) as e:
+    except (OSError, UnicodeDecodeError, json.decoder.JSONDecodeError) as e:
         print("Instance data:", str(e), file=sys.stderr)
         return 1
     try:
@@ -197,6 +203,13 @@ def main(infile: Optional[str] = None, pickled: bool = False,
     except NonexistentSchemaNode:
         print("Subschema", subschema, "not found", file=sys.stderr)
         return 3
+    except BadSchemaNodeType:
+        print("Subschema", subschema, "is neither RPC nor notification",
+              file=sys.stderr)
+        return 3
+    except YangsonException as e:
+        print("Invalid instance data:", str(e), file=sys.stderr)
+        return 3
     try:
         i.validate(scope, ctype)
     except SchemaError as e:
@@ -208,6 +221,9 @@ def main(infile: Optional[str] = None, pickled: bool = False,
     except YangTypeError as e:
         print("Invalid type:", str(e), file=sys.stderr)
         return 3
+    except YangsonException as e:
+        print("Validation failed:", str(e), file=sys.stderr)
+        return 3
     return 0
 
 
-- 
2.43.0


From 33e52684158d613024f7822d877e373fd0d951b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 59/73] fix: deviations are converted

---
 yangson/convert8525.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/yangson/convert8525.py b/yangson/convert8525.py
index e94a86c..14e8ce7 100644
--- a/yangson/convert8525.py
+++ b/yangson/convert8525.py
@@ -31,7 +31,7 @@ from yangson import DataModel
 from yangson.enumerations import ContentType
 from yangson.exceptions import (
     NonexistentInstance, ValidationError, RawDataError)
-from yangson.instvalue import ObjectValue
+from yangson.instvalue import ArrayValue, ObjectValue
 from yangson.typealiases import RawObject
 
 YL7895 = """
@@ -123,8 +123,15 @@ class ModuleData:
 
 class MainModuleData(ModuleData):
 
-    def __init__(self, val: ObjectValue, import_only: bool) -> None:
-        """Initialize the receiver."""
+    def __init__(self, val: ObjectValue, import_only: bool,
+                 modules: ArrayValue = ArrayValue()) -> None:
+        """Initialize the receiver.
+
+        Args:
+            val: Entry of the list of modules.
+            import_only: Is the module only imported?
+            modules: Implemented modules of the same module set.
+        """
         super().__init__(val)
         self.import_only = import_only
         self.namespace: str = val["namespace"].strip()
@@ -135,13 +142,8 @@ class MainModuleData(ModuleData):
         self.feature: list[str] = val.get("feature", [])
         self.deviation: list[tuple[str, str]] = []
         if "deviation" in val:
-            for dev in val["deviation"]:
-                dmod = dev._deref()[0]
-                try:
-                    rev = dmod.sibling("revision").value
-                except NonexistentInstance:
-                    rev = ""
-                self.deviation.append((dmod.value, rev))
+            revs = {m["name"]: m.get("revision", "") for m in modules}
+            self.deviation = [(dev, revs[dev]) for dev in val["deviation"]]
 
     def add_submodule(self, sub_entry: ObjectValue):
         """Add submodule defined in an RFC 8525 submodule entry."""
@@ -226,7 +228,8 @@ def main() -> int:
         msentry = top["module-set"].look_up(name=ms.value)
         if "module" in msentry:
             for yam in msentry["module"]:
-                ment = MainModuleData(yam.value, import_only=False)
+                ment = MainModuleData(yam.value, import_only=False,
+                                      modules=msentry["module"].value)
                 modules[ment.key()] = ment
         if "import-only-module" in msentry:
             for yam in msentry["import-only-module"]:
-- 
2.43.0


From 753a0b49ed24e5ade9a8844592bb49152286e3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 60/73] fix: modules implemented in one module set and imported
 in another stay implemented

---
 yangson/convert8525.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yangson/convert8525.py b/yangson/convert8525.py
index 14e8ce7..5238376 100644
--- a/yangson/convert8525.py
+++ b/yangson/convert8525.py
@@ -234,7 +234,8 @@ def main() -> int:
         if "import-only-module" in msentry:
             for yam in msentry["import-only-module"]:
                 ment = MainModuleData(yam.value, import_only=True)
-                modules[ment.key()] = ment
+                # may be implemented in another module set
+                modules.setdefault(ment.key(), ment)
     dm7895 = DataModel(YL7895, sp.split(":"))
     res = dm7895.from_raw(
         {"ietf-yang-library:modules-state":
-- 
2.43.0


From 0eccb74eb10ed357c9443c3ef4ba24a01a1909c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 61/73] fix: convert8525 reports unusable input and output
 files with the documented exit status

---
 yangson/convert8525.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/yangson/convert8525.py b/yangson/convert8525.py
index 5238376..dcec900 100644
--- a/yangson/convert8525.py
+++ b/yangson/convert8525.py
@@ -29,8 +29,7 @@ import sys
 from typing import cast, Optional
 from yangson import DataModel
 from yangson.enumerations import ContentType
-from yangson.exceptions import (
-    NonexistentInstance, ValidationError, RawDataError)
+from yangson.exceptions import NonexistentInstance, YangsonException
 from yangson.instvalue import ArrayValue, ObjectValue
 from yangson.typealiases import RawObject
 
@@ -201,15 +200,15 @@ def main() -> int:
     sp = path if path else os.environ.get("YANG_MODPATH", ".")
     dm8525 = DataModel(YL8525, sp.split(":"))
     try:
-        with open(fn8525) as infile:
+        with open(fn8525, encoding="utf-8") as infile:
             ri = json.load(infile)
         inst = dm8525.from_raw(ri)
         inst.validate(ctype=ContentType.nonconfig)
-    except (FileNotFoundError, PermissionError, json.decoder.JSONDecodeError,
-            RawDataError, ValidationError) as e:
+        top = inst["ietf-yang-library:yang-library"]
+    except (OSError, UnicodeDecodeError, json.decoder.JSONDecodeError,
+            YangsonException) as e:
         print("Invalid input data:", str(e), file=sys.stderr)
         return 1
-    top = inst["ietf-yang-library:yang-library"]
     if schema is None:
         try:
             schema = cast(str, top["datastore"].look_up(
@@ -245,8 +244,9 @@ def main() -> int:
         "module", [modules[m].as_raw() for m in modules], raw=True).top()
     res.validate(ctype=ContentType.nonconfig)
     try:
-        outf = open(fn7895, mode="w") if args.output else sys.stdout
-    except FileNotFoundError as e:
+        outf = (open(fn7895, mode="w", encoding="utf-8")
+                if args.output else sys.stdout)
+    except OSError as e:
         print(e, file=sys.stderr)
         return 3
     json.dump(res.raw_value(), outf, indent=2)
-- 
2.43.0


From c8a75b6ef5eda0c438d42f6eb32654901e506500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 62/73] fix: a schema without module sets exists

---
 yangson/convert8525.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yangson/convert8525.py b/yangson/convert8525.py
index dcec900..5a0e2b3 100644
--- a/yangson/convert8525.py
+++ b/yangson/convert8525.py
@@ -218,10 +218,11 @@ def main() -> int:
                   file=sys.stderr)
             return 2
     try:
-        msets = top["schema"].look_up(name=schema)["module-set"]
+        sentry = top["schema"].look_up(name=schema)
     except NonexistentInstance:
         print(f"No such schema: '{schema}'", file=sys.stderr)
         return 2
+    msets = sentry["module-set"] if "module-set" in sentry else []
     modules: dict[tuple[str, str], MainModuleData] = {}
     for ms in msets:
         msentry = top["module-set"].look_up(name=ms.value)
-- 
2.43.0


From 785fe0b731b1da9cafbc4ebf22ef541ff4947fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:14 +0000
Subject: [PATCH 63/73] fix: decide from its contents whether a non-presence
 container may be absent

The container was required if it had a mandatory descendant, even if a
condition makes the descendant inapplicable, and it was optional if the
mandatory descendant came from a conditional uses or augment.
---
 yangson/schemanode.py | 20 +++++------
 yangson/schpattern.py | 77 +++++++++++++------------------------------
 2 files changed, 31 insertions(+), 66 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 1464cff..5f74204 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -60,8 +60,9 @@ from .instroute import InstanceRoute
 from .instvalue import (
     ArrayValue, EntryValue, MetadataObject, ObjectValue, Value, value_key)
 from .schemadata import IdentityAdjacency, SchemaContext, SchemaData
-from .schpattern import (ChoicePattern, ConditionalPattern, Empty, Member,
-                         NotAllowed, Pair, SchemaPattern)
+from .schpattern import (ChoicePattern, ConditionalPattern, Empty,
+                         ImplicitMember, Member, NotAllowed, Pair,
+                         SchemaPattern)
 from .statement import Statement
 from .typealiases import (DataPath, InstanceName, JSONPointer, QualName,
                           RawEntry, RawList, RawObject, RawScalar, RawValue,
@@ -1208,16 +1209,11 @@ class ContainerNode(DataNode, InternalNode):
         return inst if lazy else self._add_defaults(inst, ctype)
 
     def _pattern_entry(self) -> SchemaPattern:
-        m = Member(self.iname(), self.content_type(), self.when)
-        if self._status == NodeStatus.deprecated:
-            return SchemaPattern.optional(m)
-        if self.mandatory:
-            if not self.mandatory_config:
-                return SchemaPattern.optional_config(m)
-            return (m if self.mandatory_nonconfig else
-                    SchemaPattern.optional_nonconfig(m))
-        else:
-            return SchemaPattern.optional(m)
+        if self.presence or self._status == NodeStatus.deprecated:
+            return super()._pattern_entry()
+        # something inside may be required even if there is no such member
+        return ImplicitMember(self.iname(), self.content_type(), self.when,
+                              self._schema_pattern())
 
     def _presence_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         self.presence = True
diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index 66b755c..5647b1c 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -18,6 +18,7 @@
 """This module defines classes for schema patterns."""
 from typing import Optional, TYPE_CHECKING
 from .enumerations import ContentType
+from .instvalue import ObjectValue
 from .typealiases import InstanceName, _Singleton, YangIdentifier
 from .xpathast import Expr
 if TYPE_CHECKING:
@@ -32,16 +33,6 @@ class SchemaPattern:
         """Make `p` an optional pattern."""
         return Alternative.combine(Empty(), p)
 
-    @staticmethod
-    def optional_config(p: "SchemaPattern") -> "SchemaPattern":
-        """Make `p` an optional in configuration."""
-        return Alternative.combine(EmptyConfig(), p)
-
-    @staticmethod
-    def optional_nonconfig(p: "SchemaPattern") -> "SchemaPattern":
-        """Make `p` an optional in state data."""
-        return Alternative.combine(EmptyNonconfig(), p)
-
     def nullable(self, ctype: ContentType) -> bool:
         """Return ``True`` the receiver is nullable."""
         return False
@@ -84,50 +75,6 @@ class Empty(SchemaPattern, metaclass=_Singleton):
         return "Empty"
 
 
-class EmptyConfig(SchemaPattern, metaclass=_Singleton):
-    """A pattern empty in configuration, not allowed otherwise."""
-
-    def nullable(self, ctype: ContentType) -> bool:
-        """Override the superclass method."""
-        return ctype == ContentType.config
-
-    def deriv(self, x: str, ctype: ContentType) -> SchemaPattern:
-        """Return derivative of the receiver."""
-        return NotAllowed()
-
-    def tree(self, indent: int = 0):
-        return " " * indent + "EmptyConfig"
-
-    def __str__(self) -> str:
-        return "EmptyConfig"
-
-    def _mandatory_members(
-            self, ctype: ContentType) -> Optional[list[InstanceName]]:
-        return [] if ctype.value & ContentType.nonconfig.value else None
-
-
-class EmptyNonconfig(SchemaPattern, metaclass=_Singleton):
-    """A pattern empty in pure state data, not allowed otherwise."""
-
-    def nullable(self, ctype: ContentType) -> bool:
-        """Override the superclass method."""
-        return ctype == ContentType.nonconfig
-
-    def deriv(self, x: str, ctype: ContentType) -> SchemaPattern:
-        """Return derivative of the receiver."""
-        return NotAllowed()
-
-    def tree(self, indent: int = 0):
-        return " " * indent + "EmptyNonconfig"
-
-    def __str__(self) -> str:
-        return "EmptyNonconfig"
-
-    def _mandatory_members(
-            self, ctype: ContentType) -> Optional[list[InstanceName]]:
-        return [] if ctype.value & ContentType.config.value else None
-
-
 class NotAllowed(SchemaPattern, metaclass=_Singleton):
 
     def deriv(self, x: str, ctype: ContentType) -> SchemaPattern:
@@ -244,6 +191,28 @@ class Member(Typeable, Conditional):
             return [self.name]
 
 
+class ImplicitMember(Member):
+    """Member that may be left out if nothing is required inside it."""
+
+    def __init__(self, name: InstanceName, ctype: ContentType,
+                 when: Optional[Expr], content: SchemaPattern) -> None:
+        super().__init__(name, ctype, when)
+        self.content = content
+
+    def _eval_when(self, cnode: "InstanceNode") -> None:
+        super()._eval_when(cnode)
+        if self.name not in cnode.value:
+            self.content._eval_when(cnode.put_member(self.name, ObjectValue()))
+
+    def nullable(self, ctype: ContentType) -> bool:
+        """Override the superclass method."""
+        return super().nullable(ctype) or self.content.nullable(ctype)
+
+    def _mandatory_members(self, ctype: ContentType) -> list[InstanceName]:
+        if not self.nullable(ctype):
+            return super()._mandatory_members(ctype)
+
+
 class Alternative(SchemaPattern):
 
     @classmethod
-- 
2.43.0


From 021aa95d737939cb37233244af51c7a6824bd62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 64/73] fix: let require-instance true override the restriction
 of a derived type

---
 yangson/datatype.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index d74d1db..b0a5cdd 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -656,8 +656,9 @@ class LinkType(DataType[S, RS]):
 
     def _handle_restrictions(self, stmt: Statement,
                              sctx: SchemaContext) -> None:
-        if stmt.find1("require-instance", "false"):
-            self.require_instance = False
+        rst = stmt.find1("require-instance")
+        if rst:
+            self.require_instance = rst.argument == "true"
 
 
 class LeafrefType(LinkType[ScalarValue, RawScalar]):
-- 
2.43.0


From 8c5f587511e6f06ee9d66c0bc9941dbcef4386bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 65/73] fix: make the order of identities in schema digests
 reproducible

---
 yangson/datatype.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index b0a5cdd..769a818 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -923,8 +923,9 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
         res = super()._type_digest(config)
         if config:
             sd = self.sctx.schema_data
-            res["identities"] = [i for i in sd.derived_from_all(self.bases)
-                                 if i[1] in sd.implement]
+            res["identities"] = sorted(
+                i for i in sd.derived_from_all(self.bases)
+                if i[1] in sd.implement)
         return res
 
 
-- 
2.43.0


From 58e9469bb6b201e8c17216af7bb8f0e72416bfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 66/73] fix: keep the status of groupings and augments apart
 from that of nodes around

The status of a grouping or an augment was assigned to the node that uses
the grouping or is augmented, or ended with AttributeError at the top level.
---
 yangson/schemanode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 5f74204..7503e97 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -328,6 +328,8 @@ class SchemaNode:
             self._ctype = None
 
     def _status_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
+        if stmt.superstmt.keyword == "grouping":
+            return          # not the status of the node using the grouping
         if stmt.argument == "deprecated":
             nst = NodeStatus.deprecated
         elif stmt.argument == "obsolete":
@@ -775,7 +777,7 @@ class InternalNode(SchemaNode):
             sctx.schema_data.sni2route(stmt.argument, sctx))
         if target is None:      # silently ignore missing target
             return False
-        if stmt.find1("when"):
+        if stmt.find1("when") or stmt.find1("status"):
             gr = GroupNode()
             target._add_child(gr)
             target = gr
-- 
2.43.0


From 145da7d436f68f2a94ebb2ffb1d9124a25cddde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 67/73] fix: make the effect of status independent of the order
 of statements

---
 yangson/schemanode.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 7503e97..69ec4fe 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -136,6 +136,10 @@ class SchemaNode:
         """Return receiver's definition status."""
         return self._status if self._status else self.parent.status
 
+    def _new_status(self, status: NodeStatus) -> bool:
+        """Does the receiver, unlike its parent, have the given status?"""
+        return self.status == status != self.parent.status
+
     def delete(self) -> None:
         """Remove the receiver from the schema."""
         self.parent.children.remove(self)
@@ -338,8 +342,7 @@ class SchemaNode:
                 mm].keep_obsolete else NodeStatus.obsolete
         else:
             nst = NodeStatus.current
-        if nst != self.parent.status:
-            self._status = nst
+        self._status = nst
 
     def _deviate_config(self, stmt: Statement,
                         sctx: SchemaContext, action: str) -> None:
@@ -716,7 +719,7 @@ class InternalNode(SchemaNode):
     def _schema_pattern(self) -> SchemaPattern:
         todo = [c for c in self.children if not (
             isinstance(c, (RpcActionNode, NotificationNode)) or
-            c._status == NodeStatus.obsolete)]
+            c._new_status(NodeStatus.obsolete))]
         if not todo:
             return Empty()
         prev = todo[0]._pattern_entry()
@@ -1055,8 +1058,8 @@ class DataNode(SchemaNode):
 
     def _pattern_entry(self) -> SchemaPattern:
         m = Member(self.iname(), self.content_type(), self.when)
-        return m if (self.mandatory and self._status !=
-                     NodeStatus.deprecated) else SchemaPattern.optional(m)
+        return m if (self.mandatory and not self._new_status(
+            NodeStatus.deprecated)) else SchemaPattern.optional(m)
 
     def _tree_line_prefix(self) -> str:
         return super()._tree_line_prefix() + (
@@ -1211,7 +1214,7 @@ class ContainerNode(DataNode, InternalNode):
         return inst if lazy else self._add_defaults(inst, ctype)
 
     def _pattern_entry(self) -> SchemaPattern:
-        if self.presence or self._status == NodeStatus.deprecated:
+        if self.presence or self._new_status(NodeStatus.deprecated):
             return super()._pattern_entry()
         # something inside may be required even if there is no such member
         return ImplicitMember(self.iname(), self.content_type(), self.when,
-- 
2.43.0


From 1b563c9396e741845d806bc56a99a58e30f05040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 68/73] fix: let obsolete nodes have no defaults and be no part
 of choices

Defaults of obsolete nodes were added to the data, which made it invalid,
and obsolete cases of a choice were still allowed.
---
 yangson/instance.py   |  7 ++++---
 yangson/schemanode.py | 18 +++++++++++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 08953eb..e5a6a61 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -38,7 +38,7 @@ import json
 from typing import Mapping, Optional, TYPE_CHECKING, Union
 from urllib.parse import unquote
 import xml.etree.ElementTree as ET
-from .enumerations import ContentType, ValidationScope
+from .enumerations import ContentType, NodeStatus, ValidationScope
 from .exceptions import (BadSchemaNodeType, EndOfInput, InstanceException,
                          InstanceValueError, InvalidKeyValue,
                          MissingModuleNamespace, NonexistentInstance,
@@ -744,14 +744,15 @@ class InstanceNode:
             wd = cn._default_instance(self, ContentType.all, lazy=True)
             if iname not in wd.value:
                 return []
-            while True:
+            while not cn._new_status(NodeStatus.obsolete):
                 cn = cn.parent
                 if cn is sn:
                     return wd._member(iname)._node_set()
                 if (cn.when and not cn.when.holds(self) or
                     isinstance(cn, CaseNode) and
                         cn is not cn._choice()._selected_case(self.value)):
-                    return []
+                    break
+            return []
         res = []
         wd = sn._add_defaults(self, ContentType.all, lazy=True)
         for mn in wd._member_names():
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 69ec4fe..8c49390 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -742,6 +742,8 @@ class InternalNode(SchemaNode):
     def _add_defaults(self, inst: InstanceNode, ctype: Optional[ContentType],
                       lazy: bool = False) -> InstanceNode:
         for c in self.filter_children(ctype):
+            if c._new_status(NodeStatus.obsolete):
+                continue
             if isinstance(c, DataNode):
                 inst = c._default_instance(inst, ctype, lazy)
             elif not isinstance(c, (RpcActionNode, NotificationNode)):
@@ -1538,11 +1540,16 @@ class ChoiceNode(InternalNode):
         return case._add_defaults(inst, ctype, lazy)
 
     def _cases(self) -> list["CaseNode"]:
-        """Return receiver's cases including those in anonymous groups."""
+        """Return receiver's cases including those in anonymous groups.
+
+        Obsolete cases are left out.
+        """
         res = []
         todo = self.children[:]
         while todo:
             c = todo.pop(0)
+            if c._new_status(NodeStatus.obsolete):
+                continue
             if isinstance(c, CaseNode):
                 res.append(c)
             else:
@@ -1551,16 +1558,21 @@ class ChoiceNode(InternalNode):
 
     def _selected_case(self, value: ObjectValue) -> Optional["CaseNode"]:
         """Return the active case or else the default case, if any."""
-        for c in self._cases():
+        cases = self._cases()
+        for c in cases:
             for cc in c.data_children():
                 if cc.iname() in value:
                     return c
-        return self.get_child(*self.default_case) if self.default_case else None
+        if self.default_case:
+            dc = self.get_child(*self.default_case)
+            return dc if dc in cases else None
 
     def _pattern_entry(self) -> SchemaPattern:
         prev = NotAllowed()
         for c in self._cases():
             pat = c._schema_pattern()
+            if isinstance(pat, Empty):
+                continue
             gr = c.parent
             while gr is not self:   # conditional augments
                 if gr.when:
-- 
2.43.0


From 338c1fb8980b23e1e57d7f8faab7d97d707d0330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 69/73] fix: resolve defaults of types in the context where
 they are defined

The default of a typedef was parsed as if it were written in the module that
uses the type, and before leafrefs were resolved, which failed.
---
 yangson/datatype.py | 55 ++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 769a818..78a83b5 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -114,6 +114,7 @@ class DataType(ABC, Generic[S, RS]):
         self.error_tag: Optional[str] = None
         self.error_message: Optional[str] = None
         self.units: Optional[str] = None
+        self._default_text: Optional[tuple[str, SchemaContext]] = None
 
     @abstractmethod
     def __contains__(self, val: S) -> bool:
@@ -187,13 +188,15 @@ class DataType(ABC, Generic[S, RS]):
         """Return the list of nodes that an instance `node` refers to."""
         return []
 
-    def from_yang(self, text: str) -> S:
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> S:
         """Parse value specified as default in a YANG module.
 
         Conformance to the receiving type isn't guaranteed.
 
         Args:
             text: String representation of the value.
+            sctx: Schema context of the text (default: that of the receiver).
 
         Raises:
             InvalidArgument: If the receiver type cannot parse the text.
@@ -214,11 +217,9 @@ class DataType(ABC, Generic[S, RS]):
                               "expected " + str(self))
 
     def _post_process(self, tnode: "TerminalNode") -> None:
-        """Post-process the receiver type on behalf of a terminal node.
-
-        By default do nothing.
-        """
-        pass
+        """Post-process the receiver type on behalf of a terminal node."""
+        if self._default_text:
+            self.default = self.from_yang(*self._default_text)
 
     @classmethod
     def _resolve_type(cls, stmt: Statement, sctx: SchemaContext) -> "DataType":
@@ -257,10 +258,7 @@ class DataType(ABC, Generic[S, RS]):
                 res.units = ust.argument
             dfst = tdef.find1("default")
             if dfst:
-                dval = cast(str, dfst.argument)
-                res.default = res.from_yang(dval)
-                if res.default is None:
-                    raise InvalidArgument(dval)
+                res._default_text = (cast(str, dfst.argument), tsc)
         res._handle_restrictions(stmt, sctx)
         return res
 
@@ -670,6 +668,7 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
     def __init__(self, sctx: SchemaContext, name: YangIdentifier) -> None:
         """Initialize the class instance."""
         super().__init__(sctx, name)
+        self._resolving: bool = False
 
     def __contains__(self, val: ScalarValue) -> bool:
         if val in self.ref_type:
@@ -707,8 +706,9 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
     def parse_value(self, text: str) -> Optional[ScalarValue]:
         return self.ref_type.parse_value(text)
 
-    def from_yang(self, text: str) -> ScalarValue:
-        return self.ref_type.from_yang(text)
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> ScalarValue:
+        return self.ref_type.from_yang(text, sctx or self.sctx)
 
     def _deref(self, node: InstanceNode) -> list[InstanceNode]:
         ns = self.path.evaluate(node)
@@ -717,10 +717,14 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
         raise XPathTypeError(str(ns))
 
     def _post_process(self, tnode: "TerminalNode") -> None:
-        ref = tnode._follow_leafref(self.path, tnode)
-        if ref is None:
-            raise InvalidLeafrefPath(tnode.qual_name, str(self.path))
-        self.ref_type = ref.type
+        if not self._resolving:
+            self._resolving = True
+            ref = tnode._follow_leafref(self.path, tnode)
+            if ref is None:
+                raise InvalidLeafrefPath(tnode.qual_name, str(self.path))
+            ref.type._post_process(ref)
+            self.ref_type = ref.type
+        super()._post_process(tnode)
 
     def _type_digest(self, config: bool) -> dict[str, Any]:
         res = super()._type_digest(config)
@@ -805,9 +809,10 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         """Override the superclass method."""
         return str(self._translate(val, lambda ns: ns, True))
 
-    def from_yang(self, text: str) -> InstanceRoute:
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> InstanceRoute:
         """Override the superclass method."""
-        xpp = XPathParser(text, self.sctx)
+        xpp = XPathParser(text, sctx or self.sctx)
         try:
             route = xpp.parse().as_instance_route()
         except (ParserException, NotSupported):
@@ -896,11 +901,12 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
     def to_xml(self, val: QualName) -> YangIdentifier:
         return self.canonical_string(val)
 
-    def from_yang(self, text: YangIdentifier) -> QualName:
+    def from_yang(self, text: YangIdentifier,
+                  sctx: Optional[SchemaContext] = None) -> QualName:
         """Override the superclass method."""
         try:
             return self.sctx.schema_data.translate_pname(
-                text, self.sctx.text_mid)
+                text, (sctx or self.sctx).text_mid)
         except (ModuleNotRegistered, UnknownPrefix):
             raise InvalidArgument(text)
 
@@ -1083,7 +1089,8 @@ class IntegralType(NumericType[int, RN]):
     def from_xml(self, xml: ET.Element) -> Optional[int]:
         return self.parse_value(_xml_number(xml))
 
-    def from_yang(self, text: str) -> int:
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> int:
         """Override the superclass method."""
         mo = self.octhex.match(text)
         if mo is None:
@@ -1225,11 +1232,12 @@ class UnionType(DataType[ScalarValue, RawScalar]):
         t = self._member_type(val)
         return None if t is None else t.canonical_string(val)
 
-    def from_yang(self, text: str) -> ScalarValue:
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> ScalarValue:
         """Override the superclass method."""
         for t in self.types:
             try:
-                val = t.from_yang(text)
+                val = t.from_yang(text, sctx)
             except InvalidArgument:
                 continue
             if val in t:
@@ -1265,6 +1273,7 @@ class UnionType(DataType[ScalarValue, RawScalar]):
     def _post_process(self, tnode: "TerminalNode") -> None:
         for t in self.types:
             t._post_process(tnode)
+        super()._post_process(tnode)
 
 
 DataType.dtypes = {"binary": BinaryType,
-- 
2.43.0


From 6205c0656958ad4e0f1aa5fec7b2152b7726d2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:12 +0000
Subject: [PATCH 70/73] fix: resolve prefixes in refined and deviated defaults
 where they are written

---
 yangson/schemanode.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 8c49390..6d27e63 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1668,14 +1668,14 @@ class LeafNode(DataNode, TerminalNode):
         if self._mandatory:
             self.parent._add_mandatory_child(self)
         elif self._default is not None:
-            self._default = self.type.from_yang(self._default)
+            self._default = self.type.from_yang(*self._default)
 
     def _tree_line(self, no_type: bool = False) -> str:
         res = super()._tree_line() + ("" if self._mandatory else "?")
         return res if no_type else f"{res} <{self.type}>"
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-        self._default = stmt.argument
+        self._default = (stmt.argument, sctx)
 
     def _deviate_default(self, stmt: Statement,
                          sctx: SchemaContext, action: str) -> None:
@@ -1708,9 +1708,8 @@ class LeafListNode(SequenceNode, TerminalNode):
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         if self._default is None:
-            self._default = [stmt.argument]
-        else:
-            self._default.append(stmt.argument)
+            self._default = []
+        self._default.append((stmt.argument, sctx))
 
     def _deviate_default(self, stmt: Statement,
                          sctx: SchemaContext, action: str) -> None:
@@ -1718,8 +1717,10 @@ class LeafListNode(SequenceNode, TerminalNode):
             if action == "replace":
                 self._default = []
             self._default_stmt(stmt, sctx)
-        elif self._default and stmt.argument in self._default:
-            self._default.remove(stmt.argument)
+        elif self._default:
+            args = [arg for arg, _ in self._default]
+            if stmt.argument in args:
+                del self._default[args.index(stmt.argument)]
             if not self._default:
                 self._default = None
 
@@ -1727,7 +1728,7 @@ class LeafListNode(SequenceNode, TerminalNode):
         super()._post_process()
         if self._default is not None:
             self._default = ArrayValue(
-                [self.type.from_yang(v) for v in self._default])
+                [self.type.from_yang(*v) for v in self._default])
 
     def _tree_line(self, no_type: bool = False) -> str:
         res = super()._tree_line()
-- 
2.43.0


From 9796fe0dbcbb75165adb5ff302e76e5c8209afa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 71/73] fix: let values of leafrefs belong to the module of the
 leafref

Identities without module name were attributed to the module of the target,
and chains of leafrefs in unfavourable order or circular ones caused errors.
---
 yangson/datatype.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 78a83b5..e560273 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -45,6 +45,7 @@ This module implements the following classes:
 """
 from abc import ABC, abstractmethod
 import base64
+from copy import copy
 import decimal
 import xml.etree.ElementTree as ET
 import re
@@ -221,6 +222,12 @@ class DataType(ABC, Generic[S, RS]):
         if self._default_text:
             self.default = self.from_yang(*self._default_text)
 
+    def _in_context(self, sctx: SchemaContext) -> "DataType":
+        """Return copy of the receiver for a node in another schema context."""
+        res = copy(self)
+        res.sctx = sctx
+        return res
+
     @classmethod
     def _resolve_type(cls, stmt: Statement, sctx: SchemaContext) -> "DataType":
         typ = cast(str, stmt.argument)
@@ -663,11 +670,11 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
     """Class representing YANG "leafref" type."""
 
     path: Expr
-    ref_type: DataType
 
     def __init__(self, sctx: SchemaContext, name: YangIdentifier) -> None:
         """Initialize the class instance."""
         super().__init__(sctx, name)
+        self.ref_type: Optional[DataType] = None
         self._resolving: bool = False
 
     def __contains__(self, val: ScalarValue) -> bool:
@@ -710,6 +717,11 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
                   sctx: Optional[SchemaContext] = None) -> ScalarValue:
         return self.ref_type.from_yang(text, sctx or self.sctx)
 
+    def _in_context(self, sctx: SchemaContext) -> "DataType":
+        res = super()._in_context(sctx)
+        res.ref_type = self.ref_type._in_context(sctx)
+        return res
+
     def _deref(self, node: InstanceNode) -> list[InstanceNode]:
         ns = self.path.evaluate(node)
         if isinstance(ns, NodeSet):
@@ -717,13 +729,14 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
         raise XPathTypeError(str(ns))
 
     def _post_process(self, tnode: "TerminalNode") -> None:
-        if not self._resolving:
-            self._resolving = True
-            ref = tnode._follow_leafref(self.path, tnode)
+        if self.ref_type is None:
+            ref = (None if self._resolving      # circular chain
+                   else tnode._follow_leafref(self.path, tnode))
             if ref is None:
                 raise InvalidLeafrefPath(tnode.qual_name, str(self.path))
+            self._resolving = True
             ref.type._post_process(ref)
-            self.ref_type = ref.type
+            self.ref_type = ref.type._in_context(self.sctx)
         super()._post_process(tnode)
 
     def _type_digest(self, config: bool) -> dict[str, Any]:
@@ -1270,6 +1283,11 @@ class UnionType(DataType[ScalarValue, RawScalar]):
         self.types = [self._resolve_type(ts, sctx)
                       for ts in stmt.find_all("type")]
 
+    def _in_context(self, sctx: SchemaContext) -> "DataType":
+        res = super()._in_context(sctx)
+        res.types = [t._in_context(sctx) for t in self.types]
+        return res
+
     def _post_process(self, tnode: "TerminalNode") -> None:
         for t in self.types:
             t._post_process(tnode)
-- 
2.43.0


From 3385eec41e87c9beb788bc1882e79b9ad90288b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 72/73] fix: bits follow their positions in the schema digest

---
 yangson/datatype.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index e560273..23eeb82 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -410,6 +410,7 @@ class BitsType(DataType[tuple[str, ...], str]):
                 bits.append(None)
                 i += 1
             bits.append(b[0])
+            i += 1
         res["bits"] = bits
         return res
 
-- 
2.43.0


From ac6feafd5cc0b8483bc8d0fa4adeee3142286893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:47 +0000
Subject: [PATCH 73/73] fix: let isolated instances be used without a parent

---
 yangson/instance.py   | 14 +++++++++++---
 yangson/schemanode.py |  2 ++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index e5a6a61..796e0e8 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -91,7 +91,9 @@ class InstanceNode:
         """Parent instance node, or ``None`` for the root node."""
         self.schema_node: DataNode = schema_node
         """Data node corresponding to the instance node."""
-        self.schema_data = parinst.schema_data if parinst else None
+        self.schema_data = (
+            parinst.schema_data if parinst is not None
+            else schema_node.schema_root().schema_data)
         """Link to schema data"""
         self.timestamp: datetime = timestamp
         """Time of the receiver's last modification."""
@@ -278,6 +280,8 @@ class InstanceNode:
         Raises:
             NonexistentInstance: If there is no parent.
         """
+        if self.parinst is None:
+            raise NonexistentInstance(self, "up of isolated instance")
         ts = max(self.timestamp, self.parinst.timestamp)
         return self.parinst._copy(self._zip(), ts)
 
@@ -879,6 +883,8 @@ class ObjectMember(InstanceNode):
                 schema.
             NonexistentInstance: If sibling member `name` doesn't exist.
         """
+        if self.parinst is None:
+            raise NonexistentInstance(self, f"member '{name}'")
         ssn = self.parinst._member_schema_node(name)
         name = ssn.iname()
         try:
@@ -946,12 +952,14 @@ class ArrayEntry(InstanceNode):
     @property
     def name(self) -> InstanceName:
         """Name of the receiver."""
-        return self.parinst.name
+        return (self.parinst.name if self.parinst is not None
+                else self.schema_node.iname())
 
     @property
     def qual_name(self) -> Optional[QualName]:
         """Return the receiver's qualified name."""
-        return self.parinst.qual_name
+        return (self.parinst.qual_name if self.parinst is not None
+                else self.schema_node.qual_name)
 
     def update(self, value: Union[RawValue, Value],
                raw: bool = False) -> "ArrayEntry":
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 6d27e63..a1284a9 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -691,6 +691,8 @@ class InternalNode(SchemaNode):
 
     def _check_schema_pattern(self, inst: InstanceNode,
                               ctype: ContentType) -> None:
+        if self.schema_pattern is None:         # isolated instance
+            self._make_schema_patterns()
         p = self.schema_pattern
         p._eval_when(inst)
         for m in inst:
-- 
2.43.0

