From 5e652d881cf6d100cfdbd7b6cfbe29ac0b641038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 01/36] fix: give unicode exponents an integer value
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

m² held its exponent as a string, so its dimensionality and every
conversion involving it raised TypeError. Malformed sequences such as
m²⁻ are now a SyntaxError instead of a nonsense exponent.
---
 pyudunits2/_grammar/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_grammar/__init__.py b/pyudunits2/_grammar/__init__.py
index 3cf33c2..471bf53 100644
--- a/pyudunits2/_grammar/__init__.py
+++ b/pyudunits2/_grammar/__init__.py
@@ -24,7 +24,12 @@ def handle_UNICODE_EXPONENT(string):
     # ascii minus (which is actually a less good version
     # of unicode minus).
     normd = unicodedata.normalize("NFKC", string).replace("−", "-")
-    return graph.Number(normd, raw_content=normd)
+    try:
+        value = int(normd)
+    except ValueError:
+        # The lexer accepts any sequence of superscript signs and digits.
+        raise SyntaxError(f"invalid unicode exponent {string!r}") from None
+    return graph.Number(value, raw_content=normd)
 
 
 class UnitParseVisitor(udunits2ParserVisitor):
-- 
2.43.0


From df33ac331aa57ce1c59a96d019817033c12b0037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 02/36] fix: keep a prefix distinct from a unit of the same
 spelling

"mm" was defined as the identifier m times the identifier m, so the two
shared one entry in the identifier references and a millimetre was a
square metre (likewise hh, dd, ...).
---
 pyudunits2/_unit_system.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index 59f0a2d..8a3c730 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -232,15 +232,16 @@ class UnitSystem:
                         name_or_symbol[len(prefix_name) :]
                     ) or self._unit_by_symbol(name_or_symbol[len(prefix_name) :])
                     if unit:
+                        # The prefix is inlined as a number, since its name may
+                        # also be the name of the unit (e.g. "mm").
                         refs = {
-                            unit_graph.Identifier(prefix_name): prefix,
                             unit_graph.Identifier(
                                 name_or_symbol[len(prefix_name) :]
                             ): unit,
                         }
                         result = Unit(
                             definition=unit_graph.Multiply(
-                                unit_graph.Identifier(prefix_name),
+                                prefix._expanded_expr(),
                                 unit_graph.Identifier(
                                     name_or_symbol[len(prefix_name) :]
                                 ),
@@ -256,15 +257,16 @@ class UnitSystem:
                         name_or_symbol[len(prefix_symbol) :]
                     ) or self._unit_by_symbol(name_or_symbol[len(prefix_symbol) :])
                     if unit:
+                        # The prefix is inlined as a number, since its symbol may
+                        # also be the symbol of the unit (e.g. "mm").
                         refs = {
-                            unit_graph.Identifier(prefix_symbol): prefix,
                             unit_graph.Identifier(
                                 name_or_symbol[len(prefix_symbol) :]
                             ): unit,
                         }
                         result = Unit(
                             definition=unit_graph.Multiply(
-                                unit_graph.Identifier(prefix_symbol),
+                                prefix._expanded_expr(),
                                 unit_graph.Identifier(
                                     name_or_symbol[len(prefix_symbol) :]
                                 ),
-- 
2.43.0


From 6694a24a4dbed5bb53e9462110b09702033929c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 03/36] fix: parenthesise sub-expressions in the text of a unit

m/(s kg) and m/s kg, or (m s)^2 and m s^2, had the same text. Besides
being wrong, the text is what unit equality compares first, so the two
distinct units were considered equal.
---
 pyudunits2/_expr/graph.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_expr/graph.py b/pyudunits2/_expr/graph.py
index 2b7fa53..57f3cc4 100644
--- a/pyudunits2/_expr/graph.py
+++ b/pyudunits2/_expr/graph.py
@@ -101,6 +101,9 @@ class BinaryOp(Node):
 
 class Raise(BinaryOp):
     def __str__(self):
+        # The exponent binds tighter than any of the other operators.
+        if isinstance(self.lhs, BinaryOp):
+            return f"({self.lhs})^{self.rhs}"
         return f"{self.lhs}^{self.rhs}"
 
 
@@ -111,8 +114,9 @@ class Multiply(BinaryOp):
 
 class Divide(BinaryOp):
     def __str__(self):
-        # TODO: It may be necessary to put brackets around
-        #  the rhs, depending on context (e.g. if rhs is a multiply)
+        # Multiplication and division are left-associative.
+        if isinstance(self.rhs, (Multiply, Divide)):
+            return f"{self.lhs}/({self.rhs})"
         return f"{self.lhs}/{self.rhs}"
 
 
-- 
2.43.0


From 1985d8a59fd573d240cbc8fe4db6b9f3d2d1903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 04/36] fix: return a Dimensionality from
 BasisUnit.dimensionality

The plain dictionary has no inverted(), so asking whether a basis unit
is convertible to another unit, or building a Converter from it, raised
AttributeError.
---
 pyudunits2/_unit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index bf728dc..a02e46b 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -582,11 +582,11 @@ class BasisUnit(NamedUnit):
     def __str__(self):
         return self._ref
 
-    def dimensionality(self) -> dict[BasisUnit, int]:
+    def dimensionality(self) -> Dimensionality:
         if self._dimensionless:
-            return {}
+            return Dimensionality({})
         else:
-            return {self: 1}
+            return Dimensionality({self: 1})
 
     def is_time_unit(self):
         return self._is_time_unit
-- 
2.43.0


From 94fdcb2efecaec52ba3d7cd956c2bddebabe24ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 05/36] fix: do not re-register a lazily defined unit when
 resolving it

Resolution added the resolved unit to the system again with
replace=True, so looking a unit up by one of its names took back every
other name which had been given to another unit in the meantime.
LazilyDefinedUnit already caches its resolved form.
---
 pyudunits2/_unit_system.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index 8a3c730..7bdb49e 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -202,14 +202,12 @@ class UnitSystem:
         unit = self._names.get(name, None) or self._alias_names.get(name, None)
         if isinstance(unit, LazilyDefinedUnit):
             unit = unit.resolve()
-            self.add_unit(unit, replace=True)
         return unit
 
     def _unit_by_symbol(self, symbol: str) -> Unit | None:
         unit = self._symbols.get(symbol, None) or self._alias_symbols.get(symbol, None)
         if isinstance(unit, LazilyDefinedUnit):
             unit = unit.resolve()
-            self.add_unit(unit, replace=True)
         return unit
 
     def unit_by_name_or_symbol(self, name_or_symbol: str) -> Unit:
-- 
2.43.0


From e57bf66b424cf1295980fa21d02e6aaa8547b95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 06/36] fix: read the unit database independently of the locale
 encoding
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Opening the UTF-8 XML in text mode fails (or misreads prefixes such as
µ) whenever the preferred encoding is not UTF-8.
---
 pyudunits2/_udunits2_xml_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index ffbb713..ca979dc 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -135,7 +135,8 @@ class UDUNITS2XMLParser:
 
     @classmethod
     def parse_file(cls, path: Path) -> UnitSystem:
-        with path.open("rt") as fh:
+        # Let the XML parser handle the encoding, rather than using the locale's.
+        with path.open("rb") as fh:
             tree = etree.parse(fh)
         root = tree.getroot()
 
-- 
2.43.0


From 77a177bf5e02bb97453422dd0e90d34acbaac05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 07/36] fix: apply every shift of a repeatedly shifted unit

Only the outermost shift was used in conversions, so 20 "degC @ 10" was
30 kelvin, rather than 303.15 kelvin.
---
 pyudunits2/_expr/split.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_expr/split.py b/pyudunits2/_expr/split.py
index 8d58282..58172f1 100644
--- a/pyudunits2/_expr/split.py
+++ b/pyudunits2/_expr/split.py
@@ -40,12 +40,16 @@ class SplitExpr(unit_graph.Visitor):
         # will not end up with dimensionless conversions.
         # For example, K @ 271 converted to K should shift the value 271, and
         # then the K/K will cancel out.
+        is_root = node is self._root_node
+        if is_root:
+            # A shift of a shifted unit moves the origin once more.
+            self._root_node = node.unit
         t1, d1 = self.visit(node.unit)
         if t1 is None:
             t1 = unit_graph.Identifier(name="value")
         # Looking at UDUNITS2, the shift is completely ignored in conversions
         # unless it is the terminating operation.
-        if node is self._root_node:
+        if is_root:
             return unit_graph.Shift(t1, node.shift_from), d1
         else:
             return t1, d1
-- 
2.43.0


From 576054320ff7065c7112e3690f3e6990ff9a4937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 08/36] fix: keep the other factors of a product with a shifted
 unit

The factors of a product which has a shifted unit, such as W m-2 degC-1
or 2 degC, ended up in the value transformation: the scale was applied
the wrong way around (10 "2 degC" was 5 kelvin), units resulted in a
symbolic conversion such as 10*second**6/kilogram**2, and the dimensions
of (K @ 273.15) m were those of K.
---
 pyudunits2/_expr/split.py | 25 +++++++++++++++++++++++++
 pyudunits2/_unit.py       |  9 +++++----
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/pyudunits2/_expr/split.py b/pyudunits2/_expr/split.py
index 58172f1..b9dfdfc 100644
--- a/pyudunits2/_expr/split.py
+++ b/pyudunits2/_expr/split.py
@@ -4,6 +4,7 @@ import logging
 import typing
 
 from . import graph as unit_graph
+from .substitute import Substitute
 
 _log = logging.getLogger(__name__)
 
@@ -86,3 +87,27 @@ class SplitExpr(unit_graph.Visitor):
         if t1 is None:
             t1 = unit_graph.Identifier(name="value")
         return unit_graph.Logarithm(function=node.function, term=t1), d1
+
+
+class _WithoutShifts(Substitute):
+    def __init__(self):
+        super().__init__({})
+
+    def visit_Shift(self, node: unit_graph.Shift):
+        return self.visit(node.unit)
+
+
+def discard_ineffective_shifts(node: unit_graph.Node) -> unit_graph.Node:
+    """
+    Remove the shifts which have no effect on the given unit definition.
+
+    As with UDUNITS2, the origin of a unit is lost once the unit is multiplied,
+    divided or raised. For example, ``2 (K @ 273.15)`` is simply ``2 K``, and
+    ``W/(m (K @ 273.15))`` is ``W/(m K)``.
+
+    """
+    if isinstance(node, unit_graph.Shift):
+        return unit_graph.Shift(discard_ineffective_shifts(node.unit), node.shift_from)
+    elif isinstance(node, unit_graph.BinaryOp):
+        return _WithoutShifts().visit(node)
+    return node
diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index a02e46b..a105c4f 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -383,9 +383,9 @@ class Unit(UnitInterface):
     def _symbolic_definition(self) -> tuple[SympyExpr, SympyExpr]:
         if self._cached_symbolic_definition is None:
             from ._expr.sympy import ToSympy
-            from ._expr.split import SplitExpr
+            from ._expr.split import SplitExpr, discard_ineffective_shifts
 
-            definition = self._expanded_expr()
+            definition = discard_ineffective_shifts(self._expanded_expr())
             t, d = SplitExpr(definition).visit(definition)
             if t is not None:
                 transform = ToSympy().visit(t)
@@ -426,9 +426,10 @@ class Unit(UnitInterface):
 
     def dimensionality(self) -> Dimensionality:
         from ._expr.dimensionality import DimensionalityCounter
-        from ._expr.split import SplitExpr
+        from ._expr.split import SplitExpr, discard_ineffective_shifts
 
-        _, d = SplitExpr(self._definition).visit(self._definition)
+        definition = discard_ineffective_shifts(self._definition)
+        _, d = SplitExpr(definition).visit(definition)
         r = DimensionalityCounter().visit(d)
 
         result = {}
-- 
2.43.0


From 3e375ceb7aeaa86250364384ae9e01d8130e5754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 09/36] fix: keep the origin of a shifted unit raised to the
 power of one

10 "degC^1" was 10 kelvin, whereas degC^1 is nothing but degC.
---
 pyudunits2/_expr/split.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyudunits2/_expr/split.py b/pyudunits2/_expr/split.py
index b9dfdfc..05e49e3 100644
--- a/pyudunits2/_expr/split.py
+++ b/pyudunits2/_expr/split.py
@@ -108,6 +108,9 @@ def discard_ineffective_shifts(node: unit_graph.Node) -> unit_graph.Node:
     """
     if isinstance(node, unit_graph.Shift):
         return unit_graph.Shift(discard_ineffective_shifts(node.unit), node.shift_from)
+    elif isinstance(node, unit_graph.Raise) and node.rhs.content == 1:
+        # Raising to the power of one has no effect at all.
+        return discard_ineffective_shifts(node.lhs)
     elif isinstance(node, unit_graph.BinaryOp):
         return _WithoutShifts().visit(node)
     return node
-- 
2.43.0


From fcac63b6e89c8fb33f7d48be83329907d25fa467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 10/36] fix: convert units which involve a dimensionless basis
 unit

The radian remained as a symbol in the conversion of degrees to 1, rpm
to Hz, lumen to candela, ..., such that the result was an expression
(10*radian) rather than a number.
---
 pyudunits2/_unit.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index a105c4f..ecdd994 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -201,6 +201,16 @@ class Converter:
         t1, d1 = from_unit._symbolic_definition()
         t2, d2 = to_unit._symbolic_definition()
 
+        # Dimensionless basis units (e.g. radian) don't contribute to the
+        # dimensionality, so they needn't cancel out. Their value is 1.
+        dimensionless = {
+            sympy.Symbol(name): 1
+            for unit in (from_unit, to_unit)
+            for name in unit._dimensionless_basis_names()
+        }
+        d1 = d1.subs(dimensionless)
+        d2 = d2.subs(dimensionless)
+
         to_symbol = sympy.symbols("value_transformed_to_base_unit_scale")
 
         orig_qty = sympy.symbols("value")
@@ -444,6 +454,13 @@ class Unit(UnitInterface):
             {basis: order for basis, order in result.items() if order != 0}
         )
 
+    def _dimensionless_basis_names(self) -> set[str]:
+        result: set[str] = set()
+        for unit in self._identifier_references.values():
+            if not isinstance(unit, Prefix):
+                result |= unit._dimensionless_basis_names()
+        return result
+
     def is_dimensionless(self) -> bool:
         return self.dimensionality() == {}
 
@@ -589,6 +606,9 @@ class BasisUnit(NamedUnit):
         else:
             return Dimensionality({self: 1})
 
+    def _dimensionless_basis_names(self) -> set[str]:
+        return {self._ref} if self._dimensionless else set()
+
     def is_time_unit(self):
         return self._is_time_unit
 
-- 
2.43.0


From 0985ef585ed58d1cc70108915a67d8ac692a6287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 11/36] fix: refuse to convert date units, and give them a text
 form

Converter ignored the reference date ("days since 2000" to "s" was a
plain scaling by 86400) although is_convertible_to is false for date
units. The error message, and the explain-unit command, showed the
object address of the date unit.
---
 pyudunits2/_unit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index ecdd994..bd3c5c8 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -189,11 +189,8 @@ class Converter:
 
         # It is also possible to simply invert the dimensionality. For example,
         # m/s is simply 1/value s/m
-        inverted_d = from_dimensionality.inverted()
-
         is_direct_conversion = from_dimensionality == to_dimensionality
-        is_inverted_conversion = inverted_d == to_dimensionality
-        if not (is_direct_conversion or is_inverted_conversion):
+        if not from_unit.is_convertible_to(to_unit):
             raise IncompatibleUnitsError(
                 f"Units {to_unit} and {from_unit} are not convertible"
             )
@@ -503,6 +500,9 @@ class DateUnit(UnitInterface):
         self._unit = unit
         self._reference_date = reference_date
 
+    def __str__(self):
+        return f"({self._unit} @ {self._reference_date})"
+
     def is_convertible_to(self, other: UnitInterface) -> bool:
         # TODO: We can start to do better now that we have rich dates.
         return False
-- 
2.43.0


From cdf16b9ff55425a538d969f549195d366ed69883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 12/36] fix: show microseconds of a Time with six digits

Half a second was shown as .00500000.
---
 pyudunits2/_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_datetime.py b/pyudunits2/_datetime.py
index e41cabe..3f21b04 100644
--- a/pyudunits2/_datetime.py
+++ b/pyudunits2/_datetime.py
@@ -15,7 +15,7 @@ class Time:
         if self.second or self.microseconds:
             t_str += f":{self.second:02}"
         if self.microseconds:
-            t_str += f".{self.microseconds:08}"
+            t_str += f".{self.microseconds:06}"
         return t_str
 
 
-- 
2.43.0


From 5b9501b0a2d852dbc93e56b7316e514bc75ec9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 13/36] fix: hash equal DateTimes equally

The comparison ignores raw_content, but the generated hash did not, so
equal values could both be in one set.
---
 pyudunits2/_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_datetime.py b/pyudunits2/_datetime.py
index 3f21b04..05d034b 100644
--- a/pyudunits2/_datetime.py
+++ b/pyudunits2/_datetime.py
@@ -27,7 +27,7 @@ class DateTime:
     time: Time = Time(0, 0)
     tz_offset: Time | str = "UTC"
     #: The original representation of the date time before any parsing.
-    raw_content: str | None = None
+    raw_content: str | None = dataclasses.field(default=None, compare=False)
 
     def __eq__(self, other: typing.Any) -> bool:
         if not isinstance(other, DateTime):
-- 
2.43.0


From 604ac931bd70b8538fecc10f8946e7c6293d0bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 14/36] fix: form the plural of names which end with a
 consonant and y

As with UDUNITS2, the plural of henry, darcy and jiffy is henries,
darcies and jiffies, none of which could be resolved.
---
 pyudunits2/_udunits2_xml_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index ca979dc..71a33a8 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -90,6 +90,10 @@ class UDUNITS2XMLParser:
             # not a noplural tag.
             if singular_name.endswith(("s", "ss", "sh", "ch", "x", "z")):
                 plural_name = singular_name + "es"
+            elif singular_name.endswith("y") and not singular_name.endswith(
+                ("ay", "ey", "iy", "oy", "uy")
+            ):
+                plural_name = singular_name[:-1] + "ies"
             else:
                 plural_name = singular_name + "s"
 
-- 
2.43.0


From 543295d7d141509a7c58e724d78dbd11d2fd7e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 15/36] fix: accept the empty string as the dimensionless unit
 one

---
 pyudunits2/_unit_system.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index 7bdb49e..c653de2 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -282,6 +282,9 @@ class UnitSystem:
 
     def unit(self, unit: str) -> Unit | DateUnit:
         unit_expr = parse(unit)
+        if unit_expr == unit_graph.Unhandled(""):
+            # An empty definition represents the dimensionless unit one.
+            unit_expr = unit_graph.Number(1, raw_content=None)
 
         identifiers = ExtractIdentifiers().visit(unit_expr)
 
-- 
2.43.0


From 3311c4d427221d5146f4f358e71b1e12ae6879e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 16/36] fix: compare the meaning of two units, even if they are
 spelt alike

---
 pyudunits2/_unit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index bd3c5c8..2209d74 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -374,7 +374,9 @@ class Unit(UnitInterface):
 
         assert isinstance(other, Unit)
         # TODO: Use equality of the graph, not stringification.
-        if str(other._definition) == str(self._definition):
+        # Note that the same identifier may mean something different to the
+        # two units (e.g. once a unit is replaced in the unit system).
+        if str(other._expanded_expr()) == str(self._expanded_expr()):
             # Short-circuit identical definitions.
             return True
 
-- 
2.43.0


From 9d88244bdf7ee3b73233f068a62ee3cd418ac113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 17/36] fix: convert integer arrays without overflowing

---
 pyudunits2/_unit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 2209d74..b81bdf1 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -245,6 +245,9 @@ class Converter:
     def convert(self, values):
         # TODO: Sympy can return an expression here. We never want it
         #  to - it should always be a number-like.
+        if getattr(getattr(values, "dtype", None), "kind", None) in ("i", "u"):
+            # Fixed width integers would silently overflow.
+            values = values.astype(float)
         return self._converter(values)
 
 
-- 
2.43.0


From 1b18cfd0f1d724abeb2d025eb60bfc139e18bdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 18/36] fix: raise a SyntaxError for a number which is not
 representable

---
 pyudunits2/_grammar/__init__.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyudunits2/_grammar/__init__.py b/pyudunits2/_grammar/__init__.py
index 471bf53..6a06dc6 100644
--- a/pyudunits2/_grammar/__init__.py
+++ b/pyudunits2/_grammar/__init__.py
@@ -1,5 +1,5 @@
 import unicodedata
-from decimal import Decimal
+from decimal import Decimal, InvalidOperation
 
 from .._expr import graph as graph
 from ._antlr4_runtime import (
@@ -32,6 +32,16 @@ def handle_UNICODE_EXPONENT(string):
     return graph.Number(value, raw_content=normd)
 
 
+def handle_FLOAT(string):
+    # Preserve precision as decimal.
+    try:
+        value = Decimal(string)
+    except InvalidOperation:
+        # The exponent isn't representable.
+        raise SyntaxError(f"invalid number {string!r}") from None
+    return graph.Number(value, raw_content=string)
+
+
 class UnitParseVisitor(udunits2ParserVisitor):
     """
     A visitor which converts the parse tree into an abstract expression graph.
@@ -46,9 +56,7 @@ class UnitParseVisitor(udunits2ParserVisitor):
         "DATE": str,
         "DIVIDE": "/",  # Drop context, such as " per ".
         "E_POWER": str,
-        "FLOAT": lambda c: graph.Number(
-            value=Decimal(c), raw_content=c
-        ),  # Preserve precision as decimal.
+        "FLOAT": handle_FLOAT,
         "HOUR_MINUTE_SECOND": str,
         "HOUR_MINUTE": str,
         "ID": graph.Identifier,
-- 
2.43.0


From 912f0cf7c0578259d2263ae9928b09c7bcdc3ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 19/36] fix: match the longest prefix, whichever was added
 first

---
 pyudunits2/_unit_system.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index c653de2..a674f6f 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -78,6 +78,12 @@ class LazilyDefinedUnit:
         # return
 
 
+def _longest_first(prefixes: dict[str, Prefix]) -> list[tuple[str, Prefix]]:
+    # As with UDUNITS2, the longest matching prefix is the one to use,
+    # irrespective of the order in which the prefixes were added.
+    return sorted(prefixes.items(), key=lambda item: len(item[0]), reverse=True)
+
+
 class UnitSystem:
     def __init__(
         self,
@@ -224,7 +230,7 @@ class UnitSystem:
             result = unit
 
         if result is None:
-            for prefix_name, prefix in self._prefix_names.items():
+            for prefix_name, prefix in _longest_first(self._prefix_names):
                 if name_or_symbol.startswith(prefix_name):
                     unit = self._unit_by_name(
                         name_or_symbol[len(prefix_name) :]
@@ -249,7 +255,7 @@ class UnitSystem:
                         break
 
         if result is None:
-            for prefix_symbol, prefix in self._prefix_symbols.items():
+            for prefix_symbol, prefix in _longest_first(self._prefix_symbols):
                 if name_or_symbol.startswith(prefix_symbol):
                     unit = self._unit_by_name(
                         name_or_symbol[len(prefix_symbol) :]
-- 
2.43.0


From d4954b7bd63ef1e21cf6332c6534ed6abb8c7cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 20/36] fix: keep the origin of the reference of a logarithm

---
 pyudunits2/_expr/split.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyudunits2/_expr/split.py b/pyudunits2/_expr/split.py
index 05e49e3..3bd5d40 100644
--- a/pyudunits2/_expr/split.py
+++ b/pyudunits2/_expr/split.py
@@ -83,6 +83,9 @@ class SplitExpr(unit_graph.Visitor):
         return t1 or t2, unit_graph.Divide(d1, d2)
 
     def visit_Logarithm(self, node: unit_graph.Logarithm):
+        if node is self._root_node:
+            # The reference of a logarithm may have an origin of its own.
+            self._root_node = node.term
         t1, d1 = self.visit(node.term)
         if t1 is None:
             t1 = unit_graph.Identifier(name="value")
@@ -96,6 +99,9 @@ class _WithoutShifts(Substitute):
     def visit_Shift(self, node: unit_graph.Shift):
         return self.visit(node.unit)
 
+    def visit_Logarithm(self, node: unit_graph.Logarithm):
+        return discard_ineffective_shifts(node)
+
 
 def discard_ineffective_shifts(node: unit_graph.Node) -> unit_graph.Node:
     """
@@ -108,6 +114,10 @@ def discard_ineffective_shifts(node: unit_graph.Node) -> unit_graph.Node:
     """
     if isinstance(node, unit_graph.Shift):
         return unit_graph.Shift(discard_ineffective_shifts(node.unit), node.shift_from)
+    elif isinstance(node, unit_graph.Logarithm):
+        return unit_graph.Logarithm(
+            node.function, discard_ineffective_shifts(node.term)
+        )
     elif isinstance(node, unit_graph.Raise) and node.rhs.content == 1:
         # Raising to the power of one has no effect at all.
         return discard_ineffective_shifts(node.lhs)
-- 
2.43.0


From 99fa4ffdb65c85b98e015a5af4dac67b2c418ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 21/36] fix: give log the base of ten which it has in UDUNITS-2

---
 pyudunits2/_expr/sympy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_expr/sympy.py b/pyudunits2/_expr/sympy.py
index 8ef49d7..1c79512 100644
--- a/pyudunits2/_expr/sympy.py
+++ b/pyudunits2/_expr/sympy.py
@@ -55,7 +55,7 @@ class ToSympy(unit_graph.Visitor):
             "lb": 2,
             "lg": 10,
             "ln": None,  # Sympy defaults to natual log.
-            "log": None,  # Unspecified by udunits2...
+            "log": 10,  # As UDUNITS-2 does, where "lg" and "log" are synonyms.
         }
         base = bases[node.function]
         if base is None:
-- 
2.43.0


From ba2e71d945876afb2c3bee2d81130b3b1f449708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 22/36] fix: invert value transformations without a general
 solver, which may not finish

---
 pyudunits2/_expr/sympy.py | 23 +++++++++++++++++++++++
 pyudunits2/_unit.py       |  8 ++------
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/pyudunits2/_expr/sympy.py b/pyudunits2/_expr/sympy.py
index 1c79512..df8c490 100644
--- a/pyudunits2/_expr/sympy.py
+++ b/pyudunits2/_expr/sympy.py
@@ -64,6 +64,29 @@ class ToSympy(unit_graph.Visitor):
             return sympy.log(self.visit(node.term), bases[node.function])
 
 
+def invert_transform(
+    transform: sympy.core.expr.Expr, symbol: Symbol, value: sympy.core.expr.Expr
+) -> sympy.core.expr.Expr:
+    """
+    Solve ``transform(symbol) == value`` for the given symbol, where transform is
+    made of sums, products and logarithms of it.
+
+    """
+    while transform != symbol:
+        if isinstance(transform, sympy.Add):
+            constant, transform = transform.as_independent(symbol, as_Add=True)
+            value = value - constant
+        elif isinstance(transform, sympy.Mul):
+            factor, transform = transform.as_independent(symbol, as_Add=False)
+            value = value / factor
+        elif isinstance(transform, sympy.log):
+            [transform] = transform.args
+            value = sympy.exp(value)
+        else:
+            raise ValueError(f"Unable to invert the value transformation {transform}")
+    return value
+
+
 class FromSympy(unit_graph.Visitor):
     def generic_visit(self, node: unit_graph.Node):
         raise NotImplementedError(f"Not implemented for {type(node)}")
diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index b81bdf1..d5a90ed 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -183,6 +183,7 @@ class Converter:
         self._to_unit = to_unit
 
         import sympy
+        from ._expr.sympy import invert_transform
 
         from_dimensionality = from_unit.dimensionality()
         to_dimensionality = to_unit.dimensionality()
@@ -219,12 +220,7 @@ class Converter:
 
         t2 = t2.subs(orig_qty, to_value)
 
-        if t1 == orig_qty:
-            transformer1 = orig_qty
-        else:
-            transformer1 = sympy.solve(t1 - orig_qty, to_symbol)
-            assert len(transformer1) == 1
-            [transformer1] = transformer1
+        transformer1 = invert_transform(t1, to_symbol, orig_qty)
 
         if is_direct_conversion:
             convert_expr = t2.subs(to_value, transformer1 * d1 / d2)
-- 
2.43.0


From 5cc551f3d1d94b72144ee02a53628fb97fd75ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:35 +0000
Subject: [PATCH 23/36] fix: convert logarithms multiplied by a dimensionless
 basis unit

---
 pyudunits2/_unit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index d5a90ed..8db6374 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -206,8 +206,8 @@ class Converter:
             for unit in (from_unit, to_unit)
             for name in unit._dimensionless_basis_names()
         }
-        d1 = d1.subs(dimensionless)
-        d2 = d2.subs(dimensionless)
+        t1, d1 = t1.subs(dimensionless), d1.subs(dimensionless)
+        t2, d2 = t2.subs(dimensionless), d2.subs(dimensionless)
 
         to_symbol = sympy.symbols("value_transformed_to_base_unit_scale")
 
-- 
2.43.0


From b5f0cd03a06337057d1ef0ce6412600a32b8ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 24/36] fix: ignore comments in the unit database

---
 pyudunits2/_udunits2_xml_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index 71a33a8..f2f3149 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -141,7 +141,9 @@ class UDUNITS2XMLParser:
     def parse_file(cls, path: Path) -> UnitSystem:
         # Let the XML parser handle the encoding, rather than using the locale's.
         with path.open("rb") as fh:
-            tree = etree.parse(fh)
+            # Comments and processing instructions aren't content.
+            xml_parser = etree.XMLParser(remove_comments=True, remove_pis=True)
+            tree = etree.parse(fh, xml_parser)
         root = tree.getroot()
 
         [unit_system] = root.xpath('//*[local-name()="unit-system"]')
-- 
2.43.0


From bd21b14b4fe8e475755684087b235eb155d68525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 25/36] fix: read a unit database which doesn't use XML
 namespaces

---
 pyudunits2/_udunits2_xml_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index f2f3149..fb0a1e4 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -31,7 +31,8 @@ class Tag:
 
     @classmethod
     def from_element(cls, element: etree.Element) -> Tag:
-        _, _, tag_name = element.tag.partition("}")
+        # Without a namespace there is no "}", and the tag is all name.
+        _, _, tag_name = element.tag.rpartition("}")
 
         text = (element.text or "").strip()
         children = []
-- 
2.43.0


From 79c28ea3fb04d4674d9d82396460e6fa905338f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:30 +0000
Subject: [PATCH 26/36] fix: keep a quotient which is multiplied together in
 the text of a unit

---
 pyudunits2/_expr/graph.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyudunits2/_expr/graph.py b/pyudunits2/_expr/graph.py
index 57f3cc4..3d1de32 100644
--- a/pyudunits2/_expr/graph.py
+++ b/pyudunits2/_expr/graph.py
@@ -109,6 +109,13 @@ class Raise(BinaryOp):
 
 class Multiply(BinaryOp):
     def __str__(self):
+        # Products may be regrouped, but a quotient must not be separated from
+        # its numerator.
+        rhs_start = self.rhs
+        while isinstance(rhs_start, Multiply):
+            rhs_start = rhs_start.lhs
+        if isinstance(rhs_start, Divide):
+            return f"{self.lhs}·({self.rhs})"
         return f"{self.lhs}·{self.rhs}"
 
 
-- 
2.43.0


From 5cca21dc47cca00c177eb5a8139349f0cf52748e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:51 +0000
Subject: [PATCH 27/36] fix: combine terms with assertions disabled too

---
 pyudunits2/_expr/expander.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyudunits2/_expr/expander.py b/pyudunits2/_expr/expander.py
index 94775d1..afbc9da 100644
--- a/pyudunits2/_expr/expander.py
+++ b/pyudunits2/_expr/expander.py
@@ -57,7 +57,7 @@ class ChainedExpr:
                 # a · a^n == a^(n+1)
 
                 # We can combine the two terms, so pop the last one.
-                assert terms.pop() is last_term
+                terms.pop()
                 new_exponent = raised_to + 1
                 if new_exponent == 0:
                     # Both terms have cancelled out to 1. We don't need any
@@ -90,7 +90,7 @@ class ChainedExpr:
                 #                     type (float / int)
 
                 # We can combine the two terms, so pop the last one.
-                assert terms.pop() is last_term
+                terms.pop()
                 new_term = unit_graph.Number(
                     last_term.content * (node.content**raised_to),
                     raw_content=None,
@@ -109,7 +109,7 @@ class ChainedExpr:
                 # a^n · a^m == a^(n+m); Where n and m are numbers.
 
                 # We can combine the two terms, so pop the last one.
-                assert terms.pop() is last_term
+                terms.pop()
                 new_exponent = last_term.rhs.content + raised_to
                 if new_exponent == 0:
                     # Both terms have cancelled out to 1. We don't need any
-- 
2.43.0


From 8f29c6942e223709bd95031ee6afcfdd4d47b14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:28 +0000
Subject: [PATCH 28/36] fix: handle stray text in a unit or its aliases like
 any other unhandled content

---
 pyudunits2/_udunits2_xml_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index fb0a1e4..c1020cc 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -171,7 +171,10 @@ class UDUNITS2XMLParser:
 
             aliases = unit_tag.pop_first_matching_tag("aliases")
             if aliases is not None:
-                assert not aliases.text
+                if aliases.text:
+                    cls.unhandled_content_detected(
+                        f"Unhandled alias content: {aliases}"
+                    )
                 for alias in aliases.children[:]:
                     aliases.children.remove(alias)
                     if alias.name == "name":
@@ -229,7 +232,7 @@ class UDUNITS2XMLParser:
                     is_time_unit=is_time_unit,
                 )
 
-            if unit_tag.children:
+            if unit_tag.children or unit_tag.text:
                 cls.unhandled_content_detected(
                     f"Unhandled unit content for unit {unit}: \n{unit_tag}"
                 )
-- 
2.43.0


From 0eaf78f0f1ed38fd020af510aaa63b4aee68b4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:22 +0000
Subject: [PATCH 29/36] fix: basis units may have symbols only

---
 pyudunits2/_udunits2_xml_parser.py | 2 +-
 pyudunits2/_unit.py                | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index c1020cc..b4d4a9c 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -224,7 +224,7 @@ class UDUNITS2XMLParser:
                 # https://github.com/Unidata/UDUNITS-2/blob/c83da987387db1174cd2266b73dd5dd556f4476b/lib/udunits-1.c#L50
                 # Instead of implementing this special casing in the units handling,
                 # we attach a special attribute to a time basis unit.
-                is_time_unit = reference.name.singular == "second"
+                is_time_unit = name is not None and name.singular == "second"
 
                 unit = BasisUnit(
                     names=reference,
diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 8db6374..79ad353 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -578,7 +578,8 @@ class BasisUnit(NamedUnit):
     def __init__(
         self, *, names: Names, dimensionless: bool = False, is_time_unit: bool = False
     ):
-        ref = names.name.singular or names.symbols[0]
+        # A basis unit may have no name, in which case it goes by its symbol.
+        ref = (names.name and names.name.singular) or names.symbols[0]
         self._ref = ref
         self._dimensionless = dimensionless
         self._is_time_unit = is_time_unit
-- 
2.43.0


From 906decfe879de6f750a6e69c255a93f3cbc61f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:41 +0000
Subject: [PATCH 30/36] fix: a unit with an empty definition is the
 dimensionless unit one

---
 pyudunits2/_unit_system.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index a674f6f..13bea24 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -43,6 +43,9 @@ class LazilyDefinedUnit:
     def resolve(self) -> NamedUnit:
         if self._resolved_unit is None:
             unit_expr = parse(self._definition)
+            if unit_expr == unit_graph.Unhandled(""):
+                # An empty definition represents the dimensionless unit one.
+                unit_expr = unit_graph.Number(1, raw_content=None)
 
             from ._expr.atoms import ExtractIdentifiers
 
-- 
2.43.0


From ddc922e9bd2daa3399e38e58e0b286b6c8b3d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:54 +0000
Subject: [PATCH 31/36] fix: the result of converting an array shared its
 memory where there was nothing to convert

---
 pyudunits2/_unit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 79ad353..978d9ad 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -244,7 +244,12 @@ class Converter:
         if getattr(getattr(values, "dtype", None), "kind", None) in ("i", "u"):
             # Fixed width integers would silently overflow.
             values = values.astype(float)
-        return self._converter(values)
+        result = self._converter(values)
+        if result is values and hasattr(values, "copy"):
+            # Nothing to convert, but the result isn't to share its memory with
+            # the array which was given.
+            result = values.copy()
+        return result
 
 
 class Dimensionality:
-- 
2.43.0


From f088e2cb2025e69f2d77b3460b45facb21f5d14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:56 +0000
Subject: [PATCH 32/36] fix: stray text in a unit database is unhandled content
 wherever it stands

---
 pyudunits2/_udunits2_xml_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index b4d4a9c..d7c1a86 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -34,7 +34,10 @@ class Tag:
         # Without a namespace there is no "}", and the tag is all name.
         _, _, tag_name = element.tag.rpartition("}")
 
-        text = (element.text or "").strip()
+        # The text between (and after) the children is the element's text, too.
+        text = "".join(
+            [element.text or "", *(child.tail or "" for child in element)]
+        ).strip()
         children = []
 
         if len(element) > 0:
@@ -239,7 +242,7 @@ class UDUNITS2XMLParser:
 
             system.add_unit(unit)
 
-        if unit_system_t.children:
+        if unit_system_t.children or unit_system_t.text:
             cls.unhandled_content_detected(f"Unhandled content {unit_system_t}")
 
         return system
-- 
2.43.0


From e03cf3ede0ccd5df7a8fbafffd986d7156412625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:34 +0000
Subject: [PATCH 33/36] fix: compare units by exact numbers, not by floating
 point ones of the same text

---
 pyudunits2/_expr/sympy.py |  6 ++++++
 pyudunits2/_unit.py       | 32 ++++++++++++++++++--------------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/pyudunits2/_expr/sympy.py b/pyudunits2/_expr/sympy.py
index df8c490..d4a608e 100644
--- a/pyudunits2/_expr/sympy.py
+++ b/pyudunits2/_expr/sympy.py
@@ -18,6 +18,10 @@ _log = logging.getLogger(__name__)
 
 
 class ToSympy(unit_graph.Visitor):
+    def __init__(self, exact: bool = False):
+        # Whether numbers become rational, rather than floating point, numbers.
+        self._exact = exact
+
     if typing.TYPE_CHECKING:
 
         def visit(self, node: unit_graph.Node) -> sympy.core.expr.Expr: ...
@@ -29,6 +33,8 @@ class ToSympy(unit_graph.Visitor):
         return Symbol(node.content)
 
     def visit_Number(self, node: unit_graph.Number):
+        if self._exact:
+            return sympy.Rational(str(node.content))
         if isinstance(node.content, str):
             return sympy_parse(node.content)
         elif isinstance(node.content, Decimal):
diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 978d9ad..1e26b79 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -386,8 +386,10 @@ class Unit(UnitInterface):
 
         from sympy import simplify, expand
 
-        self_t, self_d = self._symbolic_definition()
-        other_t, other_d = other._symbolic_definition()
+        # Compare exactly: the same quantity may be written with different numbers
+        # (e.g. "K @ 1" and "K @ 1.0", or "0.3 m" and "3 (0.1 m)").
+        self_t, self_d = self._to_sympy(exact=True)
+        other_t, other_d = other._to_sympy(exact=True)
 
         eq = self_d - other_d
         sim = simplify(eq)
@@ -395,22 +397,24 @@ class Unit(UnitInterface):
 
     def _symbolic_definition(self) -> tuple[SympyExpr, SympyExpr]:
         if self._cached_symbolic_definition is None:
-            from ._expr.sympy import ToSympy
-            from ._expr.split import SplitExpr, discard_ineffective_shifts
+            self._cached_symbolic_definition = self._to_sympy()
+        return self._cached_symbolic_definition
 
-            definition = discard_ineffective_shifts(self._expanded_expr())
-            t, d = SplitExpr(definition).visit(definition)
-            if t is not None:
-                transform = ToSympy().visit(t)
-            else:
-                import sympy
+    def _to_sympy(self, exact: bool = False) -> tuple[SympyExpr, SympyExpr]:
+        from ._expr.sympy import ToSympy
+        from ._expr.split import SplitExpr, discard_ineffective_shifts
 
-                transform = sympy.Symbol("value")
+        to_sympy = ToSympy(exact=exact)
+        definition = discard_ineffective_shifts(self._expanded_expr())
+        t, d = SplitExpr(definition).visit(definition)
+        if t is not None:
+            transform = to_sympy.visit(t)
+        else:
+            import sympy
 
-            prepared = ToSympy().visit(d)
+            transform = sympy.Symbol("value")
 
-            self._cached_symbolic_definition = transform, prepared
-        return self._cached_symbolic_definition
+        return transform, to_sympy.visit(d)
 
     def _expanded_expr(self) -> Node:
         from ._expr.substitute import Substitute
-- 
2.43.0


From 3a6546ddf7f26a941a5465603042e131cc804f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:19 +0000
Subject: [PATCH 34/36] fix: integers of more digits than Python's limit raised
 ValueError when parsed

---
 pyudunits2/_grammar/__init__.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pyudunits2/_grammar/__init__.py b/pyudunits2/_grammar/__init__.py
index 6a06dc6..3062fab 100644
--- a/pyudunits2/_grammar/__init__.py
+++ b/pyudunits2/_grammar/__init__.py
@@ -19,14 +19,26 @@ TOKEN_ID_NAMES = {
 }
 
 
+def integer(string):
+    try:
+        return int(string)
+    except ValueError:
+        # Python limits the number of digits of an int, but not of a decimal.
+        return Decimal(string)
+
+
+def handle_INT(string):
+    return graph.Number(integer(string), raw_content=string)
+
+
 def handle_UNICODE_EXPONENT(string):
     # Convert unicode to compatibility form, replacing unicode minus with
     # ascii minus (which is actually a less good version
     # of unicode minus).
     normd = unicodedata.normalize("NFKC", string).replace("−", "-")
     try:
-        value = int(normd)
-    except ValueError:
+        value = integer(normd)
+    except InvalidOperation:
         # The lexer accepts any sequence of superscript signs and digits.
         raise SyntaxError(f"invalid unicode exponent {string!r}") from None
     return graph.Number(value, raw_content=normd)
@@ -60,14 +72,14 @@ class UnitParseVisitor(udunits2ParserVisitor):
         "HOUR_MINUTE_SECOND": str,
         "HOUR_MINUTE": str,
         "ID": graph.Identifier,
-        "INT": lambda c: graph.Number(value=int(c), raw_content=c),
+        "INT": handle_INT,
         "LOG": lambda c: c.split("(")[0].strip(),
         "MULTIPLY": None,
         "OPEN_PAREN": None,
         "PERIOD": str,
         "RAISE": None,
         "TIMESTAMP": str,
-        "SIGNED_INT": lambda c: graph.Number(value=int(c), raw_content=c),
+        "SIGNED_INT": handle_INT,
         "SHIFT_OP": None,
         "WS": None,
         "UNICODE_EXPONENT": handle_UNICODE_EXPONENT,
-- 
2.43.0


From af3fe4da5c7b22aa8c7992cc754d16c1efcc7cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:06 +0000
Subject: [PATCH 35/36] fix: a dimensionless unit may be called 'value'

Dimensionless basis units were replaced by 1 in the symbolic form, where the
quantity itself goes by the name of 'value'. They are now replaced beforehand,
in the definition of the unit.
---
 pyudunits2/_unit.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 1e26b79..c953ce2 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -199,16 +199,6 @@ class Converter:
         t1, d1 = from_unit._symbolic_definition()
         t2, d2 = to_unit._symbolic_definition()
 
-        # Dimensionless basis units (e.g. radian) don't contribute to the
-        # dimensionality, so they needn't cancel out. Their value is 1.
-        dimensionless = {
-            sympy.Symbol(name): 1
-            for unit in (from_unit, to_unit)
-            for name in unit._dimensionless_basis_names()
-        }
-        t1, d1 = t1.subs(dimensionless), d1.subs(dimensionless)
-        t2, d2 = t2.subs(dimensionless), d2.subs(dimensionless)
-
         to_symbol = sympy.symbols("value_transformed_to_base_unit_scale")
 
         orig_qty = sympy.symbols("value")
@@ -403,9 +393,19 @@ class Unit(UnitInterface):
     def _to_sympy(self, exact: bool = False) -> tuple[SympyExpr, SympyExpr]:
         from ._expr.sympy import ToSympy
         from ._expr.split import SplitExpr, discard_ineffective_shifts
+        from ._expr.substitute import Substitute
 
         to_sympy = ToSympy(exact=exact)
         definition = discard_ineffective_shifts(self._expanded_expr())
+        if not exact:
+            # Dimensionless basis units (e.g. radian) don't contribute to the
+            # dimensionality, so they needn't cancel out. Their value is 1.
+            definition = Substitute(
+                {
+                    Identifier(name): unit_graph.Number(1, raw_content="1")
+                    for name in self._dimensionless_basis_names()
+                }
+            ).visit(definition)
         t, d = SplitExpr(definition).visit(definition)
         if t is not None:
             transform = to_sympy.visit(t)
-- 
2.43.0


From 9c8f831852258d83e482a328b8bc699ef333ac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:26 +0000
Subject: [PATCH 36/36] fix: integers beyond 64 bits convert to and from
 logarithmic units

NumPy's exp and log don't take Python integers which don't fit into 64 bits, and
raised TypeError. (They took a bool for a half precision number, too.)
---
 pyudunits2/_unit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index c953ce2..d4334d8 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -229,6 +229,11 @@ class Converter:
         return
 
     def convert(self, values):
+        import sympy
+
+        if isinstance(values, int) and self.expression.has(sympy.exp, sympy.log):
+            # NumPy's functions don't take integers of more than 64 bits.
+            values = float(values)
         # TODO: Sympy can return an expression here. We never want it
         #  to - it should always be a number-like.
         if getattr(getattr(values, "dtype", None), "kind", None) in ("i", "u"):
-- 
2.43.0

