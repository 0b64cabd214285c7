From 8eaf8d9ceb9dc7cb6406b2b07ec54516266d4d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:54 +0000
Subject: [PATCH 01/14] fix: do not change sys.tracebacklimit while parsing

---
 pddl/parser/base.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pddl/parser/base.py b/pddl/parser/base.py
index a2be041..ab15ce6 100644
--- a/pddl/parser/base.py
+++ b/pddl/parser/base.py
@@ -12,7 +12,6 @@
 
 """Base classes for PDDL parsers."""
 
-import sys
 from abc import ABC
 from typing import Any, Type, TypeVar, cast
 
@@ -50,20 +49,16 @@ class BaseParser(Transformer[Any, T], ABC):
         """
         Parse a text with a Lark parser and transformer.
 
-        To produce a better traceback in case of an error, the function will temporarily overwrite the
-        sys.tracebacklimit value of the current interpreter.
+        To produce a better traceback in case of an error, the frames of the parser internals are
+        dropped from the traceback of the exception.
 
         :param text: the text to parse
         :param parser: the Lark parser object
         :param transformer: the Lark transformer object
         :return: the object returned by the parser
         """
-        old_tracebacklimit = getattr(sys, "tracebacklimit", None)
         try:
-            sys.tracebacklimit = 0  # noqa
             result = cast(T, parser.parse(text))
-            sys.tracebacklimit = None  # type: ignore
-        finally:
-            if old_tracebacklimit is not None:
-                sys.tracebacklimit = old_tracebacklimit
+        except Exception as e:
+            raise e.with_traceback(None)
         return result
-- 
2.43.0


From 28453a1032ca9a475a4fa0ba1f270e86a1f3d26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:42 +0000
Subject: [PATCH 02/14] fix: parse every text from a clean state, one at a time
 per parser

---
 pddl/parser/base.py    | 16 ++++++++++++++--
 pddl/parser/domain.py  | 10 ++++++----
 pddl/parser/plan.py    |  8 ++------
 pddl/parser/problem.py | 13 +++++++++----
 4 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/pddl/parser/base.py b/pddl/parser/base.py
index ab15ce6..0edd5a1 100644
--- a/pddl/parser/base.py
+++ b/pddl/parser/base.py
@@ -12,6 +12,7 @@
 
 """Base classes for PDDL parsers."""
 
+import threading
 from abc import ABC
 from typing import Any, Type, TypeVar, cast
 
@@ -22,15 +23,23 @@ from pddl.parser import GRAMMAR_FILE, PARSERS_DIRECTORY
 T = TypeVar("T")
 
 
+class BaseTransformer(Transformer[Any, T]):
+    """Base class for the transformers used by PDDL parsers."""
+
+    def reset(self) -> None:
+        """Forget everything about the previously parsed text."""
+
+
 class BaseParser(Transformer[Any, T], ABC):
     """Base class for PDDL parsers."""
 
     start_symbol: str
-    transformer_cls: Type[Transformer[Any, T]]
+    transformer_cls: Type[BaseTransformer[T]]
 
     def __init__(self, *args, **kwargs) -> None:
         """Initialize the parser with the given grammar file."""
         super().__init__(*args, **kwargs)
+        self._lock = threading.Lock()
         self._transformer = self.transformer_cls()
         self._parser = Lark(
             GRAMMAR_FILE.read_text(),
@@ -42,7 +51,10 @@ class BaseParser(Transformer[Any, T], ABC):
 
     def __call__(self, text: str) -> T:
         """Call."""
-        return self._call_parser(text, self._parser)
+        # the transformer holds the declarations of the text being parsed: start afresh, one text at a time
+        with self._lock:
+            self._transformer.reset()
+            return self._call_parser(text, self._parser)
 
     @classmethod
     def _call_parser(cls, text: str, parser: Lark) -> T:
diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index ffaca9f..7ce8ce1 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -14,7 +14,6 @@
 
 from typing import (
     AbstractSet,
-    Any,
     Dict,
     FrozenSet,
     List,
@@ -25,7 +24,7 @@ from typing import (
     Tuple,
 )
 
-from lark import ParseError, Transformer
+from lark import ParseError
 
 from pddl.action import Action
 from pddl.core import Domain
@@ -54,19 +53,22 @@ from pddl.logic.functions import (
 from pddl.logic.predicates import DerivedPredicate, EqualTo, Predicate
 from pddl.logic.terms import Constant, Variable
 from pddl.parser._update_type_tags import update_type_tags
-from pddl.parser.base import BaseParser
+from pddl.parser.base import BaseParser, BaseTransformer
 from pddl.parser.symbols import BINARY_COMP_SYMBOLS, Symbols
 from pddl.parser.typed_list_parser import TypedListParser
 from pddl.requirements import Requirements, _extend_domain_requirements
 
 
-class DomainTransformer(Transformer[Any, Domain]):
+class DomainTransformer(BaseTransformer[Domain]):
     """Domain Transformer."""
 
     def __init__(self, *args, **kwargs) -> None:
         """Initialize the domain transformer."""
         super().__init__(*args, **kwargs)
+        self.reset()
 
+    def reset(self) -> None:
+        """Forget everything about the previously parsed text."""
         self._constants_by_name: Dict[str, Constant] = {}
         self._predicates_by_name: Dict[str, Predicate] = {}
         self._functions_by_name: Dict[str, FunctionExpression] = {}
diff --git a/pddl/parser/plan.py b/pddl/parser/plan.py
index 2da1d83..368e49b 100644
--- a/pddl/parser/plan.py
+++ b/pddl/parser/plan.py
@@ -12,16 +12,12 @@
 
 """Implementation of the PDDL plan parser."""
 
-from typing import Any
-
-from lark import Transformer
-
 from pddl.core import Plan
 from pddl.logic.terms import Constant
-from pddl.parser.base import BaseParser
+from pddl.parser.base import BaseParser, BaseTransformer
 
 
-class PlanTransformer(Transformer[Any, Plan]):
+class PlanTransformer(BaseTransformer[Plan]):
     """Plan Transformer."""
 
     def __init__(self) -> None:
diff --git a/pddl/parser/problem.py b/pddl/parser/problem.py
index d8dca2d..0720d54 100644
--- a/pddl/parser/problem.py
+++ b/pddl/parser/problem.py
@@ -12,9 +12,9 @@
 
 """Implementation of the PDDL problem parser."""
 
-from typing import Any, Dict
+from typing import Dict
 
-from lark import ParseError, Transformer
+from lark import ParseError
 
 from pddl.core import Problem
 from pddl.exceptions import PDDLParsingError
@@ -32,13 +32,13 @@ from pddl.logic.functions import (
 )
 from pddl.logic.predicates import EqualTo, Predicate
 from pddl.logic.terms import Constant
-from pddl.parser.base import BaseParser
+from pddl.parser.base import BaseParser, BaseTransformer
 from pddl.parser.domain import DomainTransformer
 from pddl.parser.symbols import Symbols
 from pddl.requirements import Requirements
 
 
-class ProblemTransformer(Transformer[Any, Problem]):
+class ProblemTransformer(BaseTransformer[Problem]):
     """Problem Transformer."""
 
     def __init__(self) -> None:
@@ -46,6 +46,11 @@ class ProblemTransformer(Transformer[Any, Problem]):
         super().__init__()
 
         self._domain_transformer = DomainTransformer()
+        self.reset()
+
+    def reset(self) -> None:
+        """Forget everything about the previously parsed text."""
+        self._domain_transformer.reset()
         self._objects_by_name: Dict[str, Constant] = {}
 
     def start(self, args):
-- 
2.43.0


From fef42206c2fd39e34100de875c66c30dd61715ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:04 +0000
Subject: [PATCH 03/14] fix: do not let the parameters of an action leak into
 later derived predicates

---
 pddl/parser/domain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 7ce8ce1..8dd6005 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -164,6 +164,8 @@ class DomainTransformer(BaseTransformer[Domain]):
         action_body = {
             _children[i][1:]: _children[i + 1] for i in range(0, len(_children), 2)
         }
+        # the parameters are not visible outside of the action
+        self._current_parameters_by_name = {}
         return Action(action_name, variables, **action_body)
 
     def derived_predicates(self, args):
-- 
2.43.0


From 6627e59516ae443eb4c5f4bb3f8e4f800cc63aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:39 +0000
Subject: [PATCH 04/14] fix: pickling or copying an object must not remove its
 cached hash

---
 pddl/helpers/cache_hash.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pddl/helpers/cache_hash.py b/pddl/helpers/cache_hash.py
index d62c9d3..1627182 100644
--- a/pddl/helpers/cache_hash.py
+++ b/pddl/helpers/cache_hash.py
@@ -56,7 +56,8 @@ def _getstate(fn):
         d = fn(self)
         if d is None:
             return None
-        # assuming d is a dictionary
+        # assuming d is a dictionary; it may be the very dictionary of the object, so leave it alone
+        d = dict(d)
         d.pop("__hash", None)
         return d
 
-- 
2.43.0


From 67b9943b116d3eff1a9a86c17472f0bcc9539037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:27 +0000
Subject: [PATCH 05/14] fix: a domain that does not fit must not stay attached
 to the problem

---
 pddl/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pddl/core.py b/pddl/core.py
index 25ac328..3a3eb44 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -319,9 +319,14 @@ class Problem:
     @domain.setter
     def domain(self, domain: Domain) -> None:
         """Set the domain."""
+        previous = self._domain, self._domain_name
         self._domain_name = domain.name
         self._domain = domain
-        self._check_consistency()
+        try:
+            self._check_consistency()
+        except BaseException:
+            self._domain, self._domain_name = previous
+            raise
 
     @property
     def domain_name(self) -> name_type:
-- 
2.43.0


From 30b08051679e23af7753f463cfdc6f1c4e117096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:57 +0000
Subject: [PATCH 06/14] fix: domains and plans must not share mutable
 collections with their maker

---
 pddl/_validation.py | 2 +-
 pddl/core.py        | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 041ca7f..ea73cb8 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -319,7 +319,7 @@ class Functions:
         skip_checks: bool = False,
     ) -> None:
         """Initialize the Functions object."""
-        self._functions = ensure(functions, dict())
+        self._functions = dict(ensure(functions, dict()))
         self._all_function = self._get_all_functions()
 
         if not skip_checks:
diff --git a/pddl/core.py b/pddl/core.py
index 3a3eb44..4e9d007 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -406,7 +406,9 @@ class Plan:
 
         :param actions: the actions of the plan.
         """
-        self._actions: list[Tuple[namelike, List["Constant"]]] = actions
+        self._actions: list[Tuple[namelike, List["Constant"]]] = [
+            (action_name, list(parameters)) for action_name, parameters in actions
+        ]
 
     @property
     def actions(self) -> List[Tuple[namelike, List["Constant"]]]:
-- 
2.43.0


From 0844c417529f26ecf3dc34f6a39c01f3ae1b3508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:39 +0000
Subject: [PATCH 07/14] fix: print quantified variables and either types in a
 fixed, readable form

---
 pddl/helpers/base.py | 13 +++++++++++--
 pddl/logic/base.py   | 10 ++--------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/pddl/helpers/base.py b/pddl/helpers/base.py
index d69b7b3..eb5d47f 100644
--- a/pddl/helpers/base.py
+++ b/pddl/helpers/base.py
@@ -125,12 +125,21 @@ def find(seq: Sequence, condition: Callable[[Any], bool]) -> int:
 
 
 def _typed_parameters(parameters) -> str:
-    """Return a list of parameters along with types if available."""
+    """
+    Return a list of parameters along with types if available.
+
+    Parameters without an order of their own are sorted; those without type come last, as they would otherwise be
+    read as having the type that follows.
+    """
+    if isinstance(parameters, AbstractSet):
+        parameters = sorted(parameters, key=lambda p: (not p.type_tags, p))
     result = ""
     for i, p in enumerate(parameters):
         if i > 0:
             result += " "
-        if p.type_tags:
+        if len(p.type_tags) > 1:
+            result += f"?{p.name} - (either {' '.join(sorted(p.type_tags))})"
+        elif p.type_tags:
             result += f"?{p.name} - {' '.join(map(str, p.type_tags))}"
         else:
             result += str(p)
diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index a69ef43..241dce9 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -16,7 +16,7 @@ import functools
 from abc import abstractmethod
 from typing import AbstractSet, Any, Collection, List, Mapping, Optional, Sequence
 
-from pddl.helpers.base import ensure_set
+from pddl.helpers.base import _typed_parameters, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic.terms import Term, Variable
 from pddl.parser.symbols import Symbols
@@ -216,13 +216,7 @@ class QuantifiedCondition(Formula):
 
     def __str__(self) -> str:
         """Get the string representation."""
-
-        def build_tags(tags):
-            if len(tags) == 0:
-                return ""
-            return f" - {' '.join(tags)}"
-
-        var_block = " ".join([f"{v}{build_tags(v.type_tags)}" for v in self.variables])
+        var_block = _typed_parameters(self.variables)
         return f"({self.SYMBOL} ({var_block}) {self.condition})"
 
     def __repr__(self) -> str:
-- 
2.43.0


From 3e09328cb537ef98a240cef4574d62ae7b4c17c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 08/14] fix: print all the types of a function parameter

---
 pddl/formatter.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pddl/formatter.py b/pddl/formatter.py
index 007311f..c3f8dfb 100644
--- a/pddl/formatter.py
+++ b/pddl/formatter.py
@@ -113,11 +113,14 @@ def print_function_skeleton(function: NumericFunction) -> str:
     else:
         result += f"({function.name}"
         for t in function.terms:
-            result += (
-                f" ?{t.name} - {sorted(t.type_tags)[0]}"
-                if t.type_tags
-                else f" ?{t.name}"
-            )
+            if len(t.type_tags) > 1:
+                result += f" ?{t.name} - (either {' '.join(sorted(t.type_tags))})"
+            else:
+                result += (
+                    f" ?{t.name} - {sorted(t.type_tags)[0]}"
+                    if t.type_tags
+                    else f" ?{t.name}"
+                )
         result += ")"
     return result
 
-- 
2.43.0


From 6bf81ec3f32de2b8a37a614887165ccf893767c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:58 +0000
Subject: [PATCH 09/14] fix: print numbers without exponent

---
 pddl/logic/functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/functions.py b/pddl/logic/functions.py
index a54362c..c811e3a 100644
--- a/pddl/logic/functions.py
+++ b/pddl/logic/functions.py
@@ -15,6 +15,7 @@
 import functools
 from abc import abstractmethod
 from collections.abc import Mapping
+from decimal import Decimal
 from typing import Sequence, cast
 
 from pddl.custom_types import namelike, parse_function
@@ -145,7 +146,9 @@ class NumericValue(FunctionExpression):
 
     def __str__(self) -> str:
         """Get the string representation."""
-        return str(self._value)
+        result = str(self._value)
+        # PDDL numbers have no exponent
+        return format(Decimal(result), "f") if "e" in result else result
 
 
 class BinaryFunction(FunctionExpression):
-- 
2.43.0


From a0279d4e8005cc6b744cee13a83b95c8d39f5b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:38 +0000
Subject: [PATCH 10/14] fix: an empty precondition or effect is an empty
 conjunction

---
 pddl/parser/domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 8dd6005..e3bb4bd 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -233,7 +233,7 @@ class DomainTransformer(BaseTransformer[Domain]):
     def emptyor_pregd(self, args):
         """Process the 'emptyor_pregd' rule."""
         if len(args) == 2:
-            return Or()
+            return And()
         else:
             assert_(len(args) == 1)
             return args[0]
@@ -338,7 +338,7 @@ class DomainTransformer(BaseTransformer[Domain]):
     def emptyor_effect(self, args):
         """Process the 'emptyor_effect' rule."""
         if len(args) == 2:
-            return Or()
+            return And()
         else:
             return args[0]
 
-- 
2.43.0


From e1926b9e6175b03d3fcc2da8a9ad5c04500c51f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:33 +0000
Subject: [PATCH 11/14] fix: accept the flat type list that is printed for a
 domain without typing

---
 pddl/parser/domain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index e3bb4bd..15123c3 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -121,12 +121,12 @@ class DomainTransformer(BaseTransformer[Domain]):
         """Parse the 'types' rule."""
         has_typing_requirement = self._has_requirement(Requirements.TYPING)
         types_definition = args[2]
-        have_type_hierarchy = any(types_definition.values())
-        if have_type_hierarchy and not has_typing_requirement:
-            raise PDDLMissingRequirementError(Requirements.TYPING)
         for k in types_definition:
             if types_definition[k] == Symbols.OBJECT.value:
                 types_definition[k] = None
+        have_type_hierarchy = any(types_definition.values())
+        if have_type_hierarchy and not has_typing_requirement:
+            raise PDDLMissingRequirementError(Requirements.TYPING)
 
         # record types hierarchy for later use during the parsing
         # safety check: make sure self._types is not set
-- 
2.43.0


From 5ee6850339999357a0788045153bd977946c35ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:15 +0000
Subject: [PATCH 12/14] fix: do not drop or merge operands of arithmetic
 expressions and comparisons

---
 pddl/logic/base.py      | 2 +-
 pddl/logic/functions.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index 241dce9..d84598f 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -299,7 +299,7 @@ def _simplify_monotone_op_operands(cls, *operands, idempotency: bool = False):
     while len(stack) > 0:
         element = stack.pop()
         if not isinstance(element, cls):
-            if element not in seen:
+            if not idempotency or element not in seen:
                 seen.add(element)
                 new_operands.append(element)
             continue
diff --git a/pddl/logic/functions.py b/pddl/logic/functions.py
index c811e3a..bc6b1e3 100644
--- a/pddl/logic/functions.py
+++ b/pddl/logic/functions.py
@@ -252,7 +252,7 @@ class Metric(Atomic):
         return hash((self.expression, self.optimization))
 
 
-class EqualTo(BinaryFunction, metaclass=BinaryOpMetaclass):
+class EqualTo(BinaryFunction):
     """Equal to operator."""
 
     SYMBOL = Symbols.EQUAL
@@ -352,7 +352,7 @@ class Decrease(BinaryFunction):
         super().__init__(*operands)
 
 
-class Minus(BinaryFunction, metaclass=BinaryOpMetaclass):
+class Minus(BinaryFunction):
     """Minus operator."""
 
     SYMBOL = Symbols.MINUS
@@ -394,7 +394,7 @@ class Times(BinaryFunction, metaclass=BinaryOpMetaclass):
         super().__init__(*operands)
 
 
-class Divide(BinaryFunction, metaclass=BinaryOpMetaclass):
+class Divide(BinaryFunction):
     """Divide operator."""
 
     SYMBOL = Symbols.DIVIDE
-- 
2.43.0


From 11f606dbb4516642486126c646439ae76b080640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:49 +0000
Subject: [PATCH 13/14] fix: looking for a supertype must end on deep and
 cyclic type hierarchies

---
 pddl/parser/domain.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 15123c3..53d2288 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -543,12 +543,13 @@ class DomainTransformer(BaseTransformer[Domain]):
 
         # for each left type, navigate the type hierarchy until we find a type in the right set, or fail
         for left_type in type_tags_left:
-            current_type = left_type
+            visited: Set[Optional[name]] = {None}
             parent_type: Optional[name] = left_type
-            while parent_type is not None and parent_type not in type_tags_right:
-                parent_type = self.types_hierarchy.get(current_type, None)
+            while parent_type not in visited and parent_type not in type_tags_right:
+                visited.add(parent_type)
+                parent_type = self.types_hierarchy.get(parent_type, None)
 
-            if parent_type is None:
+            if parent_type in visited:
                 raise PDDLParsingError(
                     f"Type '{left_type}' not found in types: '{type_tags_right}'."
                 )
-- 
2.43.0


From 2f0766325be10d3ccb3bce12db9cd42aa40b8c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:31 +0000
Subject: [PATCH 14/14] fix: -q must not replace sys.stdout for good

---
 pddl/__main__.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pddl/__main__.py b/pddl/__main__.py
index 74b211a..f4e6cc9 100644
--- a/pddl/__main__.py
+++ b/pddl/__main__.py
@@ -12,9 +12,6 @@
 
 """Main entrypoint for the PDDL parser CLI tool."""
 
-import os
-import sys
-
 import click
 
 from pddl import parse_domain, parse_plan, parse_problem
@@ -36,20 +33,19 @@ from pddl.formatter import domain_to_string, plan_to_string, problem_to_string
 @click.option("-q", "--quiet", is_flag=True, help="Don't print anything.")
 def cli(domain_file, problem_file, plan_file, quiet):
     """The unquestionable parser for PDDL 3.1."""  # noqa
-    if quiet:
-        sys.stdout = open(os.devnull, "a")
+    output = print if not quiet else (lambda _: None)
     domain = parse_domain(domain_file)
-    print(domain_to_string(domain))
+    output(domain_to_string(domain))
     if problem_file is None:
         return
     problem = parse_problem(problem_file)
     problem.check(domain)
-    print(problem_to_string(problem))
+    output(problem_to_string(problem))
     if plan_file is None:
         return
     plan = parse_plan(plan_file)
     plan.check(domain, problem)
-    print(plan_to_string(plan))
+    output(plan_to_string(plan))
 
 
 if __name__ == "__main__":
-- 
2.43.0

