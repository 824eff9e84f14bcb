From fd740f133436da6452dfe9f5065ae5b0d64b9333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 01/28] fix: search the chain again from the offset it resumes
 at

After an invalid chain, offset was moved back but chain_input_string was not,
so next matches were searched in another part of the string and shifted.
---
 rebulk/chain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 18be788..c21e4df 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -82,6 +82,7 @@ class Chain(Pattern):
                     valid_chain = False
                     if current_chain_matches:
                         offset = current_chain_matches[0].raw_end
+                        chain_input_string = input_string[offset:]
                     break
             if not chain_found:
                 break
-- 
2.43.0


From f9369ae75347072e7aa4435d243afb14507d295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 02/28] fix: keep lookups of matches coherent on insert,
 replace and delete

Replaced matches were still returned by lookups, inserted ones came last in
them, equal ones could be mixed up on delete, and max_end never decreased.
---
 rebulk/match.py | 56 ++++++++++++++++++++-----------------------------
 1 file changed, 23 insertions(+), 33 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 1558dfe..0499c41 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -101,7 +101,6 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
 
     _base = list
     _base_add = _base.append
-    _base_remove = _base.remove
     _base_extend = _base.extend
 
     def __init__(self, matches: Iterable[Match] | None = None, input_string: str | None = None) -> None:
@@ -184,26 +183,16 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                 _BaseMatches._base_add(self._index_dict[index], match)
         self._max_end = max(self._max_end, match.end)
 
-    def _remove_match(self, match: Match) -> None:
+    def _reset_lookups(self) -> None:
         """
-        Remove a match
-        :param match:
-        :type match: Match
+        Forget lookup structures, they are built again from current matches when needed.
         """
-        if self.__name_dict is not None and match.name:
-            _BaseMatches._base_remove(self._name_dict[match.name], match)
-        if self.__tag_dict is not None:
-            for tag in match.tags:
-                _BaseMatches._base_remove(self._tag_dict[tag], match)
-        if self.__start_dict is not None:
-            _BaseMatches._base_remove(self._start_dict[match.start], match)
-        if self.__end_dict is not None:
-            _BaseMatches._base_remove(self._end_dict[match.end], match)
-        if self.__index_dict is not None:
-            for index in range(*match.span):
-                _BaseMatches._base_remove(self._index_dict[index], match)
-        if match.end >= self._max_end and not self._end_dict[match.end]:
-            self._max_end = max(self._end_dict.keys())
+        self.__name_dict = None
+        self.__tag_dict = None
+        self.__start_dict = None
+        self.__end_dict = None
+        self.__index_dict = None
+        self._max_end = max((match.end for match in self._delegate), default=0)
 
     @overload
     def previous(self, match: Match, predicate: int) -> Match | None: ...
@@ -956,29 +945,30 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
     def __setitem__(self, index: slice, match: Iterable[Match]) -> None: ...
 
     def __setitem__(self, index: int | slice, match: Match | Iterable[Match]) -> None:
-        self._delegate[index] = match  # type: ignore[index,assignment]
-        if isinstance(index, slice):
-            for match_item in match:  # type: ignore[union-attr]
-                self._add_match(match_item)
-            return
-        self._add_match(match)  # type: ignore[arg-type]
+        try:
+            if isinstance(index, slice):
+                match = list(match)  # type: ignore[arg-type]
+                for match_item in match:
+                    self._add_match(match_item)
+            else:
+                self._add_match(match)  # type: ignore[arg-type]
+            self._delegate[index] = match  # type: ignore[index,assignment]
+        finally:
+            self._reset_lookups()
 
     def __delitem__(self, index: int | slice) -> None:
-        match = self._delegate[index]
         del self._delegate[index]
-        if isinstance(match, list):
-            # if index is a slice, we has a match list
-            for match_item in match:
-                self._remove_match(match_item)
-        else:
-            self._remove_match(match)
+        self._reset_lookups()
 
     def __repr__(self) -> str:
         return self._delegate.__repr__()
 
     def insert(self, index: int, value: Match) -> None:
-        self._delegate.insert(index, value)
+        appended = index >= len(self._delegate)
         self._add_match(value)
+        self._delegate.insert(index, value)
+        if not appended:
+            self._reset_lookups()
 
 
 class Matches(_BaseMatches):
-- 
2.43.0


From d75100d4a5f953c99d6f6c3397b9a2f327f6e1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 03/28] fix: do not list names and tags that were only looked
 up

Looking up an unknown name or tag added it to names or tags.
---
 rebulk/match.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 0499c41..8c810ef 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -753,7 +753,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         Retrieve all names.
         :return:
         """
-        return self._name_dict.keys()
+        return {name: named for name, named in self._name_dict.items() if named}.keys()
 
     @property
     def tags(self) -> KeysView[str]:
@@ -761,7 +761,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         Retrieve all tags.
         :return:
         """
-        return self._tag_dict.keys()
+        return {tag: tagged for tag, tagged in self._tag_dict.items() if tagged}.keys()
 
     @overload
     def to_dict(
-- 
2.43.0


From 9c801b061767f30766921e0d1651289d368760e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 04/28] fix: return a match once from tagged, even if it has
 the tag twice

---
 rebulk/match.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 8c810ef..c717278 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -148,7 +148,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if self.__tag_dict is None:
             self.__tag_dict = defaultdict(_BaseMatches._base)
             for match in self._delegate:
-                for tag in match.tags:
+                for tag in dict.fromkeys(match.tags):
                     _BaseMatches._base_add(self.__tag_dict[tag], match)
 
         return self.__tag_dict
@@ -172,7 +172,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if self.__name_dict is not None and match.name:
             _BaseMatches._base_add(self._name_dict[match.name], (match))
         if self.__tag_dict is not None:
-            for tag in match.tags:
+            for tag in dict.fromkeys(match.tags):
                 _BaseMatches._base_add(self._tag_dict[tag], match)
         if self.__start_dict is not None:
             _BaseMatches._base_add(self._start_dict[match.start], match)
-- 
2.43.0


From 03ac208093fc5615d64d3a20431cfc0f70792c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 05/28] fix: return a new list from at_index, not the internal
 lookup list

---
 rebulk/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index c717278..3c4ec39 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -745,7 +745,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         """
         Retrieves a list of matches from given position
         """
-        return filter_index(self._index_dict[pos], predicate, index)
+        return filter_index(_BaseMatches._base(self._index_dict[pos]), predicate, index)
 
     @property
     def names(self) -> KeysView[str | None]:
-- 
2.43.0


From eca03bda49483abde865a8945b0f0067403835b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 06/28] fix: remove the given match rather than the first equal
 one

A private match equal to a public one was kept in results instead of it.
---
 rebulk/match.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rebulk/match.py b/rebulk/match.py
index 3c4ec39..9ff45ac 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -963,6 +963,13 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
     def __repr__(self) -> str:
         return self._delegate.__repr__()
 
+    def remove(self, value: Match) -> None:
+        for index, match in enumerate(self._delegate):
+            if match is value:
+                del self[index]
+                return
+        super().remove(value)
+
     def insert(self, index: int, value: Match) -> None:
         appended = index >= len(self._delegate)
         self._add_match(value)
-- 
2.43.0


From b32ff6b2ef4a3de5f9d2b8c8742f450dfb66cb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 07/28] fix: give each match its own tags list

Tags appended to a match were added to all matches of its pattern, and kept
for next inputs, because the list of the pattern was shared.
---
 rebulk/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 9ff45ac..e495f10 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -1030,7 +1030,7 @@ class Match:
         self.end = end
         self.name = name
         self._value = value
-        self.tags: list[str] = ensure_list(tags)
+        self.tags: list[str] = list(ensure_list(tags))
         self.marker = marker
         self.parent = parent
         self.input_string = input_string
-- 
2.43.0


From a3ac7bb7d5ae36892ccf50ecdb70d9155c490ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 08/28] fix: keep indices right in find_all when lower case has
 another length

---
 rebulk/utils.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rebulk/utils.py b/rebulk/utils.py
index 935abdb..e3e4eb9 100644
--- a/rebulk/utils.py
+++ b/rebulk/utils.py
@@ -12,6 +12,16 @@ from typing import Any, TypeVar
 _T = TypeVar("_T")
 
 
+def _lower(string: str) -> str:
+    """
+    Lower case of string, keeping its length so that indices are the same in both.
+    """
+    lower = string.lower()
+    if len(lower) != len(string):
+        lower = "".join(char.lower() if len(char.lower()) == 1 else char for char in string)
+    return lower
+
+
 def find_all(
     string: str,
     sub: str,
@@ -53,8 +63,8 @@ def find_all(
     :rtype: __generator[str]
     """
     if ignore_case:
-        sub = sub.lower()
-        string = string.lower()
+        sub = _lower(sub)
+        string = _lower(string)
     while True:
         start = string.find(sub, start, end)
         if start == -1:
-- 
2.43.0


From 234ffa827711c1adb82b4ef6c06b42288814a963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 09/28] fix: do not loop forever in find_all on an empty
 substring

---
 rebulk/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/utils.py b/rebulk/utils.py
index e3e4eb9..58ff9a8 100644
--- a/rebulk/utils.py
+++ b/rebulk/utils.py
@@ -70,7 +70,7 @@ def find_all(
         if start == -1:
             return
         yield start
-        start += len(sub)
+        start += len(sub) or 1
 
 
 def get_first_defined(
-- 
2.43.0


From 076ed0ef67dc4e7ec1a2b2b04b2a7ca95966fae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 10/28] fix: do not return holes with an empty or negative
 range

---
 rebulk/match.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rebulk/match.py b/rebulk/match.py
index e495f10..6290fb8 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -647,6 +647,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if ret and hole:
             # go the the next starting element ...
             ret[-1].end = min(self._hole_end(rindex, ignore), end)
+        ret = [hole for hole in ret if hole.end > hole.start]
         return filter_index(ret, predicate, index)
 
     @overload
-- 
2.43.0


From abd06903df9e27dbec79ce4f413058ec335b7c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 11/28] fix: merge default dicts without changing them in place

Dicts given by the caller, or used by patterns already built, were changed.
---
 rebulk/loose.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 5330e34..e6c382c 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -186,6 +186,8 @@ def set_defaults(defaults: dict[str, Any], kwargs: dict[str, Any], override: boo
             if isinstance(value, list) and isinstance(kwargs[key], list):
                 kwargs[key] = list(value) + kwargs[key]
             elif isinstance(value, dict) and isinstance(kwargs[key], dict):
-                set_defaults(value, kwargs[key])
+                merged = dict(kwargs[key])
+                set_defaults(value, merged)
+                kwargs[key] = merged
         if key not in kwargs or override:
             kwargs[key] = value
-- 
2.43.0


From 32bd70e3267e25eb0e4082cf74ae3ff7dcd8faa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 12/28] fix: call bound methods and pass keyword-only arguments

The self argument of bound methods and callable objects was counted as a free
one, and keyword-only arguments of the signature were dropped.
---
 rebulk/loose.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index e6c382c..35edc49 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -5,7 +5,7 @@ Various utilities functions
 
 from __future__ import annotations
 
-from inspect import getfullargspec, isclass
+from inspect import getfullargspec, isclass, ismethod
 from typing import TYPE_CHECKING, Any, cast
 
 from .utils import is_iterable
@@ -59,7 +59,8 @@ def function_args(callable_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
     :rtype: tuple
     """
     argspec = getfullargspec(callable_)
-    return argspec_args(argspec, False, *args, **kwargs)
+    bound = ismethod(callable_) or ismethod(getattr(callable_, "__call__", None))
+    return argspec_args(argspec, bound, *args, **kwargs)
 
 
 def constructor_args(class_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
@@ -85,7 +86,7 @@ def argspec_args(argspec: FullArgSpec, constructor: bool, *args: Any, **kwargs:
 
     :param argspec: argspec to use
     :type argspec: argspec
-    :param constructor: is it a constructor ?
+    :param constructor: is it a constructor or a bound method ?
     :type constructor: bool
     :param args:
     :type args:
@@ -94,7 +95,9 @@ def argspec_args(argspec: FullArgSpec, constructor: bool, *args: Any, **kwargs:
     :return: (args, kwargs) matching the function signature
     :rtype: tuple
     """
-    call_kwarg = kwargs if argspec.varkw else {k: kwargs[k] for k in kwargs if k in argspec.args}
+    call_kwarg = kwargs if argspec.varkw else {
+        k: kwargs[k] for k in kwargs if k in argspec.args or k in argspec.kwonlyargs
+    }
     call_args = args if argspec.varargs else args[: len(argspec.args) - (1 if constructor else 0)]
     return call_args, call_kwarg
 
-- 
2.43.0


From 57b7c1eb3091c92609c3662b900f59096058da36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 13/28] fix: do not lose a zero-length match when renaming or
 tagging it

---
 rebulk/rules.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 484af10..d464cea 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -194,9 +194,9 @@ class RenameMatch(Consequence):
             removed = list(removed)
             for match in removed:
                 match.name = self.match_name
-        elif removed:
+        elif removed is not None:
             removed.name = self.match_name
-        if removed:
+        if removed is not None:
             self.append.then(matches, removed, context)
 
 
@@ -216,9 +216,9 @@ class AppendTags(Consequence):
             removed = list(removed)
             for match in removed:
                 match.tags.extend(self.tags)
-        elif removed:
+        elif removed is not None:
             removed.tags.extend(self.tags)
-        if removed:
+        if removed is not None:
             self.append.then(matches, removed, context)
 
 
@@ -240,11 +240,11 @@ class RemoveTags(Consequence):
                 for tag in self.tags:
                     if tag in match.tags:
                         match.tags.remove(tag)
-        elif removed:
+        elif removed is not None:
             for tag in self.tags:
                 if tag in removed.tags:
                     removed.tags.remove(tag)
-        if removed:
+        if removed is not None:
             self.append.then(matches, removed, context)
 
 
-- 
2.43.0


From a5cdc43833a930fa6258c1ef41584c313011fb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 14/28] fix: accept a match out of the sequence in conflicting

---
 rebulk/match.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 6290fb8..c1d77d5 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -678,11 +678,9 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
 
         for i in range(*match.span):
             for at_match in self.at_index(i):
-                if at_match not in ret:
+                if at_match != match and at_match not in ret:
                     ret.append(at_match)
 
-        ret.remove(match)
-
         return filter_index(ret, predicate, index)
 
     @overload
-- 
2.43.0


From c07efbd12c677b2a19434e096f2e00b239e1014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 15/28] fix: support slices and initial matches in markers

---
 rebulk/match.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index c1d77d5..313ace6 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -823,7 +823,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             return named[0].value if named else None
         ret = self._delegate[index]
         if isinstance(ret, list):
-            return Matches(ret)
+            return type(self)(ret)
         return ret
 
     def all(self, key: Key[T]) -> list[T]:
@@ -997,7 +997,7 @@ class Markers(_BaseMatches):
     """
 
     def __init__(self, matches: Iterable[Match] | None = None, input_string: str | None = None) -> None:
-        super().__init__(matches=None, input_string=input_string)
+        super().__init__(matches=matches, input_string=input_string)
 
     def _add_match(self, match: Match) -> None:
         assert match.marker, "A non-marker match should not be added to <Markers> object"
-- 
2.43.0


From 162dd36d98650ceab597d63613996576affb725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 16/28] fix: use the log level given to a rule

---
 rebulk/rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index d464cea..102e212 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -77,7 +77,9 @@ class CustomRule(Condition, Consequence, metaclass=ABCMeta):
     def __init__(self, log_level: int | None = None) -> None:
         self.defined_at = debug.defined_at()
         self.log_level: int
-        if log_level is None and not hasattr(self, "log_level"):
+        if log_level is not None:
+            self.log_level = log_level
+        elif not hasattr(self, "log_level"):
             self.log_level = debug.LOG_LEVEL
 
     def enabled(self, context: dict[str, Any] | None) -> bool:
-- 
2.43.0


From e9eda60dc58a0a27cb4044202c28c0dfc38a9ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 17/28] fix: do not append to list values of matches in to_dict

---
 rebulk/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 313ace6..a400655 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -802,7 +802,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                 if enforce_list and not isinstance(value, list):
                     ret[match.name] = [value]
                 else:
-                    ret[match.name] = value
+                    ret[match.name] = list(value) if isinstance(value, list) else value
         return ret
 
     def __len__(self) -> int:
-- 
2.43.0


From 44b75bf7f838d9ce834ce26fc74db1fc73345948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 18/28] fix: do not change the dict a regex pattern is given as

---
 rebulk/pattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index 58c352f..79b22f4 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -480,6 +480,7 @@ class RePattern(Pattern):
                 pattern = call(re.compile, pattern, **self._kwargs)
             elif isinstance(pattern, dict):
                 if self.abbreviations and "pattern" in pattern:
+                    pattern = dict(pattern)
                     for key, replacement in self.abbreviations:
                         pattern["pattern"] = pattern["pattern"].replace(key, replacement)
                 pattern = re.compile(**pattern)
-- 
2.43.0


From 3d768397b12f1591c96156c9074dc6ad56cd468e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 19/28] fix: leave dependencies given to toposort unmodified

---
 rebulk/toposort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/toposort.py b/rebulk/toposort.py
index ae68583..a641d71 100644
--- a/rebulk/toposort.py
+++ b/rebulk/toposort.py
@@ -42,7 +42,7 @@ def toposort(data: dict[_T, set[_T]]) -> Iterator[set[_T]]:
         return
 
     # Copy the input so as to leave it unmodified.
-    data = data.copy()
+    data = {item: set(dep) for item, dep in data.items()}
 
     # Ignore self dependencies.
     for k, v in data.items():
-- 
2.43.0


From 06c6ae5173453fa40c57d99f6d824e1ce5884874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 20/28] fix: AppendMatch does not rename a single match already
 present

---
 rebulk/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 102e212..e27e4ef 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -172,9 +172,9 @@ class AppendMatch(Consequence):
                     matches.append(match)
                     ret.append(match)
             return ret
-        if self.match_name:
-            when_response.name = self.match_name
         if when_response not in matches:
+            if self.match_name:
+                when_response.name = self.match_name
             matches.append(when_response)
             return when_response
         return None
-- 
2.43.0


From 251ef24cef80e55beae4ea693f5474d37a20644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 21/28] fix: regex marker pattern with groups raised an
 assertion error

---
 rebulk/pattern.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index 79b22f4..8c7f1fe 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -11,7 +11,7 @@ from typing import TYPE_CHECKING, Any, Literal, overload
 from . import debug
 from .formatters import default_formatter
 from .loose import call, ensure_dict, ensure_list
-from .match import Match
+from .match import Markers, Match
 from .remodule import REGEX_ENABLED, re
 from .utils import find_all, get_first_defined, is_iterable
 from .validators import allways_true
@@ -508,6 +508,9 @@ class RePattern(Pattern):
             main_match = Match(start, end, pattern=self, input_string=input_string, **self._match_kwargs)
 
             if pattern.groups:
+                if main_match.marker:
+                    # children have the marker flag of the pattern too
+                    main_match.children = Markers(input_string=input_string)  # type: ignore[assignment]
                 for i in range(1, pattern.groups + 1):
                     name = names.get(i, main_match.name)
                     if self.repeated_captures:
-- 
2.43.0


From dc11ef4fa34236891ac25314a8b511f83fb16dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 22/28] fix: do not pass an extra keyword to user functions

---
 rebulk/loose.py   | 2 +-
 rebulk/pattern.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 35edc49..a1ab361 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -41,7 +41,7 @@ def call(function: Any, *args: Any, **kwargs: Any) -> Any:
     :rtype: object
     """
     func = constructor_args if isclass(function) else function_args
-    call_args, call_kwargs = func(function, *args, ignore_unused=True, **kwargs)  # @see #20
+    call_args, call_kwargs = func(function, *args, **kwargs)
     return function(*call_args, **call_kwargs)
 
 
diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index 8c7f1fe..7015b05 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -477,7 +477,7 @@ class RePattern(Pattern):
                 if self.abbreviations and pattern:
                     for key, replacement in self.abbreviations:
                         pattern = pattern.replace(key, replacement)
-                pattern = call(re.compile, pattern, **self._kwargs)
+                pattern = call(re.compile, pattern, ignore_unused=True, **self._kwargs)  # @see #20
             elif isinstance(pattern, dict):
                 if self.abbreviations and "pattern" in pattern:
                     pattern = dict(pattern)
-- 
2.43.0


From 14b2f5f314639d773e73fe87a46417666ab0e597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:45 +0000
Subject: [PATCH 23/28] fix: order rules of one priority by their own position,
 not that of an equal rule of another priority

---
 rebulk/rules.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index e27e4ef..3d00425 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -317,9 +317,11 @@ class Rules(list[CustomRule]):
         """
         ret: list[tuple[CustomRule, Any]] = []
         for priority, priority_rules in groupby(sorted(self), lambda rule: rule.priority):
-            sorted_rules = toposort_rules(list(priority_rules))  # Group by dependency graph toposort
+            ordered_rules = list(priority_rules)
+            sorted_rules = toposort_rules(ordered_rules)  # Group by dependency graph toposort
             for rules_group in sorted_rules:
-                sorted_group = sorted(rules_group, key=self.index)  # Sort rules group based on initial ordering.
+                # Sort rules group based on initial ordering.
+                sorted_group = sorted(rules_group, key=ordered_rules.index)
                 group_log_level: int | None = None
                 for rule in sorted_group:
                     if group_log_level is None or group_log_level < rule.log_level:
-- 
2.43.0


From ac0cb406e22d69aed8f1261fe9e19c97d8bffa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 24/28] fix: run a rule given as dependency once, at its own
 priority

---
 rebulk/rules.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 3d00425..5e0db1a 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -382,9 +382,9 @@ def toposort_rules(rules: list[CustomRule]) -> Iterator[set[CustomRule]]:
         dependencies: set[CustomRule] = set()
         if rule_dependencies:
             for dependency in rule_dependencies:
-                if inspect.isclass(dependency):
-                    dependency = class_dict.get(dependency)
-                if dependency:
-                    dependencies.add(dependency)
+                dependency_class = dependency if inspect.isclass(dependency) else dependency.__class__
+                rule_dependency = class_dict.get(dependency_class)
+                if rule_dependency:
+                    dependencies.add(rule_dependency)
         graph[rule] = dependencies
     return toposort(graph)
-- 
2.43.0


From f119afab096187b1e286ed8b85db339dae140aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:19 +0000
Subject: [PATCH 25/28] fix: keep the arguments of partial methods, builtin
 methods and classes without constructor

---
 rebulk/loose.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index a1ab361..361688e 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -5,13 +5,13 @@ Various utilities functions
 
 from __future__ import annotations
 
-from inspect import getfullargspec, isclass, ismethod
+from inspect import Parameter, isclass, signature
 from typing import TYPE_CHECKING, Any, cast
 
 from .utils import is_iterable
 
 if TYPE_CHECKING:
-    from inspect import FullArgSpec
+    from inspect import Signature
 
 
 def _constructor(class_: Any) -> Any:
@@ -58,9 +58,7 @@ def function_args(callable_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
     :return: (args, kwargs) matching the function signature
     :rtype: tuple
     """
-    argspec = getfullargspec(callable_)
-    bound = ismethod(callable_) or ismethod(getattr(callable_, "__call__", None))
-    return argspec_args(argspec, bound, *args, **kwargs)
+    return signature_args(signature(callable_, follow_wrapped=False), *args, **kwargs)
 
 
 def constructor_args(class_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
@@ -76,18 +74,15 @@ def constructor_args(class_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
     :return: (args, kwargs) matching the function signature
     :rtype: tuple
     """
-    argspec = getfullargspec(_constructor(class_))
-    return argspec_args(argspec, True, *args, **kwargs)
+    return signature_args(signature(_constructor(class_), follow_wrapped=False), *args, **kwargs)
 
 
-def argspec_args(argspec: FullArgSpec, constructor: bool, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
+def signature_args(sig: Signature, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
     """
-    Return (args, kwargs) matching the argspec object
+    Return (args, kwargs) matching the signature object
 
-    :param argspec: argspec to use
-    :type argspec: argspec
-    :param constructor: is it a constructor or a bound method ?
-    :type constructor: bool
+    :param sig: signature of what is called, without the argument it is bound to
+    :type sig: inspect.Signature
     :param args:
     :type args:
     :param kwargs:
@@ -95,10 +90,12 @@ def argspec_args(argspec: FullArgSpec, constructor: bool, *args: Any, **kwargs:
     :return: (args, kwargs) matching the function signature
     :rtype: tuple
     """
-    call_kwarg = kwargs if argspec.varkw else {
-        k: kwargs[k] for k in kwargs if k in argspec.args or k in argspec.kwonlyargs
-    }
-    call_args = args if argspec.varargs else args[: len(argspec.args) - (1 if constructor else 0)]
+    params = sig.parameters.values()
+    kinds = [param.kind for param in params]
+    names = [param.name for param in params if param.kind in (param.POSITIONAL_OR_KEYWORD, param.KEYWORD_ONLY)]
+    call_kwarg = kwargs if Parameter.VAR_KEYWORD in kinds else {k: kwargs[k] for k in kwargs if k in names}
+    positional = [kind for kind in kinds if kind in (Parameter.POSITIONAL_ONLY, Parameter.POSITIONAL_OR_KEYWORD)]
+    call_args = args if Parameter.VAR_POSITIONAL in kinds else args[: len(positional)]
     return call_args, call_kwarg
 
 
-- 
2.43.0


From 49a524a4cdc090e9d04f220c71cef50a4fe0da43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:18 +0000
Subject: [PATCH 26/28] fix: keep a per-name default called clear when defaults
 are merged

---
 rebulk/loose.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 361688e..2463244 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -181,13 +181,20 @@ def set_defaults(defaults: dict[str, Any], kwargs: dict[str, Any], override: boo
     """
     if "clear" in defaults and defaults.pop("clear"):
         kwargs.clear()
+    _merge_defaults(defaults, kwargs, override)
+
+
+def _merge_defaults(defaults: dict[str, Any], kwargs: dict[str, Any], override: bool = False) -> None:
+    """
+    Merge defaults dict into kwargs dict, leaving defaults as it is
+    """
     for key, value in defaults.items():
         if key in kwargs:
             if isinstance(value, list) and isinstance(kwargs[key], list):
                 kwargs[key] = list(value) + kwargs[key]
             elif isinstance(value, dict) and isinstance(kwargs[key], dict):
                 merged = dict(kwargs[key])
-                set_defaults(value, merged)
+                _merge_defaults(value, merged)
                 kwargs[key] = merged
         if key not in kwargs or override:
             kwargs[key] = value
-- 
2.43.0


From aee4fff406fdf956ae5d4ad60a498e50ded046ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:56 +0000
Subject: [PATCH 27/28] fix: do not shorten a rejected chain match below the
 repetitions its parts require

---
 rebulk/chain.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index c21e4df..ed15d15 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -143,11 +143,15 @@ class Chain(Pattern):
                 [child_ for child_ in match.children if child_.pattern == last_pattern]
             )
 
+            minimum = self._minimum_repetitions(last_pattern)
+
             if last_pattern_groups:
                 original_children = Matches(match.children)
                 original_end = match.end
 
                 for index in reversed(list(last_pattern_groups)):
+                    if minimum is None or index < minimum:
+                        break
                     last_matches = last_pattern_groups[index]
                     for last_match in last_matches:
                         match.children.remove(last_match)
@@ -161,6 +165,18 @@ class Chain(Pattern):
 
         return False
 
+    def _minimum_repetitions(self, pattern: Any) -> int | None:
+        """
+        Number of repetitions of the part of this pattern a shortened match has to keep, None if it can't be shortened
+        because another part is required after.
+        """
+        for part in reversed(self.parts):
+            if part.pattern == pattern:
+                return part.repeater_start
+            if part.repeater_start:
+                return None
+        return 0
+
     def _build_chain_match(self, current_chain_matches: list[Match], input_string: str) -> Match:
         start: int | None = None
         end: int | None = None
-- 
2.43.0


From a66e305c851145fbbbdd112a4bfd2e2b16961f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:35 +0000
Subject: [PATCH 28/28] fix: a module of rules: only the classes it defines are
 loaded, its functions are not called

---
 rebulk/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 5e0db1a..98f3e1c 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -287,7 +287,7 @@ class Rules(list[CustomRule]):
         """
 
         def predicate(member: Any) -> Any:
-            return hasattr(member, "__module__") and member.__module__ == module.__name__ and inspect.isclass
+            return hasattr(member, "__module__") and member.__module__ == module.__name__ and inspect.isclass(member)
 
         for _name, obj in inspect.getmembers(module, predicate):
             self.load_class(obj)
-- 
2.43.0

