From d33855dbe63c22b7226baf572ad17cb928706128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:16 +0000
Subject: [PATCH 01/26] fix: concurrent equal type requests could yield
 distinct types

The type caches were check-then-act: two threads that requested the same
type at the same time each built one and the last one published won.
---
 hwtypes/adt_meta.py       |  7 +++----
 hwtypes/bit_vector_abc.py |  5 ++---
 hwtypes/fp_vector_abc.py  |  4 ++--
 hwtypes/modifiers.py      | 11 +++++++++--
 hwtypes/util.py           | 13 +++++++++++++
 5 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index e0911c8..12c1151 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -8,7 +8,7 @@ from collections.abc import Mapping, MutableMapping
 from collections import OrderedDict
 from .util import TypedProperty
 from .util import OrderedFrozenDict, FrozenDict
-from .util import _issubclass
+from .util import _issubclass, intern_weak
 
 __all__ = [
     'BoundMeta', 'TupleMeta', 'ProductMeta',
@@ -102,9 +102,8 @@ class _GetitemSyntax(type): #(metaclass=ABCMeta):
             pass
 
         t = cls._from_idx(idx)
-        mcs._class_cache[cls, idx] = t
         t._cached_ = True
-        return t
+        return intern_weak(mcs._class_cache, (cls, idx), t)
 
     @abstractmethod
     def _from_idx(cls, idx):
@@ -174,7 +173,7 @@ class _AttrSyntax(type): #, metaclass=ABCMeta):
             t = mcs._from_fields(fields, name, bases, ns, **kwargs)
             t._cached_ = cache
             if cache:
-                mcs._class_cache[cache_idx] = t
+                t = intern_weak(mcs._class_cache, cache_idx, t)
             return t
         else:
             return super().__new__(mcs, name, bases, ns, **kwargs)
diff --git a/hwtypes/bit_vector_abc.py b/hwtypes/bit_vector_abc.py
index 44d22a9..56b452f 100644
--- a/hwtypes/bit_vector_abc.py
+++ b/hwtypes/bit_vector_abc.py
@@ -5,7 +5,7 @@ import functools as ft
 import weakref
 import warnings
 
-from .util import _issubclass
+from .util import _issubclass, intern_weak
 
 TypeFamily = namedtuple('TypeFamily', ['Bit', 'BitVector', 'Unsigned', 'Signed'])
 
@@ -93,8 +93,7 @@ class AbstractBitVectorMeta(type): #:(ABCMeta):
         class_name = '{}[{}]'.format(cls.__name__, idx)
         t = mcs(class_name, bases, {}, info=(cls,idx))
         t.__module__ = cls.__module__
-        mcs._class_cache[cls, idx] = t
-        return t
+        return intern_weak(mcs._class_cache, (cls, idx), t)
 
     @property
     def unsized_t(cls) -> 'AbstractBitVectorMeta':
diff --git a/hwtypes/fp_vector_abc.py b/hwtypes/fp_vector_abc.py
index 6b6a6e8..b8320bd 100644
--- a/hwtypes/fp_vector_abc.py
+++ b/hwtypes/fp_vector_abc.py
@@ -5,6 +5,7 @@ import warnings
 import enum
 
 from . import AbstractBitVectorMeta, AbstractBitVector, AbstractBit
+from .util import intern_weak
 
 class RoundingMode(enum.Enum):
     RNE = enum.auto() # roundTiesToEven
@@ -67,8 +68,7 @@ class AbstractFPVectorMeta(ABCMeta):
         class_name = f'{cls.__name__}[{eb},{mb},{mode},{ieee_compliance}]'
         t = mcs(class_name, bases, {}, info=(cls, idx))
         t.__module__ = cls.__module__
-        mcs._class_cache[cls, idx] = t
-        return t
+        return intern_weak(mcs._class_cache, (cls, idx), t)
 
     @property
     def unbound_t(cls) -> 'AbstractBitVectorMeta':
diff --git a/hwtypes/modifiers.py b/hwtypes/modifiers.py
index f26e514..3f4a7d4 100644
--- a/hwtypes/modifiers.py
+++ b/hwtypes/modifiers.py
@@ -1,6 +1,7 @@
 import types
 import weakref
 from .adt_meta import GetitemSyntax, AttrSyntax, EnumMeta
+from .util import _intern_lock, intern_weak
 
 
 __ALL__ = ['new', 'make_modifier', 'is_modified', 'is_modifier', 'get_modifier', 'get_unmodified', 'strip_modifiers', 'push_modifiers']
@@ -54,7 +55,13 @@ class _ModifierMeta(type):
         for base in unmod_cls.__bases__:
             bases.append(cls(base))
         mod_cls = type(mod_name, tuple(bases), {})
-        cls._register_modified(unmod_cls, mod_cls)
+        with _intern_lock:
+            try:
+                # an other thread might have been faster
+                return cls._sub_class_cache[unmod_cls]
+            except KeyError:
+                pass
+            cls._register_modified(unmod_cls, mod_cls)
         return mod_cls
 
 class AbstractModifier(metaclass=_ModifierMeta):
@@ -112,7 +119,7 @@ def make_modifier(name, cache=False):
     ModType = _ModifierMeta(name, (AbstractModifier, ), {})
 
     if cache:
-        return _mod_cache.setdefault(name, ModType)
+        return intern_weak(_mod_cache, name, ModType)
 
     return ModType
 
diff --git a/hwtypes/util.py b/hwtypes/util.py
index cf52ebc..3381fd5 100644
--- a/hwtypes/util.py
+++ b/hwtypes/util.py
@@ -1,5 +1,6 @@
 from collections import OrderedDict
 from collections.abc import Mapping, MutableMapping
+import threading
 import typing as tp
 import types
 
@@ -153,3 +154,15 @@ def _issubclass(sub : tp.Any, parent : type) -> bool:
         return issubclass(sub, parent)
     except TypeError:
         return False
+
+_intern_lock = threading.RLock()
+
+def intern_weak(cache, key, value):
+    '''
+    Publish value in a weak value cache unless an other thread already
+    published an equal entry.  Returns the entry that every thread shall use.
+
+    Only the publishing is locked as building types calls back into user code.
+    '''
+    with _intern_lock:
+        return cache.setdefault(key, value)
-- 
2.43.0


From c833aee413456b7c0e21eae06834462327cd1b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:55 +0000
Subject: [PATCH 02/26] fix: validate type indices before looking them up in
 the type caches

BitVector[8.0] or FPVector[8, 7, RNE, 1] were accepted or rejected depending
on whether an equal key happened to be alive in the cache, and
BitVector[True] could become the one BitVector of size 1.
---
 hwtypes/bit_vector_abc.py |  8 ++++++--
 hwtypes/fp_vector_abc.py  | 12 +++++++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/hwtypes/bit_vector_abc.py b/hwtypes/bit_vector_abc.py
index 56b452f..2d300be 100644
--- a/hwtypes/bit_vector_abc.py
+++ b/hwtypes/bit_vector_abc.py
@@ -74,13 +74,17 @@ class AbstractBitVectorMeta(type): #:(ABCMeta):
 
     def __getitem__(cls, idx : int) -> 'AbstractBitVectorMeta':
         mcs = type(cls)
+        # Must be checked before looking idx up as BitVector[8] and
+        # BitVector[8.0] share their key in the cache
+        if not isinstance(idx, int):
+            raise TypeError('Size of BitVectors must be of type int not {}'.format(type(idx)))
+        idx = int(idx)
+
         try:
             return mcs._class_cache[cls, idx]
         except KeyError:
             pass
 
-        if not isinstance(idx, int):
-            raise TypeError('Size of BitVectors must be of type int not {}'.format(type(idx)))
         if idx < 0:
             raise ValueError('Size of BitVectors must be positive')
 
diff --git a/hwtypes/fp_vector_abc.py b/hwtypes/fp_vector_abc.py
index b8320bd..6ddb017 100644
--- a/hwtypes/fp_vector_abc.py
+++ b/hwtypes/fp_vector_abc.py
@@ -44,18 +44,20 @@ class AbstractFPVectorMeta(ABCMeta):
 
     def __getitem__(cls, idx : tp.Tuple[int, int, RoundingMode, bool]):
         mcs = type(cls)
-        try:
-            return mcs._class_cache[cls, idx]
-        except KeyError:
-            pass
-
         if cls.is_bound:
             raise TypeError(f'{cls} is already bound')
 
+        # Must be checked before looking idx up as equal keys (True == 1)
+        # would otherwise be accepted depending on the state of the cache
         if len(idx) != 4 or tuple(map(type,idx)) != (int, int, RoundingMode, bool):
             raise IndexError(f'Constructing a floating point type requires:\n'
                     'exponent bits : int, mantisa bits : int, RoundingMode, ieee_compliance : bool')
 
+        try:
+            return mcs._class_cache[cls, idx]
+        except KeyError:
+            pass
+
         eb, mb, mode, ieee_compliance = idx
 
         if eb <= 0 or mb <= 0:
-- 
2.43.0


From 44e9b01b0382d17860310c2e548f4f4b901c5370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 03/26] fix: generated names could capture symbols of existing
 formulas

An automatically named variable reused the name of a dropped variable even
if formulas still referred to its symbol (or failed if it had an other sort).
---
 hwtypes/smt_bit_vector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index dc4acfb..d0d552b 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -25,8 +25,10 @@ _var_counters = defaultdict(it.count)
 _name_table = weakref.WeakValueDictionary()
 
 def _gen_name(prefix='V'):
+    # A formula may still refer to a symbol whose variable is gone
+    symbols = smt.get_env().formula_manager.symbols
     name = f'{prefix}_{next(_var_counters[prefix])}'
-    while name in _name_table:
+    while name in _name_table or name in symbols:
         name = f'{prefix}_{next(_var_counters[prefix])}'
     return name
 
-- 
2.43.0


From 5e218e3dcd5a23ab3e6e1ae3e04a555579850bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:54 +0000
Subject: [PATCH 04/26] fix: reserve the name of a symbolic variable atomically
 and only on success

Two threads could both get the same name, and a constructor that failed kept
the name taken for as long as its error was referenced.
---
 hwtypes/smt_bit_vector.py | 42 ++++++++++++++++++++++-----------------
 hwtypes/smt_int.py        | 11 ++--------
 hwtypes/z3_bit_vector.py  | 32 +++++++++++++++++++----------
 3 files changed, 47 insertions(+), 38 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index d0d552b..eb8d0ee 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -14,6 +14,7 @@ from pysmt.typing import  BVType, BOOL
 
 from collections import defaultdict
 import re
+import threading
 import warnings
 import weakref
 
@@ -32,6 +33,26 @@ def _gen_name(prefix='V'):
         name = f'{prefix}_{next(_var_counters[prefix])}'
     return name
 
+_name_lock = threading.RLock()
+
+def _new_symbol(var, T, name, prefix):
+    '''
+    Create the symbol for the symbolic variable var and reserve its name.
+
+    The name is taken last so that a failure doesn't leave it taken.
+    '''
+    with _name_lock:
+        if name is not AUTOMATIC:
+            if name in _name_table:
+                raise ValueError(f'Name {name} already in use')
+        elif prefix is not AUTOMATIC:
+            name = _gen_name(prefix)
+        else:
+            name = _gen_name()
+        value = smt.Symbol(name, T)
+        _name_table[name] = var
+    return name, value
+
 _name_re = re.compile(r'V_\d+')
 
 class _SMYBOLIC:
@@ -75,16 +96,9 @@ class SMTBit(AbstractBit):
                 raise ValueError(f'Name {name} already in use')
             elif _name_re.fullmatch(name):
                 warnings.warn('Name looks like an auto generated name, this might break things')
-            _name_table[name] = self
-        elif prefix is not AUTOMATIC:
-            name = _gen_name(prefix)
-            _name_table[name] = self
-        elif name is AUTOMATIC and value is SMYBOLIC:
-            name = _gen_name()
-            _name_table[name] = self
 
         if value is SMYBOLIC:
-            self._value = smt.Symbol(name, BOOL)
+            name, self._value = _new_symbol(self, BOOL, name, prefix)
         elif isinstance(value, pysmt.fnode.FNode):
             if value.get_type().is_bool_type():
                 self._value = value
@@ -239,20 +253,11 @@ class SMTBitVector(AbstractBitVector):
                 raise ValueError(f'Name {name} already in use')
             elif _name_re.fullmatch(name):
                 warnings.warn('Name looks like an auto generated name, this might break things')
-            _name_table[name] = self
-        elif prefix is not AUTOMATIC:
-            name = _gen_name(prefix)
-            _name_table[name] = self
-        elif name is AUTOMATIC and value is SMYBOLIC:
-            name = _gen_name()
-            _name_table[name] = self
-
-        self._name = name
 
         T = BVType(self.size)
 
         if value is SMYBOLIC:
-            self._value = smt.Symbol(name, T)
+            name, self._value = _new_symbol(self, T, name, prefix)
         elif isinstance(value, pysmt.fnode.FNode):
             t = value.get_type()
             if t is T:
@@ -291,6 +296,7 @@ class SMTBitVector(AbstractBitVector):
         else:
             raise TypeError("Can't coerce {} to SMTBitVector".format(type(value)))
 
+        self._name = name
         self._value = smt.simplify(self._value)
         assert self._value.get_type() is T
 
diff --git a/hwtypes/smt_int.py b/hwtypes/smt_int.py
index 9b7b17a..b59e6e7 100644
--- a/hwtypes/smt_int.py
+++ b/hwtypes/smt_int.py
@@ -1,5 +1,5 @@
 import functools as ft
-from .smt_bit_vector import SMTBit, SMTBitVector, _gen_name, _name_re, _name_table, SMYBOLIC, AUTOMATIC
+from .smt_bit_vector import SMTBit, SMTBitVector, _new_symbol, _name_re, _name_table, SMYBOLIC, AUTOMATIC
 
 import pysmt
 import pysmt.shortcuts as smt
@@ -36,16 +36,9 @@ class SMTInt:
                 raise ValueError(f'Name {name} already in use')
             elif _name_re.fullmatch(name):
                 warnings.warn('Name looks like an auto generated name, this might break things')
-            _name_table[name] = self
-        elif prefix is not AUTOMATIC:
-            name = _gen_name(prefix)
-            _name_table[name] = self
-        elif name is AUTOMATIC and value is SMYBOLIC:
-            name = _gen_name()
-            _name_table[name] = self
 
         if value is SMYBOLIC:
-            self._value = smt.Symbol(name, INT)
+            name, self._value = _new_symbol(self, INT, name, prefix)
         elif isinstance(value, pysmt.fnode.FNode):
             if value.get_type().is_int_type():
                 self._value = value
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 582d6a8..b44614a 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -9,6 +9,7 @@ from abc import abstractmethod
 import z3
 
 import re
+import threading
 import warnings
 import weakref
 
@@ -28,6 +29,23 @@ def _gen_name():
         name = f'V_{next(_var_counter)}'
     return name
 
+_name_lock = threading.RLock()
+
+def _new_symbol(var, mk_symbol, name):
+    '''
+    Create the symbol for the symbolic variable var and reserve its name.
+
+    The name is taken last so that a failure doesn't leave it taken.
+    '''
+    with _name_lock:
+        if name is AUTOMATIC:
+            name = _gen_name()
+        elif name in _name_table:
+            raise ValueError(f'Name {name} already in use')
+        value = mk_symbol(name)
+        _name_table[name] = var
+    return name, value
+
 _name_re = re.compile(r'V_\d+')
 
 class _SMYBOLIC:
@@ -65,13 +83,9 @@ class z3Bit(AbstractBit):
                 raise ValueError(f'Name {name} already in use')
             elif _name_re.fullmatch(name):
                 warnings.warn('Name looks like an auto generated name, this might break things')
-            _name_table[name] = self
-        elif name is AUTOMATIC and value is SMYBOLIC:
-            name = _gen_name()
-            _name_table[name] = self
 
         if value is SMYBOLIC:
-            self._value = z3.Bool(name)
+            name, self._value = _new_symbol(self, z3.Bool, name)
         elif isinstance(value, z3.BoolRef):
             self._value = value
         elif isinstance(value, z3Bit):
@@ -190,16 +204,11 @@ class z3BitVector(AbstractBitVector):
                 raise ValueError(f'Name {name} already in use')
             elif _name_re.fullmatch(name):
                 warnings.warn('Name looks like an auto generated name, this might break things')
-            _name_table[name] = self
-        elif name is AUTOMATIC and value is SMYBOLIC:
-            name = _gen_name()
-            _name_table[name] = self
-        self._name = name
 
         T = z3.BitVecSort(self.size)
 
         if value is SMYBOLIC:
-            self._value = z3.BitVec(name, T)
+            name, self._value = _new_symbol(self, lambda name: z3.BitVec(name, T), name)
         elif isinstance(value, z3.BitVecRef):
             t = value.sort()
             if t == T:
@@ -240,6 +249,7 @@ class z3BitVector(AbstractBitVector):
         else:
             raise TypeError("Can't coerce {} to z3BitVector".format(type(value)))
 
+        self._name = name
         self._value = z3.simplify(self._value)
         assert self._value.sort() == T
 
-- 
2.43.0


From 0bbcee984bedf11ee8c84df095bf0bbc048dc322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 05/26] fix: SMTFPVector shares the solver's symbols with the
 other SMT types

It kept its own name table (and didn't register generated names), so a
SMTFPVector and a SMTBitVector could be the same solver variable.
---
 hwtypes/smt_fp_vector.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 4b7acd2..d85a4aa 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -5,6 +5,7 @@ import pysmt.shortcuts as shortcuts
 from pysmt.typing import  BVType, BOOL, FunctionType
 
 from .smt_bit_vector import SMTBit, SMTBitVector, SMTSIntVector, SMYBOLIC, AUTOMATIC
+from .smt_bit_vector import _name_lock, _name_table, _new_symbol
 from .fp_vector_abc import AbstractFPVector, RoundingMode
 
 # using None to represent cls
@@ -35,7 +36,6 @@ _SIGS = [
     ('fp_is_positive', None, BOOL,),
 ]
 
-_name_table = weakref.WeakValueDictionary()
 _uf_table = weakref.WeakKeyDictionary()
 
 
@@ -48,15 +48,16 @@ class SMTFPVector(AbstractFPVector):
                 raise TypeError('Name must be string')
             elif name in _name_table:
                 raise ValueError(f'Name {name} already in use')
-            _name_table[name] = self
 
         T = BVType(self.size)
 
         if value is SMYBOLIC:
             if name is AUTOMATIC:
-                value = shortcuts.FreshSymbol(T)
+                with _name_lock:
+                    value = shortcuts.FreshSymbol(T)
+                    _name_table[value.symbol_name()] = self
             else:
-                value = shortcuts.Symbol(name, T)
+                name, value = _new_symbol(self, T, name, AUTOMATIC)
         elif isinstance(value, pysmt.fnode.FNode):
             t = value.get_type()
             if t is not T:
-- 
2.43.0


From 49871e445d5ea3779513e2d89191ba4a99595f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 06/26] fix: SMTFPVector.to_sbv raised KeyError

---
 hwtypes/smt_fp_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index d85a4aa..bf87938 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -181,7 +181,7 @@ class SMTFPVector(AbstractFPVector):
 
     def to_sbv(self, size : int) -> SMTBitVector:
         cls = type(self)
-        ufs = _uf_table[cls]['to_usbv']
+        ufs = _uf_table[cls]['to_sbv']
         if size not in ufs:
             name = '.'.join((cls.__name__, f'to_sbv[{size}]'))
             ufs[size] = shortcuts.Symbol(
-- 
2.43.0


From b9af9b3ee1481e1268962b2b84c75b7a7d88d354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 07/26] fix: Tuple item assignment left a list behind

A written to Tuple (or Product) was neither equal to an equal fresh one nor
hashable.
---
 hwtypes/adt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 918c530..12ca702 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -49,7 +49,7 @@ class Tuple(metaclass=TupleMeta):
         if isinstance(value, type(self)[idx]):
             v = list(self._value_)
             v[idx] = value
-            self._value_ = v
+            self._value_ = tuple(v)
         else:
             raise TypeError(f'Value {value} is not of type {type(self)[idx]}')
 
-- 
2.43.0


From 8212c69895f347c3849b7a1081bb9c2b239c0956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 08/26] fix: remainder by zero returned its mutable operand
 itself

Writing a bit of the result changed the operand as well.
---
 hwtypes/bit_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index a733582..3e36aee 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -382,7 +382,7 @@ class BitVector(AbstractBitVector):
     def bvurem(self, other):
         other = other.as_uint()
         if other == 0:
-            return self
+            return type(self)(self)
         return type(self)(self.as_uint() % other)
 
     @bv_cast
@@ -396,7 +396,7 @@ class BitVector(AbstractBitVector):
     def bvsrem(self, other):
         other = other.as_sint()
         if other == 0:
-            return self
+            return type(self)(self)
         return type(self)(self.as_sint() % other)
 
     def __invert__(self): return self.bvnot()
-- 
2.43.0


From c8729c61912f316aee2bdf48054b5f43c1c9a80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:04 +0000
Subject: [PATCH 09/26] fix: anonymous products could not be rebound

rebind, strip_modifiers and push_modifiers indexed AnonymousProduct with a
list of types and hence raised a TypeError.
---
 hwtypes/adt_meta.py  | 10 +++++++++-
 hwtypes/modifiers.py |  4 ++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 12c1151..3fc0c42 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -118,8 +118,13 @@ class _GetitemSyntax(type): #(metaclass=ABCMeta):
                 new_fields.append(T.rebind(A, B, rebind_sub_types))
             else:
                 new_fields.append(T)
-        return cls.unbound_t[new_fields]
+        return cls.unbound_t[cls._idx_from_fields(new_fields)]
 
+    def _idx_from_fields(cls, fields):
+        '''
+        The index which binds cls.unbound_t to fields (given in order of cls.fields)
+        '''
+        return fields
 
 
 class _AttrSyntax(type): #, metaclass=ABCMeta):
@@ -432,6 +437,9 @@ def __init__(self, {type_sig}):
     def _fields_from_idx(cls, idx):
         return tuple(idx.values())
 
+    def _idx_from_fields(cls, fields):
+        return OrderedDict(zip(cls.field_dict, fields))
+
     def _namespace_from_idx(cls, idx):
         ns = super()._namespace_from_idx(idx)
 
diff --git a/hwtypes/modifiers.py b/hwtypes/modifiers.py
index 3f4a7d4..7e2b82b 100644
--- a/hwtypes/modifiers.py
+++ b/hwtypes/modifiers.py
@@ -151,7 +151,7 @@ def strip_modifiers(adt_t):
         return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
     elif isinstance(adt_t, GetitemSyntax):
         new_fields = [strip_modifiers(sub_adt_t) for sub_adt_t in adt_t.fields]
-        return adt_t.unbound_t[new_fields]
+        return adt_t.unbound_t[adt_t._idx_from_fields(new_fields)]
     else:
         return adt_t
 
@@ -165,7 +165,7 @@ def push_modifiers(adt_t, mods=[]):
         return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
     elif isinstance(adt_t, GetitemSyntax):
         new_fields = [push_modifiers(sub_adt_t, mods) for sub_adt_t in adt_t.fields]
-        return adt_t.unbound_t[new_fields]
+        return adt_t.unbound_t[adt_t._idx_from_fields(new_fields)]
     else:
         return wrap_modifier(adt_t, mods)
 
-- 
2.43.0


From 9230617bae4a869780f0e42db2a9ead900ed82f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 10/26] fix: rebinding fields one by one depended on the order
 of the fields

rebind_keep_modifiers also replaced parts nested in other fields (dropping
their modifiers), so e.g. the result for a Sum depended on its hash order.
---
 hwtypes/adt_util.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index 223750a..a30bb63 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -1,5 +1,6 @@
 from abc import ABCMeta, abstractmethod
-from .adt_meta import BoundMeta
+from collections import OrderedDict
+from .adt_meta import BoundMeta, AttrSyntax, EnumMeta
 from .bit_vector_abc import AbstractBitVectorMeta, AbstractBitVector, AbstractBit
 
 from .util import _issubclass
@@ -72,6 +73,24 @@ class ADTInstVisitor(_ADTVisitor):
             if v is not None:
                 self.visit(v)
 
+def _map_fields(adt, fn):
+    # All fields are replaced at once. Replacing them one by one would replace
+    # new fields again, depending on the order of the fields (arbitrary for Sum)
+    if isinstance(adt, EnumMeta):
+        return adt
+    elif isinstance(adt, AttrSyntax):
+        new_fields = OrderedDict((k, fn(T)) for k, T in adt.field_dict.items())
+        if new_fields != adt.field_dict:
+            return adt.unbound_t.from_fields(adt.__name__, new_fields, cache=adt.is_cached)
+        else:
+            return adt
+    else:
+        new_fields = [fn(T) for T in adt.fields]
+        if new_fields != list(adt.fields):
+            return adt.unbound_t[adt._idx_from_fields(new_fields)]
+        else:
+            return adt
+
 def rebind_bitvector(
         adt,
         bv_type_0: AbstractBitVectorMeta,
@@ -87,15 +106,7 @@ def rebind_bitvector(
         else:
             return bv_type_1
     elif isinstance(adt, BoundMeta):
-        _to_new = []
-        for field in adt.fields:
-            new_field = rebind_bitvector(field, bv_type_0, bv_type_1,keep_modifiers)
-            _to_new.append((field,new_field))
-        new_adt = adt
-
-        for field,new_field in _to_new:
-            new_adt = new_adt.rebind(field, new_field, rebind_recursive=False)
-        return new_adt
+        return _map_fields(adt, lambda field: rebind_bitvector(field, bv_type_0, bv_type_1,keep_modifiers))
     else:
         return adt
 
@@ -107,11 +118,7 @@ def rebind_keep_modifiers(adt, A, B):
     if _issubclass(adt,A):
         return B
     elif isinstance(adt, BoundMeta):
-        new_adt = adt
-        for field in adt.fields:
-            new_field = rebind_keep_modifiers(field, A, B)
-            new_adt = new_adt.rebind(field, new_field)
-        return new_adt
+        return _map_fields(adt, lambda field: rebind_keep_modifiers(field, A, B))
     else:
         return adt
 
-- 
2.43.0


From 1de66f7f483febe387a8bff6312bf8491819e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:24 +0000
Subject: [PATCH 11/26] fix: rebind_type raised NameError for modified types

---
 hwtypes/adt_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index a30bb63..65a3d02 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -5,6 +5,7 @@ from .bit_vector_abc import AbstractBitVectorMeta, AbstractBitVector, AbstractBi
 
 from .util import _issubclass
 from hwtypes.modifiers import unwrap_modifier, wrap_modifier, is_modified
+from hwtypes.modifiers import get_modifier, get_unmodified
 from .adt import Product, Sum, Tuple, Enum, TaggedUnion
 from inspect import isclass
 
@@ -133,7 +134,7 @@ def rebind_type(T, family):
     if not isclass(T):
         return T
     elif is_modified(T):
-        return get_modifier(T)(rebind_type(get_unmodified(T), family, dont_rebind, do_rebind, is_magma))
+        return get_modifier(T)(rebind_type(get_unmodified(T), family))
     elif issubclass(T, AbstractBitVector):
         return rebind_bitvector(T, AbstractBitVector, family.BitVector)
     elif issubclass(T, AbstractBit):
-- 
2.43.0


From 0ab7086ba8d8cc6f764820722b9c24cb73baa74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:46 +0000
Subject: [PATCH 12/26] fix: class definitions differing in special methods
 shared one type

The cache of class definitions ignored special methods (and mixed up 1, 1.0
and True), so the second of two definitions got the methods of the first for
as long as that was alive.
---
 hwtypes/adt_meta.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 3fc0c42..61a9afe 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -30,6 +30,12 @@ def _is_descriptor(obj):
     return hasattr(obj, '__get__') or hasattr(obj, '__set__') or hasattr(obj, '__delete__')
 
 
+def _is_special_method(k, v):
+    # As opposed to bookkeeping (__module__, __doc__...). None as in __hash__ = None
+    return (_is_dunder(k) and (v is None or _is_descriptor(v))
+            and k not in {'__doc__', '__annotate__', '__annotate_func__'})
+
+
 def is_adt_type(t):
     return isinstance(t, BoundMeta)
 
@@ -157,13 +163,15 @@ class _AttrSyntax(type): #, metaclass=ABCMeta):
             if cache:
                 ns_idx = set()
                 for k,v in ns.items():
-                    if not _is_dunder(k):
-                        ns_idx.add((k,v))
+                    # Values are tagged with their type as 1 == True == 1.0
+                    if not _is_dunder(k) or _is_special_method(k, v):
+                        ns_idx.add((k,type(v),v))
 
+                fields_idx = ((k,type(v),v) for k,v in fields.items())
                 if mcs.ORDERED:
-                    fields_idx = tuple(map(tuple, fields.items()))
+                    fields_idx = tuple(fields_idx)
                 else:
-                    fields_idx = frozenset(map(tuple, fields.items()))
+                    fields_idx = frozenset(fields_idx)
 
                 cache_idx = (fields_idx,
                         bases,
-- 
2.43.0


From 22e05c56307f1e821efff48854b283ee02df03ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 13/26] fix: class definitions differing in their metaclass
 shared one type

---
 hwtypes/adt_meta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 61a9afe..5c51649 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -173,7 +173,8 @@ class _AttrSyntax(type): #, metaclass=ABCMeta):
                 else:
                     fields_idx = frozenset(fields_idx)
 
-                cache_idx = (fields_idx,
+                cache_idx = (mcs,
+                        fields_idx,
                         bases,
                         name,
                         frozenset(ns_idx),
-- 
2.43.0


From 196d530e6f03a4ffdb7e60dc7950c1703772c1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:23 +0000
Subject: [PATCH 14/26] fix: FPVector.random always drew the same mantissa

It created a new gmpy2 random state (with the default seed) for each draw.
Formats with a wide exponent and a narrow mantissa also rounded the exponent
and could thus return infinity in spite of allow_inf=False.
---
 hwtypes/fp_vector.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index ff294a3..275d3aa 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -379,17 +379,23 @@ class FPVector(AbstractFPVector):
     def __float__(self):
         return float(self._value)
 
+    @classmethod
+    def _random_significand(cls):
+        # uniform in [1, 2), every value is representable so it can't round to 2
+        one = 1 << cls.mantissa_size
+        return gmpy2.mpfr(gmpy2.mpq(one + random.getrandbits(cls.mantissa_size), one))
+
     @classmethod
     @set_context
     def random(cls, allow_inf=True) -> 'FPVector':
         bias = (1 << (cls.exponent_size - 1)) - 1
         if allow_inf:
             sign = random.choice([-1, 1])
-            mantissa = gmpy2.mpfr_random(gmpy2.random_state()) + 1
+            mantissa = cls._random_significand()
             exp = random.randint(1-bias, bias+1)
-            return cls(mantissa*sign*(gmpy2.mpfr(2)**gmpy2.mpfr(exp)))
+            return cls(mantissa*sign*(gmpy2.mpfr(2)**exp))
         else:
             sign = random.choice([-1, 1])
-            mantissa = gmpy2.mpfr_random(gmpy2.random_state()) + 1
+            mantissa = cls._random_significand()
             exp = random.randint(1-bias, bias)
-            return cls(mantissa*sign*(gmpy2.mpfr(2)**gmpy2.mpfr(exp)))
+            return cls(mantissa*sign*(gmpy2.mpfr(2)**exp))
-- 
2.43.0


From fce63c90ab852bb86819ba3b172625e9e55dff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:58 +0000
Subject: [PATCH 15/26] fix: subclasses of FPVector formats could not be
 created

Binding a user subclass of FPVector whose bound base exists compared
gmpy2's trap_expbound, which current gmpy2 contexts do not have, and
raised AttributeError.
---
 hwtypes/fp_vector.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index 275d3aa..b6c4adb 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -123,7 +123,6 @@ class FPVector(AbstractFPVector):
                         or c_ctx.trap_inexact != ctx.trap_inexact
                         or c_ctx.trap_erange != ctx.trap_erange
                         or c_ctx.trap_divzero != ctx.trap_divzero
-                        or c_ctx.trap_expbound != ctx.trap_expbound
                         or c_ctx.allow_complex != ctx.allow_complex):
                     # this basically should never happen unless some one does
                     # class Foo(FPVector):
-- 
2.43.0


From 9d5456d5f49b03ea4d615e507f1e3015e5fa3fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:50 +0000
Subject: [PATCH 16/26] fix: class definitions differing in special attributes
 shared one type

Special attributes which are no functions (__slots__, __version__...) were
ignored as well when looking up cached definitions.
---
 hwtypes/adt_meta.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 5c51649..fd718af 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -30,10 +30,22 @@ def _is_descriptor(obj):
     return hasattr(obj, '__get__') or hasattr(obj, '__set__') or hasattr(obj, '__delete__')
 
 
-def _is_special_method(k, v):
-    # As opposed to bookkeeping (__module__, __doc__...). None as in __hash__ = None
-    return (_is_dunder(k) and (v is None or _is_descriptor(v))
-            and k not in {'__doc__', '__annotate__', '__annotate_func__'})
+# Special names which don't tell definitions apart
+BOOKKEEPING_NAMES = frozenset({
+    '__module__',
+    '__qualname__',
+    '__doc__',
+    '__annotations__',
+    '__annotate__',
+    '__annotate_func__',
+    '__conditional_annotations__',
+    '__classcell__',
+    '__classdictcell__',
+    '__firstlineno__',
+    '__static_attributes__',
+    '__type_params__',
+    '__orig_bases__',
+})
 
 
 def is_adt_type(t):
@@ -164,7 +176,12 @@ class _AttrSyntax(type): #, metaclass=ABCMeta):
                 ns_idx = set()
                 for k,v in ns.items():
                     # Values are tagged with their type as 1 == True == 1.0
-                    if not _is_dunder(k) or _is_special_method(k, v):
+                    if k in BOOKKEEPING_NAMES:
+                        continue
+                    elif _is_dunder(k) and not isinstance(v, tp.Hashable):
+                        # __slots__ = [...]
+                        ns_idx.add((k,type(v),repr(v)))
+                    else:
                         ns_idx.add((k,type(v),v))
 
                 fields_idx = ((k,type(v),v) for k,v in fields.items())
-- 
2.43.0


From 603b46b9d66f0dff5c3fbf0a95ed32f156b73736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:36 +0000
Subject: [PATCH 17/26] fix: fp_abs of negative zero kept its sign

---
 hwtypes/fp_vector.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index b6c4adb..6981a0c 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -138,8 +138,7 @@ class FPVector(AbstractFPVector):
 
     @set_context
     def fp_abs(self) -> 'FPVector':
-        v = self._value
-        return type(self)(v if v >= 0 else -v)
+        return type(self)(abs(self._value))
 
     @set_context
     def fp_neg(self) -> 'FPVector':
-- 
2.43.0


From 8a0861412d0275d831d525ace0728e385b66979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:53 +0000
Subject: [PATCH 18/26] fix: assigning to a slice of a Tuple corrupted it

---
 hwtypes/adt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 12ca702..8ae1f9c 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -46,7 +46,9 @@ class Tuple(metaclass=TupleMeta):
         return self._value_[idx]
 
     def __setitem__(self, idx, value):
-        if isinstance(value, type(self)[idx]):
+        if isinstance(idx, slice):
+            raise TypeError('Slice assignment is not supported')
+        elif isinstance(value, type(self)[idx]):
             v = list(self._value_)
             v[idx] = value
             self._value_ = tuple(v)
-- 
2.43.0


From 537cd7eae7596d5e0073e40b9f38f5f386ebfcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:02 +0000
Subject: [PATCH 19/26] fix: Sum item assignment accepted values its
 constructor rejects

---
 hwtypes/adt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 8ae1f9c..2f670cb 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -159,7 +159,7 @@ class Sum(metaclass=SumMeta):
     def __setitem__(self, T, value):
         if T not in type(self):
             raise TypeError(f'indices must be in {type(self).fields} not {T}')
-        elif not isinstance(value, T):
+        elif not isinstance(value, T) or type(value) not in type(self):
             raise TypeError(f'expected {T} not {type(value)}')
         else:
             self._value_ = value
-- 
2.43.0


From 1a033697f854b9898f3ffa343a510bfe09ce59d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:49 +0000
Subject: [PATCH 20/26] fix: reflected operators raised NameError when their
 operand could not be converted

---
 hwtypes/bit_vector.py     | 2 +-
 hwtypes/smt_bit_vector.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index 3e36aee..86370df 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -165,7 +165,7 @@ def dispatch_roper(method: Method):
     def roper(self, other):
         try:
             other = _coerce(type(self), other)
-        except inconsistentsizeerror as e:
+        except InconsistentSizeError as e:
             raise e from None
         except TypeError:
             return NotImplemented
diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index eb8d0ee..2ab0d2e 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -227,7 +227,7 @@ def dispatch_roper(method: Method):
     def roper(self, other):
         try:
             other = _coerce(type(self), other)
-        except inconsistentsizeerror as e:
+        except InconsistentSizeError as e:
             raise e from None
         except TypeError:
             return NotImplemented
-- 
2.43.0


From 494e3e822bb440b07a0ae7f12582b8e433957fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:33 +0000
Subject: [PATCH 21/26] fix: fp_min and fp_max of symbolic floats take two
 operands

Their functions were declared with one parameter, so every call raised.
---
 hwtypes/smt_fp_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index bf87938..9320ed0 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -20,8 +20,8 @@ _SIGS = [
     ('fp_sqrt', None, None,),
     ('fp_rem', None, None,None),
     ('fp_round_to_integral', None, None,),
-    ('fp_min', None, None,),
-    ('fp_max', None, None,),
+    ('fp_min', None, None, None,),
+    ('fp_max', None, None, None,),
     ('fp_leq', None, None, BOOL,),
     ('fp_lt', None, None, BOOL,),
     ('fp_geq', None, None, BOOL,),
-- 
2.43.0


From c885fb0bd77b921c373328fe71a9583c69e8765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:28 +0000
Subject: [PATCH 22/26] fix: rebinding a bound type without matching fields
 changed modified types

---
 hwtypes/adt_meta.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index fd718af..5b0f4b5 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -136,7 +136,11 @@ class _GetitemSyntax(type): #(metaclass=ABCMeta):
                 new_fields.append(T.rebind(A, B, rebind_sub_types))
             else:
                 new_fields.append(T)
-        return cls.unbound_t[cls._idx_from_fields(new_fields)]
+
+        if new_fields != list(cls.fields):
+            return cls.unbound_t[cls._idx_from_fields(new_fields)]
+        else:
+            return cls
 
     def _idx_from_fields(cls, fields):
         '''
-- 
2.43.0


From 296324ba5ad741a295d045ef80177530fe2ef459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:28 +0000
Subject: [PATCH 23/26] fix: base order of mixed-type choices depended on
 object addresses

---
 hwtypes/bit_vector_util.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hwtypes/bit_vector_util.py b/hwtypes/bit_vector_util.py
index 2545270..5ce9187 100644
--- a/hwtypes/bit_vector_util.py
+++ b/hwtypes/bit_vector_util.py
@@ -116,7 +116,9 @@ def _get_common_bases(T0, T1):
                 if not any(issubclass(bj, bi) for bj in bases if bi is not bj):
                     bases_.add(bi)
 
-            return tuple(bases_)
+            # sets are arbitrarily ordered, the order of bases must not be
+            mro = dict.fromkeys(T0.__mro__ + T1.__mro__)
+            return tuple(t for t in mro if t in bases_)
 
 class PolyVector(metaclass=PolyType):
     @classmethod
@@ -135,12 +137,12 @@ class PolyVector(metaclass=PolyType):
         bases = _get_common_bases(T0, T1)
 
         # get the unsized versions
-        bases_ = set()
+        bases_ = {}
         for base in bases:
             try:
-                bases_.add(base.unsized_t)
+                bases_[base.unsized_t] = None
             except AttributeError:
-                bases_.add(base)
+                bases_[base] = None
 
         return tuple(bases_)
 
-- 
2.43.0


From 915178584ec63236479e346b3a24523a6617082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:28 +0000
Subject: [PATCH 24/26] fix: choices between types of bits broke concurrent
 issubclass checks

---
 hwtypes/bit_vector_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector_util.py b/hwtypes/bit_vector_util.py
index 5ce9187..79c0469 100644
--- a/hwtypes/bit_vector_util.py
+++ b/hwtypes/bit_vector_util.py
@@ -84,7 +84,8 @@ class PolyType(type):
 
         attrs = d0.keys() & d1.keys()
         for k in attrs:
-            if k in {'_info_', '__int__', '__repr__', '__str__'}:
+            if k in {'_info_', '__int__', '__repr__', '__str__',
+                     '_abc_impl', '__abstractmethods__'}:
                 continue
 
             m0 = inspect.getattr_static(T0, k)
-- 
2.43.0


From 062dc379932c12a341126d333cca3b210c9bed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:03 +0000
Subject: [PATCH 25/26] fix: class definitions with keywords 1 and True shared
 one type

---
 hwtypes/adt_meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 5b0f4b5..f008c7b 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -199,7 +199,7 @@ class _AttrSyntax(type): #, metaclass=ABCMeta):
                         bases,
                         name,
                         frozenset(ns_idx),
-                        frozenset(kwargs.items()),)
+                        frozenset((k,type(v),v) for k,v in kwargs.items()),)
 
                 try:
                     return mcs._class_cache[cache_idx]
-- 
2.43.0


From 73f8159762663c98002b7af566aacd1f50880378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:15 +0000
Subject: [PATCH 26/26] fix: subclasses of different symbolic floating-point
 formats shared function names

A subclass of SMTFPVector[...] named its uninterpreted functions after its
class name only.  Two subclasses of one name shared them although their
formats differ, and were rejected by pysmt once the sizes differ (even if
the other class is long gone).
---
 hwtypes/smt_fp_vector.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 9320ed0..ccf508a 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -79,12 +79,22 @@ class SMTFPVector(AbstractFPVector):
             args = [T if x is None else x for x in args]
             rtype = args[-1]
             params = args[:-1]
-            name = '.'.join((cls.__name__, method_name))
+            name = cls._uf_name(method_name)
             ufs[method_name] = shortcuts.Symbol(name, FunctionType(rtype, params))
 
         ufs['to_sbv'] = dict()
         ufs['to_ubv'] = dict()
 
+    @classmethod
+    def _uf_name(cls, method_name):
+        name = cls.__name__
+        if cls._info_[0] is None:
+            # class inherited from a bound type so its name does not
+            # contain the format
+            eb, mb, mode, ieee_compliance = cls.binding
+            name = f'{name}[{eb},{mb},{mode},{ieee_compliance}]'
+        return '.'.join((name, method_name))
+
     @classmethod
     def _fp_method(cls, method_name, *args):
         uf = _uf_table[cls][method_name]
@@ -171,7 +181,7 @@ class SMTFPVector(AbstractFPVector):
         cls = type(self)
         ufs = _uf_table[cls]['to_ubv']
         if size not in ufs:
-            name = '.'.join((cls.__name__, f'to_ubv[{size}]'))
+            name = cls._uf_name(f'to_ubv[{size}]')
             ufs[size] = shortcuts.Symbol(
                 name,
                 FunctionType(BVType(size), (BVType(self.size),))
@@ -183,7 +193,7 @@ class SMTFPVector(AbstractFPVector):
         cls = type(self)
         ufs = _uf_table[cls]['to_sbv']
         if size not in ufs:
-            name = '.'.join((cls.__name__, f'to_sbv[{size}]'))
+            name = cls._uf_name(f'to_sbv[{size}]')
             ufs[size] = shortcuts.Symbol(
                 name,
                 FunctionType(BVType(size), (BVType(self.size),))
-- 
2.43.0

