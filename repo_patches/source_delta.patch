From 2797dc4ebf3ae1ca11a7304fb1b2d2c974851ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 01/85] fix: inserting an existing key into a full strict
 collection is not an overflow

Collection.insert raised CollectionCapacityError for a key that is already
stored, although the insert would not add an item; that made overwriting an
existing object in a full strict container impossible.
---
 citrine/storage/collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index d2d2e5e..df1e1d6 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -147,7 +147,9 @@ class Collection(Persistent):
         :raises CollectionCapacityError: if the size of the collection exceeds
         the limit in strict mode
         """
-        if self.size >= self.max_size and self.strict:
+        if (self.size >= self.max_size
+                and key not in self.keys()
+                and self.strict):
             raise CollectionCapacityError(
                 f'Cannot insert "{key}"; maximum size reached!'
             )
-- 
2.43.0


From 0ff5aaa864382f1d940108c9e827fbc3bdb98f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 02/85] fix: setdefault honours the capacity of a strict
 collection

---
 citrine/storage/collection.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index df1e1d6..358571c 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -194,7 +194,15 @@ class Collection(Persistent):
         :param key: id of item to write to
         :param value: the value to write, if applicable
         :return: existing value or provided value if no value currently exists
+        :raises CollectionCapacityError: if the key does not exist and the
+        collection is full in strict mode
         """
+        if (self.size >= self.max_size
+                and key not in self.keys()
+                and self.strict):
+            raise CollectionCapacityError(
+                f'Cannot set default for "{key}"; maximum size reached!'
+            )
         return self.tree.setdefault(key, value)
 
     def clear(self):
-- 
2.43.0


From c1d6b550287ddfee02b033a6716178318c5f32cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 03/85] fix: Group.new passes its strict argument on to the
 group

The group constructor resets the strictness of its collections, so a group
created with strict=True was not strict, and Container.resize silently turned
a strict container into one without limits.
---
 citrine/storage/group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index bff8d13..57b0e36 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -269,7 +269,7 @@ class Group(Persistent):
                 raise ValueError('Collection sizes cannot be less than 1')
             collections = tuple(Collection(max_size=max_collection_size)
                                 for _ in range(size))
-            return Group(collections=collections)
+            return Group(collections=collections, strict=strict)
         # ensure any gaps are filled if custom definition is provided
         keys = tuple(custom.keys())
         if any(not isinstance(key, int) for key in keys):
@@ -289,7 +289,7 @@ class Group(Persistent):
         collections = tuple(Collection(max_size=max_collection_size,
                                        strict=strict)
                             for _, max_collection_size in sorted(custom.items()))
-        return Group(collections=collections)
+        return Group(collections=collections, strict=strict)
 
     @groupfn
     def get(self, key, default=None):
-- 
2.43.0


From 93a88f2ebbb0a89fc887aae6e9b7e5fedc9873f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 04/85] fix: ContainerDb.create passes its strict argument on
 to the container

---
 citrine/database/containerdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 8e3386c..32f89fa 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -178,7 +178,7 @@ class ContainerDb(DB):
 
         :return: FileStorage object connecting back to the new ``ContainerDb``
         """
-        container = Container.new(capacity=capacity)
+        container = Container.new(capacity=capacity, strict=strict)
         storage = FileStorage(file_name, create=create, read_only=read_only,
                               stop=stop, quota=quota, pack_gc=pack_gc,
                               pack_keep_old=pack_keep_old, packer=packer,
-- 
2.43.0


From 32896e3b2888858975198b9c313f99ef859b1ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 05/85] fix: minKey, maxKey and popitem of a group tolerate
 empty collections

They raised ValueError as soon as any single collection of the group had no
applicable key, which is the normal state of a sparsely filled group.
---
 citrine/storage/group.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 57b0e36..f1df0a0 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -494,8 +494,16 @@ class Group(Persistent):
         :param max: highest key value to return
         :raise ValueError: if there are no keys in the collection
         """
-        return maximum(collection.maxKey(max)
-                       for collection in self.collections)
+        # collections without an applicable key do not have a say
+        keys = list()
+        for collection in self.collections:
+            try:
+                keys.append(collection.maxKey(max))
+            except ValueError:
+                continue
+        if not keys:
+            raise ValueError("no key satisfies the conditions")
+        return maximum(keys)
 
     def minKey(self, min=None):
         """
@@ -504,8 +512,16 @@ class Group(Persistent):
         :param max: lowest key value to return
         :raise ValueError: if there are no keys in the collection
         """
-        return minimum(collection.minKey(min)
-                       for collection in self.collections)
+        # collections without an applicable key do not have a say
+        keys = list()
+        for collection in self.collections:
+            try:
+                keys.append(collection.minKey(min))
+            except ValueError:
+                continue
+        if not keys:
+            raise ValueError("no key satisfies the conditions")
+        return minimum(keys)
 
     @groupfn
     def has_key(self, key):
-- 
2.43.0


From 13a097e6108dd5bed3848f4a787e839bf9b4003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 06/85] fix: group iterators no longer drop falsy keys and
 values

iterkeys and iteritems stopped at the first moment only the empty key was
pending, itervalues additionally lost None values, stopped when only falsy
values were pending and failed for values that cannot be sorted.
---
 citrine/storage/group.py | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index f1df0a0..adc1be2 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -392,7 +392,7 @@ class Group(Persistent):
                 vals.append(next(gen))
             except StopIteration:
                 vals.append(None)
-        while any(vals):
+        while any(v is not None for v in vals):
             # get the lowest value
             next_val = minimum((v for v in vals if v is not None))
             # replace the lowest value with the next value from the generator
@@ -417,23 +417,9 @@ class Group(Persistent):
         :param max: the highest value to return
         :return: generator of values
         """
-        gens = [collection.itervalues(min, max)
-                for collection in self.collections]
-        vals = list()
-        for gen in gens:
-            try:
-                vals.append(next(gen))
-            except StopIteration:
-                vals.append(None)
-        while any(vals):
-            # get the lowest value
-            next_val = minimum((v for v in vals if v is not None))
-            # replace the lowest value with the next value from the generator
-            try:
-                vals[vals.index(next_val)] = next(gens[vals.index(next_val)])
-            except StopIteration:
-                vals[vals.index(next_val)] = None
-            yield next_val
+        # follows the order of the keys; the values themselves do not need to
+        # be sortable (or truthy)
+        return (value for key, value in self.iteritems(min, max))
 
     def items(self):
         """
@@ -461,7 +447,7 @@ class Group(Persistent):
                 items[item[0]] = item[1]
             except StopIteration:
                 keys.append(None)
-        while any(keys):
+        while any(v is not None for v in keys):
             # get the lowest value
             next_key = minimum((v for v in keys if v is not None))
             # replace the lowest value with the next value from the generator
-- 
2.43.0


From b2259f03e9c76bf0c711f8eb046137e41bbfe965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 07/85] fix: a refused update of a strict group changes nothing

When one collection overflowed, the collections before it had already been
updated when CollectionCapacityError was raised.
---
 citrine/storage/group.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index adc1be2..b471b87 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -5,7 +5,7 @@ from uuid import uuid4
 
 from persistent import Persistent
 
-from citrine.storage.collection import Collection
+from citrine.storage.collection import Collection, CollectionCapacityError
 from citrine.storage.consts import DEFAULT_COLLECTION_SIZE
 
 minimum = min
@@ -332,6 +332,15 @@ class Group(Persistent):
             split_collection[get_group_index(key, num_collections)][key] = value
         split_collection = {k: v for k, v in split_collection.items() if v}
 
+        # refuse BEFORE changing anything if one of the collections would
+        # overflow, otherwise the update would be applied partially
+        for index, items in split_collection.items():
+            target = self.collections[index]
+            new_keys = [key for key in items if not target.has_key(key)]
+            if target.size + len(new_keys) > target.max_size and target.strict:
+                raise CollectionCapacityError(
+                    "Maximum size of a collection reached! Cannot perform update")
+
         for index, collection in split_collection.items():
             self.collections[index].update(collection)
 
-- 
2.43.0


From 54dc44711f83dce18905ff237df16c515839feaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 08/85] fix: reading a falsy stored value returns it instead of
 the default

---
 citrine/storage/container.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 4af595f..d06afd5 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -365,8 +365,9 @@ class Container(Persistent, ContainerProperties):
         :return: the desired object if it exists, or the default if provided
         """
         for group in self.groups:
-            if ret := group.get(id):
-                return ret
+            # a stored value may well be falsy
+            if group.has_key(id):
+                return group.get(id)
         return default
 
     def write(self, id, obj):
-- 
2.43.0


From 00f25aff404b18b7557ed86a5c3cb74c5538b0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 09/85] fix: deleting an object that is not in every group of a
 container

pop was called on every group as soon as any group held the id, which raised
KeyError after the object had been removed from the groups before it.
---
 citrine/storage/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index d06afd5..10a46ea 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -386,7 +386,8 @@ class Container(Persistent, ContainerProperties):
         :param id: identifier of the object
         :return: removed object
         """
-        return tuple(group.pop(id) for group in self.groups if self.has(id))
+        return tuple(group.pop(id) for group in self.groups
+                     if group.has_key(id))
 
     def __add__(self, other):
         """
-- 
2.43.0


From 0d0928b7e4356a27f1a9679a036e79e721b8981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 10/85] fix: condense does not lose the object a full primary
 group refuses

The object was popped from its old group before the insert into the primary,
so a capacity error in strict mode made it disappear from the container.
---
 citrine/storage/container.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 10a46ea..7b7109b 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -322,7 +322,11 @@ class Container(Persistent, ContainerProperties):
         source_groups = self.groups[1:]
 
         if transfer:
-            fn = lambda group, key: self.primary.insert(key, group.pop(key))
+            # the object must not leave its old group before the primary has
+            # accepted it, otherwise it is lost if the insert is refused
+            def fn(group, key):
+                self.primary.insert(key, group.get(key))
+                group.pop(key)
         else:
             fn = lambda group, key: self.primary.insert(key, group.get(key))
 
-- 
2.43.0


From b514815264e6292817043f470347f0afad1d921f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 11/85] fix: condense commits every move as an individual
 transaction

Only the first move was committed on its own: the transaction object was
committed again and again after it was finished, and all other moves ended up
in one transaction, so a failure discarded all of them.
---
 citrine/storage/container.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 7b7109b..a80336b 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -331,9 +331,11 @@ class Container(Persistent, ContainerProperties):
             fn = lambda group, key: self.primary.insert(key, group.get(key))
 
         if transaction_manager:
-            with transaction_manager as tm:
-                for group in source_groups:
-                    for key in list(group.keys()):
+            for group in source_groups:
+                for key in list(group.keys()):
+                    # the object behind ``tm`` is a single transaction, it
+                    # cannot be used again after it has been committed
+                    with transaction_manager as tm:
                         fn(group, key)
                         tm.commit()
         else:
-- 
2.43.0


From abae59dc935e5d36bd12c947cd2d515aed5a602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 12/85] fix: resize without condense keeps the other groups
 reachable

The other groups were set aside during the move. With a transaction manager
the truncated group list was committed, the restored one was not, and a
refused insert left the container without them, so all their objects were
lost. Now the groups simply stay where they are.
---
 citrine/storage/container.py | 37 ++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index a80336b..c18c56e 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -286,17 +286,13 @@ class Container(Persistent, ContainerProperties):
             self.___groups___ = (new_primary,) + self.groups
             self.___primary___ = new_primary
 
-        if condense:
-            removed = self.condense(transfer=transfer,
-                                    transaction_manager=transaction_manager)
-        else:
-            # if we only want to move over the data from the old primary,
-            # set aside all other groups, use condense, and put them back after
-            secondaries = self.groups[2:]
-            self.___groups___ = self.___groups___[:2]
-            removed = self.condense(transfer=transfer,
-                                    transaction_manager=transaction_manager)
-            self.___groups___ += secondaries
+        # if we only want to move over the data from the old primary, the other
+        # groups are not a source; they stay in the container all the time so
+        # their objects can always be reached
+        sources = self.groups[1:] if condense else self.groups[1:2]
+        removed = self.__condense_groups(
+            sources, transfer=transfer,
+            transaction_manager=transaction_manager)
         return removed
 
     def condense(self, transfer: bool = True, transaction_manager=None) \
@@ -319,8 +315,16 @@ class Container(Persistent, ContainerProperties):
         :param transaction_manager: transaction manager to use, if any
         :return: secondary groups removed from the container
         """
-        source_groups = self.groups[1:]
+        return self.__condense_groups(
+            self.groups[1:], transfer=transfer,
+            transaction_manager=transaction_manager)
 
+    def __condense_groups(self, source_groups, transfer: bool = True,
+                          transaction_manager=None) -> List[Group]:
+        """
+        Condenses the given groups of the container into the primary group,
+        see ``condense``
+        """
         if transfer:
             # the object must not leave its old group before the primary has
             # accepted it, otherwise it is lost if the insert is refused
@@ -344,14 +348,15 @@ class Container(Persistent, ContainerProperties):
                     fn(group, key)
 
         if transfer:
-            discarded = list(self.groups[1:])
+            remaining = tuple(group for group in self.groups
+                              if group not in source_groups)
             if transaction_manager:
                 with transaction_manager as tm:
-                    self.___groups___ = (self.groups[0],)
+                    self.___groups___ = remaining
                     tm.commit()
             else:
-                self.___groups___ = (self.groups[0],)
-            return discarded
+                self.___groups___ = remaining
+            return list(source_groups)
         return []
 
     def has(self, id) -> int:
-- 
2.43.0


From cb2e863d6d760369ba8dfe7e858e52e862ebc033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 13/85] fix: condense never treats the primary group as one of
 its sources

A container may be created with a primary that is not its first group. condense
then emptied the primary into itself and dropped it from the container, and
resize moved the contents of an arbitrary group.
---
 citrine/storage/container.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index c18c56e..3e9a3a5 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -277,6 +277,7 @@ class Container(Persistent, ContainerProperties):
         )
 
         # set the new group as the primary and makes the old primary a secondary
+        old_primary = self.primary
         if transaction_manager:
             with transaction_manager as tm:
                 self.___groups___ = (new_primary,) + self.groups
@@ -289,7 +290,7 @@ class Container(Persistent, ContainerProperties):
         # if we only want to move over the data from the old primary, the other
         # groups are not a source; they stay in the container all the time so
         # their objects can always be reached
-        sources = self.groups[1:] if condense else self.groups[1:2]
+        sources = self.groups[1:] if condense else (old_primary,)
         removed = self.__condense_groups(
             sources, transfer=transfer,
             transaction_manager=transaction_manager)
@@ -315,8 +316,11 @@ class Container(Persistent, ContainerProperties):
         :param transaction_manager: transaction manager to use, if any
         :return: secondary groups removed from the container
         """
+        # the primary does not have to be the first group of the container
+        secondaries = tuple(group for group in self.groups
+                            if group is not self.primary)
         return self.__condense_groups(
-            self.groups[1:], transfer=transfer,
+            secondaries, transfer=transfer,
             transaction_manager=transaction_manager)
 
     def __condense_groups(self, source_groups, transfer: bool = True,
-- 
2.43.0


From 84ace5179b599318ee0864767d084c7cc7ca8d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 14/85] fix: resize refuses a capacity below the number of
 stored objects

The documentation promises a ValueError, but the container was shrunk.
---
 citrine/storage/container.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 3e9a3a5..c50238f 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -262,6 +262,10 @@ class Container(Persistent, ContainerProperties):
         # Don't try to reinvent the wheel with a complex system, it will not
         # scale like the ugly if-else method does. Trust me, I tried.
 
+        if capacity < self.size:
+            raise ValueError(f'Cannot resize to {capacity}, container holds ' +
+                             f'{self.size} objects')
+
         # create a new group with a prime number of containers capable of
         # handling the capacity
         size = number_of_collections(
-- 
2.43.0


From 4ad3fc42e4d16315be1808e121098b8f1c4e6909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 15/85] fix: get_primes with a maximum generates the primes up
 to it

The comparison was inverted, the generator never produced anything.
---
 citrine/storage/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/storage/utils.py b/citrine/storage/utils.py
index 38e4dd9..907f1d2 100644
--- a/citrine/storage/utils.py
+++ b/citrine/storage/utils.py
@@ -23,7 +23,7 @@ def get_primes(min=1, max=None):
     :return: prime integers
     """
     val = min
-    while not max or val > max:
+    while not max or val <= max:
         if is_prime(val):
             yield val
         val += 1
-- 
2.43.0


From 8123aa553b7bfe347b4e0e50b710efd519acd7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 16/85] fix: opening an existing container database initialises
 it once

The database was initialised a second time even though nothing had failed. For
a path that meant opening (and locking) the file twice, so an existing
database could never be opened by its path.
---
 citrine/database/containerdb.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 32f89fa..caaaa1d 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -126,17 +126,17 @@ class ContainerDb(DB):
             conn.close()
             if not isinstance(storage, FileStorage):
                 db.close()
-        super().__init__(
-            storage=storage, pool_size=pool_size,
-            pool_timeout=pool_timeout, cache_size=cache_size,
-            cache_size_bytes=cache_size_bytes,
-            historical_pool_size=historical_pool_size,
-            historical_cache_size=historical_cache_size,
-            historical_cache_size_bytes=historical_cache_size_bytes,
-            historical_timeout=historical_timeout,
-            database_name=database_name, databases=databases,
-            xrefs=xrefs, large_record_size=large_record_size,
-            **storage_args)
+            super().__init__(
+                storage=storage, pool_size=pool_size,
+                pool_timeout=pool_timeout, cache_size=cache_size,
+                cache_size_bytes=cache_size_bytes,
+                historical_pool_size=historical_pool_size,
+                historical_cache_size=historical_cache_size,
+                historical_cache_size_bytes=historical_cache_size_bytes,
+                historical_timeout=historical_timeout,
+                database_name=database_name, databases=databases,
+                xrefs=xrefs, large_record_size=large_record_size,
+                **storage_args)
 
     @classmethod
     def create(cls, file_name: str, capacity: int = DEFAULT_CONTAINER_SIZE,
-- 
2.43.0


From fc8e3e990ba191ea08bd2104498d74368797993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 17/85] fix: container databases on new, non-file storages and
 closing new file databases

A new database without a storage (in memory) or with a storage object that
cannot be reopened failed to open, and closing a database that had just been
created from a path did not release its file lock.
---
 citrine/database/containerdb.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index caaaa1d..d716c75 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -1,6 +1,7 @@
 import ZODB
 from ZODB import DB
 from ZODB.FileStorage import FileStorage
+from ZODB.MappingStorage import MappingStorage
 from ZODB.POSException import POSKeyError
 
 from citrine.connection.container_connection import ContainerConnection
@@ -98,6 +99,9 @@ class ContainerDb(DB):
              storage constructor if a path name or None is passed as
              the storage argument.
         """
+        if storage is None:
+            storage = MappingStorage(**storage_args)
+            storage_args = {}
         try:
             super().__init__(
                 storage=storage, pool_size=pool_size,
@@ -112,9 +116,12 @@ class ContainerDb(DB):
                 **storage_args)
         except POSKeyError:
             # often happens if the db is newly created
-            if not isinstance(storage, FileStorage):
-                # closing if storage is FileStorage will make the db unopenable
+            if isinstance(storage, str):
+                # closing an existing storage object will make the db unopenable
                 self.close()
+                # closing disables ``close`` on the instance, which would leave
+                # the storage locked when the database is closed for real
+                self.__dict__.pop('close', None)
             db = DB(storage)
             conn = db.open()
             with conn.transaction_manager as tm:
@@ -124,7 +131,7 @@ class ContainerDb(DB):
                     conn.root.container = Container.new()
                     tm.commit()
             conn.close()
-            if not isinstance(storage, FileStorage):
+            if isinstance(storage, str):
                 db.close()
             super().__init__(
                 storage=storage, pool_size=pool_size,
-- 
2.43.0


From 64b9f8c376ad306cd1ee93a0c6bb8d8842c0dae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 18/85] fix: selecting several ids whose stored values are all
 falsy

The lookup raised KeyError although the objects exist.
---
 citrine/connection/container_connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/connection/container_connection.py b/citrine/connection/container_connection.py
index 145e4e6..d88131b 100644
--- a/citrine/connection/container_connection.py
+++ b/citrine/connection/container_connection.py
@@ -232,8 +232,9 @@ class ContainerConnection(Connection, ContainerConnectionProperties):
         if not isinstance(ids, Iterable):
             raise IndexError(f'index selector must be string or iterable of ' +
                              f'strings, not {ids}')
+        ids = list(ids)
         results = [self.container.read(id) for id in ids]
-        if not any(results):
+        if not any(self.container.has(id) for id in ids):
             raise KeyError(f'No values found for any of {ids}')
         return results
 
-- 
2.43.0


From 2cf8eaa5cb62997a98e70b717f39158788caf883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 19/85] fix: reading an id found in multiple databases raises

The CitrineDuplicateIdError was created but never raised, an arbitrary one of
the objects was returned instead.
---
 citrine/connection/group_connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index d490d38..7d096e2 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -41,7 +41,7 @@ class GroupReadConnection:
         if not results:
             return None
         if len(results) > 1 and not multiple:
-            CitrineDuplicateIdError(id)
+            raise CitrineDuplicateIdError(id)
         return results[0] if not multiple else results
 
     async def __read(self, id: str, timeout: timedelta = None,
-- 
2.43.0


From 693d67f8b98ed2e16fda8d84b2f9b496414ab1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 20/85] fix: reading all values of an id from multiple
 databases

---
 citrine/connection/group_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index 7d096e2..f168301 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -80,8 +80,8 @@ class GroupReadConnection:
             results = [res.result() for res in results
                        if res.result() is not None]
         else:
-            results = {key: val.results() for key, val in results.items()
-                       if val.results() is not None}
+            results = {key: val.result() for key, val in results.items()
+                       if val.result() is not None}
         return results
 
     async def __read_db(self, connection, id: str):
-- 
2.43.0


From 882486e557d7a22b6d177699e635e96940944e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 21/85] fix: reading from multiple databases with a timeout

Neither of the two context managers supports the synchronous protocol.
---
 citrine/connection/group_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index f168301..6087199 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -50,8 +50,8 @@ class GroupReadConnection:
         Reads from all connections and returns all located values.
         """
         if timeout:
-            with aiotimeout(timeout.seconds):
-                with TaskGroup() as tg:
+            async with aiotimeout(timeout.total_seconds()):
+                async with TaskGroup() as tg:
                     # if we're getting multiple back, it's good to give a link
                     # back to the relevant db
                     if multiple:
-- 
2.43.0


From bcfcdc8790e98c3690c83d60518f71523ce25da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 22/85] fix: connection arguments of a group override the
 defaults, not vice versa

---
 citrine/connection/group_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index 6087199..1d3e2a7 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -28,8 +28,8 @@ class GroupReadConnection:
         default = {'transaction_manager': transaction_manager}
         for db in dbs:
             connection_details = {
-                **connection_args.get(db.database_name, default),
-                **default
+                **default,
+                **connection_args.get(db.database_name, {})
             }
             self.connections += (db.open(**connection_details),)
 
-- 
2.43.0


From 0a52789ea28476dafa4cb7f34484f58f2d511c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 23/85] fix: expanding a DbContainer keeps its objects
 reachable

Objects stayed in their old container although the container an id is looked
up in depends on the number of containers.
---
 citrine/persistence.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index bdf47d6..b25bb6c 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -119,10 +119,15 @@ class DbContainer(Persistent):
             raise ValueError(f'Cannot expand from {self.containers_size} ' +
                              f'containers to {new_size} containers, new size ' +
                              f'must be larger than existing size')
+        items = [item for container in self.containers.values()
+                 for item in container.items()]
         self.containers = PersistentMapping({
-            key: self.containers.get(key, PersistentMapping())
-            for key in range(new_size)
+            key: PersistentMapping() for key in range(new_size)
         })
+        # the container of an object depends on the number of containers, so
+        # everything has to be put where it will be looked for
+        for id, obj in items:
+            self.write(id, obj)
 
     def has(self, id) -> bool:
         """
-- 
2.43.0


From 0eaac200e23309d85e961625e7a88ed77c99bb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 24/85] fix: a failed commit does not disable autocommit

If the commit at the end of a transaction raised, for example ConflictError,
autocommit stayed switched off and every later action of the connection was
silently never committed.
---
 citrine/persistence.py         | 21 ++++++++++-------
 citrine/storage/transaction.py | 42 +++++++++++++++++++++-------------
 2 files changed, 39 insertions(+), 24 deletions(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index b25bb6c..4ef0c3c 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -38,14 +38,19 @@ class CitrineTransactionManager(TransactionManager):
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.commit()
-            self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
-        else:
-            self.abort()
-            self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
-        self.transaction_uuid = None
+        try:
+            if exc_val is None:
+                self.commit()
+                self.logger.info(
+                    f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
+            else:
+                self.abort()
+                self.logger.error(
+                    f'TRANSACTION {self.transaction_uuid} FAILED')
+        finally:
+            # even if the commit fails, the next action must commit again
+            self.autocommit = True
+            self.transaction_uuid = None
 
 
 class CitrineThreadTransactionManager(ThreadTransactionManager):
diff --git a/citrine/storage/transaction.py b/citrine/storage/transaction.py
index a04a09f..6bc9081 100644
--- a/citrine/storage/transaction.py
+++ b/citrine/storage/transaction.py
@@ -28,14 +28,19 @@ class TransactionManager(ZoTransactionManager):
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.commit()
-            self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
-        else:
-            self.abort()
-            self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
-        self.transaction_uuid = None
+        try:
+            if exc_val is None:
+                self.commit()
+                self.logger.info(
+                    f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
+            else:
+                self.abort()
+                self.logger.error(
+                    f'TRANSACTION {self.transaction_uuid} FAILED')
+        finally:
+            # even if the commit fails, the next action must commit again
+            self.autocommit = True
+            self.transaction_uuid = None
 
 
 class ThreadTransactionManager(ZoThreadTransactionManager):
@@ -57,14 +62,19 @@ class ThreadTransactionManager(ZoThreadTransactionManager):
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.commit()
-            self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
-        else:
-            self.abort()
-            self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
-        self.transaction_uuid = None
+        try:
+            if exc_val is None:
+                self.commit()
+                self.logger.info(
+                    f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
+            else:
+                self.abort()
+                self.logger.error(
+                    f'TRANSACTION {self.transaction_uuid} FAILED')
+        finally:
+            # even if the commit fails, the next action must commit again
+            self.autocommit = True
+            self.transaction_uuid = None
 
 
 def autocommit(fn):
-- 
2.43.0


From 2e867bc7cc26c4b0e25cb04fcf15390dd08a804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 25/85] fix: a strict update that only overwrites is never an
 overflow

---
 citrine/storage/collection.py | 4 +++-
 citrine/storage/group.py      | 9 ++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index 358571c..35a16a6 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -163,7 +163,9 @@ class Collection(Persistent):
         inserted will exceed the limit in strict mode
         """
         new_keys = [key for key in collection.keys() if key not in self.keys()]
-        if self.size + len(new_keys) > self.max_size and self.strict:
+        # overwriting is always possible, even if the collection is overfull
+        if (new_keys and self.size + len(new_keys) > self.max_size
+                and self.strict):
             raise CollectionCapacityError(
                 f'Cannot update collection; maximum size reached!'
             )
diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index b471b87..e64fdcc 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -322,8 +322,10 @@ class Group(Persistent):
         :raises CollectionCapacityError: if the size of the new keys to be
         inserted will exceed the limit in strict mode
         """
-        new_keys = (key for key in collection.keys() if key not in self.keys())
-        if len(tuple(new_keys)) + self.size > self.max_size and self.strict:
+        new_keys = [key for key in collection.keys() if not self.has_key(key)]
+        # overwriting is always possible, even if the group is overfull
+        if (new_keys and len(new_keys) + self.size > self.max_size
+                and self.strict):
             raise GroupCapacityError("Maximum size reached! Cannot perform update")
 
         num_collections = len(self.collections)
@@ -337,7 +339,8 @@ class Group(Persistent):
         for index, items in split_collection.items():
             target = self.collections[index]
             new_keys = [key for key in items if not target.has_key(key)]
-            if target.size + len(new_keys) > target.max_size and target.strict:
+            if (new_keys and target.strict
+                    and target.size + len(new_keys) > target.max_size):
                 raise CollectionCapacityError(
                     "Maximum size of a collection reached! Cannot perform update")
 
-- 
2.43.0


From 5b4fae9ef6e9f000316af5c69a8e75fcf9d9fde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 26/85] fix: setdefault honours the total capacity of a strict
 group

---
 citrine/storage/group.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index e64fdcc..56782eb 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -372,7 +372,13 @@ class Group(Persistent):
         :param key: id of item to write to
         :param value: the value to write, if applicable
         :return: existing value or provided value if no value currently exists
+        :raises GroupCapacityError: if the key does not exist and the group is
+        full in strict mode
         """
+        if (self.size >= self.max_size
+                and not self.has_key(key)
+                and self.strict):
+            raise GroupCapacityError("Maximum size reached! Cannot set default")
         return Collection.setdefault
 
     def clear(self):
-- 
2.43.0


From bb2461013a081419c83048fba932998eca5ab88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 27/85] fix: condense skips an object another connection
 deleted meanwhile

---
 citrine/storage/container.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index c50238f..d3a844a 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -336,11 +336,17 @@ class Container(Persistent, ContainerProperties):
         if transfer:
             # the object must not leave its old group before the primary has
             # accepted it, otherwise it is lost if the insert is refused
-            def fn(group, key):
+            def move(group, key):
                 self.primary.insert(key, group.get(key))
                 group.pop(key)
         else:
-            fn = lambda group, key: self.primary.insert(key, group.get(key))
+            move = lambda group, key: self.primary.insert(key, group.get(key))
+
+        def fn(group, key):
+            # between two transactions another connection may have deleted the
+            # object, which must neither fail nor store it again
+            if group.has_key(key):
+                move(group, key)
 
         if transaction_manager:
             for group in source_groups:
-- 
2.43.0


From 75c1919d58a5697f1b664fa399a2fb8be5034a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 28/85] fix: concurrent connections do not overfill a strict
 collection

---
 citrine/storage/collection.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index 35a16a6..5f14c52 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -131,6 +131,15 @@ class Collection(Persistent):
             strict=strict
         )
 
+    def __guard_capacity(self, *keys):
+        """
+        Lets concurrent additions to a strict collection conflict. The database
+        would merge them otherwise, as they affect different keys, and together
+        they could exceed the maximum size.
+        """
+        if self.strict and any(not self.tree.has_key(key) for key in keys):
+            self._p_changed = True
+
     def get(self, key, default=None):
         """
         Retrieve a value from the collection.
@@ -153,6 +162,7 @@ class Collection(Persistent):
             raise CollectionCapacityError(
                 f'Cannot insert "{key}"; maximum size reached!'
             )
+        self.__guard_capacity(key)
         return self.tree.insert(key, value)
 
     def update(self, collection):
@@ -169,6 +179,7 @@ class Collection(Persistent):
             raise CollectionCapacityError(
                 f'Cannot update collection; maximum size reached!'
             )
+        self.__guard_capacity(*new_keys)
         return self.tree.update(collection)
 
     def pop(self, key, default=None):
@@ -205,6 +216,7 @@ class Collection(Persistent):
             raise CollectionCapacityError(
                 f'Cannot set default for "{key}"; maximum size reached!'
             )
+        self.__guard_capacity(key)
         return self.tree.setdefault(key, value)
 
     def clear(self):
-- 
2.43.0


From 1fd78122b66e7eb79b45d859587160528713715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 29/85] fix: nested and concurrent blocks of a database each
 close their own connection

---
 citrine/database/containerdb.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index d716c75..18e7719 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -1,3 +1,5 @@
+from threading import local
+
 import ZODB
 from ZODB import DB
 from ZODB.FileStorage import FileStorage
@@ -99,6 +101,7 @@ class ContainerDb(DB):
              storage constructor if a path name or None is passed as
              the storage argument.
         """
+        self.__context_manager = local()
         if storage is None:
             storage = MappingStorage(**storage_args)
             storage_args = {}
@@ -389,8 +392,12 @@ class ContainerDb(DB):
         context management process
         :return: connection object
         """
-        self.__context_manager_connection = self.open()
-        return self.__context_manager_connection
+        connection = self.open()
+        # blocks can be nested, and other threads have their own
+        if not hasattr(self.__context_manager, 'connections'):
+            self.__context_manager.connections = []
+        self.__context_manager.connections.append(connection)
+        return connection
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self.__context_manager_connection.close()
+        self.__context_manager.connections.pop().close()
-- 
2.43.0


From dd0aac27853b23599ac57c85da07f5752a494950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 30/85] fix: autocommit of a connection is what its transaction
 manager does

---
 citrine/connection/container_connection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/citrine/connection/container_connection.py b/citrine/connection/container_connection.py
index d88131b..d79d394 100644
--- a/citrine/connection/container_connection.py
+++ b/citrine/connection/container_connection.py
@@ -133,7 +133,10 @@ class ContainerConnectionProperties:
         Whether to automatically commit actions performed by ``create``,
         ``update``, and ``delete``
         """
-        return self.___autocommit___
+        # the transaction manager decides, and connections of a pool get a new
+        # one every time they are opened
+        return getattr(self.transaction_manager, 'autocommit',
+                       self.___autocommit___)
 
     @autocommit.setter
     def autocommit(self, value):
@@ -160,6 +163,8 @@ class ContainerConnection(Connection, ContainerConnectionProperties):
         self.transaction_manager = (transaction_manager or
                                     ThreadTransactionManager())
         self.open(self.transaction_manager)
+        if not autocommit:
+            self.transaction_manager.autocommit = False
 
         self.___root___ = self.root
 
-- 
2.43.0


From bc6478e51590eda2c8271d643dc610ceca003917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 31/85] fix: a client honours strict when it creates the
 container

---
 citrine/client/container_client.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/citrine/client/container_client.py b/citrine/client/container_client.py
index 058e180..2fbc7c6 100644
--- a/citrine/client/container_client.py
+++ b/citrine/client/container_client.py
@@ -13,6 +13,7 @@ from citrine.connection.container_connection import ContainerConnection
 from citrine.database.containerdb import ContainerDb
 from citrine.storage.consts import DEFAULT_CONTAINER_SIZE
 from citrine.storage.container import Container
+from citrine.storage.transaction import TransactionManager
 
 MB = 1024**2
 
@@ -179,8 +180,16 @@ class ContainerClient(ContainerDb):
             # For tests:
             _client_factory=_client_factory)
 
+        # A new storage gets its container before the ContainerDb is opened,
+        # which would otherwise create a default one
+        connection = DB(client).open(transaction_manager=TransactionManager())
+        if not getattr(connection.root, 'container', None):
+            with connection.transaction_manager:
+                connection.root.container = Container.new(strict=strict)
+        connection.close()
+
         # Link to a local ContainerDb
-        client = cls.load(client, pool_size=pool_size,
+        return cls.load(client, pool_size=pool_size,
             pool_timeout=pool_timeout, cache_size=cache_size,
             cache_size_bytes=cache_size_bytes,
             historical_pool_size=historical_pool_size,
@@ -189,11 +198,3 @@ class ContainerClient(ContainerDb):
             historical_timeout=historical_timeout, database_name=database_name,
             databases=databases, xrefs=xrefs,
             large_record_size=large_record_size)
-
-        # If not connection.container and create==True, create a new Container
-        with client as connection:
-            if not getattr(connection.root, 'container', None):
-                with connection.transaction_manager as tm:
-                    connection.root.container = Container.new(strict=strict)
-                    tm.commit()
-        return client
-- 
2.43.0


From 66ab7283b534ee714ce11f366021780ef4ac6f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 32/85] fix: creating a module with overwrite replaces the
 existing one

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 661010b..7f2c3a1 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -30,7 +30,10 @@ def create_dbmodule(path: str = '.', name: str = None, discoverable: bool = True
     path = join(path, name)
     if not overwrite and exists(path):
         raise IOError(f'DbModule already exists at "{path}"')
-    mkdir(path)
+    if exists(path):
+        delete_dbmodule(path, remove_empty=False)
+    else:
+        mkdir(path)
     init_path = join(path, '__init__.py')
     with open(init_path, 'w') as writer:
         if discoverable:
-- 
2.43.0


From 2b97e8b3fed1ecb829276fc59005e3144a1ce202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 33/85] fix: overwrite of a created module is not taken for its
 discoverability

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 7f2c3a1..c0c32f2 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -178,7 +178,7 @@ class DbModule:
 
         The provided name will be given to the newly created database
         """
-        module_path = create_dbmodule(path, name, overwrite)
+        module_path = create_dbmodule(path, name, overwrite=overwrite)
         return DbModule(module_path)
 
     @classmethod
-- 
2.43.0


From 7a77cdc92f71c642ed6e33a27403745090abe3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 34/85] fix: deleting a module by a path with a trailing
 separator keeps other files

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index c0c32f2..c5ade43 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -5,7 +5,7 @@ citrine.cluster.DbModule object.
 from uuid import uuid4
 
 from os import mkdir, listdir, rmdir, remove
-from os.path import join, exists, split, isfile
+from os.path import abspath, join, exists, split, isfile
 from shutil import rmtree
 from persistent import Persistent
 from persistent.mapping import PersistentMapping
@@ -58,7 +58,8 @@ def delete_dbmodule(path: str, remove_empty: bool = True,
     if remove_all:
         rmtree(path)
         return
-    name = split(path)[1]
+    # the name must not be empty if the path ends with a separator
+    name = split(abspath(path))[1]
     affected = [join(path, file) for file in listdir(path)
                 if (isfile(join(path, file)) and file.startswith(name))
                     or file == '__init__.py']
-- 
2.43.0


From 366bb927ae8305fb2f0696181fa04c2bc60298ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 35/85] fix: deleting a module keeps files whose names only
 begin like its own

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index c5ade43..70716c9 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -61,8 +61,9 @@ def delete_dbmodule(path: str, remove_empty: bool = True,
     # the name must not be empty if the path ends with a separator
     name = split(abspath(path))[1]
     affected = [join(path, file) for file in listdir(path)
-                if (isfile(join(path, file)) and file.startswith(name))
-                    or file == '__init__.py']
+                if file == '__init__.py'
+                    or (isfile(join(path, file))
+                        and (file == name or file.startswith(f'{name}.')))]
     for file in affected:
         remove(file)
     if remove_empty and not len(listdir(path)):
-- 
2.43.0


From 7fb892a7bf1a6630114d587cc2361cecf2fe7992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 36/85] fix: a destroyed module is no longer part of its group

---
 citrine/cluster_tools/dbmodule/dbgroup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/citrine/cluster_tools/dbmodule/dbgroup.py b/citrine/cluster_tools/dbmodule/dbgroup.py
index d0933e8..b13ebda 100644
--- a/citrine/cluster_tools/dbmodule/dbgroup.py
+++ b/citrine/cluster_tools/dbmodule/dbgroup.py
@@ -77,6 +77,7 @@ class DbGroup:
         :param name: The name of the database to be destroyed
         """
         DbModule.destroy(join(self.root, name))
+        self.modules.pop(name, None)
 
     @staticmethod
     def discover(root):
-- 
2.43.0


From 2106cbdac034ff4326306c9969590dfd83ee5b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 37/85] fix: a registry created from a dict stores later
 changes

---
 citrine/cluster_tools/clusterdb/container.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/clusterdb/container.py b/citrine/cluster_tools/clusterdb/container.py
index 245fac2..33cb8ca 100644
--- a/citrine/cluster_tools/clusterdb/container.py
+++ b/citrine/cluster_tools/clusterdb/container.py
@@ -40,7 +40,9 @@ class ClusterRegistryContainer(Persistent):
 
     def __init__(self, modules: dict | PersistentMapping = None):
         super().__init__()
-        self.modules = modules if modules else PersistentMapping()
+        # changes of a plain dict would not be stored
+        self.modules = modules if isinstance(modules, PersistentMapping) \
+            else PersistentMapping(modules or {})
 
     def has(self, id) -> bool:
         """
-- 
2.43.0


From cd83060d72a7f47889e46582ae743628646f4569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 38/85] fix: a legacy container created from dicts stores later
 changes

---
 citrine/persistence.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index 4ef0c3c..e47d398 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -116,8 +116,12 @@ class DbContainer(Persistent):
     def __init__(self, containers: dict | PersistentMapping = None):
         super().__init__()
         # Containers will be stored as a PM of PMs
-        self.containers = containers if containers is not None else \
-            PersistentMapping({0: PersistentMapping()})
+        if containers is None:
+            containers = {0: PersistentMapping()}
+        # changes of plain dicts would not be stored
+        self.containers = PersistentMapping({
+            key: con if isinstance(con, PersistentMapping)
+            else PersistentMapping(con) for key, con in containers.items()})
 
     def expand_size(self, new_size: int):
         if new_size <= self.containers_size:
-- 
2.43.0


From 12ce61fda0fc932d83953c8c868c7fea05387db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:51 +0000
Subject: [PATCH 39/85] fix: properties after Object accept objects, not only
 links

The class of the object property shadows the model of the same name, so that
while the module is loaded every later property validated against a property
class that no value is ever an instance of.
---
 activitystreams/properties.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index e6e3257..b0aa96a 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -16,6 +16,7 @@ from jsonld.tools import is_activity_datetime, \
 from jsonld.tools import is_nonnegative
 from jsonld.tools import SetterValidator
 
+from activitystreams import models
 from activitystreams.models import Object, Link, Collection, \
     CollectionPage, ACTIVITYSTREAMS_NS
 
@@ -691,7 +692,7 @@ class Object(ActivityStreamsProperty):
 
     @object.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def object(self, val):
         self.___object___ = val
 
@@ -735,7 +736,7 @@ class Preview(ActivityStreamsProperty):
 
     @preview.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def preview(self, val):
         self.___preview___ = val
 
@@ -759,7 +760,7 @@ class Result(ActivityStreamsProperty):
 
     @result.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def result(self, val):
         self.___result___ = val
 
@@ -807,7 +808,7 @@ class Tag(ActivityStreamsProperty):
 
     @tag.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link, dict)).check
+    @SetterValidator(types=(models.Object, Link, dict)).check
     def tag(self, val):
         self.___tag___ = val
 
@@ -834,7 +835,7 @@ class Target(ActivityStreamsProperty):
 
     @target.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def target(self, val):
         self.___target___ = val
 
@@ -857,7 +858,7 @@ class To(ActivityStreamsProperty):
 
     @to.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def to(self, val):
         self.___to___ = val
 
@@ -1340,7 +1341,7 @@ class Subject(ActivityStreamsProperty):
 
     @subject.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link), functional=True).check
+    @SetterValidator(types=(models.Object, Link), functional=True).check
     def subject(self, val):
         self.___subject___ = val
 
@@ -1356,7 +1357,7 @@ class Relationship(ActivityStreamsProperty):
         return getattr(self, '___relationship___', None)
 
     @relationship.setter
-    @SetterValidator(types=(Object, str)).check
+    @SetterValidator(types=(models.Object, str)).check
     def relationship(self, val):
         self.___relationship___ = val
 
@@ -1372,7 +1373,7 @@ class Describes(ActivityStreamsProperty):
         return getattr(self, '___describes___', None)
 
     @describes.setter
-    @SetterValidator(types=(Object,), functional=True).check
+    @SetterValidator(types=(models.Object,), functional=True).check
     def describes(self, val):
         self.___describes___ = val
 
@@ -1388,7 +1389,7 @@ class FormerType(ActivityStreamsProperty):
         return getattr(self, '___formerType___', None)
 
     @formerType.setter
-    @SetterValidator(types=(Object,)).check
+    @SetterValidator(types=(models.Object,)).check
     def formerType(self, val):
         self.___formerType___ = val
 
-- 
2.43.0


From e21b858e5a0ac00d222ba9c0c31461932083de71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:51 +0000
Subject: [PATCH 40/85] fix: hreflang of a link is kept

---
 activitystreams/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index b0aa96a..8696f92 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -1027,7 +1027,7 @@ class HrefLang(ActivityStreamsProperty):
     @hreflang.setter
     @SetterValidator(types=(str,), functional=True).check
     def hreflang(self, val):
-        self.__hrefLang = val
+        self.___hreflang___ = val
 
 
 class PartOf(ActivityStreamsProperty):
-- 
2.43.0


From 9869f8b2f1e45d71112d32261a9e6af8aa852e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 41/85] fix: a collection keeps the items it is created with

---
 activitystreams/models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 0412f1c..a9ff751 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -352,7 +352,8 @@ class Collection(Object):
         self.last = last
         # some inheritors may override this with more specific orderings,
         # they should be given precedence
-        self.items = getattr(self, 'items', items)
+        inherited = getattr(self, 'items', None)
+        self.items = items if inherited is None else inherited
 
         # supplied value takes priority, followed by size of items if they are
         # sizeable, defaulting to 0 if not
@@ -473,7 +474,7 @@ class OrderedCollectionPage(OrderedCollection, CollectionPage):
                                 cc=cc, bcc=bcc, mediaType=mediaType,
                                 duration=duration, totalItems=totalItems,
                                 current=current, first=first, last=last,
-                                partOf=partOf, next=next, prev=prev,
+                                items=items, partOf=partOf, next=next, prev=prev,
                                 acontext=acontext)
         self.startIndex = startIndex if startIndex else 0
 
-- 
2.43.0


From bc49b90ddd0e6aa31efe0e53387eddbd4e0ee09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 42/85] fix: totalItems of a collection is what is given, or
 counts its items

A given 0 was replaced and ordered items were never counted.
---
 activitystreams/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index a9ff751..46011cd 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -357,7 +357,7 @@ class Collection(Object):
 
         # supplied value takes priority, followed by size of items if they are
         # sizeable, defaulting to 0 if not
-        self.totalItems = totalItems if totalItems else (
+        self.totalItems = totalItems if totalItems is not None else (
             0 if not isinstance(self.items, Sized) else len(self.items)
         )
 
@@ -398,6 +398,8 @@ class OrderedCollection(Collection):
                          current=current, first=first, last=last,
                          acontext=acontext, **kwargs)
         self.orderedItems = orderedItems
+        if totalItems is None and isinstance(orderedItems, Sized):
+            self.totalItems = len(orderedItems)
 
 
 class CollectionPage(Collection):
-- 
2.43.0


From 7b874f69d2064605f276ad47730d1d51214af79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 43/85] fix: booleans and None are written as such, not as text

---
 jsonld/jsonld.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 447b9a7..1582c36 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -46,6 +46,8 @@ class PropertyJsonLD(PropertyAwareObject):
         str: lambda val, *args, **kwargs: val,
         int: lambda val, *args, **kwargs: val,
         float: lambda val, *args, **kwargs: val,
+        bool: lambda val, *args, **kwargs: val,
+        type(None): lambda val, *args, **kwargs: val,
         list: lambda val, fn, *args, **kwargs: [fn(item) for item in val],
         set: lambda val, fn, *args, **kwargs: [fn(item) for item in val],
         tuple: lambda val, fn, *args, **kwargs: [fn(item) for item in val],
-- 
2.43.0


From 63efc4ed74c6cc751335f7a1c114f11e508d5e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 44/85] fix: an embedded object keeps properties whose name is
 part of 'acontext'

---
 jsonld/jsonld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 1582c36..83d9a77 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -57,7 +57,7 @@ class PropertyJsonLD(PropertyAwareObject):
 
     def __handler(self, value):
         if isinstance(value, PropertyJsonLD):
-            return value.data(exclude='acontext')
+            return value.data(exclude=('acontext',))
         if type(value) in self.__data_handler_fns.keys():
             return self.__data_handler_fns[type(value)](value, self.__handler)
         if isinstance(value, Iterable):
-- 
2.43.0


From f073d6717744b1f1a29968d2e5a63fd8ed742612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 45/85] fix: objects have the context property of the
 vocabulary

---
 activitystreams/package.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/activitystreams/package.py b/activitystreams/package.py
index 79acb17..00856d9 100644
--- a/activitystreams/package.py
+++ b/activitystreams/package.py
@@ -134,6 +134,7 @@ property_mapping = {
                                         properties.AttributedTo.__get_namespace__(),
                                         properties.Audience.__get_namespace__(),
                                         properties.Content.__get_namespace__(),
+                                        properties.Context.__get_namespace__(),
                                         properties.Name.__get_namespace__(),
                                         properties.EndTime.__get_namespace__(),
                                         properties.Generator.__get_namespace__(),
-- 
2.43.0


From 5b38a91a4edeb8a3998417e665247cea58a215e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 46/85] fix: data of type Object or Link can be loaded

The namespace of their packaged classes contained a property instead of the
name of the type, and the type was not passed on to it.
---
 activitystreams/models.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 46011cd..af9db9c 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -42,7 +42,9 @@ class Object(ApplicationActivityJson):
     @classmethod
     def __get_namespace__(cls):
         # provides namespacing logic for ALL derived children
-        return f'{ACTIVITYSTREAMS_NS}#{cls.type}'
+        # (the type of a packaged class may be a property instead of its name)
+        name = cls.type if isinstance(cls.type, str) else cls.__name__
+        return f'{ACTIVITYSTREAMS_NS}#{name}'
 
     def __init__(self, id=None, type=None, attachment=None, attributedTo=None,
                  audience=None, content=None, context=None, name=None,
@@ -55,7 +57,7 @@ class Object(ApplicationActivityJson):
                  **kwargs):
         ApplicationActivityJson.__init__(self, acontext=acontext)
         self.id = id
-        self.type = getattr(self, 'type', type)
+        self.type = getattr(self, 'type', None) or type
         self.attachment = attachment
         self.attributedTo = attributedTo
         self.audience = audience
@@ -99,7 +101,9 @@ class Link(ApplicationActivityJson):
     @classmethod
     def __get_namespace__(cls):
         # provides namespacing logic for ALL derived children
-        return f'{ACTIVITYSTREAMS_NS}#{cls.type}'
+        # (the type of a packaged class may be a property instead of its name)
+        name = cls.type if isinstance(cls.type, str) else cls.__name__
+        return f'{ACTIVITYSTREAMS_NS}#{name}'
 
     def __init__(self, href=None, rel=None, mediaType=None, name=None,
                  hreflang=None, height=None, width=None, preview=None,
@@ -119,7 +123,7 @@ class Link(ApplicationActivityJson):
         self.width = width
         self.preview = preview
         self.context = context
-        self.type = getattr(self, 'type', type)
+        self.type = getattr(self, 'type', None) or type
 
     @classmethod
     def get(cls, data, *args, **kwargs):
-- 
2.43.0


From c5dcf9244323e59036d79101974c70211be76112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 47/85] fix: a link keeps the id it is created with

---
 activitystreams/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index af9db9c..17dc922 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -108,12 +108,13 @@ class Link(ApplicationActivityJson):
     def __init__(self, href=None, rel=None, mediaType=None, name=None,
                  hreflang=None, height=None, width=None, preview=None,
                  context=None, type=None,
-                 acontext=ACTIVITYSTREAMS_NS,
+                 acontext=ACTIVITYSTREAMS_NS, id=None,
                  **kwargs):
         # grants the ability to access all @property objects associated with the
         # model via __properties__ on instantiated objects and
         # __get_properties__ on classes
         ApplicationActivityJson.__init__(self, acontext=acontext)
+        self.id = id
         self.href = href
         self.rel = rel
         self.mediaType = mediaType
-- 
2.43.0


From b9d92cf95f65de58034902948928d8c159e13923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 48/85] fix: the time of deletion of a tombstone can be loaded
 from text

---
 activitystreams/properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index 8696f92..12aaa9d 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -1412,7 +1412,7 @@ class Deleted(ActivityStreamsProperty):
         return val
 
     @deleted.setter
-    @SetterValidator(types=(datetime,), functional=True,
+    @SetterValidator(types=(datetime, str), functional=True,
                      additional=(is_activity_datetime,)).check
     def deleted(self, val):
-        self.___deleted___ = val
+        self.___deleted___ = parse_activitystream_datetime(val)
-- 
2.43.0


From 5b9e14d4d35c60097fcc6f6e893ad69d8cdb2fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 49/85] fix: a tombstone keeps the former type it is created
 with

---
 activitystreams/models.py     | 5 +++--
 activitystreams/properties.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 17dc922..1aeb3ab 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -925,9 +925,10 @@ class Tombstone(Object):
     """
     type = "Tombstone"
 
-    def __init__(self, id, former_type=None, deleted=None, **kwargs):
+    def __init__(self, id, former_type=None, deleted=None, formerType=None,
+                 **kwargs):
         super().__init__(id, **kwargs)
-        self.former_type = former_type
+        self.formerType = former_type if formerType is None else formerType
         self.deleted = deleted
 
 
diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index 12aaa9d..efe2543 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -1389,7 +1389,7 @@ class FormerType(ActivityStreamsProperty):
         return getattr(self, '___formerType___', None)
 
     @formerType.setter
-    @SetterValidator(types=(models.Object,)).check
+    @SetterValidator(types=(models.Object, str)).check
     def formerType(self, val):
         self.___formerType___ = val
 
-- 
2.43.0


From c2c964faeb31fa02252585679dd2127128c5824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 50/85] fix: the time a question was closed can be loaded from
 text

---
 activitystreams/properties.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index efe2543..5c7e20b 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -597,6 +597,12 @@ class AnyOf(ActivityStreamsProperty):
         self.___anyOf___ = val
 
 
+def is_closed_datetime(val, **kwargs):
+    # only texts have a format to check
+    if isinstance(val, str):
+        is_activity_datetime(val, **kwargs)
+
+
 class Closed(ActivityStreamsProperty):
     """
     Indicates that a question has been closed, and answers are no longer
@@ -618,9 +624,11 @@ class Closed(ActivityStreamsProperty):
 
     @closed.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link, datetime, bool)).check
+    @SetterValidator(types=(Object, Link, datetime, bool, str),
+                     additional=(is_closed_datetime,)).check
     def closed(self, val):
-        self.___closed___ = val
+        self.___closed___ = parse_activitystream_datetime(val) \
+            if isinstance(val, str) else val
 
 
 class Origin(ActivityStreamsProperty):
-- 
2.43.0


From ff079e3700933a0327e0b888ec722329658de4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 51/85] fix: data of an unknown type is refused with the
 intended error

---
 jsonld/engine/json_input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonld/engine/json_input.py b/jsonld/engine/json_input.py
index a8714a5..13aba4e 100644
--- a/jsonld/engine/json_input.py
+++ b/jsonld/engine/json_input.py
@@ -62,8 +62,6 @@ class PropertyJsonIntake:
 
         # gets the class for the object that needs to be created from the
         object_class = self.class_registry.get(class_type)
-        if not object_class:
-            ValueError(f'Provided data has invalid or missing "@type"')
         return object_class
 
     def _unpack_objects(self, data, context):
@@ -112,6 +110,8 @@ class PropertyJsonIntake:
             logger.debug(f"No '@context' provided, using '{DEFAULT_CONTEXT}'")
             data.update({'@context': DEFAULT_CONTEXT})
         object_class = self._get_object_class(data)
+        if not object_class:
+            raise ValueError(f'Provided data has invalid or missing "@type"')
 
         # only include values from the json that are properties of the class
         # unpack data structures and populate None values where appropriate
-- 
2.43.0


From f98a16407753295ef7a98350223504bcca3a326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 52/85] fix: written times keep their time zone offset and
 fraction of a second

---
 jsonld/tools/datetime.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/jsonld/tools/datetime.py b/jsonld/tools/datetime.py
index a140ecf..4b94f4a 100644
--- a/jsonld/tools/datetime.py
+++ b/jsonld/tools/datetime.py
@@ -1,5 +1,5 @@
 import re
-from datetime import datetime
+from datetime import datetime, timezone
 from types import NoneType
 
 AS2_TIME = re.compile(
@@ -72,8 +72,9 @@ def datetime_str(obj: datetime) -> str:
     """
     Converts a datetime object to ISO 8601 format
     :param obj: the datetime object to convert
-    :return: "YYYY-mm-ddTHH:MM:SSZ" string
+    :return: "YYYY-mm-ddTHH:MM:SSZ" string (UTC, with any fraction of a second)
     """
-    # TODO: implement handling for timezone-aware datetimes
-    # TODO: implement millisecond handling
-    return obj.strftime('%Y-%m-%dT%H:%M:%SZ')
\ No newline at end of file
+    if obj.tzinfo is not None:
+        obj = obj.astimezone(timezone.utc)
+    fraction = '.%f' if obj.microsecond else ''
+    return obj.strftime(f'%Y-%m-%dT%H:%M:%S{fraction}Z')
-- 
2.43.0


From 7fe1645256821a3ad4ca8314787760b572a068b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 53/85] fix: zero, negative and fractional durations are
 written correctly

---
 jsonld/tools/datetime.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsonld/tools/datetime.py b/jsonld/tools/datetime.py
index 4b94f4a..a936a49 100644
--- a/jsonld/tools/datetime.py
+++ b/jsonld/tools/datetime.py
@@ -49,12 +49,16 @@ def timedelta_str(obj) -> str:
     :param obj: timedelta to convert
     :return: "P<years>Y<months>M<days>DT<hours>H<minutes>M<seconds>S" string
     """
+    if obj.days < 0:
+        return f'-{timedelta_str(-obj)}'
     years = obj.days // 365
     months = (obj.days % 365) // 30
     days = (obj.days % 365) % 30
     hours = obj.seconds // 3600
     minutes = (obj.seconds % 3600) // 60
     seconds = (obj.seconds % 3600) % 60
+    if obj.microseconds:
+        seconds = f'{seconds}.{obj.microseconds:06}'
     # P<years>Y<months>M<days>D
     ymd = 'P' + (f'{years}Y' if years else '') + \
           (f'{months}M' if months else '') + \
@@ -64,7 +68,9 @@ def timedelta_str(obj) -> str:
           (f'{minutes}M' if minutes else '') + \
           (f'{seconds}S' if seconds else '')
     # The entire HMS section is optional, however we ALWAYS need at least the
-    # "P" from the ymd section (indicates this is a "period")
+    # "P" from the ymd section (indicates this is a "period") and one value
+    if len(ymd) + len(hms) == 2:
+        return 'PT0S'
     return f'{ymd}{hms if len(hms) > 1 else ""}'
 
 
-- 
2.43.0


From eb15b417613a88532a2e9f44e1de932feb9c4501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 54/85] fix: forbidden characters are noticed anywhere in the
 host of a url

re.match only looked at its first character.
---
 jsonld/docloader.py    | 2 +-
 jsonld/engine/utils.py | 2 +-
 jsonld/tools/url.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonld/docloader.py b/jsonld/docloader.py
index 75b12cd..cd27967 100644
--- a/jsonld/docloader.py
+++ b/jsonld/docloader.py
@@ -64,7 +64,7 @@ class RequestsJsonLoader:
         if not pieces.netloc:
             raise ValueError('Cannot dereference url without body')
         # urls can only have certain characters
-        if re.match(JSON_LD_URL_REGEX, pieces.netloc):
+        if re.search(JSON_LD_URL_REGEX, pieces.netloc):
             raise ValueError('url cannot contain characters outside of' +
                              'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."' +
                              f';\ngot: "{url}" ')
diff --git a/jsonld/engine/utils.py b/jsonld/engine/utils.py
index 0535a77..ae14d75 100644
--- a/jsonld/engine/utils.py
+++ b/jsonld/engine/utils.py
@@ -35,7 +35,7 @@ def validate_url(url, secure: bool = False):
         logger.debug('Cannot dereference url without body')
         return False
     # urls can only have certain characters
-    if re.match(VALID_URL_REGEX, pieces.netloc):
+    if re.search(VALID_URL_REGEX, pieces.netloc):
         logger.debug('url cannot contain characters outside of' +
                     'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."')
         return False
diff --git a/jsonld/tools/url.py b/jsonld/tools/url.py
index 00f4cce..b053ed4 100644
--- a/jsonld/tools/url.py
+++ b/jsonld/tools/url.py
@@ -49,7 +49,7 @@ def validate_url(url, secure: bool = False, **kwargs):
         logger.debug('Cannot dereference url without body')
         return False
     # urls can only have certain characters
-    if re.match(VALID_URL_REGEX, pieces.netloc):
+    if re.search(VALID_URL_REGEX, pieces.netloc):
         logger.debug('url cannot contain characters outside of' +
                     'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."')
         return False
-- 
2.43.0


From 6c1158ba4355b45bd59d32dc6f156e1f1af71ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 55/85] fix: iterating a collection gives its items, ordered,
 single or none

---
 activitystreams/models.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 1aeb3ab..6ea805f 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -367,9 +367,13 @@ class Collection(Object):
         )
 
     def __iter__(self):
-        if not self.items:
-            yield
-        for item in self.items:
+        items = self.items
+        if items is None:
+            items = getattr(self, 'orderedItems', None)
+        if items is None:
+            return
+        # a single item is not necessarily in a list
+        for item in items if isinstance(items, list) else [items]:
             yield item
 
 
-- 
2.43.0


From 1ae32b12ecc002992cf2e729314fd48706653b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:12 +0000
Subject: [PATCH 56/85] fix: an engine can be created from several packages

---
 jsonld/engine/jsonld_engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonld/engine/jsonld_engine.py b/jsonld/engine/jsonld_engine.py
index 8f1eadd..f8e02b4 100644
--- a/jsonld/engine/jsonld_engine.py
+++ b/jsonld/engine/jsonld_engine.py
@@ -17,7 +17,8 @@ class JsonLdEngine(PropertyJsonIntake):
         :param packages: the packages to load into the engine
         """
         # keeps a copy of all the packages provided
-        packages = (packages,) if packages is not Iterable else packages
+        packages = (packages,) if isinstance(packages, JsonLdPackage) \
+            else tuple(packages)
         self.___packages___ = packages
         if not self.packages:
             raise ValueError(f'No packages provided!')
-- 
2.43.0


From 48c944fe6d4c27cd48e607de3027f4393dfe75a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:12 +0000
Subject: [PATCH 57/85] fix: a package can be created without a property
 mapping

---
 jsonld/package.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/package.py b/jsonld/package.py
index d77b823..990aaea 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -31,7 +31,7 @@ class JsonLdPackage(ClassCloner):
         self.property_ref = self.clone_classes(properties)
         self.properties = tuple(self.property_ref.values())
         # property_mapping connects properties to classes on instantiation
-        self.property_mapping = property_mapping
+        self.property_mapping = property_mapping or {}
 
         self.__ref = {obj.__get_namespace__(): obj
                       for obj in self.objects + self.properties}
-- 
2.43.0


From 62e52e78fa4630b90d332da7c03b5620b9195b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:12 +0000
Subject: [PATCH 58/85] fix: combined packages keep linking properties to their
 objects

---
 jsonld/package.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jsonld/package.py b/jsonld/package.py
index 990aaea..230ea14 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -4,6 +4,7 @@ engine can load
 """
 import logging
 from collections.abc import Iterable
+from itertools import chain
 from jsonld.base import JsonProperty, PropertyAwareObject
 from jsonld.kamino import ClassCloner
 
@@ -156,8 +157,14 @@ class JsonLdPackage(ClassCloner):
                            if prp.__get_namespace__() not in new_namespaces)
         properties = kept_props + other.properties
 
+        mapping = {
+            name: tuple(dict.fromkeys(
+                chain(self.property_mapping.get(name, ()),
+                      other.property_mapping.get(name, ()))))
+            for name in {**self.property_mapping, **other.property_mapping}}
+
         return JsonLdPackage(namespace=self.namespace, objects=objects,
-                             properties=properties)
+                             properties=properties, property_mapping=mapping)
 
     def __sub__(self, other):
         if not isinstance(other, JsonLdPackage):
-- 
2.43.0


From 2066e800c727b1d3e9f3db54b9b77320c2994c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:12 +0000
Subject: [PATCH 59/85] fix: subtracting a package keeps the other properties
 of the first

---
 jsonld/package.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jsonld/package.py b/jsonld/package.py
index 230ea14..a98c648 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -174,9 +174,15 @@ class JsonLdPackage(ClassCloner):
                               if cls.__get_namespace__() not in removed_obj_ns)
 
         removed_prp_ns = [cls.__get_namespace__() for cls in other.properties]
-        remaining_prps = tuple(prp for prp in other.properties
+        remaining_prps = tuple(prp for prp in self.properties
                                if prp.__get_namespace__() not in removed_prp_ns)
 
+        mapping = {
+            name: tuple(prp for prp in prps if prp not in removed_prp_ns)
+            for name, prps in self.property_mapping.items()
+            if name not in removed_obj_ns}
+
         return JsonLdPackage(namespace=self.namespace,
                              objects=remaining_objs,
-                             properties=remaining_prps)
+                             properties=remaining_prps,
+                             property_mapping=mapping)
-- 
2.43.0


From 0cf8bdccfdacd9f433bc8be3ff6bae47bf1a5515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 60/85] fix: packages can be added to and subtracted from
 engines

---
 jsonld/engine/jsonld_engine.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jsonld/engine/jsonld_engine.py b/jsonld/engine/jsonld_engine.py
index f8e02b4..b2f58e1 100644
--- a/jsonld/engine/jsonld_engine.py
+++ b/jsonld/engine/jsonld_engine.py
@@ -91,7 +91,7 @@ class JsonLdEngine(PropertyJsonIntake):
 
     def __add__(self, other):
         if isinstance(other, JsonLdPackage):
-            return JsonLdEngine(self.packages + other)
+            return JsonLdEngine(self.packages + (other,))
 
         if isinstance(other, JsonLdEngine):
             # combine packages from both engines with the second engine's
@@ -103,10 +103,13 @@ class JsonLdEngine(PropertyJsonIntake):
 
     def __sub__(self, other):
         if isinstance(other, JsonLdPackage):
-            return JsonLdEngine(self.packages - other)
+            return JsonLdEngine(pkg - other for pkg in self.packages)
 
         if isinstance(other, JsonLdEngine):
-            return JsonLdEngine(self.packages - other.packages)
+            packages = self.packages
+            for removed in other.packages:
+                packages = tuple(pkg - removed for pkg in packages)
+            return JsonLdEngine(packages)
 
         raise TypeError(f'Can only subtract "JsonLdPackage" and ' +
                         f'"JsonLdEngine" from JsonLdEngine objects')
-- 
2.43.0


From fce3c9f606e096cb5dddc1fbc70666625905dc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 61/85] fix: caches of a class are not mistaken for those of
 its subclasses

A subclass of a class that was used before lacked its own properties.
---
 jsonld/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index dd55f04..aeade37 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -258,7 +258,8 @@ class JsonProperty(NamespacedObject):
         :param refresh:
         :return:
         """
-        if not hasattr(cls, '__property_name__') or refresh:
+        # (not what a parent class has cached)
+        if '__property_name__' not in cls.__dict__ or refresh:
             prop = [key for key, value in cls.__dict__.items()
                     if isinstance(value, property)]
             # the registration process only supports ONE property per class;
@@ -278,10 +279,10 @@ class JsonProperty(NamespacedObject):
         :param refresh:
         :return:
         """
-        if not hasattr(cls, '__property_name__') or refresh:
+        if '__property_name__' not in cls.__dict__ or refresh:
             cls.__property_name__ = cls.__get_property_name__(refresh=True)
         # caches the registration for ease of use
-        if not hasattr(cls, '__registration__') or refresh:
+        if '__registration__' not in cls.__dict__ or refresh:
             prop = getattr(cls, cls.__property_name__, None)
             if prop:
                 cls.__registration__ = (prop.fget, prop.fset, prop.fdel,
@@ -321,7 +322,7 @@ class PropertyAwareObject(NamespacedObject):
         Creates a list of all @property objects defined and inherited in
         this class
         """
-        if not hasattr(cls, '__properties__') or refresh:
+        if '__properties__' not in cls.__dict__ or refresh:
             # we cache a copy
             cls.__properties__ = tuple(set(chain(key for kls in cls.mro()
                                              for key, value in
-- 
2.43.0


From 405e56bd5bfc79e1d9ef4ce6decca984e97e8009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 62/85] fix: adopting an object into a package leaves the
 namespaces of its classes

All classes derived from the class of the adopted object took its namespace.
---
 jsonld/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index aeade37..c7d2166 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -186,7 +186,9 @@ class NamespacedObject:
 
     @__namespace__.setter_context(CLASS_CHANGE_CONTEXT)
     def __namespace__(self, new_ns):
-        self.__class__.__get_namespace__ = lambda: new_ns
+        # subclasses inherit what is set here, leave them theirs if possible
+        if self.__class__.__get_namespace__() != new_ns:
+            self.__class__.__get_namespace__ = lambda: new_ns
 
     @__namespace__.getter_context(JSON_DATA_CONTEXT)
     def __namespace__(self):
-- 
2.43.0


From 5aa053baea265d66a9ffc07c1cc6c50af6838815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 63/85] fix: objects in lists become part of the package like
 single ones

They had no properties there, and were written as empty.
---
 jsonld/kamino.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 0bca12c..996ad0b 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -121,6 +121,20 @@ class ClassCloner:
                 self.logger.exception(f'Could not set {name}')
         return obj
 
+    def adopt(self, val):
+        """
+        Changes the class of the value, or of the values in a list, to the one
+        of this package if there is one
+        """
+        if isinstance(val, list):
+            for i, item in enumerate(val):
+                val[i] = self.adopt(item)
+            return val
+        if val.__class__ not in self.object_ref.keys():
+            return val
+        with val.switch_context(CLASS_CHANGE_CONTEXT):
+            return self.change_class(val, self.object_ref.get(val.__class__))
+
     def wrap_callables(self, cls):
         """
         Wraps anything callable for a class with a function that changes the
@@ -128,10 +142,7 @@ class ClassCloner:
         """
         def wrapper(fn):
             def wrap_return(*args, **kwargs):
-                if (val := fn(*args, **kwargs)).__class__ not in self.object_ref.keys():
-                    return val
-                with val.switch_context(CLASS_CHANGE_CONTEXT):
-                    return self.change_class(val, self.object_ref.get(val.__class__))
+                return self.adopt(fn(*args, **kwargs))
             return wrap_return
         # locate anything callable and wrap it so output values will be mapped,
         # when applicable
@@ -146,10 +157,7 @@ class ClassCloner:
         """
         def get_wrapper(fn):
             def wrap_return(*args, **kwargs):
-                if (val := fn(*args, **kwargs)).__class__ not in self.object_ref.keys():
-                    return val
-                with val.switch_context(CLASS_CHANGE_CONTEXT):
-                    return self.change_class(val, self.object_ref.get(val.__class__))
+                return self.adopt(fn(*args, **kwargs))
             return wrap_return
 
         def set_wrapper(fn):
-- 
2.43.0


From 1aec485bc437a27570625128bbf8c187eb630aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:04 +0000
Subject: [PATCH 64/85] fix: a collection counts the items it holds, also
 single ones and on pages

---
 activitystreams/models.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 6ea805f..3141191 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -7,7 +7,6 @@ handled correctly.
 # Vocabulary document. This whole module is intentionally barely one level of
 # abstraction from the spec
 import logging
-from collections.abc import Sized
 
 from jsonld import ApplicationActivityJson
 from jsonld import jsonld_get
@@ -363,7 +362,7 @@ class Collection(Object):
         # supplied value takes priority, followed by size of items if they are
         # sizeable, defaulting to 0 if not
         self.totalItems = totalItems if totalItems is not None else (
-            0 if not isinstance(self.items, Sized) else len(self.items)
+            0 if not isinstance(self.items, list) else len(self.items)
         )
 
     def __iter__(self):
@@ -407,8 +406,8 @@ class OrderedCollection(Collection):
                          current=current, first=first, last=last,
                          acontext=acontext, **kwargs)
         self.orderedItems = orderedItems
-        if totalItems is None and isinstance(orderedItems, Sized):
-            self.totalItems = len(orderedItems)
+        if totalItems is None and isinstance(self.orderedItems, list):
+            self.totalItems = len(self.orderedItems)
 
 
 class CollectionPage(Collection):
@@ -487,6 +486,8 @@ class OrderedCollectionPage(OrderedCollection, CollectionPage):
                                 current=current, first=first, last=last,
                                 items=items, partOf=partOf, next=next, prev=prev,
                                 acontext=acontext)
+        if totalItems is None and isinstance(self.orderedItems, list):
+            self.totalItems = len(self.orderedItems)
         self.startIndex = startIndex if startIndex else 0
 
 
-- 
2.43.0


From 56c8e13147e2b8cd28f593ed93fd798c6183abd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 65/85] fix: objects and links created in code are written with
 their type

---
 activitystreams/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 3141191..8d37782 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -56,7 +56,8 @@ class Object(ApplicationActivityJson):
                  **kwargs):
         ApplicationActivityJson.__init__(self, acontext=acontext)
         self.id = id
-        self.type = getattr(self, 'type', None) or type
+        self.type = getattr(self, 'type', None) or type or \
+            self.__class__.__name__
         self.attachment = attachment
         self.attributedTo = attributedTo
         self.audience = audience
@@ -123,7 +124,8 @@ class Link(ApplicationActivityJson):
         self.width = width
         self.preview = preview
         self.context = context
-        self.type = getattr(self, 'type', None) or type
+        self.type = getattr(self, 'type', None) or type or \
+            self.__class__.__name__
 
     @classmethod
     def get(cls, data, *args, **kwargs):
-- 
2.43.0


From 925e46c484682b8b29250d4918b56c808c097659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:08 +0000
Subject: [PATCH 66/85] fix: a page refuses a start index out of range when it
 is created

---
 activitystreams/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 8d37782..548fb91 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -490,7 +490,7 @@ class OrderedCollectionPage(OrderedCollection, CollectionPage):
                                 acontext=acontext)
         if totalItems is None and isinstance(self.orderedItems, list):
             self.totalItems = len(self.orderedItems)
-        self.startIndex = startIndex if startIndex else 0
+        self.startIndex = 0 if startIndex is None else startIndex
 
 
 # ==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//
-- 
2.43.0


From cc49e3b5e7de60d52fff3b3b7d9e9f9d2fec964f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:58 +0000
Subject: [PATCH 67/85] fix: combined packages use the new properties in
 derived classes, too

---
 jsonld/kamino.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 996ad0b..e96d587 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -188,6 +188,12 @@ class ClassCloner:
             if not isinstance(prop, property):
                 # failsafe in case something unexpected comes in!
                 continue
+            # what is inherited from another class of the package is wrapped
+            # already and must follow the properties linked to that class
+            owner = next((c for c in cls.__mro__ if name in vars(c)), cls)
+            if owner is not cls and \
+                    vars(owner).get('__jsonld_package__') is self:
+                continue
             wrapped = property(fget=get_wrapper(prop.fget),
                                fset=set_wrapper(prop.fset),
                                fdel=prop.fdel, doc=prop.__doc__)
-- 
2.43.0


From 00d46edfc8283ab71b8dc1a92eaea879fd5593a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 68/85] fix: selecting properties by an iterator of names

---
 jsonld/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index c7d2166..e01a548 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -310,7 +310,7 @@ class PropertyAwareObject(NamespacedObject):
             yield prop, getattr(self, prop)
 
     def __getitem__(self, keys):
-        keys = [keys] if isinstance(keys, str) else keys
+        keys = [keys] if isinstance(keys, str) else list(keys)
         if any(key not in self.__properties__ for key in keys):
             bad_keys = [key for key in keys if key not in self.__properties__]
             raise KeyError(f'''Key{'s' if len(bad_keys) > 1 else ''} ''' +
-- 
2.43.0


From fcbd12d47d7055dd60c335566da4f97075038dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 69/85] fix: selecting from a package by an iterator of names

---
 jsonld/package.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonld/package.py b/jsonld/package.py
index a98c648..7d97084 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -136,6 +136,7 @@ class JsonLdPackage(ClassCloner):
     def __getitem__(self, keys):
         if isinstance(keys, str):
             return self.__ref.get(keys, None)
+        keys = list(keys)
         if any(not isinstance(key, str) for key in keys):
             raise ValueError('JsonLdPackage getitem can only accept strings')
         return [self.__ref.get(key, None) for key in keys]
-- 
2.43.0


From f464a7eb073be182cf2ad7b9b01945a360c4a342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:35 +0000
Subject: [PATCH 70/85] fix: properties to write can be chosen by iterators of
 names

---
 jsonld/jsonld.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 83d9a77..855d5e6 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -80,6 +80,10 @@ class PropertyJsonLD(PropertyAwareObject):
         :param context: contextual property context to operate under
         :return: dictionary of properties
         """
+        # all of them are searched once for every property
+        include, exclude, reject_values = (
+            [option] if isinstance(option, str) else list(option or ())
+            for option in (include, exclude, reject_values))
         with self.switch_context(context) as process_context:
             transforms = {**self.default_transforms,
                           **(transforms if transforms else {})}
-- 
2.43.0


From e77124ef3d9c720678ab41ec08ac6decb89aa287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:54 +0000
Subject: [PATCH 71/85] fix: a new container database can join others by name

---
 citrine/database/containerdb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 18e7719..bbee00b 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -119,6 +119,9 @@ class ContainerDb(DB):
                 **storage_args)
         except POSKeyError:
             # often happens if the db is newly created
+            if databases is not None and databases.get(database_name) is self:
+                # the failed attempt has taken the name, the next one needs it
+                del databases[database_name]
             if isinstance(storage, str):
                 # closing an existing storage object will make the db unopenable
                 self.close()
-- 
2.43.0


From 5481d4720f2a3264790ec76da641cb0ffda3bfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:54 +0000
Subject: [PATCH 72/85] fix: a container database opened with create=True is
 not emptied twice

---
 citrine/database/containerdb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index bbee00b..2bedbad 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -139,6 +139,8 @@ class ContainerDb(DB):
             conn.close()
             if isinstance(storage, str):
                 db.close()
+            # the file has just been created, doing so again would empty it
+            storage_args.pop('create', None)
             super().__init__(
                 storage=storage, pool_size=pool_size,
                 pool_timeout=pool_timeout, cache_size=cache_size,
-- 
2.43.0


From 5a512f4b66e35f78b280cd619bf9b9753d158434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:46 +0000
Subject: [PATCH 73/85] fix: classes list the properties linked to or removed
 from them later

---
 jsonld/base.py    |  3 ++-
 jsonld/kamino.py  |  2 +-
 jsonld/package.py | 12 ++++++++++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index e01a548..6838dfd 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -302,7 +302,8 @@ class PropertyAwareObject(NamespacedObject):
     """
 
     def __init__(self):
-        self.__properties__ = self.__get_properties__()
+        # kept by the class, which may gain and lose properties
+        self.__get_properties__()
         self.__context__ = JsonContextAwareManager()
 
     def __iter__(self):
diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index e96d587..ed0493a 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -113,7 +113,7 @@ class ClassCloner:
         # merge both for simplicity and to avoid setting the same values twice
         data = {**props, **attrs}
         obj.__class__ = new_class
-        obj.__properties__ = obj.__get_properties__(refresh=True)
+        obj.__get_properties__(refresh=True)
         for name, val in data.items():
             try:
                 setattr(obj, name, val)
diff --git a/jsonld/package.py b/jsonld/package.py
index 7d97084..bbe51bf 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -110,6 +110,7 @@ class JsonLdPackage(ClassCloner):
         """
         setattr(object_class, property_class.__get_property_name__(),
                 property(*property_class.__get_registration__()))
+        self.__refresh(object_class)
 
     def link_properties(self, property_namespaces: Iterable[str],
                         object_namespace: str):
@@ -128,10 +129,21 @@ class JsonLdPackage(ClassCloner):
                              object_class: PropertyAwareObject):
         setattr(object_class, property_class.__get_property_name__(),
                 property(*property_class.__get_registration__()))
+        self.__refresh(object_class)
 
     def remove_property_link(self, property_name: str,
                              object_class: PropertyAwareObject):
         delattr(object_class, property_name)
+        self.__refresh(object_class)
+
+    def __refresh(self, object_class: PropertyAwareObject):
+        """
+        Updates the properties that a class and those derived from it list
+        :param object_class: PropertyAwareObject that gained or lost a property
+        """
+        object_class.__get_properties__(refresh=True)
+        for derived in object_class.__subclasses__():
+            self.__refresh(derived)
 
     def __getitem__(self, keys):
         if isinstance(keys, str):
-- 
2.43.0


From d8004550775535be190c2f843b9342a5a37eb9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:39 +0000
Subject: [PATCH 74/85] fix: read-only properties of copied classes stay
 read-only

Copies wrapped a missing setter: assigning raised TypeError instead of
AttributeError, and objects with such a property could not be adopted.
---
 jsonld/kamino.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index ed0493a..51e3e33 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -194,7 +194,8 @@ class ClassCloner:
             if owner is not cls and \
                     vars(owner).get('__jsonld_package__') is self:
                 continue
-            wrapped = property(fget=get_wrapper(prop.fget),
-                               fset=set_wrapper(prop.fset),
+            # (read-only properties stay read-only)
+            wrapped = property(fget=prop.fget and get_wrapper(prop.fget),
+                               fset=prop.fset and set_wrapper(prop.fset),
                                fdel=prop.fdel, doc=prop.__doc__)
             setattr(cls, name, wrapped)
-- 
2.43.0


From dd496470e761995857f581e12b3d81874cc398ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 75/85] fix: static methods, nested classes and callable values
 of copied classes stay what they are

All callables were replaced by functions, which got the object as an
additional argument or were no classes any more.
---
 jsonld/kamino.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 51e3e33..b636105 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -146,8 +146,11 @@ class ClassCloner:
             return wrap_return
         # locate anything callable and wrap it so output values will be mapped,
         # when applicable
-        for name, method in cls.__dict__.items():
-            if callable(method):
+        for name, method in tuple(cls.__dict__.items()):
+            if isinstance(method, staticmethod):
+                setattr(cls, name, staticmethod(wrapper(method.__func__)))
+            # (callable values and nested classes are not methods)
+            elif callable(method) and hasattr(type(method), '__get__'):
                 setattr(cls, name, wrapper(method))
 
     def wrap_properties(self, cls):
-- 
2.43.0


From 4e2cdc8a603acf8d2b4bf158fcb307bb1a1b3dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:47 +0000
Subject: [PATCH 76/85] fix: database modules import the database class that
 exists

The generated code asked the package for CitrineDB, which it does not have:
no module could be opened or was recognised as one.
---
 citrine/cluster_tools/dbmodule/consts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/consts.py b/citrine/cluster_tools/dbmodule/consts.py
index 45e8742..6fd483c 100644
--- a/citrine/cluster_tools/dbmodule/consts.py
+++ b/citrine/cluster_tools/dbmodule/consts.py
@@ -6,7 +6,7 @@ DBMODULE_DISCOVERABLE_INIT = '''"""
 AUTOGENERATED INIT FILE FOR DBMODULE
 """
 from os.path import dirname, exists, join, split
-from citrine import CitrineDB
+from citrine.database.containerdb import ContainerDb as CitrineDB
 DB_ID = split(dirname(__file__))[1]
 DB_PATH = join(dirname(__file__), DB_ID)
 db = lambda: CitrineDB(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else CitrineDB.new(DB_PATH, database_name=DB_ID)
@@ -18,7 +18,7 @@ DBMODULE_UNDISCOVERABLE_INIT = '''"""
 AUTOGENERATED INIT FILE FOR DBMODULE
 """
 from os.path import dirname, exists, join, split
-from citrine import CitrineDB
+from citrine.database.containerdb import ContainerDb as CitrineDB
 DB_ID = split(dirname(__file__))[1]
 DB_PATH = join(dirname(__file__), DB_ID)
 db = lambda: CitrineDB(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else CitrineDB.new(DB_PATH, database_name=DB_ID)
-- 
2.43.0


From da2d4594b36324da088f956ee82250ff6f4a495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:47 +0000
Subject: [PATCH 77/85] fix: the size of a database module is that of its
 container

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 70716c9..fa695fd 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -145,7 +145,7 @@ class DbModule:
     @property
     def size(self):
         with self.db as connection:
-            return connection.size
+            return connection.container.size
 
     def __init__(self, path: str = '.'):
         self.path = path
-- 
2.43.0


From 16da38fd8a239f680bed32d4e86f62d1b1b52d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 78/85] fix: connections with a CitrineThreadTransactionManager
 commit automatically

The manager lacked what the autocommit decorator asks for, every change
raised AttributeError.
---
 citrine/persistence.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index e47d398..c52fdd0 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -63,6 +63,25 @@ class CitrineThreadTransactionManager(ThreadTransactionManager):
         super().__init__()
         self.manager = CitrineTransactionManager()
 
+    # what the ``autocommit`` decorator needs is kept by the manager, which
+    # changes it at the beginning and end of a transaction
+
+    @property
+    def autocommit(self):
+        return self.manager.autocommit
+
+    @autocommit.setter
+    def autocommit(self, value):
+        self.manager.autocommit = value
+
+    @property
+    def transaction_uuid(self):
+        return getattr(self.manager, 'transaction_uuid', None)
+
+    @property
+    def logger(self):
+        return self.manager.logger
+
 
 def autocommit(fn):
     """
-- 
2.43.0


From bd9e7c1623172aeb2f7f832aff1d64b7015b5391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 79/85] fix: auto_transaction of a connection takes effect

---
 citrine/connection/connection.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/citrine/connection/connection.py b/citrine/connection/connection.py
index f8d8f4b..22ca076 100644
--- a/citrine/connection/connection.py
+++ b/citrine/connection/connection.py
@@ -36,6 +36,16 @@ class CitrineConnection(Connection):
     def size(self):
         return self.container.size
 
+    @property
+    def auto_transaction(self):
+        # the transaction manager decides, and connections of a pool get a new
+        # one every time they are opened
+        return getattr(self.transaction_manager, 'autocommit', True)
+
+    @auto_transaction.setter
+    def auto_transaction(self, value):
+        self.transaction_manager.autocommit = value
+
     def __init__(self, db, cache_size=400, before=None, cache_size_bytes=0,
                  transaction_manager=None, **db_args):
         super().__init__(db=db, cache_size=cache_size, before=before,
-- 
2.43.0


From 6b16dd775b34bcf5066a89e07927909d72a6f396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:08 +0000
Subject: [PATCH 80/85] fix: changes of other transactions are not lost when
 groups are moved

A transaction that resized or condensed a container, and one that changed an
object, affect different persistent objects in many cases. Both were committed,
and the change was lost with the group it was made to. The same holds for an
object that is in several groups. Such transactions conflict now. The groups of
the container are also read again when the emptied ones are removed from it.
---
 citrine/storage/collection.py | 22 ++++++++++++++++++++++
 citrine/storage/container.py  | 29 +++++++++++++++++++++++++----
 citrine/storage/group.py      |  8 ++++++++
 3 files changed, 55 insertions(+), 4 deletions(-)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index 5f14c52..05f3d7f 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -2,6 +2,7 @@
 Classes and functions for managing collections of objects into a ZODB database.
 """
 import logging
+from bisect import bisect_right
 from math import ceil
 from uuid import uuid4
 
@@ -140,6 +141,27 @@ class Collection(Persistent):
         if self.strict and any(not self.tree.has_key(key) for key in keys):
             self._p_changed = True
 
+    def require_current(self, *keys):
+        """
+        Lets the current transaction fail if another one changes what is stored
+        for the keys (anything, if there are none) before it ends. Otherwise it
+        only fails if both of them change it.
+        """
+        parts = [self.tree]
+        while parts:
+            part = parts.pop()
+            if part._p_jar is None:     # not stored, or only with its parent
+                continue
+            part._p_activate()
+            part._p_jar.readCurrent(part)
+            # children and in turns the keys that separate them; a small tree
+            # has a single child that is stored with it
+            state = part.__getstate__() if isinstance(part, BTree) else None
+            if state is not None and len(state) == 2:
+                children, separators = state[0][::2], state[0][1::2]
+                parts.extend([children[bisect_right(separators, key)]
+                              for key in keys] or children)
+
     def get(self, key, default=None):
         """
         Retrieve a value from the collection.
diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index d3a844a..4ca6482 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -345,6 +345,7 @@ class Container(Persistent, ContainerProperties):
         def fn(group, key):
             # between two transactions another connection may have deleted the
             # object, which must neither fail nor store it again
+            self.__require_current(key)
             if group.has_key(key):
                 move(group, key)
 
@@ -358,18 +359,23 @@ class Container(Persistent, ContainerProperties):
                         tm.commit()
         else:
             for group in source_groups:
+                # what another transaction adds to it would be left behind
+                for collection in group.collections:
+                    collection.require_current()
                 for key in list(group.keys()):
                     fn(group, key)
 
         if transfer:
-            remaining = tuple(group for group in self.groups
-                              if group not in source_groups)
+            # another connection may have changed the groups in the meantime
+            def remaining():
+                return tuple(group for group in self.groups
+                             if group not in source_groups)
             if transaction_manager:
                 with transaction_manager as tm:
-                    self.___groups___ = remaining
+                    self.___groups___ = remaining()
                     tm.commit()
             else:
-                self.___groups___ = remaining
+                self.___groups___ = remaining()
             return list(source_groups)
         return []
 
@@ -401,6 +407,7 @@ class Container(Persistent, ContainerProperties):
         :param id: identifier for the object to be stored
         :param obj: the object to be stored
         """
+        self.__require_current(id)
         if not (res := self.primary.insert(id, obj)):
             return self.primary.update({id: obj})
         return res
@@ -411,9 +418,23 @@ class Container(Persistent, ContainerProperties):
         :param id: identifier of the object
         :return: removed object
         """
+        self.__require_current(id)
         return tuple(group.pop(id) for group in self.groups
                      if group.has_key(id))
 
+    def __require_current(self, id):
+        """
+        Lets the transaction fail if another one replaces the groups, or changes
+        the object in any of them, before it ends. The database only notices if
+        both affect the same group, and would accept a change made to a group
+        that does not belong to the container any more.
+        """
+        if self._p_jar is not None:
+            self._p_jar.readCurrent(self)
+        if len(self.groups) > 1:
+            for group in self.groups:
+                group.require_current(id)
+
     def __add__(self, other):
         """
         Combines either two containers or a container and a group. The
diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 56782eb..3e09a3b 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -535,3 +535,11 @@ class Group(Persistent):
         :return: whether the key is present as a boolean
         """
         return Collection.has_key
+
+    @groupfn
+    def require_current(self, key):
+        """
+        Lets the current transaction fail if another one changes what is stored
+        for the key before it ends, see ``Collection.require_current``
+        """
+        return Collection.require_current
-- 
2.43.0


From 6b9fe40cad1e8333eaf866d3aa6bd2ec41ebef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:12 +0000
Subject: [PATCH 81/85] fix: changes of other transactions are not lost when
 containers are added

Expanding a DbContainer moves all objects to new mappings. A change another
transaction made to an old one at the same time was committed and lost. Such
transactions conflict now.
---
 citrine/persistence.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index c52fdd0..a78e978 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -147,8 +147,12 @@ class DbContainer(Persistent):
             raise ValueError(f'Cannot expand from {self.containers_size} ' +
                              f'containers to {new_size} containers, new size ' +
                              f'must be larger than existing size')
-        items = [item for container in self.containers.values()
-                 for item in container.items()]
+        items = []
+        for container in self.containers.values():
+            items.extend(container.items())
+            # what another transaction adds to it would be left behind
+            if container._p_jar is not None:
+                container._p_jar.readCurrent(container)
         self.containers = PersistentMapping({
             key: PersistentMapping() for key in range(new_size)
         })
@@ -182,6 +186,7 @@ class DbContainer(Persistent):
         :return:
         """
         self.__locate_container(id)[id] = obj
+        self.__require_current()
 
     def delete(self, id):
         """
@@ -190,6 +195,15 @@ class DbContainer(Persistent):
         :return:
         """
         self.__locate_container(id).pop(id)
+        self.__require_current()
+
+    def __require_current(self):
+        """
+        Lets the transaction fail if another one replaces the containers before
+        it ends, its change would be lost otherwise
+        """
+        if self._p_jar is not None:
+            self._p_jar.readCurrent(self)
 
     def __locate_container(self, id: str):
         """
-- 
2.43.0


From cf0ffffd2ed83f39797782dcbf04c5f4ff99732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:20 +0000
Subject: [PATCH 82/85] fix: the copies of classes resolve attributes in the
 order of the originals

With a class that is not part of the package between a class and one of its
copied parents, the copy of the parent came before it.
---
 jsonld/kamino.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index b636105..2dd4b9f 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -88,9 +88,11 @@ class ClassCloner:
         for node in ordered_nodes:
             # IF there is a cloned class for a dependency (root will not have!)
             # THEN have the dependent cloned class inherit from it
+            # (in the order of the original, also with classes that are not
+            # part of the package between them)
             cls = node.cls
-            inherits = [class_ref.get(p) for p in node.parents.keys()] + [cls]
-            inherits = tuple(filter(lambda n: n is not None, inherits))
+            inherits = (cls, *(class_ref[c] for c in cls.mro()[1:]
+                               if c in class_ref))
 
             class_ref[cls] = type(cls.__name__, inherits, cls.__dict__.copy())
             # change the return value for callables in class and properties
-- 
2.43.0


From 920b0fd2790b2107d655f196f7fe81fbc0dd5b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:11 +0000
Subject: [PATCH 83/85] fix: destroying a database module removes its compiled
 form as well

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index fa695fd..0b9013f 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -5,7 +5,7 @@ citrine.cluster.DbModule object.
 from uuid import uuid4
 
 from os import mkdir, listdir, rmdir, remove
-from os.path import abspath, join, exists, split, isfile
+from os.path import abspath, join, exists, split, isdir, isfile
 from shutil import rmtree
 from persistent import Persistent
 from persistent.mapping import PersistentMapping
@@ -64,8 +64,15 @@ def delete_dbmodule(path: str, remove_empty: bool = True,
                 if file == '__init__.py'
                     or (isfile(join(path, file))
                         and (file == name or file.startswith(f'{name}.')))]
-    for file in affected:
+    # importing the module left its compiled form, which is not needed either
+    cache = join(path, '__pycache__')
+    compiled = [join(cache, file) for file in listdir(cache)
+                if file.startswith('__init__.') and file.endswith('.pyc')] \
+        if isdir(cache) else []
+    for file in affected + compiled:
         remove(file)
+    if compiled and not len(listdir(cache)):
+        rmdir(cache)
     if remove_empty and not len(listdir(path)):
         rmdir(path)
 
-- 
2.43.0


From 41e5578ec53369136af5c76ef9d255f35e85d5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:01 +0000
Subject: [PATCH 84/85] fix: a transaction that cannot begin leaves autocommit
 on

---
 citrine/persistence.py         | 4 +++-
 citrine/storage/transaction.py | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index a78e978..ce0d37c 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -34,8 +34,10 @@ class CitrineTransactionManager(TransactionManager):
     def __enter__(self):
         self.transaction_uuid = uuid.uuid4()
         self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
+        transaction = super().__enter__()
+        # if it cannot begin, the next action must still commit
         self.autocommit = False
-        return super().__enter__()
+        return transaction
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
diff --git a/citrine/storage/transaction.py b/citrine/storage/transaction.py
index 6bc9081..f189e5a 100644
--- a/citrine/storage/transaction.py
+++ b/citrine/storage/transaction.py
@@ -24,8 +24,10 @@ class TransactionManager(ZoTransactionManager):
     def __enter__(self):
         self.transaction_uuid = uuid.uuid4()
         self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
+        transaction = super().__enter__()
+        # if it cannot begin, the next action must still commit
         self.autocommit = False
-        return super().__enter__()
+        return transaction
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
@@ -58,8 +60,10 @@ class ThreadTransactionManager(ZoThreadTransactionManager):
     def __enter__(self):
         self.transaction_uuid = uuid.uuid4()
         self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
+        transaction = super().__enter__()
+        # if it cannot begin, the next action must still commit
         self.autocommit = False
-        return super().__enter__()
+        return transaction
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
-- 
2.43.0


From ba0322a8b026c67d14cce899103ad9f828c99e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:01 +0000
Subject: [PATCH 85/85] fix: a new group leaves the custom layout it is given
 unchanged

---
 citrine/storage/group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 3e09a3b..09b552f 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -278,7 +278,8 @@ class Group(Persistent):
             size = max(custom.keys())
         if size and size < max(custom.keys()):
             raise KeyError("Size must be greater than highest key")
-        # fill gaps with default generation
+        # fill gaps with default generation, the definition stays as it is
+        custom = dict(custom)
         for key in range(size):
             if key not in keys:
                 custom[key] = max_collection_size
-- 
2.43.0

