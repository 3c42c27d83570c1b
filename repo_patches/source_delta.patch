From 79e3f4e0cf1ebde4b84e6aa849ac7df4f80b8275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:25 +0000
Subject: [PATCH 01/27] fix: refuse negative collection kinds

Collection(-5) was silently taken for an index from the end of the
list of known kinds, and encoded as Collection (Logical).
---
 hrdc/stream/item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index 5a5ad36..d47eea9 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -218,7 +218,7 @@ class Collection(MainItem):
     _rev = [Physical, Application, Logical, Report, NamedArray, UsageSwitch, UsageModifier]
 
     def __init__(self, value):
-        if not isinstance(value, NamedConstant) and int(value) < len(self._rev):
+        if not isinstance(value, NamedConstant) and 0 <= int(value) < len(self._rev):
             value = self._rev[int(value)]
         MainItem.__init__(self, value)
 
-- 
2.43.0


From 888bca9000942ac13f8fe0c94e5073dfb8241a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:47 +0000
Subject: [PATCH 02/27] fix: account for count in report layout

A value with count > 1 only moved the report position by one element,
alignment of what follows was off.
---
 hrdc/descriptor/streamer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index e9d70e3..5bf7511 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -89,7 +89,7 @@ class Streamer(descriptor.Visitor):
 
             a(item.ReportCount(e.count))
             a(item.ReportSize(e.size))
-            self.report_size[int(e.way)][self.report_id] += int(e.size)
+            self.report_size[int(e.way)][self.report_id] += int(e.size) * int(e.count)
             a(item.Item.itemclass(item.Item.Main, e.way)(e.flags))
 
             if e.namedArray and not constant and e.usage:
-- 
2.43.0


From 30864b325a5ac627c94dbe8da5928034f14e829e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:47 +0000
Subject: [PATCH 03/27] fix: compile collections that have no usage

Extractor creates them with usage = None, and Dumper writes them this way.
---
 hrdc/descriptor/streamer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index 5bf7511..57f7da4 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -22,7 +22,8 @@ class Streamer(descriptor.Visitor):
                 a(item.ReportID(e.id))
 
         elif isinstance(e, descriptor.Collection):
-            a(item.Usage(e.usage))
+            if e.usage is not None:
+                a(item.Usage(e.usage))
             a(item.Collection(e.kind))
 
     def leave(self, e):
-- 
2.43.0


From 203a4a2e236003216d271e41fd39112429638f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:47 +0000
Subject: [PATCH 04/27] fix: restore report ID after a nested report

Members following a nested Report() were put in the nested report, not
in the one they are declared in.
---
 hrdc/descriptor/streamer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index 57f7da4..2e8ad25 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -12,11 +12,13 @@ class Streamer(descriptor.Visitor):
             int(item.MainItem.Feature) : [0] * 256,
             }
         self.report_id = 0
+        self.outer_ids = []
 
     def enter(self, e):
         a = self.stream.append
 
         if isinstance(e, descriptor.Report):
+            self.outer_ids.append(self.report_id)
             self.report_id = e.id
             if e.id:
                 a(item.ReportID(e.id))
@@ -29,7 +31,13 @@ class Streamer(descriptor.Visitor):
     def leave(self, e):
         a = self.stream.append
 
-        if isinstance(e, descriptor.Collection):
+        if isinstance(e, descriptor.Report):
+            outer = self.outer_ids.pop()
+            if outer and outer != self.report_id:
+                self.report_id = outer
+                a(item.ReportID(outer))
+
+        elif isinstance(e, descriptor.Collection):
             a(item.EndCollection())
 
     def element(self, e):
-- 
2.43.0


From 18154ffed66d8dc6ea2bbadddbd7bc5b4286a859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:47 +0000
Subject: [PATCH 05/27] fix: a named array with a usage is an array

It was compiled to a single Variable control inside the logical
collection, which only exposes the first usage of the list.
---
 hrdc/descriptor/descriptor.py | 5 +----
 hrdc/descriptor/dumper.py     | 3 +--
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/hrdc/descriptor/descriptor.py b/hrdc/descriptor/descriptor.py
index 70a983e..b11924d 100644
--- a/hrdc/descriptor/descriptor.py
+++ b/hrdc/descriptor/descriptor.py
@@ -116,10 +116,7 @@ class Value(Base):
         self.count = count
 
         if namedArray:
-            if usage:
-                self.flags = self.Variable
-            else:
-                self.flags = self.Data | self.Array
+            self.flags = self.Data | self.Array
             self.logicalMax = len(self.namedArray) + self.logicalMin - 1
 
     def accept(self, visitor):
diff --git a/hrdc/descriptor/dumper.py b/hrdc/descriptor/dumper.py
index 944f729..2a623f7 100644
--- a/hrdc/descriptor/dumper.py
+++ b/hrdc/descriptor/dumper.py
@@ -61,8 +61,7 @@ if __name__ == "__main__":
             us = Usage.lookup(e.usage) if e.usage else None
             self.write(self.indent() + "Value(Value.%s, %s, %d" % (e.way, us, e.size))
             if int(e.flags) != int(item.DataItem.Data | item.DataItem.Variable | item.DataItem.Absolute) \
-                   and not (e.namedArray and e.usage and e.flags == item.DataItem.Variable) \
-                   and not (e.namedArray and not e.usage and e.flags == item.DataItem.Data | item.DataItem.Array):
+                   and not (e.namedArray and e.flags == item.DataItem.Data | item.DataItem.Array):
                 flags = str(e.flags)
                 flags = re.sub(r"([A-Za-z]+)", r"Value.\1", flags)
                 self.write(", flags = %s" % flags)
-- 
2.43.0


From c4c38ada4ee6fca2b53b0024f0975cd86c2e44ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:35 +0000
Subject: [PATCH 06/27] fix: only drop a null designator if it is the main
 item's only one

Decision was taken at the first global item met, and ignored ranges.
Also, items following the last main item were lost on close.
---
 hrdc/stream/optimizer/designator_uniq.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hrdc/stream/optimizer/designator_uniq.py b/hrdc/stream/optimizer/designator_uniq.py
index 8d9ba00..bd1fdc6 100644
--- a/hrdc/stream/optimizer/designator_uniq.py
+++ b/hrdc/stream/optimizer/designator_uniq.py
@@ -12,6 +12,8 @@ class DesignatorUniq(Optimizer):
         self.designatorToFilter = None
 
     def close(self):
+        for i in self.pending:
+            self.stream.append(i)
         self.stream.close()
         
     def append(self, item):
@@ -26,7 +28,9 @@ class DesignatorUniq(Optimizer):
                     self.designatorToFilter = item
                 else:
                     self.designatorToFilter = False
-        else:
+            elif item.tag in (LocalItem.DesignatorMinimum, LocalItem.DesignatorMaximum):
+                self.designatorToFilter = False
+        elif item.kind == Item.Main:
             if self.designatorToFilter:
                 self.pending = [x for x in self.pending if x is not self.designatorToFilter]
             for i in self.pending:
-- 
2.43.0


From 8d093d0ade5f88552281868c868cc23fa355126e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:35 +0000
Subject: [PATCH 07/27] fix: dont merge ranges across usage pages or delimiters

Usages 0x1ffff and 0x20000 are not contiguous, and usages between
delimiters are alternatives for a single control.
---
 hrdc/stream/optimizer/range_merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hrdc/stream/optimizer/range_merge.py b/hrdc/stream/optimizer/range_merge.py
index 303ea57..9acf72c 100644
--- a/hrdc/stream/optimizer/range_merge.py
+++ b/hrdc/stream/optimizer/range_merge.py
@@ -45,14 +45,15 @@ class RangeMerge(Optimizer):
         from ..item import Item, LocalItem
 
         if self.merging and item.kind == Item.Local:
-            if item.tag in (self.min, self.max):
+            if item.tag in (self.min, self.max, LocalItem.Delimiter):
                 self.merging = False
                 
             elif item.tag == self.lookup:
                 if self.maxValue is None:
                     self.maxValue = item.value
                     self.minValue = item.value
-                elif int(item.value) == int(self.maxValue) + 1:
+                elif int(item.value) == int(self.maxValue) + 1 \
+                     and int(item.value) & 0xffff:
                     self.maxValue = item.value
                 else:
                     self.merging = False
-- 
2.43.0


From f2ffbbe4d533b380e0df70474d0fdb63fbf010e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:35 +0000
Subject: [PATCH 08/27] fix: restore known globals on Pop in global merge

Values set between Push and Pop were still thought to be in force
after Pop, later items setting them again were dropped.
---
 hrdc/stream/optimizer/global_merge.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hrdc/stream/optimizer/global_merge.py b/hrdc/stream/optimizer/global_merge.py
index 11db9de..5ad0ae5 100644
--- a/hrdc/stream/optimizer/global_merge.py
+++ b/hrdc/stream/optimizer/global_merge.py
@@ -10,6 +10,7 @@ class GlobalMerge(Optimizer):
 
         self.stream = stream
         self.locals = {}
+        self.stack = []
         self.globals = {
             GlobalItem.Unit: Unit(0),
             GlobalItem.UnitExponent: UnitExponent(0),
@@ -32,6 +33,11 @@ class GlobalMerge(Optimizer):
                 self.stream.append(item)
             self.globals[item.tag] = item
 
+            if item.tag == GlobalItem.Push:
+                self.stack.append(dict(self.globals))
+            elif item.tag == GlobalItem.Pop and self.stack:
+                self.globals = self.stack.pop()
+
         elif item.kind == Item.Local:
             self.stream.append(item)
 
-- 
2.43.0


From 3faf8e8ea066a9d4d85e3cdfc63daac06f8d3173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:35 +0000
Subject: [PATCH 09/27] fix: only merge main items when locals still apply to
 their control

Array items merged their usage lists, and string or designator of a
control was applied to its neighbours when they had none.  Report
count, usage page and watched properties also were wrong after Pop.

Items pending on close were not merged in any way, but all local items
were put before the first main item.
---
 hrdc/stream/optimizer/main_merge.py | 52 +++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/hrdc/stream/optimizer/main_merge.py b/hrdc/stream/optimizer/main_merge.py
index 602920c..ebc72da 100644
--- a/hrdc/stream/optimizer/main_merge.py
+++ b/hrdc/stream/optimizer/main_merge.py
@@ -5,6 +5,7 @@ class MainMerge(Optimizer):
 
     from ..item import Item, GlobalItem, LocalItem, MainItem
     to_watch = (
+        GlobalItem.UsagePage,
         GlobalItem.LogicalMinimum,
         GlobalItem.LogicalMaximum,
         GlobalItem.PhysicalMinimum,
@@ -22,7 +23,10 @@ class MainMerge(Optimizer):
         self.afterMain = []
         self.beforeCount = 0
         self.afterCount = 0
-        
+        self.locals = []
+        self.shape = None
+        self.stack = []
+
         self.props = {}
         
         for key in self.to_watch:
@@ -33,6 +37,7 @@ class MainMerge(Optimizer):
 
         if item.kind == Item.Local:
             self.afterMain.append(item)
+            self.locals.append(item)
 
         elif item.kind == Item.Global:
             self.afterMain.append(item)
@@ -45,16 +50,32 @@ class MainMerge(Optimizer):
             if item.tag == GlobalItem.ReportCount:
                 self.afterCount = item.value
 
+            elif item.tag == GlobalItem.Push:
+                self.flush()
+                self.stack.append((dict(self.props), self.afterCount))
+
+            elif item.tag == GlobalItem.Pop:
+                self.flush()
+                if self.stack:
+                    self.props, self.afterCount = self.stack.pop()
+
         else:
+            shape = self.localShape(item, self.locals)
+            self.locals = []
+
             if item.tag not in (MainItem.Input, MainItem.Output, MainItem.Feature):
                 self.afterMain.append(item)
                 self.flush()
                 return
 
-            if self.mainItems and item != self.mainItems[0]:
+            if self.mainItems and (item != self.mainItems[0]
+                                   or shape is None
+                                   or shape != self.shape
+                                   or self.afterCount == 0):
                 self.flush()
 
-            flush_after = self.afterCount != 1
+            flush_after = self.afterCount != 1 or shape is None
+            self.shape = shape
 
             self.beforeMain += self.afterMain
             self.beforeCount += self.afterCount
@@ -64,6 +85,26 @@ class MainMerge(Optimizer):
             if flush_after:
                 self.flush()
 
+    @staticmethod
+    def localShape(main, locals):
+        """
+        Locals of a main item that may be merged, at most one of each
+        kind, in a given usage page.  Items may merge if they have the
+        same ones.  None if item cannot merge.
+        """
+        from ..item import LocalItem, DataItem
+
+        if not int(main.value) & int(DataItem.Variable | DataItem.Constant):
+            return None
+
+        shape = {}
+        for i in locals:
+            if i.tag not in (LocalItem.Usage, LocalItem.DesignatorIndex, LocalItem.StringIndex) \
+                   or int(i.tag) in shape:
+                return None
+            shape[int(i.tag)] = int(i.value) >> 16 if i.tag == LocalItem.Usage else None
+        return shape
+
     def flush(self, until = 0):
         from ..item import ReportCount, Item, MainItem, GlobalItem
 
@@ -81,10 +122,7 @@ class MainMerge(Optimizer):
         self.beforeCount = 0
 
     def close(self):
+        self.flush()
         for i in self.beforeMain:
             self.stream.append(i)
-        for i in self.mainItems:
-            self.stream.append(i)
-        for i in self.afterMain:
-            self.stream.append(i)
         self.stream.close()
-- 
2.43.0


From ec53ee1c865bcca36bdf25fe4814026d4fc91ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:22 +0000
Subject: [PATCH 10/27] fix: track physical bounds in force in physical merge

Physical bounds equal to logical ones may only be dropped if the bounds
in force in output are null, and have to be emitted again when logical
bounds change under them.
---
 hrdc/stream/optimizer/physical_merge.py | 72 ++++++++++++++-----------
 1 file changed, 41 insertions(+), 31 deletions(-)

diff --git a/hrdc/stream/optimizer/physical_merge.py b/hrdc/stream/optimizer/physical_merge.py
index 19b38e0..e99373b 100644
--- a/hrdc/stream/optimizer/physical_merge.py
+++ b/hrdc/stream/optimizer/physical_merge.py
@@ -4,50 +4,60 @@ class PhysicalMerge(Optimizer):
     precedence = 50
 
     def __init__(self, stream):
-        from ..item import Item, GlobalItem,\
-             LogicalMaximum, LogicalMinimum,\
-             PhysicalMaximum, PhysicalMinimum
+        from ..item import GlobalItem
 
         self.stream = stream
+        # Values as declared in the input stream
         self.current = {
-            GlobalItem.LogicalMinimum: LogicalMinimum(0),
-            GlobalItem.LogicalMaximum: LogicalMaximum(0),
-            GlobalItem.PhysicalMinimum: PhysicalMinimum(0),
-            GlobalItem.PhysicalMaximum: PhysicalMaximum(0),
+            GlobalItem.LogicalMinimum: 0,
+            GlobalItem.LogicalMaximum: 0,
+            GlobalItem.PhysicalMinimum: 0,
+            GlobalItem.PhysicalMaximum: 0,
             }
-        self.changed = dict(list(self.current.items()))
+        # Physical bounds in the output stream
+        self.output = (0, 0)
+        self.stack = []
+        self.pending = []
+
+    def flush(self):
+        for i in self.pending:
+            self.stream.append(i)
         self.pending = []
 
     def append(self, item):
         from ..item import Item, GlobalItem, PhysicalMinimum, PhysicalMaximum
 
         if item.kind == Item.Main:
-            if int(self.current[GlobalItem.PhysicalMinimum].value) == 0 \
-                and int(self.current[GlobalItem.PhysicalMaximum].value) == 0 \
-                and int(self.changed[GlobalItem.PhysicalMinimum].value) \
-                == int(self.changed[GlobalItem.LogicalMinimum].value) \
-                and int(self.changed[GlobalItem.PhysicalMaximum].value) \
-                == int(self.changed[GlobalItem.LogicalMaximum].value):
-                self.pending = [x for x in self.pending
-                                if x.kind != Item.Global
-                                or x.tag not in (GlobalItem.PhysicalMinimum,
-                                                  GlobalItem.PhysicalMaximum)]
-            for i in self.pending:
-                self.stream.append(i)
-            self.pending = []
-            self.changed = dict(list(self.current.items()))
+            logical = (self.current[GlobalItem.LogicalMinimum],
+                       self.current[GlobalItem.LogicalMaximum])
+            physical = (self.current[GlobalItem.PhysicalMinimum],
+                        self.current[GlobalItem.PhysicalMaximum])
+            # Null bounds stand for logical ones
+            if physical == logical:
+                physical = (0, 0)
+            if physical != self.output:
+                self.stream.append(PhysicalMinimum(physical[0]))
+                self.stream.append(PhysicalMaximum(physical[1]))
+                self.output = physical
+            self.flush()
             self.stream.append(item)
-        else:
+
+        elif item.kind == Item.Global and item.tag in self.current:
+            self.current[item.tag] = int(item.value)
+            if item.tag not in (GlobalItem.PhysicalMinimum, GlobalItem.PhysicalMaximum):
+                self.pending.append(item)
+
+        elif item.kind == Item.Global and item.tag in (GlobalItem.Push, GlobalItem.Pop):
             self.pending.append(item)
+            self.flush()
+            if item.tag == GlobalItem.Push:
+                self.stack.append((dict(self.current), self.output))
+            elif self.stack:
+                self.current, self.output = self.stack.pop()
 
-            if item.kind == Item.Global \
-                   and item.tag in (GlobalItem.LogicalMinimum,
-                                    GlobalItem.LogicalMaximum,
-                                    GlobalItem.PhysicalMinimum,
-                                    GlobalItem.PhysicalMaximum):
-                self.changed[item.tag] = item
+        else:
+            self.pending.append(item)
 
     def close(self):
-        for i in self.pending:
-            self.stream.append(i)
+        self.flush()
         self.stream.close()
-- 
2.43.0


From c5c36b983a4f1425aa720020f24c5fdb58c8e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:22 +0000
Subject: [PATCH 11/27] fix: resolve short usages at the main item in usage
 page optimizer

Page of a 16-bit usage is the one in force at the main item, so using
UsagePage for usages of more than one page in a main item changes the
meaning of the previous ones.  Keep extended usages there, and follow
Push/Pop.
---
 hrdc/stream/optimizer/usage_page.py | 69 +++++++++++++++++++++++------
 1 file changed, 56 insertions(+), 13 deletions(-)

diff --git a/hrdc/stream/optimizer/usage_page.py b/hrdc/stream/optimizer/usage_page.py
index 5bceda4..c4f89f0 100644
--- a/hrdc/stream/optimizer/usage_page.py
+++ b/hrdc/stream/optimizer/usage_page.py
@@ -4,28 +4,71 @@ class UsagePage(Optimizer):
     precedence = 10
 
     def __init__(self, stream):
+        from ..item import UsagePage
+
         self.stream = stream
-        self.page = None
+        # Page in force in the input stream
+        self.page = UsagePage(0)
+        # Page in force in the output stream
+        self.outputPage = None
+        self.stack = []
+        self.pending = []
 
     def append(self, item):
-        from ..item import Item, GlobalItem, LocalItem, UsagePage, Usage
-        from ...util import NamedConstant
-        from ...usage import Usage
+        from ..item import Item, GlobalItem
+
+        if item.kind == Item.Main:
+            self.flush()
+            self.stream.append(item)
 
-        if item.kind == Item.Local and item.tag in (LocalItem.Usage, LocalItem.UsageMinimum, LocalItem.UsageMaximum):
+        elif item.kind == Item.Global and item.tag == GlobalItem.UsagePage:
+            self.page = item
 
-            sp, su = Usage.lookup(item.value).split()
+        elif item.kind == Item.Global and item.tag in (GlobalItem.Push, GlobalItem.Pop):
+            # Locals apply to the next main item, whatever the stack
+            for i in self.pending:
+                if i.kind != Item.Local:
+                    self.stream.append(i)
+            self.pending = [i for i in self.pending if i.kind == Item.Local]
+            self.stream.append(item)
+            if item.tag == GlobalItem.Push:
+                self.stack.append((self.page, self.outputPage))
+            elif self.stack:
+                self.page, self.outputPage = self.stack.pop()
 
-            if self.page is None or self.page != int(sp):
-                self.page = int(sp)
-                self.stream.append(UsagePage(sp))
+        else:
+            self.pending.append(item)
+
+    def flush(self):
+        from ..item import Item, LocalItem, UsagePage
+        from ...usage import Usage
 
-            item = Item.itemclass(item.kind, item.tag)(su)
+        # A short usage belongs to the page in force at the main item.
+        pages = {}
+        for i in self.pending:
+            if i.kind == Item.Local and i.tag in (LocalItem.Usage, LocalItem.UsageMinimum, LocalItem.UsageMaximum):
+                page = int(i.value) >> 16
+                if not page:
+                    pages.setdefault(int(self.page.value), self.page)
+                elif page not in pages:
+                    pages[page] = UsagePage(Usage.lookup(i.value).split()[0])
 
-        self.stream.append(item)
+        short = pages.get(int(self.page.value))
+        if len(pages) == 1:
+            short, = pages.values()
 
-        if item.kind == Item.Global and item.tag == GlobalItem.UsagePage:
-            self.page = int(item.value)
+        for i in self.pending:
+            if i.kind == Item.Local and i.tag in (LocalItem.Usage, LocalItem.UsageMinimum, LocalItem.UsageMaximum):
+                page = int(i.value) >> 16
+                if short and page in (0, int(short.value)):
+                    if self.outputPage != int(short.value):
+                        self.stream.append(short)
+                        self.outputPage = int(short.value)
+                    if page:
+                        i = Item.itemclass(i.kind, i.tag)(Usage.lookup(i.value).split()[1])
+            self.stream.append(i)
+        self.pending = []
 
     def close(self):
+        self.flush()
         self.stream.close()
-- 
2.43.0


From 3c355720acf5b4330bd9fbef124cb304b953a15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:14 +0000
Subject: [PATCH 12/27] fix: read // inside block comments of code format

A // in a /* */ comment hid the end of the comment.
---
 hrdc/stream/comparer.py    | 5 +----
 hrdc/stream/parser/code.py | 6 ++----
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/hrdc/stream/comparer.py b/hrdc/stream/comparer.py
index f7a66f9..ae8b591 100644
--- a/hrdc/stream/comparer.py
+++ b/hrdc/stream/comparer.py
@@ -7,10 +7,7 @@ class ExpectedStream(stream.Stream):
     def __init__(self, test_case, expected_code):
         self.test_case = test_case
 
-        contents = ""
-        for line in expected_code.split("\n"):
-            contents += line.split("//", 1)[0] + " "
-        contents = re.sub(r"/\*.*?\*/", "", contents)
+        contents = re.sub(r"//[^\n]*|/\*.*?\*/", "", expected_code, flags = re.S)
         contents = re.sub(r"\s+", "", contents)
         self.expected = bytes(int(x, 16) for x in contents.split(",") if x)
         self.point = 0
diff --git a/hrdc/stream/parser/code.py b/hrdc/stream/parser/code.py
index 20105bf..2dab8b5 100644
--- a/hrdc/stream/parser/code.py
+++ b/hrdc/stream/parser/code.py
@@ -3,10 +3,8 @@ import re
 
 class Code(Parser):
     def read(self, *args):
-        contents = ""
-        for line in self.input.read(*args).split("\n"):
-            contents += line.split("//", 1)[0] + " "
-        contents = re.sub(r"/\*.*?\*/", "", contents)
+        contents = self.input.read(*args)
+        contents = re.sub(r"//[^\n]*|/\*.*?\*/", "", contents, flags = re.S)
         contents = re.sub(r"\s+", "", contents)
         blob = bytes(int(x, 16) for x in contents.split(",") if x)
         self.blobParse(blob)
-- 
2.43.0


From abf46b051db9d8c8272eac21bd542c4be3882f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:19 +0000
Subject: [PATCH 13/27] fix: name usages after the constants that hold them

Dumped scripts refer to usages by name.
---
 hrdc/usage/desktop.py    | 6 +++---
 hrdc/usage/lighting.py   | 2 +-
 hrdc/usage/simulation.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hrdc/usage/desktop.py b/hrdc/usage/desktop.py
index 8798e7b..698e598 100644
--- a/hrdc/usage/desktop.py
+++ b/hrdc/usage/desktop.py
@@ -7,7 +7,7 @@ Gamepad = Usage("desktop.Gamepad", 0x10005, CA)
 Keyboard = Usage("desktop.Keyboard", 0x10006, CA)
 Keypad = Usage("desktop.Keypad", 0x10007, CA)
 MultiAxisCtrl = Usage("desktop.MultiAxisCtrl", 0x10008, CA)
-TabletPCSystem = Usage("desktop.TabletPcSystem", 0x10009, CA)
+TabletPCSystem = Usage("desktop.TabletPCSystem", 0x10009, CA)
 
 # HUTRR51
 PortableDeviceControl = Usage("desktop.PortableDeviceControl", 0x1000d, CA)
@@ -25,8 +25,8 @@ HatSwitch = Usage("desktop.HatSwitch", 0x10039, DV)
 CountedBuffer = Usage("desktop.CountedBuffer", 0x1003A, CL)
 ByteCount = Usage("desktop.ByteCount", 0x1003B, DV)
 MotionWakeup = Usage("desktop.MotionWakeup", 0x1003C, OSC)
-Start = Usage("desktop.start", 0x1003D, OOC)
-Select = Usage("desktop.select", 0x1003E, OOC)
+Start = Usage("desktop.Start", 0x1003D, OOC)
+Select = Usage("desktop.Select", 0x1003E, OOC)
 Vx = Usage("desktop.Vx", 0x10040, DV)
 Vy = Usage("desktop.Vy", 0x10041, DV)
 Vz = Usage("desktop.Vz", 0x10042, DV)
diff --git a/hrdc/usage/lighting.py b/hrdc/usage/lighting.py
index 0a0b05c..4229d8b 100644
--- a/hrdc/usage/lighting.py
+++ b/hrdc/usage/lighting.py
@@ -9,7 +9,7 @@ BoundingBoxWidthInMicrometers = Usage("lighting.BoundingBoxWidthInMicrometers",
 BoundingBoxHeightInMicrometers = Usage("lighting.BoundingBoxHeightInMicrometers", 0x590005, SV)
 BoundingBoxDepthInMicrometers = Usage("lighting.BoundingBoxDepthInMicrometers", 0x590006, SV)
 LampArrayKind = Usage("lighting.LampArrayKind", 0x590007, SV)
-MinUpdateIntervalInMicroseconds = Usage("lighting. MinUpdateIntervalInMicroseconds", 0x590008, SV)
+MinUpdateIntervalInMicroseconds = Usage("lighting.MinUpdateIntervalInMicroseconds", 0x590008, SV)
 LampAttributesRequestReport = Usage("lighting.LampAttributesRequestReport", 0x590020, CL)
 LampId = Usage("lighting.LampId", 0x590021, SV)
 LampAttributesResponseReport = Usage("lighting.LampAttributesResponseReport", 0x590022, CL)
diff --git a/hrdc/usage/simulation.py b/hrdc/usage/simulation.py
index 6595585..4146b65 100644
--- a/hrdc/usage/simulation.py
+++ b/hrdc/usage/simulation.py
@@ -20,7 +20,7 @@ FlightYoke = Usage("simulation.FlightYoke", 0x20024, CA)
 TrackControl = Usage("simulation.TrackControl", 0x20025, CP)
 Aileron = Usage("simulation.Aileron", 0x200B0, DV)
 AileronTrim = Usage("simulation.AileronTrim", 0x200B1, DV)
-AntiTorqueControl = Usage("simulation.TorqueControl", 0x200B2, DV)
+AntiTorqueControl = Usage("simulation.AntiTorqueControl", 0x200B2, DV)
 AutopilotEnable = Usage("simulation.AutopilotEnable", 0x200B3, OOC)
 ChaffRelease = Usage("simulation.ChaffRelease", 0x200B4, OSC)
 CollectiveControl = Usage("simulation.CollectiveControl", 0x200B5, DV)
-- 
2.43.0


From affce17009067cca597bd32f132abb8ea5756041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:19 +0000
Subject: [PATCH 14/27] fix: page of SystemDisplayRotationLockButton

---
 hrdc/usage/desktop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/usage/desktop.py b/hrdc/usage/desktop.py
index 698e598..3827d46 100644
--- a/hrdc/usage/desktop.py
+++ b/hrdc/usage/desktop.py
@@ -81,7 +81,7 @@ WirelessRadioLed = Usage("desktop.WirelessRadioLed", 0x100c7, OOC)
 WirelessRadioSliderSwitch = Usage("desktop.WirelessRadioSliderSwitch", 0x100c8, OOC)
 
 # HUTRR52
-SystemDisplayRotationLockButton = Usage("desktop.SystemDisplayRotationLockButton", 0x1000C9, OOC)
+SystemDisplayRotationLockButton = Usage("desktop.SystemDisplayRotationLockButton", 0x100C9, OOC)
 SystemDisplayRotationLockSliderSwitch = Usage("desktop.SystemDisplayRotationLockSliderSwitch", 0x100CA, OOC)
 
 # HUTRR50
-- 
2.43.0


From a3f33a3ea7fdd380df085d0391fe2286b6defa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:36 +0000
Subject: [PATCH 15/27] fix: restore usage page on Pop when naming usages

---
 hrdc/stream/parser/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hrdc/stream/parser/base.py b/hrdc/stream/parser/base.py
index 7411b9d..d9ea0f0 100644
--- a/hrdc/stream/parser/base.py
+++ b/hrdc/stream/parser/base.py
@@ -21,6 +21,7 @@ class Parser(Stream, metaclass = _ParserMeta):
         self.input = input
         self.output = output
         self.usagePage = 0
+        self.usagePageStack = []
 
     def blobParse(self, blob):
         while blob:
@@ -40,6 +41,12 @@ class Parser(Stream, metaclass = _ParserMeta):
             self.usagePage = int(i.value)
             i = item.UsagePage(usage.Usage.page(i.value))
 
+        elif i.kind == item.Item.Global and i.tag == item.GlobalItem.Push:
+            self.usagePageStack.append(self.usagePage)
+
+        elif i.kind == item.Item.Global and i.tag == item.GlobalItem.Pop and self.usagePageStack:
+            self.usagePage = self.usagePageStack.pop()
+
         if i.kind == item.Item.Local \
                and i.tag in (item.LocalItem.Usage, item.LocalItem.UsageMinimum, item.LocalItem.UsageMaximum) \
                and (int(i.value) >> 16) == 0:
-- 
2.43.0


From a236ff5ff2860bee7dac070f28f73cc35f21b772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:01 +0000
Subject: [PATCH 16/27] fix: honour Push and Pop when decompiling

---
 hrdc/descriptor/extractor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 792b45f..ae67e09 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -10,6 +10,7 @@ class Extractor(Stream):
         for kind, tag in item.Item.registry.keys():
             if kind == item.Item.Global:
                 self.globals[int(tag)] = 0
+        self.globalStack = []
         self.localsClear()
         self.stack = []
         self.currentLevel = TopLevel()
@@ -66,7 +67,12 @@ class Extractor(Stream):
 
     def _append(self, i):
         if i.kind == item.Item.Global:
-            self.globals[int(i.tag)] = i.value
+            if i.tag == item.GlobalItem.Push:
+                self.globalStack.append(dict(self.globals))
+            elif i.tag == item.GlobalItem.Pop:
+                self.globals = self.globalStack.pop()
+            else:
+                self.globals[int(i.tag)] = i.value
 
         elif i.kind == item.Item.Local:
             if i.tag == item.LocalItem.Usage:
-- 
2.43.0


From e7cefad697a3b829569d355f915a04fa562796f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:02 +0000
Subject: [PATCH 17/27] fix: keep every range of a main item when decompiling

---
 hrdc/descriptor/extractor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index ae67e09..6389b37 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -87,17 +87,18 @@ class Extractor(Stream):
             else:
                 self.locals[int(i.tag)] = i.value
 
-        elif i.kind == item.Item.Main:
             # Expand ranges
             for min, max, target in [
                 (item.LocalItem.UsageMinimum, item.LocalItem.UsageMaximum, self.usages),
                 (item.LocalItem.DesignatorMinimum, item.LocalItem.DesignatorMaximum, self.designators),
                 (item.LocalItem.StringMinimum, item.LocalItem.StringMaximum, self.strings),
                 ]:
-                if self.locals[int(min)] is not None and self.locals[int(max)] is not None and not target:
+                if self.locals[int(min)] is not None and self.locals[int(max)] is not None:
                     for val in range(int(self.locals[int(min)]), int(self.locals[int(max)] + 1)):
                         target.append(val)
+                    self.locals[int(min)] = self.locals[int(max)] = None
 
+        elif i.kind == item.Item.Main:
             if i.tag == item.MainItem.Collection:
                 self.enter(i.value, self.usage())
 
-- 
2.43.0


From e59fb7a6c9c815a2d25ff6069b308b1b26e037f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:04 +0000
Subject: [PATCH 18/27] fix: dont add padding when recompiling unaligned values

---
 hrdc/descriptor/extractor.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 6389b37..bf840c9 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -15,6 +15,7 @@ class Extractor(Stream):
         self.stack = []
         self.currentLevel = TopLevel()
         self.inNamedArrayCollection = False
+        self.offsets = {}
 
     def localsClear(self):
         self.usages = []
@@ -135,7 +136,16 @@ class Extractor(Stream):
             level.__report_ids |= child.__report_ids
 
     def addValue(self, v):
-        v.__report_ids = set([int(self.globalValue(item.GlobalItem.ReportID))])
+        report_id = int(self.globalValue(item.GlobalItem.ReportID))
+        v.__report_ids = set([report_id])
+
+        # Value lies where its descriptor says, dont pad further
+        key = int(v.way), report_id
+        offset = self.offsets.get(key, 0)
+        if v.alignment > 1 and offset % v.alignment:
+            v.alignment = 1
+        self.offsets[key] = offset + v.size * v.count
+
         self.currentLevel.append(v)
 
     def ended(self, root):
-- 
2.43.0


From c5bb7456ca460a1d0a2c53d9a1d9c23145fee3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:06 +0000
Subject: [PATCH 19/27] fix: keep units of named arrays when decompiling

---
 hrdc/descriptor/extractor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index bf840c9..22d2607 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -216,6 +216,8 @@ class Extractor(Stream):
                       namedArray = uArray,
                       designator = self.designator(),
                       string = self.string(),
+                      unit = self.globalValue(item.GlobalItem.Unit),
+                      unitExponent = self.globalValue(item.GlobalItem.UnitExponent),
                       )
                 )
 
@@ -238,6 +240,8 @@ class Extractor(Stream):
                           namedArray = uArray,
                           designator = self.designator(),
                           string = self.string(),
+                          unit = self.globalValue(item.GlobalItem.Unit),
+                          unitExponent = self.globalValue(item.GlobalItem.UnitExponent),
                           )
                     )
 
-- 
2.43.0


From ff6ade6608deb32735e7213490b682575f260037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:08 +0000
Subject: [PATCH 20/27] fix: dont print noncontiguous array errors in
 decompiled output

---
 hrdc/descriptor/extractor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 22d2607..615195a 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -229,8 +229,7 @@ class Extractor(Stream):
             uArray = list(map(self.usage, list(range(len(self.usages)))))
             try:
                 uArray = usage.UsageRange.from_array(uArray)
-            except ValueError as e:
-                print(e)
+            except ValueError:
                 pass
             for no in range(self.globalValue(item.GlobalItem.ReportCount)):
                 self.addValue(
-- 
2.43.0


From bf98dabec2c42354e0a406e2bb57898fcdd6f5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:09 +0000
Subject: [PATCH 21/27] fix: keep usages of buffered bytes controls when
 decompiling

---
 hrdc/descriptor/extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 615195a..dfaa207 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -244,7 +244,8 @@ class Extractor(Stream):
                           )
                     )
 
-        elif i.value & item.DataItem.BufferedBytes:
+        elif i.value & item.DataItem.BufferedBytes \
+                 and max((len(self.usages), len(self.designators), len(self.strings))) <= 1:
 
             ue = self.globalValue(item.GlobalItem.UnitExponent)
             self.addValue(
-- 
2.43.0


From 3808e3a00eb4a159007f219cc6b20fbf7393eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:44 +0000
Subject: [PATCH 22/27] fix: keep empty collections and everything in named
 array collections when decompiling

---
 hrdc/descriptor/extractor.py | 84 ++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 47 deletions(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index dfaa207..3652df4 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -14,7 +14,6 @@ class Extractor(Stream):
         self.localsClear()
         self.stack = []
         self.currentLevel = TopLevel()
-        self.inNamedArrayCollection = False
         self.offsets = {}
 
     def localsClear(self):
@@ -104,10 +103,7 @@ class Extractor(Stream):
                 self.enter(i.value, self.usage())
 
             elif i.tag == item.MainItem.EndCollection:
-                if self.inNamedArrayCollection:
-                    self.inNamedArrayCollection = False
-                else:
-                    self.leave(self.currentLevel)
+                self.leave(self.namedArrayFold(self.currentLevel))
 
                 if len(self.stack) == 0:
                     self.reportIdMerge(self.currentLevel)
@@ -124,11 +120,11 @@ class Extractor(Stream):
         self.stack.append(self.currentLevel)
         self.currentLevel = Collection(kind, usage)
 
-    def leave(self, level = None):
+    def leave(self, level):
         self.currentLevel = self.stack.pop()
-        if level:
+        if isinstance(level, Hierarchical):
             self.reportIdMerge(level)
-            self.currentLevel.append(level)
+        self.currentLevel.append(level)
 
     def reportIdMerge(self, level):
         level.__report_ids = set()
@@ -182,50 +178,44 @@ class Extractor(Stream):
 
         return r
 
+    def isNamedArrayCollection(self, level):
+        return isinstance(level, Collection) \
+               and level.kind == Collection.Logical \
+               and level.usage is not None \
+               and usage.NAry.test(level.usage)
+
+    def isNamedArray(self, i):
+        if len(self.usages) != (self.globalValue(item.GlobalItem.LogicalMaximum)
+                                - self.globalValue(item.GlobalItem.LogicalMinimum) + 1):
+            return False
+
+        # Including without enclosing collection (like in Keyboard RD)
+        if i.value == (item.DataItem.Data | item.DataItem.Array):
+            return True
+
+        # Variable controls have one usage each
+        return (self.globalValue(item.GlobalItem.ReportCount) == 1
+                and len(self.usages) > 1
+                and ((i.value == item.DataItem.Variable
+                      and isinstance(self.currentLevel, Collection)
+                      and self.currentLevel.kind == Collection.NamedArray)
+                     or self.isNamedArrayCollection(self.currentLevel)))
+
+    def namedArrayFold(self, level):
+        """A named array collection that only holds its array is one value"""
+        if self.isNamedArrayCollection(level) and len(level) == 1:
+            value = level[0]
+            if isinstance(value, Value) and value.namedArray and value.usage is None:
+                value.usage = level.usage
+                return value
+        return level
+
     def handleDataItem(self, i):
         if i.value & item.DataItem.Constant:
             self.addValue(Padding(i.tag, self.globalValue(item.GlobalItem.ReportSize)
                                           * self.globalValue(item.GlobalItem.ReportCount)))
 
-        elif (self.globalValue(item.GlobalItem.ReportCount) == 1
-              and len(self.usages) == (self.globalValue(item.GlobalItem.LogicalMaximum)
-                                       - self.globalValue(item.GlobalItem.LogicalMinimum) + 1)
-              and ((i.value == item.DataItem.Variable
-                    and self.currentLevel.kind == Collection.NamedArray)
-                   or (i.value == item.DataItem.Array
-                       and self.currentLevel.kind == Collection.Logical
-                       and usage.NAry.test(self.currentLevel.usage))
-                   or (self.currentLevel.kind == Collection.Logical
-                       and usage.NAry.test(self.currentLevel.usage)))):
-
-            self.inNamedArrayCollection = True
-            arrayCollection = self.currentLevel
-            self.leave()
-            assert len(arrayCollection) == 0
-
-            uArray = list(map(self.usage, list(range(len(self.usages)))))
-            try:
-                uArray = usage.UsageRange.from_array(uArray)
-            except ValueError:
-                pass
-
-            self.addValue(
-                Value(i.tag, arrayCollection.usage,
-                      self.globalValue(item.GlobalItem.ReportSize),
-                      logicalMin = self.globalValue(item.GlobalItem.LogicalMinimum),
-                      namedArray = uArray,
-                      designator = self.designator(),
-                      string = self.string(),
-                      unit = self.globalValue(item.GlobalItem.Unit),
-                      unitExponent = self.globalValue(item.GlobalItem.UnitExponent),
-                      )
-                )
-
-        # Named array without enclosing collection (like in Keyboard RD)
-        elif i.value == (item.DataItem.Data | item.DataItem.Array) and \
-                 len(self.usages) == (self.globalValue(item.GlobalItem.LogicalMaximum)
-                                      - self.globalValue(item.GlobalItem.LogicalMinimum) + 1):
-
+        elif self.isNamedArray(i):
             uArray = list(map(self.usage, list(range(len(self.usages)))))
             try:
                 uArray = usage.UsageRange.from_array(uArray)
-- 
2.43.0


From 574c623dd43a96632557a827823fafa3018365df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:05 +0000
Subject: [PATCH 23/27] fix: dump vendor collection kinds as numbers

---
 hrdc/descriptor/dumper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/dumper.py b/hrdc/descriptor/dumper.py
index 2a623f7..426089f 100644
--- a/hrdc/descriptor/dumper.py
+++ b/hrdc/descriptor/dumper.py
@@ -35,7 +35,9 @@ descriptor = """)
 
             self.__indent += 1
         elif isinstance(e, descriptor.Collection):
-            self.write(self.indent() + "Collection(Collection.%s, %s,\n" % (e.kind, Usage.lookup(e.usage) if e.usage is not None else None))
+            # Only standard kinds have a name
+            kind = "Collection.%s" % e.kind if isinstance(e.kind, NamedConstant) else e.kind
+            self.write(self.indent() + "Collection(%s, %s,\n" % (kind, Usage.lookup(e.usage) if e.usage is not None else None))
             
             self.__indent += 1
 
-- 
2.43.0


From 2bccc3281b5a5b741b1a676d0582c681721f8927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:05 +0000
Subject: [PATCH 24/27] fix: name the velocity unit after its constant

---
 hrdc/stream/item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index d47eea9..fc2da2b 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -295,7 +295,7 @@ class Unit(GlobalItem):
     Fahrenheit = NamedConstant("Fahrenheit", EnglishLinear | temperature(1))
     Ampere = NamedConstant("Ampere", current(1))
     Candela = NamedConstant("Candela", luminousintensity(1))
-    CmPerSec = NamedConstant("Velocity", SILinear | time(-1) | length(1))
+    CmPerSec = NamedConstant("CmPerSec", SILinear | time(-1) | length(1))
     Momentum = NamedConstant("Momentum", SILinear | time(-1) | length(1) | mass(1))
     G = NamedConstant("G", SILinear | time(-2) | length(1))
     Newton = NamedConstant("Newton", SILinear | time(-2) | length(1) | mass(1))
-- 
2.43.0


From e52fdc45aae2d74f2ce098ef4b3f541fbd38c4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:21 +0000
Subject: [PATCH 25/27] fix: read and write binary descriptors in named files

---
 hrdc/stream/formatter/binary.py | 4 ++--
 hrdc/stream/parser/binary.py    | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/hrdc/stream/formatter/binary.py b/hrdc/stream/formatter/binary.py
index 62f1399..e1fbc47 100644
--- a/hrdc/stream/formatter/binary.py
+++ b/hrdc/stream/formatter/binary.py
@@ -2,8 +2,8 @@ from .base import Formatter
 
 class Binary(Formatter):
     def __init__(self, output):
-        import sys
-        if output == sys.stdout and hasattr(output, "buffer"):
+        # Text files, standard output included
+        if hasattr(output, "buffer"):
             self.output = output.buffer
         else:
             self.output = output
diff --git a/hrdc/stream/parser/binary.py b/hrdc/stream/parser/binary.py
index ccfa24e..8a8a8b4 100644
--- a/hrdc/stream/parser/binary.py
+++ b/hrdc/stream/parser/binary.py
@@ -2,9 +2,8 @@ from .base import Parser
 
 class Binary(Parser):
     def __init__(self, input, output):
-        import sys
-
-        if input == sys.stdin and hasattr(input, "buffer"):
+        # Text files, standard input included
+        if hasattr(input, "buffer"):
             input = input.buffer
 
         Parser.__init__(self, input, output)
-- 
2.43.0


From b480dee02332b03e38f135659814eed5297c00f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:05 +0000
Subject: [PATCH 26/27] fix: accept the 0X prefix in hexadecimal input

Bytes written as 0X05 were silently left out.
---
 hrdc/stream/parser/hex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/stream/parser/hex.py b/hrdc/stream/parser/hex.py
index c2424f4..dc03c23 100644
--- a/hrdc/stream/parser/hex.py
+++ b/hrdc/stream/parser/hex.py
@@ -4,6 +4,6 @@ import re
 class Hex(Parser):
     def read(self, *args):
         contents = self.input.read(*args)
-        blob = bytes(int(x, 16) for x in re.findall(r"\b(?:0x)?[0-9A-Fa-f]{2}\b", contents))
+        blob = bytes(int(x, 16) for x in re.findall(r"\b(?:0[xX])?[0-9A-Fa-f]{2}\b", contents))
         self.blobParse(blob)
             
-- 
2.43.0


From 465019ddb34e7ab6179f79992bcbf717ae06548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:01 +0000
Subject: [PATCH 27/27] fix: refuse to decompile descriptors with unended
 collections

A collection not ended after a complete one was silently left out.
---
 hrdc/descriptor/extractor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 3652df4..e99d3ae 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -116,6 +116,10 @@ class Extractor(Stream):
 
             self.localsClear()
 
+    def close(self):
+        if self.stack:
+            raise ValueError("%d collections are not ended" % len(self.stack))
+
     def enter(self, kind, usage):
         self.stack.append(self.currentLevel)
         self.currentLevel = Collection(kind, usage)
-- 
2.43.0

