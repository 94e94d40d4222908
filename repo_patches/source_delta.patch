From 6eef0e7c5b18a0879e84a47d8f1e7185aa28ee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 01/76] fix: mailbox num() returns the number of items, not
 whether there is one

---
 src/uvm/base/uvm_mailbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_mailbox.py b/src/uvm/base/uvm_mailbox.py
index f82140e..ef519e0 100644
--- a/src/uvm/base/uvm_mailbox.py
+++ b/src/uvm/base/uvm_mailbox.py
@@ -152,4 +152,4 @@ class UVMMailbox():
         return self.m_queue.size() < self.max_size
 
     def num(self) -> int:
-        return self.m_queue.size() > 0
+        return self.m_queue.size()
-- 
2.43.0


From b054f5cc927c8cae38917cc83b70aa14d4634027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 02/76] fix: mailbox peek woken when another process already
 took the item waits again instead of returning None

---
 src/uvm/base/uvm_mailbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_mailbox.py b/src/uvm/base/uvm_mailbox.py
index ef519e0..5a9f616 100644
--- a/src/uvm/base/uvm_mailbox.py
+++ b/src/uvm/base/uvm_mailbox.py
@@ -85,7 +85,7 @@ class UVMMailbox():
 
     async def peek(self, itemq: OutputItem=None) -> Any:
         """ Peeks (with blocking) next item from mailbox without removing it """
-        if not self.can_get():
+        while not self.can_get():
             _uvm_debug(self, 'get', 'waiting write event to get item')
             self.m_write_event.clear()
             await self.m_write_event.wait()
-- 
2.43.0


From 740826b1b484288a85a0602ff456f9c9cf9846da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 03/76] fix: TLM FIFO try_get/flush publish the item got, not
 the first element of the caller's list

---
 src/uvm/tlm1/uvm_tlm_fifos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/tlm1/uvm_tlm_fifos.py b/src/uvm/tlm1/uvm_tlm_fifos.py
index 32a3093..d875e0e 100644
--- a/src/uvm/tlm1/uvm_tlm_fifos.py
+++ b/src/uvm/tlm1/uvm_tlm_fifos.py
@@ -130,7 +130,7 @@ class UVMTLMFIFO(UVMTLMFIFOBase):
     def try_get(self, t) -> bool:
         if not self.m.try_get(t):
             return False
-        self.get_ap.write(t[0])
+        self.get_ap.write(t[-1])
         return True
 
     def try_peek(self, t) -> bool:
-- 
2.43.0


From 2e3da0a16d775a2dbac1cc49024f89bc96c32605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 04/76] fix: TLM FIFO peek hands the item out once in the
 output list, not twice

---
 src/uvm/tlm1/uvm_tlm_fifos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/tlm1/uvm_tlm_fifos.py b/src/uvm/tlm1/uvm_tlm_fifos.py
index d875e0e..0e6c549 100644
--- a/src/uvm/tlm1/uvm_tlm_fifos.py
+++ b/src/uvm/tlm1/uvm_tlm_fifos.py
@@ -122,7 +122,7 @@ class UVMTLMFIFO(UVMTLMFIFOBase):
         return res
 
     async def peek(self, t=None) -> Any:
-        res = await self.m.peek(t)
+        res = await self.m.peek()
         if t is not None:
             t.append(res)
         return res
-- 
2.43.0


From 9545663073f58349e6c00c8d4e2cab9d93413477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 05/76] fix: blocking transport interface mask no longer equals
 the non-blocking put mask (transport port could be bound to a put export, and
 never to a provider lacking try_put)

---
 src/uvm/macros/uvm_tlm_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_tlm_defines.py b/src/uvm/macros/uvm_tlm_defines.py
index 8a3c122..ed7b628 100644
--- a/src/uvm/macros/uvm_tlm_defines.py
+++ b/src/uvm/macros/uvm_tlm_defines.py
@@ -628,7 +628,7 @@ def UVM_SEQ_ITEM_PULL_IMP(T, imp):
 UVM_TLM_BLOCKING_PUT_MASK = (1 << 0)
 UVM_TLM_BLOCKING_GET_MASK = (1 << 1)
 UVM_TLM_BLOCKING_PEEK_MASK = (1 << 2)
-UVM_TLM_BLOCKING_TRANSPORT_MASK = (2 << 3)
+UVM_TLM_BLOCKING_TRANSPORT_MASK = (1 << 3)
 #
 UVM_TLM_NONBLOCKING_PUT_MASK = (1 << 4)
 UVM_TLM_NONBLOCKING_GET_MASK = (1 << 5)
-- 
2.43.0


From 6f0bf3f3d2a7f9b342f6f91be2ff7103cd0107fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 06/76] fix: event trigger calls pre_trigger of every callback
 (not only the last) and is vetoed only by a true result (a callback returning
 0 vetoed every trigger)

---
 src/uvm/base/uvm_event.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_event.py b/src/uvm/base/uvm_event.py
index 0255789..50cbef9 100644
--- a/src/uvm/base/uvm_event.py
+++ b/src/uvm/base/uvm_event.py
@@ -331,7 +331,8 @@ class UVMEvent(UVMEventBase):  # (type T=uvm_object) extends uvm_event_base
             for i in range(0, self.callbacks.size()):
                 #uvm_event_callback#(T) tmp=self.callbacks[i]
                 tmp = self.callbacks.get(i)
-            skip = skip + tmp.pre_trigger(self, data)
+                if tmp.pre_trigger(self, data):
+                    skip = True
         if skip is False:
             self.m_event.set(data)
             if self.callbacks.size() > 0:
-- 
2.43.0


From 8abae193871f6dbaabbeb3dbdca1680473ebb363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 07/76] fix: event add_callback with append=False registers the
 callback also when there is none yet

---
 src/uvm/base/uvm_event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_event.py b/src/uvm/base/uvm_event.py
index 50cbef9..fa96c9d 100644
--- a/src/uvm/base/uvm_event.py
+++ b/src/uvm/base/uvm_event.py
@@ -377,7 +377,7 @@ class UVMEvent(UVMEventBase):  # (type T=uvm_object) extends uvm_event_base
         if append is True:
             self.callbacks.push_back(cb)
         else:
-            self.callbacks.insert(0, cb)
+            self.callbacks.push_front(cb)
 
 
     def delete_callback(self, cb):
-- 
2.43.0


From 53bfbc863f3974828d0c5c18e076de3dab2c57f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 08/76] fix: event wait_trigger is not released by an earlier
 trigger, and wait_ptrigger sees a trigger only within its time slice

---
 src/uvm/base/uvm_event.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_event.py b/src/uvm/base/uvm_event.py
index fa96c9d..98c2deb 100644
--- a/src/uvm/base/uvm_event.py
+++ b/src/uvm/base/uvm_event.py
@@ -54,6 +54,7 @@ class UVMEventBase(UVMObject):
         self.on = False
         self.on_event = Event("on_event_" + name)
         self.trigger_time = 0
+        self.m_trigger_slice = None  # Time slice of the last trigger
         self.callbacks = UVMQueue()  # list[uvm_event_callback]
         self.m_waiters = 0
         self.m_value_changed_event = Event("value_changed_event_" + name)
@@ -144,8 +145,8 @@ class UVMEventBase(UVMObject):
 
         """
         self.num_waiters += 1
+        self.m_event.clear()  # An earlier trigger must not release this waiter
         await self.m_event.wait()
-        self.m_event.clear()
 
 
     async def wait_ptrigger(self):
@@ -155,11 +156,11 @@ class UVMEventBase(UVMObject):
         certain race conditions. If this method is called after the trigger but
         within the same time-slice, the caller returns immediately.
         """
-        if self.m_event.fired:
+        if self.m_trigger_slice == sv.realtime('step'):
             return
         self.num_waiters += 1
-        await self.m_event.wait()
         self.m_event.clear()
+        await self.m_event.wait()
 
     def get_trigger_time(self):
         """
@@ -205,6 +206,7 @@ class UVMEventBase(UVMObject):
         if wakeup:
             self.m_event.set()
         self.m_event = Event()
+        self.m_trigger_slice = None
         self.num_waiters = 0
         self.set_value("on", False)
         self.trigger_time = 0
@@ -335,6 +337,7 @@ class UVMEvent(UVMEventBase):  # (type T=uvm_object) extends uvm_event_base
                     skip = True
         if skip is False:
             self.m_event.set(data)
+            self.m_trigger_slice = sv.realtime('step')
             if self.callbacks.size() > 0:
                 for i in range(0, self.callbacks.size()):
                     #uvm_event_callback#(T) tmp=self.callbacks[i]
-- 
2.43.0


From f2c926a1e09c311fe4e904c2a2a0c60ffcc334b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 09/76] fix: barrier releases its waiters when the threshold is
 reached (the trigger coroutine was never awaited)

---
 src/uvm/base/uvm_barrier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_barrier.py b/src/uvm/base/uvm_barrier.py
index 370ac93..62f3511 100644
--- a/src/uvm/base/uvm_barrier.py
+++ b/src/uvm/base/uvm_barrier.py
@@ -68,7 +68,7 @@ class UVMBarrier(UVMObject):
         if self.num_waiters >= self.threshold:
             if not self.auto_reset:
                 self.at_threshold=1
-            self.m_trigger()
+            await self.m_trigger()
             return
 
         await self.m_event.wait_trigger()
-- 
2.43.0


From 611b4162f800f537b3036e310a2ef2b743e679c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 10/76] fix: barrier event gets a string as its name, not a set

---
 src/uvm/base/uvm_barrier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_barrier.py b/src/uvm/base/uvm_barrier.py
index 62f3511..9bf3c42 100644
--- a/src/uvm/base/uvm_barrier.py
+++ b/src/uvm/base/uvm_barrier.py
@@ -46,7 +46,7 @@ class UVMBarrier(UVMObject):
     #
     def __init__(self, name="", threshold=0):
         super().__init__(name)
-        self.m_event = UVMEvent({"barrier_",name})
+        self.m_event = UVMEvent("barrier_" + name)
         self.threshold = threshold
         self.num_waiters = 0
         self.auto_reset = 1
-- 
2.43.0


From 3909b6b3211020c081bee437f1370c7639374628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:40 +0000
Subject: [PATCH 11/76] fix: a regular expression written between slashes is
 matched without its slashes (it never matched)

---
 src/uvm/base/sv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index 8a4a0f4..34bffc0 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -44,6 +44,9 @@ RET_OK = 0
 
 
 def uvm_re_match(rex, _str):
+    # The slashes around an explicit regular expression are not part of it
+    if len(rex) > 1 and rex[0] == "/" and rex[-1] == "/":
+        rex = rex[1:-1]
     m = re.search(rex, _str)
     if m is not None:
         return RET_OK
@@ -60,7 +63,7 @@ def uvm_glob_to_re(_str: str) -> str:
     """
     if _str is None or _str == "":
         return ""
-    if _str[0] == "/" and _str[-1] == "/":
+    if len(_str) > 1 and _str[0] == "/" and _str[-1] == "/":
         return _str
     res = _str.replace('.', '\\.')
     res = res.replace('*', '.*')
-- 
2.43.0


From 2a3453e8a02070a667adb8d35e33c208452d50eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:40 +0000
Subject: [PATCH 12/76] fix: uvm_is_match matches the whole string, not any
 part of it (a path without wildcard matched longer paths)

---
 src/uvm/base/uvm_globals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uvm/base/uvm_globals.py b/src/uvm/base/uvm_globals.py
index b20cadd..10877e2 100644
--- a/src/uvm/base/uvm_globals.py
+++ b/src/uvm/base/uvm_globals.py
@@ -247,6 +247,8 @@ def uvm_is_match(expr: str, _str: str) -> int:
     It must not contain any wildcards.
     """
     s = uvm_glob_to_re(expr)
+    if s != "" and not s.startswith("/"):
+        s = "^" + s + "$"
     return uvm_re_match(s, _str) == 0
 
 
-- 
2.43.0


From 0b1081e326667818d215939c33d3f0689bdea208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:40 +0000
Subject: [PATCH 13/76] fix: glob patterns escape parentheses and know '+', as
 the UVM glob does (a name with a parenthesis raised re.error)

---
 src/uvm/base/sv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index 34bffc0..572f108 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -66,9 +66,12 @@ def uvm_glob_to_re(_str: str) -> str:
     if len(_str) > 1 and _str[0] == "/" and _str[-1] == "/":
         return _str
     res = _str.replace('.', '\\.')
+    res = res.replace('+', '.+')
     res = res.replace('*', '.*')
     res = res.replace('[', '\\[')
     res = res.replace(']', '\\]')
+    res = res.replace('(', '\\(')
+    res = res.replace(')', '\\)')
     res = res.replace('?', '.')
     # TODO add more substitutions
     return res
-- 
2.43.0


From c7f7935a567a9e503277fe33a985af9d3a9b56fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 14/76] fix: a type override by name no longer rebinds the
 original type's name to the override type (instance overrides and later
 replacements were ignored for creation by name)

---
 src/uvm/base/uvm_factory.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 91c943a..68b29ed 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -333,7 +333,6 @@ class UVMDefaultFactory(UVMFactory):
                            ovrd_type=override_type)
 
             self.m_type_overrides.append(override)
-            self.m_type_names.add(original_type_name, override.ovrd_type)
 
     def check_inst_override_exists(self, original_type, override_type,
             full_inst_path):
-- 
2.43.0


From 7d55f85846f36382e813cd3845a657a1ab253aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 15/76] fix: factory implements set_inst_override_by_name, and
 components set_inst_override(_by_type), as the API and the command line
 promise

---
 src/uvm/base/uvm_component.py |  38 +++++-------
 src/uvm/base/uvm_factory.py   | 110 ++++++++++++++++------------------
 2 files changed, 68 insertions(+), 80 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 032489a..71b4bd5 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -1509,25 +1509,13 @@ class UVMComponent(UVMReportObject):
     #//|    endfunction
     #//|    ...
     #//|  endclass
-    #extern function void set_inst_override_by_type(string relative_inst_path,
-    #                                               uvm_object_wrapper original_type,
-    #                                               uvm_object_wrapper override_type)
-    #function void uvm_component::set_inst_override_by_type (string relative_inst_path,
-    #                                                        uvm_object_wrapper original_type,
-    #                                                        uvm_object_wrapper override_type)
-    #  string full_inst_path
-    #  uvm_coreservice_t cs = uvm_coreservice_t::get()
-    #  uvm_factory factory=cs.get_factory()
-    #
-    #  if (relative_inst_path == "")
-    #    full_inst_path = get_full_name()
-    #  else
-    #    full_inst_path = {get_full_name(), ".", relative_inst_path}
-    #
-    #  factory.set_inst_override_by_type(original_type, override_type, full_inst_path)
-    #
-    #endfunction
-
+    def set_inst_override_by_type(self, relative_inst_path, original_type,
+            override_type):
+        full_inst_path = self.get_full_name()
+        if relative_inst_path != "":
+            full_inst_path += "." + relative_inst_path
+        factory = _get_factory()
+        factory.set_inst_override_by_type(original_type, override_type, full_inst_path)
 
     @classmethod
     def set_type_override(cls, original_type_name, override_type_name,
@@ -1572,10 +1560,14 @@ class UVMComponent(UVMReportObject):
     #// instance path will produce the type represented by `override_type_name`.
     #// The `override_type_name` must refer to a preregistered type in the factory.
 
-    #extern function void set_inst_override(string relative_inst_path,
-    #                                       string original_type_name,
-    #                                       string override_type_name)
-
+    def set_inst_override(self, relative_inst_path, original_type_name,
+            override_type_name):
+        full_inst_path = self.get_full_name()
+        if relative_inst_path != "":
+            full_inst_path += "." + relative_inst_path
+        factory = _get_factory()
+        factory.set_inst_override_by_name(original_type_name, override_type_name,
+            full_inst_path)
 
     def print_override_info(self, requested_type_name, name=""):
         """
diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 68b29ed..ae0bcbf 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -408,63 +408,59 @@ class UVMDefaultFactory(UVMFactory):
         self.m_inst_override_queues[original_type].push_back(override)
 
 
-    # set_inst_override_by_name
-    # TODO
-    #function void uvm_default_factory::set_inst_override_by_name (
-    # string original_type_name,
-    #                                                      string override_type_name,
-    #                                                      string full_inst_path)
-    #
-    #  uvm_factory_override override
-    #  uvm_object_wrapper original_type
-    #  uvm_object_wrapper override_type
-    #
-    #  if(self.m_type_names.exists(original_type_name))
-    #    original_type = self.m_type_names[original_type_name]
-    #
-    #  if(self.m_type_names.exists(override_type_name))
-    #    override_type = self.m_type_names[override_type_name]
-    #
-    #  // check that type is registered with the factory
-    #  if (override_type  is None):
-    #    uvm_report_error("TYPNTF", {"Cannot register instance override with type name '",
-    #    original_type_name,"' and instance path '",full_inst_path,"' because the type it's supposed ",
-    #    "to produce, '",override_type_name,"', is not registered with the factory."}, UVM_NONE)
-    #    return
-    #  end
-    #
-    #  if (original_type  is None)
-    #      m_lookup_strs[original_type_name] = 1
-    #
-    #  override = new(.full_inst_path(full_inst_path),
-    #                 .orig_type(original_type),
-    #                 .orig_type_name(original_type_name),
-    #                 .ovrd_type(override_type))
-    #
-    #  if(original_type != null):
-    #    if (check_inst_override_exists(original_type,override_type,full_inst_path))
-    #      return
-    #    if(!m_inst_override_queues.exists(original_type))
-    #      m_inst_override_queues[original_type] = new
-    #    m_inst_override_queues[original_type].queue.push_back(override)
-    #  end
-    #  else:
-    #    if(m_has_wildcard(original_type_name)):
-    #       foreach(self.m_type_names[i]):
-    #         if(uvm_is_match(original_type_name,i)):
-    #           this.set_inst_override_by_name(i, override_type_name, full_inst_path)
-    #         end
-    #       end
-    #       m_wildcard_inst_overrides.push_back(override)
-    #    end
-    #    else:
-    #      if(!self.m_inst_override_name_queues.exists(original_type_name))
-    #        self.m_inst_override_name_queues[original_type_name] = new
-    #      self.m_inst_override_name_queues[original_type_name].queue.push_back(override)
-    #    end
-    #  end
-    #
-    #endfunction
+    def set_inst_override_by_name(self, original_type_name, override_type_name,
+            full_inst_path):
+        """
+        Configures the factory to create the override type named
+        `override_type_name` when the type named `original_type_name` (which
+        may contain wildcards, and need not be registered yet) is requested
+        at an instance path matching `full_inst_path`.
+
+        Args:
+            original_type_name (str):
+            override_type_name (str):
+            full_inst_path (str):
+        """
+        original_type = None
+        override_type = None
+
+        if self.m_type_names.exists(original_type_name):
+            original_type = self.m_type_names.get(original_type_name)
+
+        if self.m_type_names.exists(override_type_name):
+            override_type = self.m_type_names.get(override_type_name)
+
+        # check that type is registered with the factory
+        if override_type is None:
+            uvm_report_error("TYPNTF", ("Cannot register instance override with type name '"
+                + original_type_name + "' and instance path '" + full_inst_path
+                + "' because the type it's supposed to produce, '" + override_type_name
+                + "', is not registered with the factory."), UVM_NONE)
+            return
+
+        if original_type is None:
+            self.m_lookup_strs[original_type_name] = 1
+
+        override = UVMFactoryOverride(full_inst_path=full_inst_path,
+                orig_type=original_type,
+                orig_type_name=original_type_name,
+                ovrd_type=override_type)
+
+        if original_type is not None:
+            if self.check_inst_override_exists(original_type, override_type, full_inst_path):
+                return
+            if original_type not in self.m_inst_override_queues:
+                self.m_inst_override_queues[original_type] = UVMQueue()
+            self.m_inst_override_queues[original_type].push_back(override)
+        elif m_has_wildcard(original_type_name):
+            for tname in list(self.m_type_names.key_list()):
+                if uvm_is_match(original_type_name, tname):
+                    self.set_inst_override_by_name(tname, override_type_name, full_inst_path)
+            self.m_wildcard_inst_overrides.push_back(override)
+        else:
+            if original_type_name not in self.m_inst_override_name_queues:
+                self.m_inst_override_name_queues[original_type_name] = UVMQueue()
+            self.m_inst_override_name_queues[original_type_name].push_back(override)
 
     def create_object_by_name(self, requested_type_name, parent_inst_path="",
               name=""):
-- 
2.43.0


From 977d677c026f54432dee25afe13eb74c2199c8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 16/76] fix: factory print shows the instance overrides of
 every type (all but one type's were lost), and debug_create of an unknown
 name warns instead of raising

---
 src/uvm/base/uvm_factory.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index ae0bcbf..1e4f5b8 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -731,9 +731,8 @@ class UVMDefaultFactory(UVMFactory):
 
         # sort the override queues
         for key in self.m_inst_override_queues:
-            obj = self.m_inst_override_queues[key]
-            tmp = obj.get_type_name()
-            if tmp == "":
+            tmp = key.get_type_name()
+            if tmp == "" or tmp in sorted_override_queues:
                 tmp = "__unnamed_id_" + str(id)
                 id += 1
             sorted_override_queues[tmp] = self.m_inst_override_queues[key]
@@ -878,8 +877,8 @@ class UVMDefaultFactory(UVMFactory):
         if requested_type is None:
             if (not self.m_type_names.exists(requested_type_name) and
                     not self.m_lookup_strs.exists(requested_type_name)):
-                uvm_report_warning("Factory Warning", {"The factory does not recognize '",
-                    requested_type_name,"' as a registered type."}, UVM_NONE)
+                uvm_report_warning("Factory Warning", "The factory does not recognize '"
+                    + requested_type_name + "' as a registered type.", UVM_NONE)
                 return
             UVMDefaultFactory.m_debug_pass = 1
             result = self.find_override_by_name(requested_type_name,full_inst_path)
-- 
2.43.0


From f6b1d8dc0d4cfdcd7e7690a4b6b8fd9c7e4ed2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 17/76] fix: creation by name accepts a type override of a type
 by itself (it reported a loop; creation by type did not)

---
 src/uvm/base/uvm_factory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 1e4f5b8..99e2d5c 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -636,6 +636,8 @@ class UVMDefaultFactory(UVMFactory):
                         lindex = self.m_type_overrides[index]
                 else:
                     self.m_type_overrides[index].used += 1
+                    if self.m_type_overrides[index].ovrd_type.get_type_name() == requested_type_name:
+                        return self.m_type_overrides[index].ovrd_type
                     return self.find_override_by_type(self.m_type_overrides[index].ovrd_type,full_inst_path)
 
         if UVMDefaultFactory.m_debug_pass and override is not None:
-- 
2.43.0


From 04b74f9a95e51dd2c3ffb504d109b13aa8a2c48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 18/76] fix: an instance override with a wildcard type name
 applies to types registered later also when they are created by type

---
 src/uvm/base/uvm_factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 99e2d5c..d6f076f 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -198,7 +198,9 @@ class UVMDefaultFactory(UVMFactory):
                 for i in range(0, self.m_wildcard_inst_overrides.size()):
                     wc_inst_override = self.m_wildcard_inst_overrides[i]
                     if uvm_is_match(wc_inst_override.orig_type_name, tname):
-                        self.m_inst_override_queues[obj].push_back(wc_inst_override)
+                        self.m_inst_override_queues[obj].push_back(UVMFactoryOverride(
+                            full_inst_path=wc_inst_override.full_inst_path,
+                            orig_type=obj, ovrd_type=wc_inst_override.ovrd_type))
 
     def set_type_override_by_type(self, original_type, override_type,
             replace=True):
-- 
2.43.0


From 69e100f0e557437a086dd1e0b957edd11c3ab569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 19/76] fix: raising a resource's priority moves it to the
 front of its queue (a repeated config_db set lost to other settings made
 before it)

---
 src/uvm/base/uvm_resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index 0a8617d..9f233af 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -1514,7 +1514,7 @@ class UVMResourcePool:
         q.pop(i)
 
         if pri == PRI_HIGH:
-            q.append(rsrc)
+            q.insert(0, rsrc)
         elif pri == PRI_LOW:
             q.append(rsrc)
 
-- 
2.43.0


From ea555931248072bd35fc0a0b3981f3f1c9e88406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 20/76] fix: sort_by_precedence sorts by precedence, not by
 order of appearance

---
 src/uvm/base/uvm_resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index 9f233af..150b48b 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -1283,7 +1283,7 @@ class UVMResourcePool:
                 _all[r.precedence] = UVMQueue()
             _all[r.precedence].push_front(r)  # since we will push_front in the final
         qq = []
-        for key in _all:
+        for key in sorted(_all):
             for j in range(len(_all[key])):
                 r = _all[key].get(j)
                 #qq.push_front(r)
-- 
2.43.0


From ad35f9c5053b9c376967f4d05df8a56f97b43c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 21/76] fix: a configuration setting applies to the instances
 whose whole path matches, not to every path containing a match (env.a also
 set env.a.b and env.ab)

---
 src/uvm/base/uvm_config_db.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_config_db.py b/src/uvm/base/uvm_config_db.py
index 9440e9c..aabfa2e 100644
--- a/src/uvm/base/uvm_config_db.py
+++ b/src/uvm/base/uvm_config_db.py
@@ -226,7 +226,11 @@ class UVMConfigDb(UVMResourceDb):
 
         r = None  # uvm_resource#(T) r;
         if not pool.exists(lookup):
-            r = UVMResource(field_name, inst_name)
+            # The setting is for the instances the whole of whose path matches
+            scope = uvm_glob_to_re(inst_name)
+            if scope != "" and scope[0] != "/":
+                scope = "/^" + scope + "$/"
+            r = UVMResource(field_name, scope)
             pool.add(lookup, r)
         else:
             r = pool.get(lookup)
-- 
2.43.0


From eeb90022e80e84cba4465c47051c48fc9b259dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 22/76] fix: automatic configuration applies the settings in
 ascending precedence, so that the winning one is applied last (the lowest
 precedence won), and recognises every indexed field name

---
 src/uvm/base/uvm_component.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 71b4bd5..7a3ff90 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -1216,10 +1216,11 @@ class UVMComponent(UVMReportObject):
         # // rq is in precedence order now, so we have to go through in reverse
         # // order to do the settings.
         #  for(int i=rq.size()-1; i>=0; --i):
-        for i in range(len(rq)):
+        for i in range(len(rq) - 1, -1, -1):
 
             r = rq[i]
             name = r.get_name()
+            j = 0
             # // does name have brackets [] in it?
             while j < len(name):
                 if (name[j] == "[" or name[j] == "."):
-- 
2.43.0


From 0543dcbd29dabbe6b9b961f8672f2f054b23f338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 23/76] fix: deleting an object from an object/event/barrier
 pool deletes it (it recursed endlessly)

---
 src/uvm/base/uvm_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index 23503ca..137371f 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -310,7 +310,7 @@ class UVMObjectStringPool(UVMPool[str, UVMObject]):
         if not self.exists(key):
             uvm_warning("POOLDEL", "delete: key '{}' doesn't exist".format(key))
             return
-        self.delete(key)
+        super().delete(key)
     #  endfunction
 
     def do_print(self, printer) -> None:
-- 
2.43.0


From cea1fa9491d52b79fb4415718bc056a7c89d939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 24/76] fix: the global event and barrier pools hold events and
 barriers (they were the pool of plain objects)

---
 src/uvm/base/uvm_pool.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index 137371f..6c6ac30 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -263,9 +263,10 @@ class UVMObjectStringPool(UVMPool[str, UVMObject]):
         Returns:
             UVMObjectStringPool: Global pool
         """
-        if UVMObjectStringPool.m_global_pool is None:
-            UVMObjectStringPool.m_global_pool = UVMObjectStringPool("global_pool")
-        return UVMObjectStringPool.m_global_pool
+        # Each kind of pool (events, barriers...) has its own global pool
+        if cls.__dict__.get("m_global_pool") is None:
+            cls.m_global_pool = cls("global_pool")
+        return cls.m_global_pool
 
 
     @classmethod
@@ -279,7 +280,7 @@ class UVMObjectStringPool(UVMPool[str, UVMObject]):
         Returns:
             any: Object matching the key in the global pool.
         """
-        gpool = UVMObjectStringPool.get_global_pool()
+        gpool = cls.get_global_pool()
         return gpool.get(key)
 
 
-- 
2.43.0


From b671235ce4abddf205010a376151bcd973bb0762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 25/76] fix: deleting from a pool keeps its iteration in place
 (a key was skipped, or prev() raised IndexError)

---
 src/uvm/base/uvm_pool.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index 6c6ac30..1e2fd1d 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -108,9 +108,13 @@ class UVMPool(UVMObject, Generic[KEY, VAL]):
 
     def delete(self, key=None) -> None:
         if key is None:
-            self.pool = {}
+            self.pool = collections.OrderedDict()
+            self.ptr = -1
         else:
             if key in self.pool:
+                # Keep the iteration on the keys it has not visited yet
+                if list(self.pool.keys()).index(key) <= self.ptr:
+                    self.ptr -= 1
                 del self.pool[key]
 
     def exists(self, key: KEY) -> bool:
-- 
2.43.0


From a95cc172144a52bbf0dcd2ab328a48a6d481dc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 26/76] fix: copying a pool copies its contents, copying a
 queue does not share the list with the original, and printing a pool does not
 move its iteration

---
 src/uvm/base/uvm_pool.py  | 18 ++++++++----------
 src/uvm/base/uvm_queue.py |  2 +-
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index 1e2fd1d..8b8150b 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -168,9 +168,13 @@ class UVMPool(UVMObject, Generic[KEY, VAL]):
     def create(self, name="") -> 'UVMPool':
         return UVMPool(name, self.T)
 
+    def do_copy(self, rhs) -> None:
+        UVMObject.do_copy(self, rhs)
+        self.pool = collections.OrderedDict(rhs.pool)
+        self.ptr = -1
+
     def do_print(self, printer) -> None:
-        while self.has_next():
-            key = self.next()
+        for key in self.pool:
             item = self.pool[key]
             # print_generic(self, name, type_name, size, value, scope_separator="."):
             if hasattr(item, 'convert2string'):
@@ -328,14 +332,8 @@ class UVMObjectStringPool(UVMPool[str, UVMObject]):
         key = ""
         num_keys = len(list(self.pool.keys()))
         printer.print_array_header("pool", num_keys,"aa_object_string")
-        if self.has_first():
-            key = self.first()
-            while True:
-                printer.print_object("[" + key + "]", self.pool[key],"[")
-                if self.has_next():
-                    key = self.next()
-                else:
-                    break
+        for key in self.pool:
+            printer.print_object("[" + key + "]", self.pool[key],"[")
         printer.print_array_footer()
     # endfunction
 
diff --git a/src/uvm/base/uvm_queue.py b/src/uvm/base/uvm_queue.py
index 1be026e..0a59632 100644
--- a/src/uvm/base/uvm_queue.py
+++ b/src/uvm/base/uvm_queue.py
@@ -250,7 +250,7 @@ class UVMQueue(UVMObject, Generic[T]):
         if rhs is None:
             return
         UVMObject.do_copy(self, rhs)
-        self.queue = rhs.queue
+        self.queue = list(rhs.queue)
 
     def convert2string(self) -> str:
         return str(self.queue)
-- 
2.43.0


From 91ec8bc5673f0219c021fa434c3027dafc0fe094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 27/76] fix: a slice of a queue is the slice asked for (it
 raised TypeError)

---
 src/uvm/base/uvm_queue.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/uvm/base/uvm_queue.py b/src/uvm/base/uvm_queue.py
index 0a59632..0f2ac67 100644
--- a/src/uvm/base/uvm_queue.py
+++ b/src/uvm/base/uvm_queue.py
@@ -137,11 +137,7 @@ class UVMQueue(UVMObject, Generic[T]):
         Raises:
         """
         if isinstance(i, slice):
-            # TODO should handle slices like [:] and [:-1]
-            res = []
-            for i in range(slice.start, slice.stop):
-                res.append(self.queue[i])
-            return res
+            return self.queue[i]
         elif i < self.size():
             return self.queue[i]
         else:
-- 
2.43.0


From aa4e122e9fa68e9835dd41a68cb8dd26a0af2a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 28/76] fix: uvm_string_to_bits shifts each character by 8 bits
 (strings of three or more characters had gaps)

---
 src/uvm/base/uvm_globals.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_globals.py b/src/uvm/base/uvm_globals.py
index 10877e2..f42d299 100644
--- a/src/uvm/base/uvm_globals.py
+++ b/src/uvm/base/uvm_globals.py
@@ -270,10 +270,8 @@ def uvm_string_to_bits(string: str) -> int:
     """
     bytearr = string.encode()
     result = 0
-    shift = 0
     for bb in bytearr:
-        result = (result << shift) | bb
-        shift += 8
+        result = (result << 8) | bb
     return result
 
 
-- 
2.43.0


From bdd45daaf6668d93d50380ed21374bfa49057b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 29/76] fix: octal radix prints octal digits (it printed
 decimal)

---
 src/uvm/base/uvm_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_misc.py b/src/uvm/base/uvm_misc.py
index c76d5f5..c822c60 100644
--- a/src/uvm/base/uvm_misc.py
+++ b/src/uvm/base/uvm_misc.py
@@ -204,7 +204,7 @@ def num_with_radix(radix, radix_str: str, value) -> str:
     if radix == UVM_BIN:
         return "{}{:b}".format(radix_str, value)
     if radix == UVM_OCT:
-        return "{}{}".format(radix_str, value)
+        return "{}{:o}".format(radix_str, value)
     if radix == UVM_UNSIGNED:
         return "{}{}".format(radix_str, value)
     if radix == UVM_STRING:
-- 
2.43.0


From 694d460f5f69649019d35f1597a970b175b1071e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 30/76] fix: sformatf formats %b as binary and %x as
 hexadecimal (both printed decimal)

---
 src/uvm/base/sv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index 572f108..5443f3e 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -179,7 +179,7 @@ class sv:
 
     STR_RE = re.compile(r'%(\d*[bdshxfpt])')
     formats = ["%b", "%0b", "%0d", "%d", "%s", "%0s", "%h", "%0h", "%f",
-            "%p", "%0t", "%t", "%x"]
+            "%p", "%0t", "%t", "%x", "%0x"]
 
     @classmethod
     def sscanf(cls, scan_str: str, formats: str, *results):
@@ -247,8 +247,10 @@ class sv:
         #new_msg = cls.STR_RE.sub(r'{:\1}', msg)
         #print("new_msg is " + new_msg)
         for s in cls.formats:
-            if s == "%h" or s == "%0h":
+            if s == "%h" or s == "%0h" or s == "%x" or s == "%0x":
                 msg = msg.replace(s, "{:X}")
+            elif s == "%b" or s == "%0b":
+                msg = msg.replace(s, "{:b}")
             else:
                 msg = msg.replace(s, "{}")
         return msg.format(*args)
-- 
2.43.0


From bc7a21b7b9c54d06b683889123b3aee5cecd5f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:16 +0000
Subject: [PATCH 31/76] fix: semaphore grants keys in the order asked, returns
 all keys put, and a get of all free keys does not block the next (waiters
 were lost and keys went negative)

---
 src/uvm/base/sv.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index 5443f3e..ff5aa59 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -33,7 +33,7 @@ from typing import List, Any
 import cocotb
 
 from cocotb_coverage import crv
-from cocotb.triggers import Lock, Timer, Combine, First
+from cocotb.triggers import Event, Timer, Combine, First
 from cocotb.utils import get_sim_time, simulator
 from cocotb_bus.bus import Bus
 
@@ -521,39 +521,41 @@ class sv_obj(crv.Randomized):
 
 
 class semaphore():
+    """
+    SystemVerilog semaphore: waiting processes get their keys in the order in
+    which they asked.
+    """
 
     def __init__(self, count=1):
-        self.max_count = count
         self.count = count
-        self.lock = Lock("sem_lock")
-        self.locked = False
+        self.m_waiters = []
 
 
     async def get(self, count=1):
-        if self.count > count:
+        if not self.m_waiters and self.count >= count:
             self.count -= count
             await Timer(0, "NS")
-        elif count > self.max_count:
-            raise Exception("Tried to get {} > max count {}".format(count,
-                self.max_count))
-        else:
-            await self.lock.acquire()
-            self.locked = True
-            self.count -= count
+            return
+        waiter = (count, Event("sem_get"))
+        self.m_waiters.append(waiter)
+        await waiter[1].wait()
 
     def put(self, count=1):
-        if self.count < self.max_count:
-            self.count += count
-            if self.locked is True:
-                self.locked = False
-                self.lock.release()
+        self.count += count
+        self.m_grant()
 
     def try_get(self, count=1):
-        if self.count >= count:
+        if not self.m_waiters and self.count >= count:
             self.count -= count
             return True
         return False
 
+    def m_grant(self):
+        while self.m_waiters and self.m_waiters[0][0] <= self.count:
+            count, granted = self.m_waiters.pop(0)
+            self.count -= count
+            granted.set()
+
 
 class sv_if(Bus):
 
-- 
2.43.0


From 4a99f96dd055a22223f42052a74119a967067339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:16 +0000
Subject: [PATCH 32/76] fix: sscanf keeps the sign of a negative decimal

---
 src/uvm/base/sv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index ff5aa59..9a315b7 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -202,7 +202,7 @@ class sv:
             prefix = re_list[0][2]
             if re_list[0][0].match(acc):
                 # Keep adding chars while match holds
-                curr_match += char
+                curr_match = acc
             elif len(curr_match) > 0:
                 # When it stops matching, we're done for curr match
                 value = re_list[0][1](curr_match)
-- 
2.43.0


From 68274ed08c2efa8eebe31891c0866d6574e55ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:00 +0000
Subject: [PATCH 33/76] fix: an objection raised again during a drain ends that
 drain (it was dropped twice), objections dropped at the same time are all
 drained, set_drain_time applies to the object given, and clear and wait_for
 work with drains and several waiters

---
 src/uvm/base/uvm_objection.py | 103 ++++++++++++----------------------
 1 file changed, 36 insertions(+), 67 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index d36934c..497c80d 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -513,22 +513,11 @@ class UVMObjection(UVMReportObject):
                 # Caught it with the forked drain running
                 ctxt = self.m_forked_contexts[obj]
                 del self.m_forked_contexts[obj]
-                # Kill the drain
-
-        uvm_debug(self, 'm_raise', obj.get_name() + " ENDING FUNC")
-        # TODO
-        #if UVM_USE_PROCESS_CONTAINER:
-        #    self.m_drain_proc[obj].kill()
-        #    del self.m_drain_proc[obj]
-        #else:
-        #    self.m_drain_proc[obj].p.kill()
-        #    del self.m_drain_proc[obj]
-        uvm_debug(self, 'm_raise', obj.get_name() + " NEVER GETS HERE")
+                # The drain notices that its context is gone and ends
 
         if ctxt is None:
             # If there were no drains, just propagate as usual
             if not self.m_prop_mode and obj != self.m_top:
-                uvm_debug(self, 'm_raise', obj.get_name() + " XXX NEVER GETS HERE")
                 self.m_raise(self.m_top,source_obj,description,count)
             elif obj != self.m_top:
                 self.m_propagate(obj, source_obj, description, count, 1, 0)
@@ -561,7 +550,6 @@ class UVMObjection(UVMReportObject):
 
             # Cleanup
             ctxt.clear()
-            UVMObjection.m_context_pool.append(ctxt)
         #  endfunction
 
     #  // Function: drop_objection
@@ -671,10 +659,7 @@ class UVMObjection(UVMReportObject):
                 self.m_propagate(obj, source_obj, description, count, 0, in_top_thread)
         else:
             ctxt = None  # uvm_objection_context_object
-            if (len(UVMObjection.m_context_pool) > 0):
-                ctxt = UVMObjection.m_context_pool.pop(0)
-            else:
-                ctxt = UVMObjectionContextObject()
+            ctxt = UVMObjectionContextObject()
 
             ctxt.obj = obj
             ctxt.source_obj = source_obj
@@ -720,7 +705,7 @@ class UVMObjection(UVMReportObject):
         if name == "":
             name = "uvm_top"
 
-        if (self.m_top_all_dropped is False and
+        if (not self.m_top_all_dropped and
                 self.get_objection_total(self.m_top) > 0):
             uvm_report_warning("OBJTN_CLEAR",("Object '" + name
                 + "' cleared objection counts for " + self.get_name()))
@@ -733,7 +718,6 @@ class UVMObjection(UVMReportObject):
         while (idx < len(UVMObjection.m_scheduled_list)):
             if (UVMObjection.m_scheduled_list[idx].objection == self):
                 UVMObjection.m_scheduled_list[idx].clear()
-                UVMObjection.m_context_pool.append(UVMObjection.m_scheduled_list[idx])
                 del UVMObjection.m_scheduled_list[idx]
             else:
                 idx += 1
@@ -741,24 +725,14 @@ class UVMObjection(UVMReportObject):
         # Scheduled contexts and m_forked_lists have duplicate
         # entries... clear out one, free the other.
         self.m_scheduled_contexts = {}
-        while len(self.m_forked_list) > 0:
-            self.m_forked_list[0].clear()
-            UVMObjection.m_context_pool.append(self.m_forked_list[0])
-            front = self.m_forked_list[0]
-            self.m_forked_list[0].remove(front)
+        for ctxt in self.m_forked_list:
+            ctxt.clear()
+        self.m_forked_list = []
 
-        # running drains have a context and a process
+        # running drains notice that their context is gone and end
         for o in self.m_forked_contexts:
-            if UVM_USE_PROCESS_CONTAINER:
-                self.m_drain_proc[o].kill()
-                del self.m_drain_proc[o]
-            else:
-                self.m_drain_proc[o].p.kill()
-                del self.m_drain_proc[o]
-
             self.m_forked_contexts[o].clear()
-            UVMObjection.m_context_pool.append(self.m_forked_contexts[o])
-            del self.m_forked_contexts[o]
+        self.m_forked_contexts = {}
 
         self.m_top_all_dropped = False
         self.m_cleared = 1
@@ -777,7 +751,7 @@ class UVMObjection(UVMReportObject):
             await UVMObjection.m_scheduled_list_not_empty_event.wait()
             UVMObjection.m_scheduled_list_not_empty_event.clear()
 
-            if len(UVMObjection.m_scheduled_list) != 0:
+            while len(UVMObjection.m_scheduled_list) != 0:
                 # Save off the context before the fork
                 c = UVMObjection.m_scheduled_list.pop(0)
 
@@ -801,7 +775,7 @@ class UVMObjection(UVMReportObject):
         objection = c.objection  # automatic uvm_objection
         # Check to maike sure re-raise didn't empty the fifo
         uvm_debug(cls, 'm_execute_scheduled_forks_fork_join_none', 'check list len')
-        if len(objection.m_forked_list) > 0:
+        if objection is not None and len(objection.m_forked_list) > 0:
             #uvm_objection_context_object ctxt
             ctxt = objection.m_forked_list.pop(0)
             # Clear it out of scheduled
@@ -809,31 +783,9 @@ class UVMObjection(UVMReportObject):
 
             # Move it in to forked (so re-raise can figure out props)
             objection.m_forked_contexts[ctxt.obj] = ctxt
-            # Save off our process handle, so a re-raise can kill it...
-
-            # TODO
-            #if UVM_USE_PROCESS_CONTAINER == 0:
-            #    objection.m_drain_proc[ctxt.obj] = process::self()
-            #else:
-            #    process_container_c c = new(process::self())
-            #    objection.m_drain_proc[ctxt.obj]=c
-
             # Execute the forked drain
             await objection.m_forked_drain(ctxt.obj, ctxt.source_obj, ctxt.description,
                     ctxt.count, 1)
-            # Cleanup if we survived (no re-raises)
-            if ctxt.obj in objection.m_drain_proc:
-                del objection.m_drain_proc[ctxt.obj]
-            else:
-                pass
-
-            # tpoikela: Added check since ctxt.obj becomes None
-            #if ctxt.obj in objection.m_forked_contexts:
-            del objection.m_forked_contexts[ctxt.obj]
-            # Clear out the context object (prevent memory leaks)
-            ctxt.clear()
-            # Save the context in the pool for later reuse
-            UVMObjection.m_context_pool.append(ctxt)
         #rm await uvm_zero_delay()
 
     #  // m_forked_drain
@@ -847,9 +799,14 @@ class UVMObjection(UVMReportObject):
     async def m_forked_drain(self, obj, source_obj, description="", count=1,
             in_top_thread=0):
 
-        if obj in self.m_drain_time:
+        # A re-raise (or clear) removes this context, which ends the drain
+        ctxt = self.m_forked_contexts.get(obj)
+
+        if self.m_drain_time.get(obj):
             # TODO `uvm_delay(self.m_drain_time[obj])
-            await Timer(self.m_drain_time[obj])
+            await Timer(self.m_drain_time[obj], sv.default_time_unit)
+            if self.m_forked_contexts.get(obj) is not ctxt:
+                return
 
         if self.m_trace_mode:
             self.m_report(obj,source_obj,description,count,"all_dropped")
@@ -859,6 +816,10 @@ class UVMObjection(UVMReportObject):
         # wait for all_dropped cbs to complete
         await uvm_zero_delay()
         # TODO wait fork
+        if self.m_forked_contexts.get(obj) is not ctxt:
+            return
+        if ctxt is not None:
+            del self.m_forked_contexts[obj]
 
         # we are ready to delete the 0-count entries for the current
         # object before propagating up the hierarchy.
@@ -899,7 +860,7 @@ class UVMObjection(UVMReportObject):
     def set_drain_time(self, obj=None, drain=0):
         if obj is None:
             obj = self.m_top
-            self.m_drain_time[obj] = drain
+        self.m_drain_time[obj] = drain
 
     #  //----------------------
     #  // Group: Callback Hooks
@@ -950,9 +911,14 @@ class UVMObjection(UVMReportObject):
             count (int):
         """
         comp = obj
+        ctxt = self.m_forked_contexts.get(obj)
         if hasattr(comp, 'all_dropped'):
             await comp.all_dropped(self, source_obj, description, count)
+            if self.m_forked_contexts.get(obj) is not ctxt:
+                return
         await uvm_do_callbacks_async(self, UVMObjectionCallback, 'all_dropped', self,obj, source_obj, description, count)
+        if self.m_forked_contexts.get(obj) is not ctxt:
+            return
         if obj in self.m_events:
             self.m_events[obj].all_dropped.set()
         if obj == self.m_top:
@@ -989,10 +955,13 @@ class UVMObjection(UVMReportObject):
 
         self.m_events[obj].waiters += 1
         if objt_event == UVM_RAISED:
+            self.m_events[obj].raised.clear()
             await self.m_events[obj].raised.wait()
         elif objt_event == UVM_DROPPED:
+            self.m_events[obj].dropped.clear()
             await self.m_events[obj].dropped.wait()
         elif objt_event == UVM_ALL_DROPPED:
+            self.m_events[obj].all_dropped.clear()
             await self.m_events[obj].all_dropped.wait()
 
         self.m_events[obj].waiters -= 1
@@ -1162,10 +1131,10 @@ class UVMObjection(UVMReportObject):
 
     def do_copy(self, rhs):
         _rhs = rhs
-        self.m_source_count = _rhs.m_source_count
-        self.m_total_count  = _rhs.m_total_count
-        self.m_drain_time   = _rhs.m_drain_time
-        self.m_prop_mode    = _rhs.self.m_prop_mode
+        self.m_source_count = dict(_rhs.m_source_count)
+        self.m_total_count  = dict(_rhs.m_total_count)
+        self.m_drain_time   = dict(_rhs.m_drain_time)
+        self.m_prop_mode    = _rhs.m_prop_mode
 
 
 # Have a pool of context objects to use
@@ -1184,7 +1153,7 @@ class UVMObjectionContextObject:
         self.description = ""
         self.count = 0
         #self.objection: Optional[UVMObjection] = None
-        self.objection = UVMObjection()
+        self.objection = None
 
     def clear(self):
         """
@@ -1195,4 +1164,4 @@ class UVMObjectionContextObject:
         self.source_obj = None
         self.description = ""
         self.count = 0
-        self.objection = UVMObjection()
+        self.objection = None
-- 
2.43.0


From e3c7199bf277e4f80801d153d8e220c60818e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 34/76] fix: objection trace no longer raises (string methods
 of SystemVerilog, name used before assignment)

---
 src/uvm/base/uvm_objection.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 497c80d..747f62d 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -300,33 +300,31 @@ class UVMObjection(UVMReportObject):
             last_dot = 0
             sname = source_obj.get_full_name()
             nm = obj.get_full_name()
-            _max = sname.len()
-            if sname.len() > nm.len():
-                _max = nm.len()
+            _max = min(len(sname), len(nm))
 
             # For readability, only print the part of the source obj hierarchy underneath
             # the current object.
-            while ((sname[cpath] == nm[cpath]) and (cpath < _max)):
+            while cpath < _max and sname[cpath] == nm[cpath]:
                 if (sname[cpath] == "."):
                     last_dot = cpath
                 cpath += 1
 
             if last_dot:
-                sname = sname.substr(last_dot+1, sname.len())
+                sname = sname[last_dot+1:]
 
-        name = obj.get_full_name()
-        if name == "":
-            name = "uvm_top"
-        act_type = "subtracted"
-        if action == "raised":
-            act_type = "added"
-        act_dir = "from"
-        if action == "raised":
-            act_dir = "to"
-        uvm_report_info("OBJTN_TRC",
-            sv.sformatf("Object %0s %0s %0d objection(s) %0s its total (%s from"
-            " source object %s%s): count=%0d  total=%0d", name, act_type, count,
-            act_dir, action, sname, descr, _count, _total), UVM_NONE)
+            name = obj.get_full_name()
+            if name == "":
+                name = "uvm_top"
+            act_type = "subtracted"
+            if action == "raised":
+                act_type = "added"
+            act_dir = "from"
+            if action == "raised":
+                act_dir = "to"
+            uvm_report_info("OBJTN_TRC",
+                sv.sformatf("Object %0s %0s %0d objection(s) %0s its total (%s from"
+                " source object %s%s): count=%0d  total=%0d", name, act_type, count,
+                act_dir, action, sname, descr, _count, _total), UVM_NONE)
 
     #  // Function- m_get_parent
     #  //
-- 
2.43.0


From e0f20caef184eda8d8ab52822b544063b99c81cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 35/76] fix: displaying objections lists every object with
 objections below the one asked for, once

---
 src/uvm/base/uvm_objection.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 747f62d..d05b3ea 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -39,7 +39,6 @@ from .sv import sv
 from ..macros import (uvm_info, uvm_do_callbacks,
     uvm_do_callbacks_async)
 from typing import List, Dict, Any
-from .uvm_pool import UVMPool
 from .uvm_callback import UVMCallback
 
 UVM_USE_PROCESS_CONTAINER = 1
@@ -1031,7 +1030,7 @@ class UVMObjection(UVMReportObject):
         blank = "                                                                                   "
         s = ""
         total = 0
-        lst = UVMPool()
+        lst = {}
         curr_obj = None
         depth = 0
         name = ""
@@ -1058,9 +1057,11 @@ class UVMObjection(UVMReportObject):
         s = s + "---------------------------------------------------------\n"
 
         this_obj_name = obj.get_full_name()
-        curr_obj_name = this_obj_name
 
-        while True:
+        for curr_obj_name in sorted(lst):
+            if not (this_obj_name in ("", curr_obj_name) or
+                    curr_obj_name.startswith(this_obj_name + ".")):
+                continue
             curr_obj = lst[curr_obj_name]
 
             # determine depth, count dots "." in the name
@@ -1084,11 +1085,6 @@ class UVMObjection(UVMReportObject):
             s += sv.sformatf("%d       %d       %s'%s'\n", src_count, total_count,
                     blank[0:2*depth], name)
 
-            if not ((lst.has_next() and
-                    curr_obj_name[0:len(this_obj_name)] == this_obj_name)):
-                break
-            curr_obj_name = lst.next()
-
         s = s + "---------------------------------------------------------\n"
 
         return s
-- 
2.43.0


From ae2a05db2b1ae00430e5bef3fbc2d6ce3d9b6179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 36/76] fix: waiting for a phase state returns at once when the
 phase is in that state (it waited for the next change)

---
 src/uvm/base/uvm_phase.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index a9440af..8dcba82 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -919,11 +919,9 @@ class UVMPhase(UVMObject):
 
 
     async def _wait_state_change_func(self, func):
-        while True:
-            await self.m_phase_set_state_event.wait()
+        while not func():
             self.m_phase_set_state_event.clear()
-            if func():
-                break
+            await self.m_phase_set_state_event.wait()
 
     #
     #
-- 
2.43.0


From 63b50961add4523c3eb7e375d9dc5965f8e16833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:23 +0000
Subject: [PATCH 37/76] fix: the phase tasks of the components are stopped when
 their phase ends (they ran on during the later phases)

---
 src/uvm/base/uvm_phase.py      | 4 ++++
 src/uvm/base/uvm_task_phase.py | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 8dcba82..4ccc556 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -239,6 +239,7 @@ class UVMPhase(UVMObject):
         self.phase_done = None  # uvm_objection
 
         self.m_phase_proc = None  # TODO process
+        self.m_task_procs = []  # Processes running the phase task of each component
         self.m_num_procs_not_yet_returned = 0
 
         self.m_is_task_phase = False
@@ -1439,6 +1440,9 @@ class UVMPhase(UVMObject):
             else:
                 self.set_state(UVM_PHASE_CLEANUP)
             uvm_do_callbacks(self, UVMPhaseCb, 'phase_state_change', self, state_chg)
+            for proc in self.m_task_procs:
+                proc.kill()
+            self.m_task_procs = []
             if self.m_phase_proc is not None:
                 self.m_phase_proc.kill()
                 self.m_phase_proc = None
diff --git a/src/uvm/base/uvm_task_phase.py b/src/uvm/base/uvm_task_phase.py
index aa18b20..941f8a2 100644
--- a/src/uvm/base/uvm_task_phase.py
+++ b/src/uvm/base/uvm_task_phase.py
@@ -192,6 +192,7 @@ class UVMTaskPhase(UVMPhase):
         #proc.srandom(uvm_create_random_seed(phase.get_type_name(), comp.get_full_name()))
         #phase.m_num_procs_not_yet_returned += 1
         proc = cocotb.start_soon(self._execute_fork_join_none(comp,phase))
+        phase.m_task_procs.append(proc)
         #phase.m_num_procs_not_yet_returned -= 1
         await uvm_zero_delay()
         #join_none
-- 
2.43.0


From 2787c4e8d86850b75f87ec301b6334f5986dab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 38/76] fix: the final phase visits parents before children, as
 documented

---
 src/uvm/base/uvm_common_phases.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_common_phases.py b/src/uvm/base/uvm_common_phases.py
index 2ae900a..7501144 100644
--- a/src/uvm/base/uvm_common_phases.py
+++ b/src/uvm/base/uvm_common_phases.py
@@ -459,7 +459,7 @@ class UVMReportPhase(UVMBottomupPhase):
         return UVMReportPhase.type_name
 
 
-class UVMFinalPhase(UVMBottomupPhase):
+class UVMFinalPhase(UVMTopdownPhase):
     """
     Tie up loose ends.
 
@@ -495,7 +495,7 @@ class UVMFinalPhase(UVMBottomupPhase):
         return UVMFinalPhase.m_inst
 
     def __init__(self, name="final"):
-        UVMBottomupPhase.__init__(self, name)
+        UVMTopdownPhase.__init__(self, name)
 
     def get_type_name(self):
         return UVMFinalPhase.type_name
-- 
2.43.0


From 45520a98f0f3090e84fc40df7c0e6bbc37f3a915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:54 +0000
Subject: [PATCH 39/76] fix: is_before, is_after and find search every branch
 of the phase graph (they gave up after the first)

---
 src/uvm/base/uvm_phase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 4ccc556..5bf9000 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -1020,7 +1020,8 @@ class UVMPhase(UVMObject):
                     (pred.get_schedule() == orig.get_schedule()) or
                     (pred.get_domain() == orig.get_domain())):
                 found = pred.m_find_predecessor(phase,stay_in_scope,orig)
-                return found
+                if found is not None:
+                    return found
         uvm_debug(self, 'm_find_pred', "Did not find precessors for " +
                 str(phase))
         return None
@@ -1049,7 +1050,8 @@ class UVMPhase(UVMObject):
                     (succ.get_schedule() == orig.get_schedule()) or
                     (succ.get_domain() == orig.get_domain())):
                 found = succ.m_find_successor(phase,stay_in_scope,orig)
-                return found
+                if found is not None:
+                    return found
         return None
 
 
-- 
2.43.0


From a83dc7a57821129b3a9af73f3489a8fb1f3c79ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 40/76] fix: finish_item returns when the driver is done with
 the item (it returned when the driver asked for the next one)

---
 src/uvm/seq/uvm_sequencer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/seq/uvm_sequencer.py b/src/uvm/seq/uvm_sequencer.py
index e4452d4..e7f0b42 100644
--- a/src/uvm/seq/uvm_sequencer.py
+++ b/src/uvm/seq/uvm_sequencer.py
@@ -179,8 +179,9 @@ class UVMSequencer(UVMSequencerParamBase):
             self.uvm_report_fatal(self.get_full_name(), FATAL_MSG1)
         else:
             t = t[0]
-            self.m_wait_for_item_sequence_id = t.get_sequence_id()
             self.m_wait_for_item_transaction_id = t.get_transaction_id()
+            # Wakes up the sequence waiting for this item
+            self.set_value('m_wait_for_item_sequence_id', t.get_sequence_id())
 
         if item is not None:
             self.seq_item_export.put_response(item)
-- 
2.43.0


From 288faac07b1f75bce5a0157193f2c106db459bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:24 +0000
Subject: [PATCH 41/76] fix: a sequencer waits for sequences that are not
 relevant to become relevant (it raised AttributeError)

---
 src/uvm/seq/uvm_sequencer_base.py | 38 +++++++------------------------
 1 file changed, 8 insertions(+), 30 deletions(-)

diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index 536f184..dc63188 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -1121,20 +1121,8 @@ class UVMSequencerBase(UVMComponent):
         #join
 
 
-    async def _rel_entry_fork_proc(self, i: int, is_relevant_entries: List[int]):
-        """
-        Args:
-            i:
-            is_relevant_entries:
-        """
-        k = i
-        idx = is_relevant_entries[k]
-        seq_req: uvm_sequence_request = self.arb_sequence_q.get(idx)
-        if seq_req is not None and seq_req.sequence_ptr is not None:
-            await seq_req.sequence_ptr.wait_for_relevant()
-        else:
-            uvm_fatal("SEQREQISNONE",
-                sv.sformatf("seq_req[%d] is None or seq_ptr is None", idx))
+    async def _rel_entry_fork_proc(self, sequence_ptr):
+        await sequence_ptr.wait_for_relevant()
 
         if sv.realtime() != self.m_last_wait_relevant_time:
             self.m_last_wait_relevant_time = sv.realtime()
@@ -1148,11 +1136,13 @@ class UVMSequencerBase(UVMComponent):
 
     async def _fork_first_proc(self, is_relevant_entries):
         started_forks = []
-        #fork
-        forked_proc1 = cocotb.start_soon(self._fork_first_proc_sub_fork1(is_relevant_entries))
-        started_forks.append(forked_proc1)
+        self.set_value('m_is_relevant_completed', False)
+        # One path in fork is for any wait_for_relevant to return
+        for idx in is_relevant_entries:
+            started_forks.append(cocotb.start_soon(self._rel_entry_fork_proc(
+                self.arb_sequence_q.get(idx).sequence_ptr)))
         # The other path in the fork is for any queue entry to change
-        forked_proc2 = self.m_wait_arb_not_equal()
+        forked_proc2 = cocotb.start_soon(self.m_wait_arb_not_equal())
         started_forks.append(forked_proc2)
         ## await started_forks  # join_any
         await sv.fork_join_any(started_forks)
@@ -1161,18 +1151,6 @@ class UVMSequencerBase(UVMComponent):
             p.kill()  # type: ignore
 
 
-    async def _fork_first_proc_sub_fork1(self, is_relevant_entries):
-        # One path in fork is for any wait_for_relevant to return
-        fork_procs_join_none = []
-        self.set_value('m_is_relevant_completed', False)
-        for i in range(len(is_relevant_entries)):
-            #fork
-            forked_proc = cocotb.start_soon(self._rel_entry_fork_proc(i, is_relevant_entries))
-            fork_procs_join_none.append(forked_proc)
-            #join_none
-        await wait(lambda: self.m_is_relevant_completed > 0,
-                   self.m_event_value_changed)
-
     #  extern protected function int    m_get_seq_item_priority(uvm_sequence_request seq_q_entry)
     #
     #  int m_is_relevant_completed
-- 
2.43.0


From 658fbfe8f6c95b40dfd419df957870c049b4ed7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:24 +0000
Subject: [PATCH 42/76] fix: weighted, strict and user arbitration choose as
 documented (they stopped with an internal error when several sequences were
 waiting)

---
 src/uvm/seq/uvm_sequencer_base.py | 118 +++++++++++++++---------------
 1 file changed, 57 insertions(+), 61 deletions(-)

diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index dc63188..f1d101c 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -35,7 +35,8 @@ from ..base.uvm_config_db import UVMConfigDb
 from ..macros.uvm_message_defines import (
     uvm_error, uvm_fatal, uvm_info, uvm_report_fatal, uvm_warning)
 from ..base.uvm_object_globals import (UVM_FINISHED, UVM_FULL, UVM_NONE,
-        UVM_SEQ_ARB_FIFO, UVM_SEQ_ARB_RANDOM, UVM_LOW)
+        UVM_SEQ_ARB_FIFO, UVM_SEQ_ARB_RANDOM, UVM_SEQ_ARB_STRICT_FIFO, UVM_SEQ_ARB_STRICT_RANDOM,
+        UVM_SEQ_ARB_USER, UVM_SEQ_ARB_WEIGHTED, UVM_LOW)
 from ..base.uvm_pool import UVMPool
 from ..base.uvm_queue import UVMQueue
 from ..base.uvm_globals import uvm_wait_for_nba_region, uvm_zero_delay
@@ -823,27 +824,18 @@ class UVMSequencerBase(UVMComponent):
             if (avail_sequences.size() == 1):
                 return cast(int, avail_sequences[0])
 
-        # TODO finish this function
-        #  //  Weighted Priority Distribution
-        #  // Pick an available sequence based on weighted priorities of available sequences
-        #  if (self.m_arbitration == UVM_SEQ_ARB_WEIGHTED):
-        #    sum_priority_val = 0
-        #    for (i = 0; i < avail_sequences.size(); i++):
-        #      sum_priority_val += m_get_seq_item_priority(self.arb_sequence_q[avail_sequences[i]])
-        #    end
-        #
-        #    temp = $urandom_range(sum_priority_val-1, 0)
-        #
-        #    sum_priority_val = 0
-        #    for (i = 0; i < avail_sequences.size(); i++):
-        #      if ((m_get_seq_item_priority(self.arb_sequence_q[avail_sequences[i]]) +
-        #           sum_priority_val) > temp):
-        #        return avail_sequences[i]
-        #      end
-        #      sum_priority_val += m_get_seq_item_priority(self.arb_sequence_q[avail_sequences[i]])
-        #    end
-        #    uvm_report_fatal("Sequencer", "UVM Internal error in weighted arbitration code", UVM_NONE)
-        #  end
+        #  Weighted Priority Distribution
+        # Pick an available sequence based on weighted priorities of available sequences
+        if self.m_arbitration == UVM_SEQ_ARB_WEIGHTED:
+            for i in range(len(avail_sequences)):
+                sum_priority_val += self.m_get_seq_item_priority(
+                    self.arb_sequence_q.get(avail_sequences.get(i)))
+            temp = sv.urandom_range(0, sum_priority_val-1)
+            for i in range(len(avail_sequences)):
+                temp -= self.m_get_seq_item_priority(
+                    self.arb_sequence_q.get(avail_sequences.get(i)))
+                if temp < 0:
+                    return cast(int, avail_sequences.get(i))
 
 
         # Random Distribution
@@ -852,49 +844,53 @@ class UVMSequencerBase(UVMComponent):
             return cast(int, avail_sequences[i])
 
 
-        #  //  Strict Fifo
-        #  if ((self.m_arbitration == UVM_SEQ_ARB_STRICT_FIFO) || self.m_arbitration == UVM_SEQ_ARB_STRICT_RANDOM):
-        #    highest_pri = 0
-        #    // Build a list of sequences at the highest priority
-        #    for (i = 0; i < avail_sequences.size(); i++):
-        #      if (m_get_seq_item_priority(self.arb_sequence_q[avail_sequences[i]]) > highest_pri):
-        #        // New highest priority, so start new list
-        #        highest_sequences.delete()
-        #        highest_sequences.push_back(avail_sequences[i])
-        #        highest_pri = m_get_seq_item_priority(self.arb_sequence_q[avail_sequences[i]])
-        #      end
-        #      else if (m_get_seq_item_priority(self.arb_sequence_q[avail_sequences[i]]) == highest_pri):
-        #        highest_sequences.push_back(avail_sequences[i])
-        #      end
-        #    end
-        #
-        #    // Now choose one based on arbitration type
-        #    if (self.m_arbitration == UVM_SEQ_ARB_STRICT_FIFO):
-        #      return(highest_sequences[0])
-        #    end
-        #
-        #    i = $urandom_range(highest_sequences.size()-1, 0)
-        #    return highest_sequences[i]
-        #  end
-        #
-        #  if (self.m_arbitration == UVM_SEQ_ARB_USER):
-        #    i = user_priority_arbitration( avail_sequences)
-        #
-        #    // Check that the returned sequence is in the list of available sequences.  Failure to
-        #    // use an available sequence will cause highly unpredictable results.
-        #    highest_sequences = avail_sequences.find with (item == i)
-        #    if (highest_sequences.size() == 0):
-        #      uvm_report_fatal("Sequencer",
-        #          $sformatf("Error in User arbitration, sequence %0d not available\n%s",
-        #                    i, convert2string()), UVM_NONE)
-        #    end
-        #    return(i)
-        #  end
-        #
+        #  Strict Fifo
+        if self.m_arbitration in (UVM_SEQ_ARB_STRICT_FIFO, UVM_SEQ_ARB_STRICT_RANDOM):
+            # Build a list of sequences at the highest priority
+            for i in range(len(avail_sequences)):
+                priority = self.m_get_seq_item_priority(
+                    self.arb_sequence_q.get(avail_sequences.get(i)))
+                if priority > highest_pri:
+                    # New highest priority, so start new list
+                    highest_sequences.delete()
+                    highest_pri = priority
+                if priority == highest_pri:
+                    highest_sequences.push_back(avail_sequences.get(i))
+
+            # Now choose one based on arbitration type
+            if self.m_arbitration == UVM_SEQ_ARB_STRICT_FIFO:
+                return cast(int, highest_sequences.get(0))
+            i = sv.urandom_range(0, highest_sequences.size()-1)
+            return cast(int, highest_sequences.get(i))
+
+        if self.m_arbitration == UVM_SEQ_ARB_USER:
+            i = self.user_priority_arbitration(avail_sequences)
+            # Check that the returned sequence is in the list of available sequences. Failure to
+            # use an available sequence will cause highly unpredictable results.
+            if i not in [avail_sequences.get(k) for k in range(len(avail_sequences))]:
+                uvm_fatal("Sequencer",
+                    sv.sformatf("Error in User arbitration, sequence %0d not available", i))
+            return i
+
         uvm_fatal("Sequencer", "Internal error: Failed to choose sequence")
         return -1
 
 
+    def m_get_seq_item_priority(self, seq_q_entry):
+        # If the priority was set on the item, then that is used
+        if seq_q_entry.item_priority != -1:
+            if seq_q_entry.item_priority <= 0:
+                uvm_fatal("SEQITEMPRI", sv.sformatf(
+                    "Sequence item from %s has illegal priority: %0d",
+                    seq_q_entry.sequence_ptr.get_full_name(), seq_q_entry.item_priority))
+            return seq_q_entry.item_priority
+        # Otherwise, use the priority of the calling sequence
+        if seq_q_entry.sequence_ptr.get_priority() < 0:
+            uvm_fatal("SEQDEFPRI", sv.sformatf("Sequence %s has illegal priority: %0d",
+                seq_q_entry.sequence_ptr.get_full_name(), seq_q_entry.sequence_ptr.get_priority()))
+        return seq_q_entry.sequence_ptr.get_priority()
+
+
     async def m_wait_for_arbitration_completed(self, request_id):
         """
          extern           task          m_wait_for_arbitration_completed(int request_id)
-- 
2.43.0


From 0a64feac1344e7e7ee59921f8e1a7261ebf5ba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:24 +0000
Subject: [PATCH 43/76] fix: wait_for_sequence_state waits for any state (it
 raised unless the sequence was finished already)

---
 src/uvm/seq/uvm_sequence_base.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/uvm/seq/uvm_sequence_base.py b/src/uvm/seq/uvm_sequence_base.py
index 318573a..57f3c06 100644
--- a/src/uvm/seq/uvm_sequence_base.py
+++ b/src/uvm/seq/uvm_sequence_base.py
@@ -20,7 +20,6 @@
 #//   permissions and limitations under the License.
 #//----------------------------------------------------------------------
 
-from typing import Dict
 
 import cocotb
 from cocotb.triggers import Event
@@ -189,8 +188,7 @@ class UVMSequenceBase(UVMSequenceItem):
         #self.m_resp_queue_event = UVMEvent("resp_queue_event")
         self.m_resp_queue_event = Event("resp_queue_event")
         self.m_resp_queue_event.clear()
-        self.m_events: Dict[int, Event] = {}
-        self.m_events[UVM_FINISHED] = Event("UVM_FINISHED")
+        self.m_state_event = Event("state_event")
         self.do_not_randomize = 0
 
     def is_item(self) -> bool:
@@ -233,12 +231,13 @@ class UVMSequenceBase(UVMSequenceItem):
             state_mask:
         Raises:
         """
-        state = self.m_sequence_state & state_mask
-        if state in self.m_events:
-            await self.m_events[state].wait()
-        else:
-            raise Exception("Cannot wait for state " + str(state)
-                    + " - not implemented")
+        while not self.m_sequence_state & state_mask:
+            self.m_state_event.clear()
+            await self.m_state_event.wait()
+
+    def m_set_sequence_state(self, state):
+        self.m_sequence_state = state
+        self.m_state_event.set()
 
     def get_tr_handle(self):
         """
@@ -343,7 +342,7 @@ class UVMSequenceBase(UVMSequenceItem):
 
         # Change the state to PRE_START, do this before the fork so that
         # the "if (!(m_sequence_state inside {...}" works
-        self.m_sequence_state = UVM_PRE_START
+        self.m_set_sequence_state(UVM_PRE_START)
 
         self.m_sequence_process = cocotb.start_soon(self.start_process(parent_sequence, call_pre_post))
         await self.m_sequence_process
@@ -385,7 +384,7 @@ class UVMSequenceBase(UVMSequenceItem):
         await self.pre_start()
 
         if call_pre_post == 1:
-            self.m_sequence_state = UVM_PRE_BODY
+            self.m_set_sequence_state(UVM_PRE_BODY)
             #0
             await uvm_zero_delay()
             await self.pre_body()
@@ -394,12 +393,12 @@ class UVMSequenceBase(UVMSequenceItem):
             parent_sequence.pre_do(0)    # task
             parent_sequence.mid_do(self)  # function
 
-        self.m_sequence_state = UVM_BODY
+        self.m_set_sequence_state(UVM_BODY)
         #0
         await uvm_zero_delay()
         await self.body()
 
-        self.m_sequence_state = UVM_ENDED
+        self.m_set_sequence_state(UVM_ENDED)
         #0
         await uvm_zero_delay()
 
@@ -407,12 +406,12 @@ class UVMSequenceBase(UVMSequenceItem):
             parent_sequence.post_do(self)
 
         if call_pre_post == 1:
-            self.m_sequence_state = UVM_POST_BODY
+            self.m_set_sequence_state(UVM_POST_BODY)
             #0
             await uvm_zero_delay()
             await self.post_body()
 
-        self.m_sequence_state = UVM_POST_START
+        self.m_set_sequence_state(UVM_POST_START)
         #0
         await uvm_zero_delay()
         await self.post_start()
@@ -421,8 +420,7 @@ class UVMSequenceBase(UVMSequenceItem):
         if self.get_automatic_phase_objection():
             self.m_safe_drop_starting_phase("automatic phase objection")
 
-        self.m_sequence_state = UVM_FINISHED
-        self.m_events[UVM_FINISHED].set()
+        self.m_set_sequence_state(UVM_FINISHED)
         #0
         await uvm_zero_delay()
         #join
-- 
2.43.0


From e7341db2c318a713205066ab37b138e521f3f4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:04 +0000
Subject: [PATCH 44/76] fix: sequences can be killed and stopped (kill raised
 AttributeError)

---
 src/uvm/seq/uvm_sequence_base.py  | 77 ++++++++++++-------------------
 src/uvm/seq/uvm_sequencer_base.py |  2 +-
 2 files changed, 31 insertions(+), 48 deletions(-)

diff --git a/src/uvm/seq/uvm_sequence_base.py b/src/uvm/seq/uvm_sequence_base.py
index 57f3c06..ad7d434 100644
--- a/src/uvm/seq/uvm_sequence_base.py
+++ b/src/uvm/seq/uvm_sequence_base.py
@@ -346,6 +346,7 @@ class UVMSequenceBase(UVMSequenceItem):
 
         self.m_sequence_process = cocotb.start_soon(self.start_process(parent_sequence, call_pre_post))
         await self.m_sequence_process
+        self.m_sequence_process = None
 
         if self.m_sequencer is not None:
             self.m_sequencer.end_tr(self)
@@ -884,40 +885,25 @@ class UVMSequenceBase(UVMSequenceItem):
         return self.m_sequencer.has_lock(self)
 
 
-    #  // Function: kill
-    #  //
-    #  // This function will kill the sequence, and cause all current locks and
-    #  // requests in the sequence's default sequencer to be removed. The sequence
-    #  // state will change to UVM_STOPPED, and the post_body() and post_start() callback
-    #  // methods will not be executed.
-    #  //
-    #  // If a sequence has issued locks, grabs, or requests on sequencers other than
-    #  // the default sequencer, then care must be taken to unregister the sequence
-    #  // with the other sequencer(s) using the sequencer unregister_sequence()
-    #  // method.
-    #
-    #  function void kill()
-    #    if (m_sequence_process is not None) begin
-    #      // If we are not connected to a sequencer, then issue
-    #      // kill locally.
-    #      if (self.m_sequencer == None) begin
-    #        m_kill()
-    #        // We need to drop the objection if we raised it...
-    #        if (get_automatic_phase_objection()) begin
-    #           m_safe_drop_starting_phase("automatic phase objection")
-    #        end
-    #        return
-    #      end
-    #      // If we are attached to a sequencer, then the sequencer
-    #      // will clear out queues, and then kill this sequence
-    #      self.m_sequencer.kill_sequence(this)
-    #      // We need to drop the objection if we raised it...
-    #      if (get_automatic_phase_objection()) begin
-    #         m_safe_drop_starting_phase("automatic phase objection")
-    #      end
-    #      return
-    #    end
-    #  endfunction
+    def kill(self):
+        """
+          This function will kill the sequence, and cause all current
+          requests in the sequence's default sequencer to be removed. The sequence
+          state will change to UVM_STOPPED, and the post_body() and post_start() callback
+          methods will not be executed.
+        """
+        if self.m_sequence_process is None:
+            return
+        if self.m_sequencer is None:
+            # If we are not connected to a sequencer, then issue kill locally.
+            self.m_kill()
+        else:
+            # If we are attached to a sequencer, then the sequencer
+            # will clear out queues, and then kill this sequence
+            self.m_sequencer.kill_sequence(self)
+        # We need to drop the objection if we raised it...
+        if self.get_automatic_phase_objection():
+            self.m_safe_drop_starting_phase("automatic phase objection")
 
 
     def do_kill(self):
@@ -931,19 +917,16 @@ class UVMSequenceBase(UVMSequenceItem):
         return
 
 
-    #  function void m_kill()
-    #    do_kill()
-    #    foreach(children_array[i]) begin
-    #       i.kill()
-    #    end
-    #    if (m_sequence_process is not None) begin
-    #      m_sequence_process.kill
-    #      m_sequence_process = None
-    #    end
-    #    m_sequence_state = UVM_STOPPED
-    #    if ((self.m_parent_sequence is not None) && (self.m_parent_sequence.children_array.exists(this)))
-    #      self.m_parent_sequence.children_array.delete(this)
-    #  endfunction
+    def m_kill(self):
+        self.do_kill()
+        for child in list(self.children_array):
+            child.kill()
+        if self.m_sequence_process is not None:
+            self.m_sequence_process.kill()
+            self.m_sequence_process = None
+        self.m_set_sequence_state(UVM_STOPPED)
+        if self.m_parent_sequence is not None:
+            self.m_parent_sequence.children_array.pop(self, None)
 
 
     """
diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index f1d101c..fdc5573 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -1059,7 +1059,7 @@ class UVMSequencerBase(UVMComponent):
         # when deleting all sequences
         if sequence_id == -1:
             if self.reg_sequences.has_first():
-                return self.reg_sequences.first()
+                return self.reg_sequences[self.reg_sequences.first()]
             return None
 
         if not self.reg_sequences.exists(sequence_id):
-- 
2.43.0


From 4a6afafbb7d89a5ca711ae9159a6387d533a0131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 45/76] fix: uvm_do_on sends the item to the sequencer it names
 (it raised RandomizeError, and items went to the sequence's own sequencer)

---
 src/uvm/macros/uvm_sequence_defines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/macros/uvm_sequence_defines.py b/src/uvm/macros/uvm_sequence_defines.py
index 6d93093..4c55dfa 100644
--- a/src/uvm/macros/uvm_sequence_defines.py
+++ b/src/uvm/macros/uvm_sequence_defines.py
@@ -155,7 +155,7 @@ async def uvm_do_on(seq_obj, SEQ_OR_ITEM, SEQR):
     the sequence in which the macro is invoked, and it sets the sequencer to the
     specified ~SEQR~ argument.
     """
-    await uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, SEQR, -1, {})
+    await uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, SEQR, -1)
 
 
 #// MACRO: `uvm_do_on_pri
@@ -222,7 +222,7 @@ async def uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, SEQR, PRIORITY, *CONSTRAINTS)
         await SEQ_OR_ITEM.start(SEQR, seq_obj, PRIORITY, 0)
     else:
         # TODO handle constraints
-        await seq_obj.start_item(SEQ_OR_ITEM, PRIORITY)
+        await seq_obj.start_item(SEQ_OR_ITEM, PRIORITY, SEQR)
         if SEQ_OR_ITEM.randomize_with(*CONSTRAINTS) is False:
             uvm_warning("RNDFLD", "Randomization failed in uvm_do_with action")
         await seq_obj.finish_item(SEQ_OR_ITEM, PRIORITY)
-- 
2.43.0


From 1a70916434c172fcfa4e24b3a5fdd83877f06631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:27 +0000
Subject: [PATCH 46/76] fix: responses written to a sequencer's rsp_export
 reach their sequence, and get_response with a transaction id notices
 responses taken and put meanwhile

---
 src/uvm/seq/uvm_sequence_base.py        | 40 ++++++++++++-------------
 src/uvm/seq/uvm_sequencer_param_base.py | 22 +++++---------
 2 files changed, 28 insertions(+), 34 deletions(-)

diff --git a/src/uvm/seq/uvm_sequence_base.py b/src/uvm/seq/uvm_sequence_base.py
index ad7d434..9e3dee6 100644
--- a/src/uvm/seq/uvm_sequence_base.py
+++ b/src/uvm/seq/uvm_sequence_base.py
@@ -1239,30 +1239,30 @@ class UVMSequenceBase(UVMSequenceItem):
             response:
             transaction_id:
         """
-        queue_size = 0
-        i = 0
-
-        if self.response_queue.size() == 0:
+        if transaction_id == -1:
             await wait(lambda: self.response_queue.size() != 0,
                  self.m_resp_queue_event)
-
-        if transaction_id == -1:
-            resp_item = self.response_queue.pop_front()
-            response.append(resp_item)
+            response.append(self.response_queue.pop_front())
             return
 
-        while True:
-            queue_size = self.response_queue.size()
-            for i in range(queue_size):
-                seq_item = self.response_queue.get(i)
-                if (seq_item.get_transaction_id() == transaction_id):
-                    response.append(seq_item)
-                    self.response_queue.delete(i)
-                    self.m_resp_queue_event.set()
-                    return
-            #wait (self.response_queue.size() != queue_size)
-            await wait(lambda: self.response_queue.size() != queue_size,
-                       self.m_resp_queue_event)
+        await wait(lambda: self.m_find_response(transaction_id) >= 0,
+            self.m_resp_queue_event)
+        i = self.m_find_response(transaction_id)
+        response.append(self.response_queue.get(i))
+        self.response_queue.delete(i)
+
+
+    def m_find_response(self, transaction_id) -> int:
+        """
+        Args:
+            transaction_id (int): Transaction ID of the sought response.
+        Returns:
+            int: Position of the first such response in the queue, -1 if none.
+        """
+        for i in range(self.response_queue.size()):
+            if self.response_queue.get(i).get_transaction_id() == transaction_id:
+                return i
+        return -1
 
 
     def m_get_sqr_sequence_id(self, sequencer_id, update_sequence_id):
diff --git a/src/uvm/seq/uvm_sequencer_param_base.py b/src/uvm/seq/uvm_sequencer_param_base.py
index 2a12357..62ae095 100644
--- a/src/uvm/seq/uvm_sequencer_param_base.py
+++ b/src/uvm/seq/uvm_sequencer_param_base.py
@@ -345,7 +345,14 @@ class UVMSequencerParamBase(UVMSequencerBase):
 
     #  /* local */ extern virtual function void do_print (uvm_printer printer)
 
-    #  /* local */ extern virtual function void analysis_write(uvm_sequence_item t)
+    def analysis_write(self, t):
+        """
+        Passes a response written to `rsp_export` on to its sequence.
+
+        Args:
+            t (UVMSequenceItem): Response item.
+        """
+        self.put_response(t)
 
     def m_last_req_push_front(self, item):
         """
@@ -377,19 +384,6 @@ class UVMSequencerParamBase(UVMSequencerBase):
 #
 #
 #
-#// analysis_write
-#// --------------
-#
-#function void uvm_sequencer_param_base::analysis_write(uvm_sequence_item t)
-#  RSP response
-#
-#  if (!$cast(response, t)):
-#    uvm_report_fatal("ANALWRT", "Failure to cast analysis port write item", UVM_NONE)
-#  end
-#  put_response(response)
-#endfunction
-#
-#
 #
 #
 #
-- 
2.43.0


From 7d88fbe97ecd514527045b91965e12804eb382c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:59 +0000
Subject: [PATCH 47/76] fix: responses to items a sequence sent to a sequencer
 other than its own are dropped once the sequence has ended (they reached the
 next run of the sequence)

---
 src/uvm/seq/uvm_sequence_base.py  | 13 +++++++++++++
 src/uvm/seq/uvm_sequencer_base.py |  1 +
 2 files changed, 14 insertions(+)

diff --git a/src/uvm/seq/uvm_sequence_base.py b/src/uvm/seq/uvm_sequence_base.py
index 9e3dee6..41d3e08 100644
--- a/src/uvm/seq/uvm_sequence_base.py
+++ b/src/uvm/seq/uvm_sequence_base.py
@@ -176,6 +176,7 @@ class UVMSequenceBase(UVMSequenceItem):
         # Each sequencer will assign a sequence id.  When a sequence is talking to multiple
         # sequencers, each sequence_id is managed separately
         self.m_sqr_seq_ids = UVMPool()
+        self.m_registrations = []  # (sequencer, sequence_id) pairs in use
         self.children_array = {}  # bit[uvm_sequence_base]
         self.response_queue = SeqItemQueue()
         self.response_queue_depth = 8
@@ -356,6 +357,7 @@ class UVMSequenceBase(UVMSequenceItem):
         if self.m_sequence_state != UVM_STOPPED:
             if self.m_sequencer is not None:
                 self.m_sequencer.m_sequence_exiting(self)
+            self.m_unregister_from_sequencers()
 
         #0; // allow stopped and finish waiters to resume
         await uvm_zero_delay()
@@ -924,6 +926,7 @@ class UVMSequenceBase(UVMSequenceItem):
         if self.m_sequence_process is not None:
             self.m_sequence_process.kill()
             self.m_sequence_process = None
+        self.m_unregister_from_sequencers()
         self.m_set_sequence_state(UVM_STOPPED)
         if self.m_parent_sequence is not None:
             self.m_parent_sequence.children_array.pop(self, None)
@@ -1265,6 +1268,16 @@ class UVMSequenceBase(UVMSequenceItem):
         return -1
 
 
+    def m_unregister_from_sequencers(self):
+        """
+        Once this sequence has ended nothing can be routed to it any more, also
+        from sequencers other than its own to which it has sent items.
+        """
+        for sequencer, sequence_id in self.m_registrations:
+            sequencer.m_unregister_sequence(sequence_id)
+        self.m_registrations = []
+
+
     def m_get_sqr_sequence_id(self, sequencer_id, update_sequence_id):
         """
           m_get_sqr_sequence_id
diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index fdc5573..15c9783 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -1030,6 +1030,7 @@ class UVMSequencerBase(UVMComponent):
         sequence_ptr.m_set_sqr_sequence_id(self.m_sequencer_id, UVMSequencerBase.g_sequence_id)
         UVMSequencerBase.g_sequence_id += 1
         self.reg_sequences[sequence_ptr.get_sequence_id()] = sequence_ptr
+        sequence_ptr.m_registrations.append((self, sequence_ptr.get_sequence_id()))
         return sequence_ptr.get_sequence_id()
     #endfunction
 
-- 
2.43.0


From 788737b314effaee1ecc33617b261620e08ac23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 48/76] fix: killed and stopped sequences drop their automatic
 objection and can be set up again, and a sequencer works after stop_sequences
 (drivers waited for ever)

---
 src/uvm/seq/uvm_sequence_base.py | 21 ++++++++++++++-------
 src/uvm/seq/uvm_sequencer.py     |  4 ++--
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/uvm/seq/uvm_sequence_base.py b/src/uvm/seq/uvm_sequence_base.py
index 41d3e08..0dec558 100644
--- a/src/uvm/seq/uvm_sequence_base.py
+++ b/src/uvm/seq/uvm_sequence_base.py
@@ -293,7 +293,6 @@ class UVMSequenceBase(UVMSequenceItem):
             this_priority:
             call_pre_post:
         """
-        old_automatic_phase_objection = False
         self.set_item_context(parent_sequence, sequencer)
 
         if not(self.m_sequence_state in [UVM_CREATED,UVM_STOPPED,UVM_FINISHED]):
@@ -366,9 +365,7 @@ class UVMSequenceBase(UVMSequenceItem):
                 self in self.m_parent_sequence.children_array):
             del self.m_parent_sequence.children_array[self]
 
-        old_automatic_phase_objection = self.get_automatic_phase_objection()
-        self.m_init_phase_daps(1)
-        self.set_automatic_phase_objection(old_automatic_phase_objection)
+        self.m_unlock_phase_daps()
 
 
     async def start_process(self, parent_sequence, call_pre_post):
@@ -561,6 +558,15 @@ class UVMSequenceBase(UVMSequenceItem):
             self.m_starting_phase_dap.set_name(sp_name)
 
 
+    def m_unlock_phase_daps(self):
+        """
+        Allows setting the starting phase and automatic phase objection again.
+        """
+        old_automatic_phase_objection = self.get_automatic_phase_objection()
+        self.m_init_phase_daps(1)
+        self.set_automatic_phase_objection(old_automatic_phase_objection)
+
+
     def get_starting_phase(self):
         """
           Function: get_starting_phase
@@ -903,9 +909,6 @@ class UVMSequenceBase(UVMSequenceItem):
             # If we are attached to a sequencer, then the sequencer
             # will clear out queues, and then kill this sequence
             self.m_sequencer.kill_sequence(self)
-        # We need to drop the objection if we raised it...
-        if self.get_automatic_phase_objection():
-            self.m_safe_drop_starting_phase("automatic phase objection")
 
 
     def do_kill(self):
@@ -928,6 +931,10 @@ class UVMSequenceBase(UVMSequenceItem):
             self.m_sequence_process = None
         self.m_unregister_from_sequencers()
         self.m_set_sequence_state(UVM_STOPPED)
+        # We need to drop the objection if we raised it...
+        if self.get_automatic_phase_objection():
+            self.m_safe_drop_starting_phase("automatic phase objection")
+        self.m_unlock_phase_daps()
         if self.m_parent_sequence is not None:
             self.m_parent_sequence.children_array.pop(self, None)
 
diff --git a/src/uvm/seq/uvm_sequencer.py b/src/uvm/seq/uvm_sequencer.py
index e7f0b42..c091f22 100644
--- a/src/uvm/seq/uvm_sequencer.py
+++ b/src/uvm/seq/uvm_sequencer.py
@@ -83,8 +83,8 @@ class UVMSequencer(UVMSequencerParamBase):
         idle state.
         """
         super().stop_sequences()
-        self.sequence_item_requested  = 0
-        self.get_next_item_called     = 0
+        self.sequence_item_requested  = False
+        self.get_next_item_called     = False
         # Empty the request fifo
         if self.m_req_fifo.used():
             uvm_report_info(self.get_full_name(),
-- 
2.43.0


From ff09322eed056b1aa554ee823e0da3557ecc2d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 49/76] fix: killing a sequence removes its requests from every
 sequencer it uses (another sequencer's driver waited for ever for its item)

---
 src/uvm/seq/uvm_sequence_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/uvm/seq/uvm_sequence_base.py b/src/uvm/seq/uvm_sequence_base.py
index 0dec558..126c88f 100644
--- a/src/uvm/seq/uvm_sequence_base.py
+++ b/src/uvm/seq/uvm_sequence_base.py
@@ -929,6 +929,9 @@ class UVMSequenceBase(UVMSequenceItem):
         if self.m_sequence_process is not None:
             self.m_sequence_process.kill()
             self.m_sequence_process = None
+        # Sequencers must not grant requests nobody waits for any more
+        for sequencer, _ in self.m_registrations:
+            sequencer.remove_sequence_from_queues(self)
         self.m_unregister_from_sequencers()
         self.m_set_sequence_state(UVM_STOPPED)
         # We need to drop the objection if we raised it...
-- 
2.43.0


From fde7034ca7dea939cf1a2be2f0f6f0223ac23758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 50/76] fix: objects with links to each other can be cloned,
 copies share no containers or objects with their source, reference fields
 copy the handle, and compare counts every differing field (strings, None,
 floats, containers, wide integers; it crashed or missed them)

---
 src/uvm/base/uvm_comparer.py         | 14 +++--
 src/uvm/base/uvm_object.py           | 30 +++++----
 src/uvm/macros/uvm_object_defines.py | 92 +++++++++++++++++++++-------
 3 files changed, 95 insertions(+), 41 deletions(-)

diff --git a/src/uvm/base/uvm_comparer.py b/src/uvm/base/uvm_comparer.py
index 0651039..e57c71d 100644
--- a/src/uvm/base/uvm_comparer.py
+++ b/src/uvm/base/uvm_comparer.py
@@ -169,8 +169,7 @@ class UVMComparer:
         """
         mask = 0
         msg = ""
-        if size <= 64:
-            return self.compare_field_int(name, lhs, rhs, size, radix)
+        return self.compare_field_int(name, lhs, rhs, size, radix)
         #
         #    mask = -1
         #    mask >>= (UVM_STREAMBITS-size)
@@ -237,8 +236,7 @@ class UVMComparer:
         """
         mask = 0x0
         msg = ""
-        mask = -1
-        mask >>= (64-size)
+        mask = (1 << size) - 1
         if (lhs & mask) != (rhs & mask):
             UVMObject._m_uvm_status_container.scope.set_arg(name)
             msg = "lhs = {} : rhs = {}".format(lhs, rhs)
@@ -334,7 +332,11 @@ class UVMComparer:
             return False  # miscompare
 
         UVMObject._m_uvm_status_container.scope.down(name)
+        result = self.result
         res = lhs.compare(rhs, self)
+        if not res and self.result == result:
+            # Not equal according to do_compare, which did not use the comparer
+            self.print_msg_object(lhs, rhs)
         UVMObject._m_uvm_status_container.scope.up()
         return res
 
@@ -448,8 +450,8 @@ class UVMComparer:
                 rhs_id = rhs.get_inst_id()
             root.uvm_report(self.sev, "MISCMP",
                 sv.sformatf("Miscompare for %0s: lhs = @%0d : rhs = @%0d",
-                UVMObject._m_uvm_status_container.scope.get(), lhs_id, rhs_id,
-                self.verbosity, "`uvm_file", "`uvm_line"))
+                UVMObject._m_uvm_status_container.scope.get(), lhs_id, rhs_id),
+                self.verbosity, "`uvm_file", "`uvm_line")
 
             self.miscompares = sv.sformatf("%s%s: lhs = @%0d : rhs = @%0d",
                 self.miscompares, UVMObject._m_uvm_status_container.scope.get(),
diff --git a/src/uvm/base/uvm_object.py b/src/uvm/base/uvm_object.py
index 46170f5..de4431b 100644
--- a/src/uvm/base/uvm_object.py
+++ b/src/uvm/base/uvm_object.py
@@ -63,6 +63,7 @@ class UVMObject(sv_obj):
 
     use_uvm_seeding = True
     uvm_global_copy_map = {}  # type: Dict['UVMObject', 'UVMObject']
+    uvm_objects_in_copy = []  # type: List['UVMObject']
     _m_uvm_status_container = UVMStatusContainer()
 
     def __init__(self, name: str):
@@ -520,8 +521,7 @@ class UVMObject(sv_obj):
             rhs (UVMObject): An object to be copied.
         """
         # For cycle checking
-        UVMObject.depth = 0
-        if (rhs is not None) and rhs in UVMObject.uvm_global_copy_map:
+        if (rhs is not None) and rhs in UVMObject.uvm_objects_in_copy:
             return
 
         if rhs is None:
@@ -530,13 +530,16 @@ class UVMObject(sv_obj):
             return
 
         UVMObject.uvm_global_copy_map[rhs] = self
+        UVMObject.uvm_objects_in_copy.append(rhs)
         UVMObject.depth += 1
-        self._m_uvm_field_automation(rhs, UVM_COPY, "")
-        self.do_copy(rhs)
-
-        UVMObject.depth -= 1
-        if UVMObject.depth == 0:
-            UVMObject.uvm_global_copy_map = {}
+        try:
+            self._m_uvm_field_automation(rhs, UVM_COPY, "")
+            self.do_copy(rhs)
+        finally:
+            UVMObject.uvm_objects_in_copy.pop()
+            UVMObject.depth -= 1
+            if UVMObject.depth == 0:
+                UVMObject.uvm_global_copy_map = {}
 
     def do_copy(self, rhs) -> None:
         """
@@ -599,7 +602,8 @@ class UVMObject(sv_obj):
             cls._m_uvm_status_container.comparer = uvm_default_comparer
         comparer = cls._m_uvm_status_container.comparer
 
-        if(not cls._m_uvm_status_container.scope.depth()):
+        top = not cls._m_uvm_status_container.scope.depth()
+        if top:
             comparer.compare_map.delete()
             comparer.result = 0
             comparer.miscompares = ""
@@ -608,6 +612,7 @@ class UVMObject(sv_obj):
                 cls._m_uvm_status_container.scope.down("<object>")
             else:
                 cls._m_uvm_status_container.scope.down(self.get_name())
+        result = comparer.result
 
         if(not done and (rhs is None)):
             if(cls._m_uvm_status_container.scope.depth()):
@@ -620,11 +625,12 @@ class UVMObject(sv_obj):
                      cls._m_uvm_status_container.scope.get(),
                       self.get_inst_id()),
                       cls._m_uvm_status_container.comparer.verbosity)
-                done = 1
+            done = 1
 
         if(not done and comparer.compare_map.exists(rhs)):
             if(comparer.compare_map[rhs] != self):
                 comparer.print_msg_object(self, comparer.compare_map[rhs])
+            dc = 1
             done = 1  # don't do any more work after this case, but do cleanup
 
         if(not done and comparer.check_type and (rhs is not None) and
@@ -638,12 +644,12 @@ class UVMObject(sv_obj):
             self._m_uvm_field_automation(rhs, UVM_COMPARE, "")
             dc = self.do_compare(rhs, comparer)
 
-        if cls._m_uvm_status_container.scope.depth() == 1:
+        if top:
             cls._m_uvm_status_container.scope.up()
 
         if rhs is not None:
             comparer.print_rollup(self, rhs)
-        return (comparer.result == 0 and dc == 1)
+        return (comparer.result == result and dc == 1)
 
 
     def do_compare(self, rhs, comparer) -> bool:
diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 03656bb..f36c494 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -119,11 +119,66 @@ def uvm_object_utils_end(T):
     uvm_field_utils_end(T)
 
 
+def m_uvm_copy_field_value(val):
+    """Returns a copy of the value of a field, which shares no objects or containers with it"""
+    from ..base.uvm_object import UVMObject
+    if isinstance(val, UVMObject):
+        # An object already copied by this operation is not copied again
+        if val in UVMObject.uvm_global_copy_map:
+            return UVMObject.uvm_global_copy_map[val]
+        return val.clone()
+    if type(val) in (list, tuple):
+        return type(val)([m_uvm_copy_field_value(elem) for elem in val])
+    if type(val) is dict:
+        return {key: m_uvm_copy_field_value(elem) for key, elem in val.items()}
+    if type(val) in (set, bytearray):
+        return val.copy()
+    if hasattr(val, "clone"):
+        return val.clone()
+    return val
+
+
+def m_uvm_compare_field_value(comparer, name, lhs, rhs):
+    """Compares the values of a field using the comparer, which counts the differences"""
+    from ..base.uvm_object import UVMObject
+    if isinstance(lhs, (UVMObject, type(None))) and isinstance(rhs, (UVMObject, type(None))):
+        return comparer.compare_object(name, lhs, rhs)
+    if isinstance(lhs, int) and isinstance(rhs, int):
+        size = max(lhs.bit_length(), rhs.bit_length()) + 1
+        return comparer.compare_field(name, lhs, rhs, size)
+    if isinstance(lhs, str) and isinstance(rhs, str):
+        return comparer.compare_string(name, lhs, rhs)
+    if isinstance(lhs, (int, float)) and isinstance(rhs, (int, float)):
+        return comparer.compare_field_real(name, lhs, rhs)
+    keys = None
+    if isinstance(lhs, (list, tuple)) and isinstance(rhs, (list, tuple)):
+        if len(lhs) == len(rhs):
+            keys = range(len(lhs))
+    elif isinstance(lhs, dict) and isinstance(rhs, dict):
+        if lhs.keys() == rhs.keys():
+            keys = lhs.keys()
+    elif lhs == rhs:
+        return True
+    if keys is None:
+        UVMObject._m_uvm_status_container.scope.set_arg(name)
+        comparer.print_msg("lhs = {} : rhs = {}".format(lhs, rhs))
+        return False
+    result = True
+    for key in keys:
+        if not m_uvm_compare_field_value(comparer, "{}[{}]".format(name, key), lhs[key], rhs[key]):
+            result = False
+        if comparer.result and comparer.show_max <= comparer.result:
+            break
+    return result
+
+
 def uvm_field_utils_start(T):
     # Create static member containers for var names and masks
-    if not hasattr(T, "_m_uvm_field_names"):
+    # Each class has containers of its own, the fields of base classes are handled
+    # by the automation of those classes
+    if "_m_uvm_field_names" not in T.__dict__:
         setattr(T, "_m_uvm_field_names", [])
-    if not hasattr(T, "_m_uvm_field_masks"):
+    if "_m_uvm_field_masks" not in T.__dict__:
         setattr(T, "_m_uvm_field_masks", {})
 
     def _m_uvm_field_automation(self, rhs, what__, str__):
@@ -148,33 +203,24 @@ def uvm_field_utils_start(T):
         if what__ == UVM_COPY:
             for v in vals:
                 mask_v = masks[v]
+                if not hasattr(rhs, v):
+                    continue  # rhs is of a type without this field
                 if not(mask_v & UVM_NOCOPY) and (mask_v & UVM_COPY != 0):
                     v_attr = getattr(rhs, v)
-                    if hasattr(v_attr, "clone"):
-                        setattr(self, v, v_attr.clone())
-                    else:
-                        setattr(self, v, v_attr)
+                    if not (mask_v & UVM_REFERENCE):
+                        v_attr = m_uvm_copy_field_value(v_attr)
+                    setattr(self, v, v_attr)
         elif what__ == UVM_COMPARE:
             for v in vals:
                 mask_v = masks[v]
+                if not hasattr(rhs, v):
+                    continue  # rhs is of a type without this field
                 if not(mask_v & UVM_NOCOMPARE) and (mask_v & UVM_COMPARE != 0):
-                    v_attr_rhs = getattr(rhs, v)
-                    v_attr_self = getattr(self, v)
-                    # Try simple equality first
-                    if v_attr_rhs != v_attr_self:
-                        if isinstance(v_attr_self, int):
-                            T_cont.comparer.compare_field(v,
-                                v_attr_self, v_attr_rhs, 0)
-                        elif isinstance(v_attr_self, str):
-                            T_cont.comparer.compare_string(v,
-                                v_attr_self, v_attr_rhs, 0)
-                        elif hasattr(v_attr_self, "compare"):
-                            T_cont.comparer.compare_object(v,
-                                v_attr_self, v_attr_rhs)
-
-                        if (T_cont.comparer.result and
-                                T_cont.comparer.show_max <= T_cont.comparer.result):
-                            return
+                    m_uvm_compare_field_value(T_cont.comparer, v,
+                        getattr(self, v), getattr(rhs, v))
+                    if (T_cont.comparer.result and
+                            T_cont.comparer.show_max <= T_cont.comparer.result):
+                        return
         elif what__ == UVM_PRINT:
             for v in vals:
                 mask_v = masks[v]
-- 
2.43.0


From 6bd672d033fb3d7a4ad4627e4ee779b8235d8357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 51/76] fix: packing and unpacking: sizes are respected,
 negative values, empty strings, big endian strings, None and metadata work,
 unpack_bytes and unpack_ints exist, arrays unpack from the current position,
 leading zero bits are not lost

---
 src/uvm/base/uvm_packer.py           | 193 ++++++++++++---------------
 src/uvm/macros/uvm_object_defines.py |  12 +-
 2 files changed, 95 insertions(+), 110 deletions(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index 40d2e7c..a92f66d 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -144,6 +144,8 @@ class UVMPacker(object):
         self.policy = UVM_DEFAULT_POLICY
         self.m_bits = 0x0  # uvm_pack_bitstream_t
         self.m_packed_size = 0
+        # Set when the bits come from an integer, which does not tell their number
+        self.m_unsized = False
 
 
     #  // Function: pack_field
@@ -153,14 +155,7 @@ class UVMPacker(object):
     #
     #  extern def pack_field(self,uvm_bitstream_t value, int size):
     def pack_field(self, value, size) -> None:
-        #  for (int i=0; i<size; i++)
-        if self.big_endian == 1:
-            flipped = self.flip_bit_order(value, size)
-            self.m_bits |= flipped << self.count
-            # self.m_bits[count+i] = value[size-1-i]
-        else:
-            self.m_bits |= value << self.count
-        self.count += size
+        self.pack_field_int(value, size)
 
 
     #  // Function: pack_field_int
@@ -170,13 +165,11 @@ class UVMPacker(object):
     #  // ~$bits~. This optimized version of <pack_field> is useful for sizes up
     #  // to 64 bits.
     def pack_field_int(self, value: int, size: int) -> None:
+        value &= (1 << size) - 1  # Only size bits are packed, also of negative values
         if self.big_endian == 1:
-            flipped = self.flip_bit_order(value, size)
-            self.m_bits |= flipped << self.count
             #self.m_bits[self.count+i] = value[size-1-i]
-        else:
-            self.m_bits |= value << self.count
-            #self.m_bits[self.count+i] = value[i]
+            value = self.flip_bit_order(value, size)
+        self.m_bits |= value << self.count
         self.count += size
 
 
@@ -206,12 +199,7 @@ class UVMPacker(object):
                 size, max_size))
             return
         else:
-            for i in range(len(value)):
-                byte = value[i]
-                if self.big_endian == 1:
-                    byte = self.flip_bit_order(value[len(value)-1-i], 8)
-                self.m_bits |= byte << self.count
-                self.count += 8
+            self.m_pack_array(value, 8, size)
 
 
     #  // Function: pack_ints
@@ -254,13 +242,7 @@ class UVMPacker(object):
                     size, max_size))
             return
         else:
-            for i in range(len(value)):
-                int_num = value[i]
-                if self.big_endian == 1:
-                    int_num = self.flip_bit_order(value[len(value)-1-i],
-                        SIZEOF_INT)
-                self.m_bits |= int_num << self.count
-                self.count += SIZEOF_INT
+            self.m_pack_array(value, SIZEOF_INT, size)
 
 
     #  // Function: pack_string
@@ -277,15 +259,10 @@ class UVMPacker(object):
     def pack_string(self, value) -> None:
         bytearr = value.encode()
 
-        size = 8 * len(bytearr)
-        bits = int(bytearr.hex(), 16)
-        if self.big_endian == 1:
-            bits = self.flip_bit_order(bits, -1)
-        self.m_bits |= bits << self.count
-        self.count += size
         if self.use_metadata == 1:
-            pass
-            # TODO self.m_bits |= 0 << self.count
+            bytearr += b"\0"
+        for byte in bytearr:
+            self.pack_field_int(byte, 8)
         #  byte b
         #  foreach (value[index]):
         #    if(self.big_endian == 0)
@@ -334,28 +311,28 @@ class UVMPacker(object):
     #
     #  extern def pack_object(self,uvm_object value):
     def pack_object(self, value) -> None:
-        if value in value._m_uvm_status_container.cycle_check:
-            uvm_warning("CYCFND", sv.sformatf("Cycle detected for object @%0d during pack",
-                value.get_inst_id()))
-            return
+        if value is not None:
+            if value in value._m_uvm_status_container.cycle_check:
+                uvm_warning("CYCFND", sv.sformatf("Cycle detected for object @%0d during pack",
+                    value.get_inst_id()))
+                return
 
-        value._m_uvm_status_container.cycle_check[value] = 1
+            value._m_uvm_status_container.cycle_check[value] = 1
 
         if((self.policy != UVM_REFERENCE) and value is not None):
             if self.use_metadata == 1:
-                pass
-                #self.m_bits[count +: 4] = 1
-                #count += 4; // to better debug when display packed bits in hexadecimal
+                self.m_bits |= 1 << self.count
+                self.count += 4  # to better debug when display packed bits in hexadecimal
 
             self.scope.down(value.get_name())
+            value._m_uvm_status_container.packer = self
             value._m_uvm_field_automation(None, UVM_PACK,"")
             value.do_pack(self)
             self.scope.up()
         elif self.use_metadata == 1:
-            pass
-            #self.m_bits[count +: 4] = 0
-            #count += 4
-        del value._m_uvm_status_container.cycle_check[value]
+            self.count += 4
+        if value is not None:
+            del value._m_uvm_status_container.cycle_check[value]
 
 
     #  //------------------//
@@ -374,6 +351,8 @@ class UVMPacker(object):
     #  // needs to be allocated or not.
     #
     #  extern def is_null(self):
+    def is_null(self) -> bool:
+        return get_bits(self.m_bits, self.count, 4) == 0
 
 
     #  // Function: unpack_field
@@ -408,19 +387,9 @@ class UVMPacker(object):
     #  extern def unpack_field_int(self,int size):
     def unpack_field_int(self, size) -> int:
         unpack_field_int = 0x0
-        count_before = self.count
         if self.enough_bits(size,"integral"):
+            unpack_field_int = get_bits(self.m_bits, self.count, size)
             self.count += size
-            for i in range(size):
-                if self.big_endian:
-                    bit_sel = self.count-i-1
-                    bit_sel = (1 << bit_sel)
-                    unpack_field_int |= self.m_bits & bit_sel
-                else:
-                    bit_sel = self.count-size+i
-                    bit_sel = (1 << bit_sel)
-                    unpack_field_int |= self.m_bits & bit_sel
-        unpack_field_int >>= count_before
         if self.big_endian:
             unpack_field_int = self.flip_bit_order(unpack_field_int, size)
         return unpack_field_int
@@ -449,15 +418,7 @@ class UVMPacker(object):
                     size, len(value)))
             return []
         else:
-            if self.enough_bits(size, "integral"):
-                self.count += size
-                for b in range(len(value)):
-                    byte = (self.m_bits >> b * 8) & 0xFF
-                    if self.big_endian == 1:
-                        byte = self.flip_bit_order(byte, 8)
-                        value[len(value)-1-b] = byte
-                    else:
-                        value[b] = byte
+            self.m_unpack_array(value, 8, size)
             return value
 
 
@@ -500,15 +461,7 @@ class UVMPacker(object):
                    size, len(value)))
             return
         else:
-            if self.enough_bits(size, "integral"):
-                self.count += size
-                for i in range(len(value)):
-                    int_num = (self.m_bits >> i * SIZEOF_INT) & 0xFFFFFFFF
-                    if self.big_endian == 1:
-                        int_num = self.flip_bit_order(int_num, SIZEOF_INT)
-                        value[len(value)-1-i] = int_num
-                    else:
-                        value[i] = int_num
+            self.m_unpack_array(value, SIZEOF_INT, size)
             return value
 
 
@@ -533,24 +486,19 @@ class UVMPacker(object):
 
         byte_arr = bytearray()
         #unpack_string = 0
-        curr_byte = (self.m_bits >> self.count) & 0xFF
         while (self.enough_bits(8,"string", is_error=False) and
-              ((curr_byte != 0) or (is_null_term == 0)) and
-              ((i < num_chars) or (is_null_term == 1))):
-            # silly, because cannot append byte/char to string
-            #unpack_string = unpack_string + " "
-            #if self.big_endian == 0:
-            #    unpack_string[i] = self.m_bits[count +: 8]
-            #else:
-            #    for(int j=0; j<8; ++j)
-            #        b[7-j] = self.m_bits[count+j]
-            #  unpack_string[i] = b
+              ((is_null_term == 1) or (i < num_chars))):
+            if (is_null_term == 1 and self.use_metadata == 0 and self.m_unsized and
+                    self.m_bits >> self.count == 0):
+                break
+            curr_byte = self.unpack_field_int(8)
+            if is_null_term == 1 and curr_byte == 0:
+                break
+            byte_arr.append(curr_byte)
             i += 1
-            byte_arr.insert(0, curr_byte)
-            self.count += 8
-            curr_byte = (self.m_bits >> self.count) & 0xFF
-        if self.enough_bits(8,"string", is_error=False):
-            self.count += 8
+        if (is_null_term == 0 and self.use_metadata == 1 and
+                self.enough_bits(8,"string", is_error=False)):
+            self.count += 8  # The terminating null
         return byte_arr.decode()
         #return unpack_string
 
@@ -591,11 +539,12 @@ class UVMPacker(object):
     def unpack_object(self, value):
         is_non_null = 1
 
-        if value in value._m_uvm_status_container.cycle_check:
-            uvm_warning("CYCFND", sv.sformatf(
-                "Cycle detected for object @%0d during unpack", value.get_inst_id()))
-            return
-        value._m_uvm_status_container.cycle_check[value] = 1
+        if value is not None:
+            if value in value._m_uvm_status_container.cycle_check:
+                uvm_warning("CYCFND", sv.sformatf(
+                    "Cycle detected for object @%0d during unpack", value.get_inst_id()))
+                return
+            value._m_uvm_status_container.cycle_check[value] = 1
 
         if self.use_metadata == 1:
             is_non_null = get_bits(self.m_bits, self.count, 4) != 0  # [count +: 4]
@@ -606,6 +555,7 @@ class UVMPacker(object):
         if value is not None:
             if is_non_null > 0:
                 self.scope.down(value.get_name())
+                value._m_uvm_status_container.packer = self
                 value._m_uvm_field_automation(None, UVM_UNPACK,"")
                 value.do_unpack(self)
                 self.scope.up()
@@ -616,7 +566,8 @@ class UVMPacker(object):
                 #       this does not nullify argument; need to pass obj by ref
         elif ((is_non_null != 0) and (value is None)):
              uvm_error("UNPOBJ","cannot unpack into None object")
-        del value._m_uvm_status_container.cycle_check[value]
+        if value is not None:
+            del value._m_uvm_status_container.cycle_check[value]
 
 
     #  // Function: get_packed_size
@@ -697,15 +648,49 @@ class UVMPacker(object):
         #      self.m_bits[i] = bitstream[i]
         #
         self.m_bits = bitstream
-        self.m_packed_size = len(bin(self.m_bits)) - 2
+        self.m_packed_size = self.m_bits.bit_length()
+        self.m_unsized = True
         self.count = 0
 
     #  extern def put_bytes(self,ref byte unsigned bytestream[]):
+    def put_bytes(self, bytestream):
+        self.m_put_array(bytestream, 8)
+
     #  extern def put_ints(self,ref int unsigned intstream[]):
+    def put_ints(self, intstream):
+        self.m_put_array(intstream, SIZEOF_INT)
+
+    def m_put_array(self, stream, width):
+        self.m_bits = 0
+        for i, v in enumerate(stream):
+            v &= (1 << width) - 1
+            if self.big_endian:
+                v = self.flip_bit_order(v, width)
+            self.m_bits |= v << (i * width)
+        self.m_packed_size = len(stream) * width
+        self.m_unsized = False
+        self.count = 0
+
+    def m_pack_array(self, value, width, size):
+        """Packs size bits of an array of elements of the given width"""
+        bits = 0
+        for i, v in enumerate(value):
+            bits |= (v & ((1 << width) - 1)) << (i * width)
+        self.pack_field_int(bits, size)
+
+    def m_unpack_array(self, value, width, size):
+        """Unpacks size bits into an array of elements of the given width"""
+        if not self.enough_bits(size, "integral"):
+            return
+        bits = self.unpack_field_int(size)
+        for i in range((size + width - 1) // width):
+            mask = (1 << min(width, size - i * width)) - 1
+            value[i] = (value[i] & ~mask) | ((bits >> (i * width)) & mask)
 
 
     def set_packed_size(self):
         self.m_packed_size = self.count
+        self.m_unsized = False
         self.count = 0
 
     #  extern def index_error(self,int index, string id, int sz):
@@ -716,7 +701,7 @@ class UVMPacker(object):
 
     #  extern def enough_bits(self,int needed, string id):
     def enough_bits(self, needed, id, is_error=True):
-        if ((self.m_packed_size - self.count) < needed):
+        if not self.m_unsized and ((self.m_packed_size - self.count) < needed):
             if is_error is True:
                 uvm_error("PCKSZ",
                     sv.sformatf("%0d bits needed to unpack %0s, yet only %0d available.",
@@ -729,6 +714,7 @@ class UVMPacker(object):
         self.count = 0
         self.m_bits = 0
         self.m_packed_size = 0
+        self.m_unsized = False
 
     def flip_bit_order(self, value, size: int) -> int:
         flipped = 0x0
@@ -738,7 +724,7 @@ class UVMPacker(object):
             value = value >> 1
         # For packing, need to add some right-padding
         if size != -1:
-            rem_bits = size - num_bits
+            rem_bits = size - num_bits if flipped or size else 0
             if rem_bits >= 0:
                 flipped <<= rem_bits
             else:
@@ -952,9 +938,4 @@ class UVMPacker(object):
 #
 
 def get_bits(bits, count, nbits):  # [count +: 4]
-    val = 0x0
-    idx = 0
-    for i in range(count, count + nbits + 1):
-        val |= (1 << (nbits - idx)) & (bits >> (i-idx))
-        idx += 1
-    return val
+    return (bits >> count) & ((1 << nbits) - 1)
diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index f36c494..28d5fd4 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -319,7 +319,7 @@ def uvm_field_utils_start(T):
                     val = getattr(self, v)
                     if isinstance(val, int):
                         T_cont.packer.pack_field_int(val, sv.bits(val))
-                    elif isinstance(val, UVMObject):
+                    elif val is None or isinstance(val, UVMObject):
                         T_cont.packer.pack_object(val)
                     elif isinstance(val, str):
                         T_cont.packer.pack_string(val)
@@ -332,9 +332,13 @@ def uvm_field_utils_start(T):
                     val = getattr(self, v)
                     if isinstance(val, int):
                         rhs = T_cont.packer.unpack_field_int(sv.bits(val))
-                    elif isinstance(val, UVMObject):
-                        T_cont.packer.unpack_object(val)
-                        rhs = val
+                    elif val is None or isinstance(val, UVMObject):
+                        is_null = T_cont.packer.use_metadata and T_cont.packer.is_null()
+                        if val is None and not T_cont.packer.use_metadata:
+                            rhs = None
+                        else:
+                            T_cont.packer.unpack_object(val)
+                            rhs = None if is_null else val
                     elif isinstance(val, str):
                         rhs = T_cont.packer.unpack_string()
                     else:
-- 
2.43.0


From ed2de8dbb307454df10e6bc97f0e710bf9a46464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 52/76] fix: printing: fields are shown in the radix set for
 them and in full width, objects in arrays no longer shift the levels of later
 fields, nested rows are aligned, long names keep their indentation, negative
 decimals of print_field_int keep their sign, knobs take 0/1, index_string
 works

---
 src/uvm/base/uvm_misc.py             |  2 +-
 src/uvm/base/uvm_printer.py          | 35 ++++++++++++++--------------
 src/uvm/macros/uvm_object_defines.py |  4 +++-
 3 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/uvm/base/uvm_misc.py b/src/uvm/base/uvm_misc.py
index c822c60..83b244c 100644
--- a/src/uvm/base/uvm_misc.py
+++ b/src/uvm/base/uvm_misc.py
@@ -105,7 +105,7 @@ def uvm_integral_to_string(value, size, radix=UVM_NORADIX, radix_str="") -> str:
         str:
     """
     # sign extend & don't show radix for negative values
-    if radix == UVM_DEC and (value >> (size-1)) == 1:
+    if radix == UVM_DEC and (value >> (size-1)):
         return "{}".format(value)
 
     # TODO $countbits(value,'z) would be even better
diff --git a/src/uvm/base/uvm_printer.py b/src/uvm/base/uvm_printer.py
index bc3d587..7486e3b 100644
--- a/src/uvm/base/uvm_printer.py
+++ b/src/uvm/base/uvm_printer.py
@@ -143,7 +143,7 @@ class UVMPrinter():
         self.m_rows.append(row_info)
 
         self.m_scope.down(name)
-        self.m_array_stack.append(1)
+        self.m_array_stack.append(name)
 
 
     # print_array_footer
@@ -151,8 +151,10 @@ class UVMPrinter():
 
     def print_array_footer(self, size=0):
         if len(self.m_array_stack) > 0:
-            self.m_scope.up()
-            self.m_array_stack.pop()
+            if self.m_array_stack.pop()[:1] == "[":
+                self.m_scope.up("[")
+            else:
+                self.m_scope.up()
 
 
     def print_array_range(self, min_val, max_val):
@@ -199,7 +201,7 @@ class UVMPrinter():
         self.m_scope.set_arg(name)
         row_info.level = self.m_scope.depth()
 
-        if row_info.level == 0 and self.knobs.show_root is True:
+        if row_info.level == 0 and self.knobs.show_root and value is not None:
             row_info.name = value.get_full_name()
         else:
             row_info.name = self.adjust_name(self.m_scope.get(),scope_separator)
@@ -210,7 +212,7 @@ class UVMPrinter():
             row_info.type_name = value.get_type_name()
         row_info.size = "-"
 
-        if self.knobs.reference is True:
+        if self.knobs.reference:
             row_info.val = uvm_object_value_str(value)
         else:
             row_info.val = "-"
@@ -243,7 +245,6 @@ class UVMPrinter():
                 # Handle children of the comp
                 #if($cast(comp, value)) begin
                 comp = value
-                name = ""
                 if hasattr(comp, "has_first_child"):
                     if comp.has_first_child():
                         child_comp = comp.get_first_child()
@@ -307,7 +308,7 @@ class UVMPrinter():
         if value == "":
             row_info.val = '""'
         else:
-            row_info.val = value
+            row_info.val = str(value)
 
         self.m_rows.append(row_info)
 
@@ -452,8 +453,7 @@ class UVMPrinter():
             index:
             name:
         """
-        res = "{}".index
-        res = name + "[" + res + "]"
+        return "{}[{}]".format(name, index)
 
 #------------------------------------------------------------------------------
 #
@@ -604,7 +604,7 @@ class UVMPrinterKnobs:
         self.hex_radix = "'h"
 
     def get_radix_str(self, radix):
-        if self.show_radix is False:
+        if not self.show_radix:
             return ""
         if radix == UVM_NORADIX:
             radix = self.default_radix
@@ -686,12 +686,12 @@ class UVMTablePrinter(UVMPrinter):
         self.calculate_max_widths()
 
         q = [self. m_max_name, self.m_max_type,self.m_max_size,self.m_max_value,100]
-        m = max(q)
+        m = max(q) + 3
         if len(dash) < m:
             dash = "-" * m
             space = " " * m
 
-        if self.knobs.header is True:
+        if self.knobs.header:
             header = ""
             user_format = self.format_header()
             if user_format == "":
@@ -704,7 +704,7 @@ class UVMTablePrinter(UVMPrinter):
                 if self.knobs.identifier:
                     dashes = dash[1:self.m_max_name+2]
                     header = "Name" + space[1:self.m_max_name-2]
-                if self.knobs.type_name is True:
+                if self.knobs.type_name:
                     dashes = dashes + dash[1:self.m_max_type+2]
                     header = header + "Type" + space[1:self.m_max_type-2]
                 if self.knobs.size:
@@ -723,7 +723,7 @@ class UVMTablePrinter(UVMPrinter):
             if user_format == "":
                 row_str = ""
                 if self.knobs.identifier:
-                    row_str = (space[1:row.level * self.knobs.indent] + row.name
+                    row_str = (" " * (row.level * self.knobs.indent) + row.name
                         + space[1:self.m_max_name-len(row.name)-(row.level*self.knobs.indent)+2])
                 if self.knobs.type_name:
                     row_str = (row_str + row.type_name
@@ -776,7 +776,6 @@ class UVMTreePrinter(UVMPrinter):
     def emit(self):
         knobs = self.knobs
         s = knobs.prefix
-        space = " " * 100
         user_format = ""
         newline = self.newline
 
@@ -795,7 +794,7 @@ class UVMTreePrinter(UVMPrinter):
             row = self.m_rows[i]
             user_format = self.format_row(row)
             if user_format == "":
-                indent_str = space[1:row.level * knobs.indent]
+                indent_str = " " * (row.level * knobs.indent)
 
                 # Name (id)
                 if knobs.identifier:
@@ -804,7 +803,7 @@ class UVMTreePrinter(UVMPrinter):
                         s = s + ": "
 
                 # Type Name
-                if row.val[0] == "@":  # is an object w/ knobs.reference on
+                if row.val.startswith("@"):  # is an object w/ knobs.reference on
                     s = s + "(" + row.type_name + row.val + ") "
                 else:
                     if (knobs.type_name and
@@ -839,7 +838,7 @@ class UVMTreePrinter(UVMPrinter):
                     if (end_level < row.level):
                         indent_str = ""
                         for l in range(row.level-1, end_level-1, -1):
-                            indent_str = space[1:l * knobs.indent+1]
+                            indent_str = " " * (l * knobs.indent)
                             sep = ""
                             if len(knobs.separator) > 1:
                                 sep = str(knobs.separator[1])
diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 28d5fd4..64e60be 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -230,8 +230,10 @@ def uvm_field_utils_start(T):
                         continue
 
                     if isinstance(v_attr_self, int):
+                        # Wide enough to show the whole value (with its sign)
+                        nbits = v_attr_self.bit_length() + (1 if v_attr_self < 0 else 0)
                         T_cont.printer.print_field(v, v_attr_self,
-                            sv.bits(v_attr_self), (what__ & UVM_RADIX))
+                            max(sv.bits(v_attr_self), nbits), (mask_v & UVM_RADIX))
                     elif isinstance(v_attr_self, UVMObject):
                         if mask_v & UVM_REFERENCE:
                             T_cont.printer.print_object_header(v, v_attr_self)
-- 
2.43.0


From 7df9f078dbcf450430e4123a701768d7acf77eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 53/76] fix: callbacks: typewide callbacks apply once to
 objects with callbacks of their own (they were lost), adding one later no
 longer crashes, iteration with a callback type returns only enabled callbacks
 of that type (the report catchers crashed on other callbacks), the exit_on
 macro returns its value

---
 src/uvm/base/uvm_callback.py           | 101 +++++++++----------------
 src/uvm/base/uvm_report_catcher.py     |  27 ++++---
 src/uvm/macros/uvm_callback_defines.py |   2 +-
 3 files changed, 51 insertions(+), 79 deletions(-)

diff --git a/src/uvm/base/uvm_callback.py b/src/uvm/base/uvm_callback.py
index ce091e2..2b35aa5 100644
--- a/src/uvm/base/uvm_callback.py
+++ b/src/uvm/base/uvm_callback.py
@@ -112,9 +112,9 @@ class UVMCallbacksBase(UVMObject):
 
     @classmethod
     def m_initialize(cls):
-        if cls.m_b_inst is None:
-            cls.m_b_inst = UVMCallbacksBase("callbacks_base")
-            cls.m_pool = UVMPool()
+        if UVMCallbacksBase.m_b_inst is None:
+            UVMCallbacksBase.m_b_inst = UVMCallbacksBase("callbacks_base")
+            UVMCallbacksBase.m_pool = UVMPool()
         return UVMCallbacksBase.m_b_inst
 
     def m_am_i_a(self, obj):
@@ -333,29 +333,23 @@ class UVMTypedCallbacks(UVMCallbacksBase):  # (type T=uvm_object) extends uvm_ca
             else:
                 cls.m_t_inst.m_tw_cb_q.insert(0, cb)
 
-        if cls.m_t_inst.m_pool.has_first():
-            obj = cls.m_t_inst.m_pool.get_first()
-            while True:
-                #if($cast(me,obj)):
-                me = obj
-                q = cls.m_t_inst.m_pool.get(obj)
-                if q is None:
-                    q = []
-                    cls.m_t_inst.m_pool.add(obj,q)
-
-                if self.m_cb_find(q,cb) == -1:
-                    if not warned:
-                        cls.m_cb_find_name(q, cb.get_name(), "object instance "
-                                + me.get_full_name())
-
-                    if ordering == UVM_APPEND:
-                        q.append(cb)
-                    else:
-                        q.insert(0, cb)
-
-                if cls.m_t_inst.m_pool.has_next() is False:
-                    break
-                #end while(m_t_inst.m_pool.next(obj))
+        for obj in cls.m_t_inst.m_pool.key_list():
+            #if($cast(me,obj)):
+            me = obj
+            q = cls.m_t_inst.m_pool.get(obj)
+            if q is None:
+                q = []
+                cls.m_t_inst.m_pool.add(obj,q)
+
+            if self.m_cb_find(q,cb) == -1:
+                if not warned:
+                    cls.m_cb_find_name(q, cb.get_name(), "object instance "
+                            + me.get_full_name())
+
+                if ordering == UVM_APPEND:
+                    q.append(cb)
+                else:
+                    q.insert(0, cb)
 
         for i in range(len(self.m_derived_types)):
             cb_pair = UVMTypeIDBase.typeid_map[self.m_derived_types[i]]
@@ -725,7 +719,7 @@ class UVMCallbacks(UVMTypedCallbacks):
 
 
         if obj is None:
-            if cls.m_cb_find(cls.m_t_inst.m_tw_cb_q, cb) != -1:
+            if cls.m_cb_find(UVMTypedCallbacks.m_t_inst.m_tw_cb_q, cb) != -1:
 
                 if cls.m_base_inst.m_typename != "":
                     tnm = cls.m_base_inst.m_typename
@@ -752,21 +746,8 @@ class UVMCallbacks(UVMTypedCallbacks):
                 cls.m_base_inst.m_pool.add(obj,q)
 
             if len(q) == 0:
-                # Need to make sure that registered report catchers are added. This
-                # way users don't need to set up uvm_report_object as a super type.
-                o = []  # uvm_report_object
-
-                if (sv.cast(o,obj, UVMReportObject)):
-                    # uvm_queue#(uvm_callback) qr
-                    UVMCallbacks.get()
-                    qr = UVMCallbacks.m_t_inst.m_tw_cb_q
-                    for i in range(len(qr)):
-                        q.append(qr[i])
-
-                # for(int i=0; i<m_t_inst.m_tw_cb_q.size(); ++i)
-                for i in range(len(cls.m_t_inst.m_tw_cb_q)):
-                    q.append(cls.m_t_inst.m_tw_cb_q[i])
-
+                # The typewide callbacks (also report catchers) apply to this object too
+                q.extend(UVMTypedCallbacks.m_t_inst.m_tw_cb_q)
 
             #check if already exists in the queue
             if cls.m_cb_find(q,cb) != -1:
@@ -976,12 +957,9 @@ class UVMCallbacks(UVMTypedCallbacks):
         q = cls.m_get_q(obj, CB)
         for i in range(len(q)):
             itr.m_i = i
-            cb = []
-            if CB is not None:
-                if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
-                    return cb[0]
-            else:
-                return q[itr.m_i]  # Just return 1st index without type match
+            cb = q[i]
+            if (CB is None or sv.cast([], cb, CB)) and cb.callback_mode():
+                return cb
         return None
         #  endfunction
 
@@ -1016,12 +994,9 @@ class UVMCallbacks(UVMTypedCallbacks):
         q = cls.m_get_q(obj, CB)
         for i in range(len(q)-1, -1, -1):
             itr.m_i = i
-            cb = []
-            if CB is not None:
-                if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
-                    return cb[0]
-            else:
-                return q[itr.m_i]  # Just return 1st index without type match
+            cb = q[i]
+            if (CB is None or sv.cast([], cb, CB)) and cb.callback_mode():
+                return cb
         return None
 
     @classmethod
@@ -1056,12 +1031,9 @@ class UVMCallbacks(UVMTypedCallbacks):
         q = cls.m_get_q(obj)
         for i in range(itr.m_i + 1, len(q)):
             itr.m_i = i
-            cb = []
-            if CB is not None:
-                if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
-                    return cb[0]
-            else:
-                return q[itr.m_i]
+            cb = q[i]
+            if (CB is None or sv.cast([], cb, CB)) and cb.callback_mode():
+                return cb
         return None
         #  endfunction
 
@@ -1100,12 +1072,9 @@ class UVMCallbacks(UVMTypedCallbacks):
         # for(itr = itr-1; itr>= 0; --itr)
         for i in range(itr.m_i - 1, -1, -1):
             itr.m_i = i
-            cb = []
-            if CB is not None:
-                if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
-                    return cb[0]
-            else:
-                return q[itr.m_i]
+            cb = q[i]
+            if (CB is None or sv.cast([], cb, CB)) and cb.callback_mode():
+                return cb
         return None
 
 
diff --git a/src/uvm/base/uvm_report_catcher.py b/src/uvm/base/uvm_report_catcher.py
index dae815e..5b9954a 100644
--- a/src/uvm/base/uvm_report_catcher.py
+++ b/src/uvm/base/uvm_report_catcher.py
@@ -51,6 +51,10 @@ class UVMReportCb(UVMCallbacks):
     def get_first(cls, itr, obj):
         return super().get_first(itr, obj, UVMReportCatcher)
 
+    @classmethod
+    def get_next(cls, itr, obj):
+        return super().get_next(itr, obj, UVMReportCatcher)
+
 
 UVMReportCbIter = UVMCallbackIter
 
@@ -290,7 +294,7 @@ class UVMReportCatcher(UVMCallback):
     #
     def set_action(self, action):
         self.m_modified_report_message.set_action(action)
-        self.m_set_action_called = 1
+        UVMReportCatcher.m_set_action_called = True
 
     #// Function: set_context
     #//
@@ -341,14 +345,17 @@ class UVMReportCatcher(UVMCallback):
     #// Returns the first report catcher that has ~name~.
     @classmethod
     def get_report_catcher(cls, name):
-        cls.cb_iter = UVMReportCbIter(None)
-        get_report_catcher = cls.cb_iter.first()
-        while get_report_catcher is not None:
-            if get_report_catcher.get_name() == name:
-                return get_report_catcher
-            get_report_catcher = cls.cb_iter.next()
+        for catcher in cls.m_get_all_catchers():
+            if catcher.get_name() == name:
+                return catcher
         return None
 
+    @classmethod
+    def m_get_all_catchers(cls):
+        """Returns the catchers (enabled and disabled) registered for all report objects"""
+        UVMReportCb.get()
+        return [cb for cb in UVMReportCb.m_get_q(None) if isinstance(cb, UVMReportCatcher)]
+
 
     #// Function: print_catcher
     #//
@@ -359,21 +366,17 @@ class UVMReportCatcher(UVMCallback):
     def print_catcher(cls, file=0):
         # msg = ""
         enabled = ""
-        catcher = None  # UVMReportCatcher
-        cls.cb_iter = UVMReportCbIter(None)
         q = []
 
         q.append("-------------UVM REPORT CATCHERS----------------------------\n")
 
-        catcher = cls.cb_iter.first()
-        while catcher is not None:
+        for catcher in cls.m_get_all_catchers():
             if catcher.callback_mode():
                 enabled = "ON"
             else:
                 enabled = "OFF"
 
             q.append(sv.sformatf("%20s : %s\n", catcher.get_name(),enabled))
-            catcher = cls.cb_iter.next()
 
         q.append("--------------------------------------------------------------\n")
         from .uvm_root import uvm_top
diff --git a/src/uvm/macros/uvm_callback_defines.py b/src/uvm/macros/uvm_callback_defines.py
index 17f59f9..6df5f3b 100644
--- a/src/uvm/macros/uvm_callback_defines.py
+++ b/src/uvm/macros/uvm_callback_defines.py
@@ -254,7 +254,7 @@ async def uvm_do_obj_callbacks_async(OBJ, CB, METHOD, *args):
 #`define uvm_do_callbacks_exit_on(T,CB,METHOD,VAL) \
 #  `uvm_do_obj_callbacks_exit_on(T,CB,this,METHOD,VAL) \
 def uvm_do_callbacks_exit_on(self,CB,METHOD,VAL, *args):
-    uvm_do_obj_callbacks_exit_on(self, CB, METHOD, VAL, *args)
+    return uvm_do_obj_callbacks_exit_on(self, CB, METHOD, VAL, *args)
 
 
 #//-----------------------------------------------------------------------------
-- 
2.43.0


From f4e3f43a7a91f8a0d7465705c80b4d4d49e15386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 54/76] fix: reporting: the message macros use the verbosity of
 the component that reports (they used the root's), resetting a report handler
 clears all its settings, show_verbosity and the record action no longer
 crash, get_severity_set and get_id_set return everything

---
 src/uvm/base/uvm_object_globals.py    |  9 +++++++++
 src/uvm/base/uvm_report_handler.py    | 10 ++++++++++
 src/uvm/base/uvm_report_server.py     | 24 +++++++++++++-----------
 src/uvm/macros/uvm_message_defines.py | 19 +++++++++++++++----
 4 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/src/uvm/base/uvm_object_globals.py b/src/uvm/base/uvm_object_globals.py
index b297cfa..4f3073f 100644
--- a/src/uvm/base/uvm_object_globals.py
+++ b/src/uvm/base/uvm_object_globals.py
@@ -275,6 +275,15 @@ UVM_DEBUG  = 500
 UVM_VERBOSITY_LIST = [UVM_NONE, UVM_LOW, UVM_MEDIUM, UVM_HIGH, UVM_FULL,
         UVM_DEBUG]
 
+UVM_VERBOSITY_TO_STRING_DICT = {
+    UVM_NONE: "UVM_NONE",
+    UVM_LOW: "UVM_LOW",
+    UVM_MEDIUM: "UVM_MEDIUM",
+    UVM_HIGH: "UVM_HIGH",
+    UVM_FULL: "UVM_FULL",
+    UVM_DEBUG: "UVM_DEBUG",
+}
+
 ### typedef int UVM_FILE;
 
 # -----------------
diff --git a/src/uvm/base/uvm_report_handler.py b/src/uvm/base/uvm_report_handler.py
index 8cf045b..f23cd53 100644
--- a/src/uvm/base/uvm_report_handler.py
+++ b/src/uvm/base/uvm_report_handler.py
@@ -361,6 +361,16 @@ class UVMReportHandler(UVMObject):
 
           Internal method for initializing report handler.
         """
+        # All settings made with set_* methods are cleared
+        self.id_verbosities = UVMPool()
+        self.severity_id_verbosities = {}
+        self.id_actions = UVMPool()
+        self.severity_id_actions = {}
+        self.sev_overrides = UVMPool()
+        self.sev_id_overrides = {}
+        self.id_file_handles = UVMPool()
+        self.severity_id_file_handles = {}
+
         self.set_default_file(0)
         self.m_max_verbosity_level = UVM_MEDIUM
         self.set_severity_action(UVM_INFO, UVM_DISPLAY)
diff --git a/src/uvm/base/uvm_report_server.py b/src/uvm/base/uvm_report_server.py
index e0fc451..c78cd98 100644
--- a/src/uvm/base/uvm_report_server.py
+++ b/src/uvm/base/uvm_report_server.py
@@ -2,7 +2,7 @@
 # from cocotb.utils import get_sim_time
 
 from .uvm_object import UVMObject
-from .uvm_object_globals import (UVM_BIN, UVM_COUNT, UVM_DEC, UVM_DISPLAY, UVM_ERROR, UVM_EXIT,
+from .uvm_object_globals import (UVM_VERBOSITY_TO_STRING_DICT, UVM_BIN, UVM_COUNT, UVM_DEC, UVM_DISPLAY, UVM_ERROR, UVM_EXIT,
                                  UVM_FATAL, UVM_INFO, UVM_LOG, UVM_LOW, UVM_MEDIUM, UVM_NONE,
                                  UVM_NO_ACTION, UVM_RM_RECORD, UVM_SEVERITY_LEVELS, UVM_STOP,
                                  UVM_WARNING)
@@ -344,12 +344,10 @@ class UVMReportServer(UVMObject):
         return self.m_message_db
 
     def get_severity_set(self, q: List[Any]) -> None:
-        while self.m_severity_count.has_next():
-            q.append(self.m_severity_count.next())
+        q.extend(self.m_severity_count.keys())
 
     def get_id_set(self, q: List[Any]) -> None:
-        while self.m_id_count.has_next():
-            q.append(self.m_id_count.next())
+        q.extend(self.m_id_count.keys())
 
     def f_display(self, file, _str) -> None:
         """
@@ -426,9 +424,9 @@ class UVMReportServer(UVMObject):
             ro = report_message.get_report_object()
             rh = report_message.get_report_handler()
 
-            # Check for pre-existing stream TODO
-            #if (m_streams.exists(ro.get_name()) && (m_streams[ro.get_name()].exists(rh.get_name())))
-            #stream = m_streams[ro.get_name()][rh.get_name()]
+            # Check for pre-existing stream
+            streams = self.m_streams.setdefault(ro.get_name(), {})
+            stream = streams.get(rh.get_name())
 
             # If no pre-existing stream (or for some reason pre-existing stream was ~null~)
             if stream is None:
@@ -444,7 +442,7 @@ class UVMReportServer(UVMObject):
                     # Open the stream.    Name=report object name, scope=report handler name, type=MESSAGES
                     stream = db.open_stream(ro.get_name(), rh.get_name(), "MESSAGES")
                     # Save off the openned stream
-                    self.m_streams[ro.get_name()][rh.get_name()] = stream
+                    streams[rh.get_name()] = stream
             if stream is not None:
                 recorder = stream.open_recorder(report_message.get_name(), None,report_message.get_type_name())
                 if recorder is not None:
@@ -528,8 +526,12 @@ class UVMReportServer(UVMObject):
             context_str = "@@" + report_message.get_context()
 
         if self.show_verbosity is True:
-            verb = report_message.get_verbosity()
-            verbosity_str = "(" + verb + ")"
+            l_verbosity = report_message.get_verbosity()
+            if l_verbosity in UVM_VERBOSITY_TO_STRING_DICT:
+                verbosity_str = UVM_VERBOSITY_TO_STRING_DICT[l_verbosity]
+            else:
+                verbosity_str = str(l_verbosity)
+            verbosity_str = "(" + verbosity_str + ")"
 
         if self.show_terminator is True:
             terminator_str = " -" + sev_string
diff --git a/src/uvm/macros/uvm_message_defines.py b/src/uvm/macros/uvm_message_defines.py
index 6ea63b5..a2551e6 100644
--- a/src/uvm/macros/uvm_message_defines.py
+++ b/src/uvm/macros/uvm_message_defines.py
@@ -104,6 +104,17 @@ if UVM_REPORT_DISABLE_LINE:
 #//----------------------------------------------------------------------------
 
 
+def m_uvm_caller_report_enabled(frame, verbosity, severity, id) -> bool:
+    """
+    The settings of the report object issuing the message decide. Functions and
+    objects which are not report objects use the settings of the root.
+    """
+    parent_self = frame.f_locals.get('self')
+    if hasattr(parent_self, 'uvm_report_enabled'):
+        return parent_self.uvm_report_enabled(verbosity, severity, id)
+    return uvm_report_enabled(verbosity, severity, id)
+
+
 #// MACRO: `uvm_info
 #//
 #// Calls uvm_report_info if ~VERBOSITY~ is lower than the configured verbosity of
@@ -113,7 +124,7 @@ if UVM_REPORT_DISABLE_LINE:
 #// |`uvm_info(ID, MSG, VERBOSITY)
 
 def uvm_info(ID, MSG, VERBOSITY):
-    if uvm_report_enabled(VERBOSITY, UVM_INFO, ID):
+    if m_uvm_caller_report_enabled(inspect.currentframe().f_back, VERBOSITY, UVM_INFO, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
@@ -139,7 +150,7 @@ def uvm_info(ID, MSG, VERBOSITY):
 #// |`uvm_warning(ID, MSG)
 
 def uvm_warning(ID, MSG):
-    if uvm_report_enabled(UVM_NONE, UVM_WARNING,ID):
+    if m_uvm_caller_report_enabled(inspect.currentframe().f_back, UVM_NONE, UVM_WARNING, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
@@ -164,7 +175,7 @@ def uvm_warning(ID, MSG):
 #// |`uvm_error(ID, MSG)
 
 def uvm_error(ID, MSG):
-    if uvm_report_enabled(UVM_NONE, UVM_ERROR,ID):
+    if m_uvm_caller_report_enabled(inspect.currentframe().f_back, UVM_NONE, UVM_ERROR, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
@@ -190,7 +201,7 @@ def uvm_error(ID, MSG):
 
 
 def uvm_fatal(ID, MSG):
-    if uvm_report_enabled(UVM_NONE, UVM_FATAL,ID):
+    if m_uvm_caller_report_enabled(inspect.currentframe().f_back, UVM_NONE, UVM_FATAL, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
-- 
2.43.0


From 88311b796b7e4416a6082531a3ee74b14123f46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 55/76] fix: report catchers: get_report_catcher and
 print_catcher find the catchers registered for all objects and show their
 names, callback tracing stays off when it was off

---
 src/uvm/base/uvm_callback.py       | 8 ++++----
 src/uvm/base/uvm_report_catcher.py | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/uvm/base/uvm_callback.py b/src/uvm/base/uvm_callback.py
index 2b35aa5..c35f8bb 100644
--- a/src/uvm/base/uvm_callback.py
+++ b/src/uvm/base/uvm_callback.py
@@ -417,8 +417,8 @@ class UVMTypedCallbacks(UVMCallbacksBase):  # (type T=uvm_object) extends uvm_ca
         max_cb_name = 0
         max_inst_name = 0
 
-        prev_trace = cls.m_tracing
-        cls.m_tracing = False  # don't allow tracing during display
+        prev_trace = UVMCallbacksBase.m_tracing
+        UVMCallbacksBase.m_tracing = False  # don't allow tracing during display
 
         if cls.m_typename != "":
             tname = cls.m_typename
@@ -519,7 +519,7 @@ class UVMTypedCallbacks(UVMCallbacksBase):  # (type T=uvm_object) extends uvm_ca
                 cbq[i], padding, inst_q[i], blanks[0:max_inst_name - len(inst_q[i])-1],
                 mode_q[i]))
         uvm_info("UVM/CB/DISPLAY", UVM_STRING_QUEUE_STREAMING_PACK(qs), UVM_NONE)
-        cls.m_tracing = prev_trace  # allow tracing to be resumed
+        UVMCallbacksBase.m_tracing = prev_trace  # allow tracing to be resumed
 
 
 
@@ -918,7 +918,7 @@ class UVMCallbacks(UVMTypedCallbacks):
         q = None
         if not cls.m_base_inst.m_pool.exists(obj):  # no instance specific
             if obj is None:
-                q = cls.m_t_inst.m_tw_cb_q
+                q = UVMTypedCallbacks.m_t_inst.m_tw_cb_q
             else:
                 q = cls.m_t_inst.m_get_tw_cb_q(obj, CB)
         else:
diff --git a/src/uvm/base/uvm_report_catcher.py b/src/uvm/base/uvm_report_catcher.py
index 5b9954a..1894025 100644
--- a/src/uvm/base/uvm_report_catcher.py
+++ b/src/uvm/base/uvm_report_catcher.py
@@ -376,7 +376,7 @@ class UVMReportCatcher(UVMCallback):
             else:
                 enabled = "OFF"
 
-            q.append(sv.sformatf("%20s : %s\n", catcher.get_name(),enabled))
+            q.append("%20s : %s\n" % (catcher.get_name(), enabled))
 
         q.append("--------------------------------------------------------------\n")
         from .uvm_root import uvm_top
@@ -531,6 +531,7 @@ class UVMReportCatcher(UVMCallback):
             return 1
 
         cls.in_catcher = 1
+        prev_tracing = UVMCallbacksBase.m_tracing
         UVMCallbacksBase.m_tracing = 0  # turn off cb tracing so catcher stuff doesn't print
 
         orig_severity = rm.get_severity()  # cast to 'uvm_severity' removed
@@ -594,7 +595,7 @@ class UVMReportCatcher(UVMCallback):
                 cls.m_demoted_warning += 1
 
         cls.in_catcher = 0
-        UVMCallbacksBase.m_tracing = 1  # turn tracing stuff back on
+        UVMCallbacksBase.m_tracing = prev_tracing  # turn tracing stuff back on
         return thrown
 
 
-- 
2.43.0


From 5bf18cc1b7387f35e791934f989833074b00e3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 56/76] fix: components that look at the tree in a phase
 callback no longer make the phases skip their siblings, and find reports a
 missing component instead of crashing

---
 src/uvm/base/uvm_bottomup_phase.py |  9 ++++-----
 src/uvm/base/uvm_printer.py        | 14 ++++----------
 src/uvm/base/uvm_root.py           | 16 ++++------------
 src/uvm/base/uvm_topdown_phase.py  |  9 ++++-----
 4 files changed, 16 insertions(+), 32 deletions(-)

diff --git a/src/uvm/base/uvm_bottomup_phase.py b/src/uvm/base/uvm_bottomup_phase.py
index 637bb38..6c5849c 100644
--- a/src/uvm/base/uvm_bottomup_phase.py
+++ b/src/uvm/base/uvm_bottomup_phase.py
@@ -67,11 +67,10 @@ class UVMBottomupPhase(UVMPhase):
         phase_domain = phase.get_domain()
         comp_domain = comp.get_domain()
 
-        if comp.has_first_child():
-            child = comp.get_first_child()
-            while child is not None:
-                self.traverse(child, phase, state)
-                child = comp.get_next_child()
+        # get_first_child/get_next_child cannot be used here as the components
+        # may iterate over the children as well when the phase is executed
+        for child in comp.m_children_ordered:
+            self.traverse(child, phase, state)
 
         if UVMPhase.m_phase_trace:
             dom_name = "unknown"
diff --git a/src/uvm/base/uvm_printer.py b/src/uvm/base/uvm_printer.py
index 7486e3b..4fde332 100644
--- a/src/uvm/base/uvm_printer.py
+++ b/src/uvm/base/uvm_printer.py
@@ -245,16 +245,10 @@ class UVMPrinter():
                 # Handle children of the comp
                 #if($cast(comp, value)) begin
                 comp = value
-                if hasattr(comp, "has_first_child"):
-                    if comp.has_first_child():
-                        child_comp = comp.get_first_child()
-                        ok = True
-                        while ok is True:
-                            if child_comp.print_enabled:
-                                self.print_object("", child_comp)
-                            ok = comp.has_next_child()
-                            if ok is True:
-                                child_comp = comp.get_next_child()
+                if hasattr(comp, "m_children_ordered"):
+                    for child_comp in comp.m_children_ordered:
+                        if child_comp.print_enabled:
+                            self.print_object("", child_comp)
 
                 # print members of object
                 value.sprint(self)
diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 5bbd5dc..4470971 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -415,8 +415,8 @@ class UVMRoot(UVMComponent):
 
         if len(comp_list) == 0:
             uvm_report_warning("CMPNFD",
-              "Component matching '", comp_match,
-               "' was not found in the list of uvm_components", UVM_NONE)
+              "Component matching '" + comp_match
+              + "' was not found in the list of uvm_components", UVM_NONE)
             return None
 
         return comp_list[0]
@@ -475,16 +475,8 @@ class UVMRoot(UVMComponent):
             comps:
             comp:
         """
-        child_comp = None
-
-        if comp.has_first_child():
-            child_comp = comp.get_first_child()
-            while True:
-                self.m_find_all_recurse(comp_match, comps, child_comp)
-                if not comp.has_next_child():
-                    break
-                else:
-                    child_comp = comp.get_next_child()
+        for child_comp in comp.m_children_ordered:
+            self.m_find_all_recurse(comp_match, comps, child_comp)
         if uvm_is_match(comp_match, comp.get_full_name()) and comp.get_name() != "":
             comps.append(comp)
 
diff --git a/src/uvm/base/uvm_topdown_phase.py b/src/uvm/base/uvm_topdown_phase.py
index 0b0e032..b368c8d 100644
--- a/src/uvm/base/uvm_topdown_phase.py
+++ b/src/uvm/base/uvm_topdown_phase.py
@@ -102,11 +102,10 @@ class UVMTopdownPhase(UVMPhase):
             else:
                 uvm_report_fatal("PH_BADEXEC","topdown phase traverse internal error")
 
-        if comp.has_first_child():
-            child = comp.get_first_child()
-            while child is not None:
-                self.traverse(child, phase, state)
-                child = comp.get_next_child()
+        # get_first_child/get_next_child cannot be used here as the components
+        # may iterate over the children as well when the phase is executed
+        for child in comp.m_children_ordered:
+            self.traverse(child, phase, state)
 
     def execute(self, comp, phase):
         """
-- 
2.43.0


From 0e5e91377d97d86ac6faa7e6740741513fd4f645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 57/76] fix: register maps: addresses of wide registers nested
 three maps deep were repeated, moving or unmapping a register left its old
 address or crashed, memories of one word and overlapping memories crashed,
 write-only maps gave no access to any field

---
 src/uvm/reg/uvm_reg_cbs.py   | 12 +++++++
 src/uvm/reg/uvm_reg_field.py |  3 +-
 src/uvm/reg/uvm_reg_map.py   | 68 +++++++++++++++++++++---------------
 3 files changed, 54 insertions(+), 29 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_cbs.py b/src/uvm/reg/uvm_reg_cbs.py
index ac7f76d..e940d9c 100644
--- a/src/uvm/reg/uvm_reg_cbs.py
+++ b/src/uvm/reg/uvm_reg_cbs.py
@@ -447,6 +447,12 @@ class UVMRegReadOnlyCbs(UVMRegCbs):
     @classmethod
     def add(cls, rg):
         flds = []  # uvm_reg_field [$]
+        cbs = UVMRegCbIter(rg)
+        cb = cbs.first()
+        while cb is not None:
+            if cb is cls.get():
+                return  # Already added for another address or map
+            cb = cbs.next()
         UVMRegCb.add(rg, cls.get())
         rg.get_fields(flds)
         for i in range(len(flds)):
@@ -532,6 +538,12 @@ class UVMRegWriteOnlyCbs(UVMRegCbs):
     @classmethod
     def add(cls, rg):
         flds = []  # uvm_reg_field [$]
+        cbs = UVMRegCbIter(rg)
+        cb = cbs.first()
+        while cb is not None:
+            if cb is cls.get():
+                return  # Already added for another address or map
+            cb = cbs.next()
         UVMRegCb.add(rg, cls.get())
         rg.get_fields(flds)
         for i in range(len(flds)):
diff --git a/src/uvm/reg/uvm_reg_field.py b/src/uvm/reg/uvm_reg_field.py
index 25c6931..fa12d85 100644
--- a/src/uvm/reg/uvm_reg_field.py
+++ b/src/uvm/reg/uvm_reg_field.py
@@ -415,9 +415,10 @@ class UVMRegField(UVMObject):
                 field_access = "NOACCESS"
 
         elif rights == "WO":
-            field_access = "NOACCESS"
             if field_access == 'RW' or field_access == 'WO':
                 field_access = "WO"
+            else:
+                field_access = "NOACCESS"
         else:
             field_access = "NOACCESS"
             fname = ""
diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 970ef19..86acadb 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -118,12 +118,12 @@ class UVMRegMap(UVMObject):
                 rg_offset = self.m_regs_info[rg].offset
                 bus_width = self.get_physical_addresses(rg_offset, 0, rg.get_n_bytes(), addrs)
 
-                for i in range(len(addrs)):
-                    addr = addrs[i]
+                # A FIFO register uses one address for several accesses
+                for addr in dict.fromkeys(addrs):
 
                     if addr in top_map.m_regs_by_offset:
                         rg2 = top_map.m_regs_by_offset[addr]
-                        rg2_acc = rg2.Xget_fields_accessX(self)
+                        rg2_acc = rg2.Xget_fields_accessX(self.m_get_map_of(rg2, addr))
 
                         # If the register at the same address is RO or WO
                         # and this register is WO or RO, this is OK
@@ -152,10 +152,10 @@ class UVMRegMap(UVMObject):
                         if (addr >= rr.min and addr <= rr.max):
                             a = sv.sformatf("%0h",addr)
                             b = sv.sformatf("[%0h:%0h]", rr.min, rr.max)
-                            uvm_warning("RegModel", ("In map '",
+                            uvm_warning("RegModel", ("In map '" +
                                     self.get_full_name() + "' register '" +
                                 rg.get_full_name() + "' with address " + a +
-                                "maps to same address as memory '" +
+                                " maps to same address as memory '" +
                                 top_map.m_mems_by_offset[rr].get_full_name()
                                 + "': " + b))
                 self.m_regs_info[rg].addr = addrs
@@ -189,7 +189,8 @@ class UVMRegMap(UVMObject):
                     max1 = addrs_max[len(addrs_max)-1]
                 max2 = addrs_max[0]
                 # address interval between consecutive mem offsets
-                stride = int((max2 - min2)/(mem.get_size() - 1))
+                if mem.get_size() > 1:
+                    stride = (max2 - min2) // (mem.get_size() - 1)
 
                 for reg_addr in top_map.m_regs_by_offset:
                     if (reg_addr >= min1 and reg_addr <= max1):
@@ -204,7 +205,7 @@ class UVMRegMap(UVMObject):
                     if (min1 <= rr.max and max1 >= rr.max or
                             min1 <= rr.min and max1 >= rr.min or
                             min1 >= rr.min and max1 <= rr.max):
-                        a = sv.sformatf("[%0h:%0h]",min,max)
+                        a = sv.sformatf("[%0h:%0h]",min1,max1)
                         uvm_warning("RegModel", ("In map '" + self.get_full_name()
                             + "' memory '" + mem.get_full_name() + "' overlaps with address range of memory '"
                             + top_map.m_mems_by_offset[rr].get_full_name()
@@ -219,6 +220,10 @@ class UVMRegMap(UVMObject):
         # bus_width won't be set
         if bus_width == 0:
             bus_width = self.m_n_bytes
+            up_map = self.get_parent_map()
+            while up_map is not None:
+                bus_width = min(bus_width, up_map.get_n_bytes(UVM_NO_HIER))
+                up_map = up_map.get_parent_map()
         self.m_system_n_bytes = bus_width
         #endfunction
 
@@ -488,8 +493,8 @@ class UVMRegMap(UVMObject):
         if child_blk is None:
             uvm_error("RegModel", ("Submap '" + child_map.get_full_name()
                 + "' may not be added to this address map, '"
-                + self.get_full_name(),"', as the submap's parent block, '"
-                + child_blk.get_full_name()
+                + self.get_full_name() + "', as the submap's parent block, '"
+                + child_map.get_parent().get_full_name()
                 + "', is neither this map's parent block nor a descendent of this map's parent block, '"
                 + self.m_parent.get_full_name() + "'"))
             return
@@ -669,19 +674,19 @@ class UVMRegMap(UVMObject):
         if blk.is_locked():
 
             # remove any existing cached addresses
-            if info.unmapped is False:
-                for addr in info.addr:
+            if not info.unmapped:
+                for addr in dict.fromkeys(info.addr):
                     if addr not in top_map.m_regs_by_offset_wo:
-                        del top_map.m_regs_by_offset[addr]
-                    else:
-                        if top_map.m_regs_by_offset[addr] == rg:
-                            top_map.m_regs_by_offset[addr] = top_map.m_regs_by_offset_wo[addr]
-                            #TODO UVMRegReadOnlyCbs.remove(rg)
-                            #TODO UVMRegWriteOnlyCbs.remove(top_map.m_regs_by_offset[info.addr[i]])
-                        else:
-                            pass
-                            #TODO UVMRegWriteOnlyCbs.remove(rg)
-                            #TODO UVMRegReadOnlyCbs.remove(top_map.m_regs_by_offset[info.addr[i]])
+                        if top_map.m_regs_by_offset.get(addr) == rg:
+                            del top_map.m_regs_by_offset[addr]
+                    elif top_map.m_regs_by_offset[addr] == rg:
+                        top_map.m_regs_by_offset[addr] = top_map.m_regs_by_offset_wo[addr]
+                        #TODO UVMRegReadOnlyCbs.remove(rg)
+                        #TODO UVMRegWriteOnlyCbs.remove(top_map.m_regs_by_offset[info.addr[i]])
+                        del top_map.m_regs_by_offset_wo[addr]
+                    elif top_map.m_regs_by_offset_wo[addr] == rg:
+                        #TODO UVMRegWriteOnlyCbs.remove(rg)
+                        #TODO UVMRegReadOnlyCbs.remove(top_map.m_regs_by_offset[info.addr[i]])
                         del top_map.m_regs_by_offset_wo[addr]
 
             # if we are remapping...
@@ -691,12 +696,12 @@ class UVMRegMap(UVMObject):
                 self.get_physical_addresses(offset,0,rg.get_n_bytes(),addrs)
 
                 # make sure they do not conflict with others
-                for adr in addrs:
+                for adr in dict.fromkeys(addrs):
                     addr = adr
 
                     if addr in top_map.m_regs_by_offset:
                         rg2 = top_map.m_regs_by_offset[addr]
-                        rg2_acc = rg2.Xget_fields_accessX(self)
+                        rg2_acc = rg2.Xget_fields_accessX(self.m_get_map_of(rg2, addr))
 
                         # If the register at the same address is RO or WO
                         # and this register is WO or RO, this is OK
@@ -710,7 +715,7 @@ class UVMRegMap(UVMObject):
                            # TODO UVMRegWriteOnlyCbs.add(rg)
                            # TODO UVMRegReadOnlyCbs.add(rg2)
                         else:
-                            a = "{}".format(addr)
+                            a = sv.sformatf("%0h", addr)
                             uvm_warning("RegModel", ("In map '" + self.get_full_name()
                                 + "' register '"+ rg.get_full_name()
                                 + "' maps to same address as register '"
@@ -721,7 +726,7 @@ class UVMRegMap(UVMObject):
 
                     for range in top_map.m_mems_by_offset.keys():
                         if adr >= range.min and adr <= range.max:
-                            a = "{}".format(adr)
+                            a = sv.sformatf("%0h", adr)
                             uvm_warning("RegModel", ("In map '" + self.get_full_name()
                                 + "' register '" +
                                 rg.get_full_name() + "' overlaps with address range of memory '"
@@ -730,7 +735,7 @@ class UVMRegMap(UVMObject):
 
                 info.addr = addrs # cache it
 
-        if unmapped is True:
+        if unmapped:
             info.offset   = -1
             info.unmapped = 1
         else:
@@ -755,6 +760,13 @@ class UVMRegMap(UVMObject):
     #   // Return the simple object name of this address map.
     #   //
 
+    def m_get_map_of(self, rg, addr):
+        """ Returns the map through which the register got the given address """
+        for _map in rg.m_maps.key_list():
+            if addr in _map.m_regs_info[rg].addr:
+                return _map
+        return self
+
     def get_full_name(self):
         """
            Function: get_full_name
@@ -1142,7 +1154,7 @@ class UVMRegMap(UVMObject):
                     local_addr[i] = base_addr
             else:
                 uvm_error("RegModel",
-                        ("Map has no specified endianness. ",
+                        ("Map has no specified endianness. " +
                         sv.sformatf("Cannot access %0d bytes register via its %0d byte %s interface",
                         n_bytes, bus_width, self.get_full_name())))
 
@@ -1169,7 +1181,7 @@ class UVMRegMap(UVMObject):
 
             base_addr = up_map.get_submap_offset(self)
             for i in range(len(local_addr)):
-                n = len(addr)
+                sys_addr = []
                 w = up_map.get_physical_addresses(base_addr + local_addr[i] * k,
                         0, bus_width, sys_addr)
 
-- 
2.43.0


From cd2bdeca0b4387de298eae47ab86c8bd419e737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 58/76] fix: register mirror: partial predictions crashed,
 refused predictions changed the value, reads were checked against the desired
 value, mirror ignored its status and write-only fields, update and mirror
 left the status empty or the register locked, predictions of registers shared
 by read-only and write-only ones crashed

---
 src/uvm/reg/uvm_reg.py       | 13 ++++++++-----
 src/uvm/reg/uvm_reg_cbs.py   | 36 ++++++++++++++++++++----------------
 src/uvm/reg/uvm_reg_field.py | 23 +++++++++++++++--------
 3 files changed, 43 insertions(+), 29 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index f057f99..d0da303 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1052,6 +1052,7 @@ class UVMReg(UVMObject):
         # status = UVM_IS_OK
 
         if self.needs_update() is False:
+            status.append(UVM_IS_OK)
             return
 
         # Concatenate the write-to-update values from each field
@@ -1126,6 +1127,8 @@ class UVMReg(UVMObject):
             _map = self.get_local_map(_map, "read()")
 
         if _map is None:
+            status.append(UVM_NOT_OK)
+            await self.XatomicX(0)
             return
 
         # Remember what we think the value is before it gets updated
@@ -1136,7 +1139,7 @@ class UVMReg(UVMObject):
         await self.XreadX(status, v, path, _map, parent, prior, extension, fname, lineno)
         v = v[0]
 
-        if status == UVM_NOT_OK:
+        if status[-1] == UVM_NOT_OK:
             await self.XatomicX(0)
             return
 
@@ -1351,7 +1354,7 @@ class UVMReg(UVMObject):
 
         for i in range(len(self.m_fields)):
             acc = self.m_fields[i].get_access(_map)
-            acc = acc[0:1]
+            acc = acc[0:2]
             if (self.m_fields[i].get_compare() == UVM_NO_CHECK or
                     acc == "WO"):
                 lsb_pos = self.m_fields[i].get_lsb_pos()
@@ -1367,7 +1370,7 @@ class UVMReg(UVMObject):
         #foreach(self.m_fields[i]):
         for i in range(len(self.m_fields)):
             acc = self.m_fields[i].get_access(_map)
-            acc = acc[0:1]
+            acc = acc[0:2]
             if (not(self.m_fields[i].get_compare() == UVM_NO_CHECK or
                    acc == "WO")):
                 mask = ((1 << self.m_fields[i].get_n_bits())-1)
@@ -1634,7 +1637,7 @@ class UVMReg(UVMObject):
             bkdr = self.get_backdoor()
             _map = UVMRegMap.backdoor()
             if _map.get_check_on_read():
-                exp = self.get()
+                exp = self.get_mirrored_value()
 
             if (bkdr is not None):
                 bkdr.read(rw)
@@ -1692,7 +1695,7 @@ class UVMReg(UVMObject):
             self.m_is_busy = True
 
             if (rw.local_map.get_check_on_read()):
-                exp = self.get()
+                exp = self.get_mirrored_value()
 
             map_info = arr_map_info[0]
             #  ...VIA USER FRONTDOOR
diff --git a/src/uvm/reg/uvm_reg_cbs.py b/src/uvm/reg/uvm_reg_cbs.py
index e940d9c..6ba6950 100644
--- a/src/uvm/reg/uvm_reg_cbs.py
+++ b/src/uvm/reg/uvm_reg_cbs.py
@@ -237,22 +237,26 @@ class UVMRegCbs(UVMCallback):
         pass
 
 
-    #   // Task: post_predict
-    #   //
-    #   // Called by the <uvm_reg_field::predict()> method
-    #   // after a successful UVM_PREDICT_READ or UVM_PREDICT_WRITE prediction.
-    #   //
-    #   // ~previous~ is the previous value in the mirror and
-    #   // ~value~ is the latest predicted value. Any change to ~value~ will
-    #   // modify the predicted mirror value.
-    #   //
-    #   virtual function void post_predict(input uvm_reg_field  fld,
-    #                                      input uvm_reg_data_t previous,
-    #                                      inout uvm_reg_data_t value,
-    #                                      input uvm_predict_e  kind,
-    #                                      input uvm_path_e     path,
-    #                                      input uvm_reg_map    map)
-    #   endfunction
+    def post_predict(self, fld, previous, value, kind, path, _map):
+        """
+           Called by the `UVMRegField.predict` method
+           after a successful `UVM_PREDICT_READ` or `UVM_PREDICT_WRITE` prediction.
+
+           `previous` is the previous value in the mirror and
+           `value` is the latest predicted value. A returned value, unless it
+           is None, replaces the predicted mirror value.
+
+        Args:
+            fld:
+            previous:
+            value:
+            kind:
+            path:
+            _map:
+        Returns:
+            int: the predicted value, or None to keep `value`
+        """
+        return None
 
 
     def encode(self, data):
diff --git a/src/uvm/reg/uvm_reg_field.py b/src/uvm/reg/uvm_reg_field.py
index fa12d85..fa0ab28 100644
--- a/src/uvm/reg/uvm_reg_field.py
+++ b/src/uvm/reg/uvm_reg_field.py
@@ -172,7 +172,7 @@ class UVMRegField(UVMObject):
 
         # Ignore is_rand if the field is known not to be writeable
         # i.e. not "RW", "WRC", "WRS", "WO", "W1", "WO1"
-        if access in NO_RAND_SET:
+        if self.m_access in NO_RAND_SET:
             self.is_rand = False
         #if not is_rand:
         #    self.value.rand_mode(0)
@@ -1266,7 +1266,7 @@ class UVMRegField(UVMObject):
 
         # Assume that the entire field is enabled
         if (0x00000001 & be) == 0:
-            raise Exception('DBG Early return field not enabled')
+            return
 
         self.m_fname = rw.fname
         self.m_lineno = rw.lineno
@@ -1276,12 +1276,16 @@ class UVMRegField(UVMObject):
             cbs = UVMRegFieldCbIter(self)
             if rw.path == UVM_FRONTDOOR or rw.path == UVM_PREDICT:
                 field_val = self.XpredictX(self.m_mirrored, field_val, rw.map)
-            self.m_written = True
+            if (rw.path not in (UVM_FRONTDOOR, UVM_PREDICT) or
+                    self.get_access(rw.map) not in ("RO", "NOACCESS")):
+                self.m_written = True
 
             cb = cbs.first()
             while cb is not None:
-                cb.post_predict(self, self.m_mirrored, field_val,
+                predicted = cb.post_predict(self, self.m_mirrored, field_val,
                         UVM_PREDICT_WRITE, rw.path, rw.map)
+                if predicted is not None:
+                    field_val = predicted
                 cb = cbs.next()
             field_val &= self._get_mask()
 
@@ -1295,21 +1299,23 @@ class UVMRegField(UVMObject):
                     field_val = self._get_mask()  # all 1's (set)
                 elif acc in ["WO", "WOC", "WOS", "WO1", "NOACCESS"]:
                     return
-            # TODO callbacks
 
             cb = cbs.first()
             while cb is not None:
-                cb.post_predict(self, self.m_mirrored, field_val,
+                predicted = cb.post_predict(self, self.m_mirrored, field_val,
                         UVM_PREDICT_READ, rw.path, rw.map)
+                if predicted is not None:
+                    field_val = predicted
                 cb = cbs.next()
             field_val &= self._get_mask()
 
-        elif UVM_PREDICT_DIRECT:
+        elif kind == UVM_PREDICT_DIRECT:
             if self.m_parent.is_busy():
                 uvm_report_warning("RegModel", ("Trying to predict value of field '"
                    + self.get_name() + "' while register '" + self.m_parent.get_full_name()
                    + "' is being accessed"))
                 rw.status = UVM_NOT_OK
+                return
         #   endcase
 
         # update the mirror with predicted value
@@ -1431,7 +1437,8 @@ class UVMRegField(UVMObject):
         reg_ = self.get_register()
         convert2string = ""
 
-        fmt = "{}'h%{}h".format(self.get_n_bits(), (self.get_n_bits()-1)/4 + 1)
+        n_digits = (self.get_n_bits() - 1) // 4 + 1
+        fmt = "{}'h{{:0{}x}}".format(self.get_n_bits(), n_digits)
 
         mirrored = ""
         if self.m_desired != self.m_mirrored:
-- 
2.43.0


From b26f03b63bf3b5738433d27a52f7f897cde8082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 59/76] fix: register accesses: callbacks of registers never
 ran and those of fields were not awaited, adapters with responses got none, a
 refused write released the register twice, a bus error could be forgotten,
 accesses without a map crashed, updating a block crashed or left no status

---
 src/uvm/reg/uvm_reg.py       | 40 +++++++++++++++++++++---------------
 src/uvm/reg/uvm_reg_block.py | 15 ++++++++------
 src/uvm/reg/uvm_reg_map.py   | 23 ++++++++++++---------
 3 files changed, 45 insertions(+), 33 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index d0da303..879bd79 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -22,6 +22,8 @@
 #-------------------------------------------------------------
 
 from ..macros import uvm_error, uvm_info
+from inspect import isawaitable
+
 from ..base.sv import sv
 from ..base.uvm_mailbox import UVMMailbox
 from ..base.uvm_object import UVMObject
@@ -1309,9 +1311,11 @@ class UVMReg(UVMObject):
             rw.local_map = self.get_local_map(rw.map,caller)
 
             if rw.local_map is None:
+                name = "the default map"
+                if rw.map is not None:
+                    name = "map '" + rw.map.get_full_name() + "'"
                 uvm_error(self.get_type_name(),
-                   "No transactor available to physically access register on map '" +
-                    rw.map.get_full_name() + "'")
+                   "No transactor available to physically access register on " + name)
                 rw.status = UVM_NOT_OK
                 return False
 
@@ -1397,8 +1401,7 @@ class UVMReg(UVMObject):
             rw:
         """
         await uvm_zero_delay()
-        # TODO finish this
-        cbs = UVMRegCbIter(self)  # uvm_reg_cb_iter  cbs = new(this)
+        reg_cbs = UVMRegCbIter(self)  # uvm_reg_cb_iter  cbs = new(this)
         arr_map_info = []  # uvm_reg_map_info
         value = 0  # uvm_reg_data_t   value
 
@@ -1445,14 +1448,13 @@ class UVMReg(UVMObject):
 
         # PRE-WRITE CBS - REG
         await self.pre_write(rw)
-        cb = cbs.first()
+        cb = reg_cbs.first()
         while cb is not None:
             await cb.pre_write(rw)
-            cb = cbs.next()
+            cb = reg_cbs.next()
 
         if rw.status != UVM_IS_OK:
             self.m_write_in_progress = False
-            await self.XatomicX(0)
             return
 
         if rw.path == UVM_BACKDOOR:
@@ -1463,7 +1465,7 @@ class UVMReg(UVMObject):
             # Mimick the final value after a physical read
             rw.kind = UVM_READ
             if bkdr is not None:
-                bkdr.read(rw)
+                await bkdr.read(rw)
             else:
                 self.backdoor_read(rw)
 
@@ -1483,7 +1485,7 @@ class UVMReg(UVMObject):
             rw.value[0] = final_val
 
             if bkdr is not None:
-                bkdr.write(rw)
+                await bkdr.write(rw)
             else:
                 self.backdoor_write(rw)
 
@@ -1522,10 +1524,10 @@ class UVMReg(UVMObject):
         value = rw.value[0]
 
         # POST-WRITE CBS - REG
-        cb = cbs.first()
+        cb = reg_cbs.first()
         while cb is not None:
             await cb.post_write(rw)
-            cb = cbs.next()
+            cb = reg_cbs.next()
         await self.post_write(rw)
 
         # POST-WRITE CBS - FIELDS
@@ -1538,7 +1540,7 @@ class UVMReg(UVMObject):
 
             cb = cbs.first()
             while cb is not None:
-                cb.post_write(rw)
+                await cb.post_write(rw)
                 cb = cbs.next()
             await f.post_write(rw)
 
@@ -1623,7 +1625,7 @@ class UVMReg(UVMObject):
         await self.pre_read(rw)
         cb = cbs.first()
         while cb is not None:
-            cb.pre_read(rw)
+            await cb.pre_read(rw)
             cb = cbs.next()
 
         if rw.status != UVM_IS_OK:
@@ -1640,7 +1642,7 @@ class UVMReg(UVMObject):
                 exp = self.get_mirrored_value()
 
             if (bkdr is not None):
-                bkdr.read(rw)
+                await bkdr.read(rw)
             else:
                 self.backdoor_read(rw)
             value = rw.value[0]
@@ -1676,7 +1678,7 @@ class UVMReg(UVMObject):
                     saved = rw.value[0]
                     rw.value[0] = value
                     if bkdr is not None:
-                        bkdr.write(rw)
+                        await bkdr.write(rw)
                     else:
                         self.backdoor_write(rw)
                     rw.value[0] = saved
@@ -1730,7 +1732,9 @@ class UVMReg(UVMObject):
         # POST-READ CBS - REG
         cb = cbs.first()
         while (cb is not None):
-            cb.post_read(rw)
+            res = cb.post_read(rw)
+            if isawaitable(res):
+                await res
             cb = cbs.next()
         await self.post_read(rw)
 
@@ -1744,7 +1748,9 @@ class UVMReg(UVMObject):
 
             cb = cbs.first()
             while (cb is not None):
-                cb.post_read(rw)
+                res = cb.post_read(rw)
+                if isawaitable(res):
+                    await res
                 cb = cbs.next()
             await f.post_read(rw)
 
diff --git a/src/uvm/reg/uvm_reg_block.py b/src/uvm/reg/uvm_reg_block.py
index aceea7a..691f40a 100644
--- a/src/uvm/reg/uvm_reg_block.py
+++ b/src/uvm/reg/uvm_reg_block.py
@@ -949,9 +949,10 @@ class UVMRegBlock(UVMObject):
         uvm_check_output_args([status])
         stat_all = UVM_IS_OK
 
-        if self.needs_update() is False:
+        if not self.needs_update():
             uvm_info("RegModel", sv.sformatf("%s:%0d - RegModel block %s does not need updating",
                          fname, lineno, self.get_name()), UVM_HIGH)
+            status.append(UVM_IS_OK)
             return
 
 
@@ -972,9 +973,9 @@ class UVMRegBlock(UVMObject):
         for blk_ in self.blks.key_list():
             blk = blk_
             stat_blk = []
-            await blk.update(status,path,parent,prior,extension,fname,lineno)
+            await blk.update(stat_blk,path,parent,prior,extension,fname,lineno)
             if (stat_blk[0] != UVM_IS_OK and stat_blk[0] != UVM_HAS_X):
-                stat_all = stat_blk
+                stat_all = stat_blk[0]
         status.append(stat_all)
 
 
@@ -1044,10 +1045,12 @@ class UVMRegBlock(UVMObject):
         self.fname = fname
         self.lineno = lineno
 
-        status = UVM_NOT_OK
+        uvm_check_output_args([status])
         rg = self.get_reg_by_name(name)
-        if rg is not None:
-            await rg.write(status, data, path, map, parent, prior, extension)
+        if rg is None:
+            status.append(UVM_NOT_OK)
+            return
+        await rg.write(status, data, path, map, parent, prior, extension)
 
 
     #   // Task: read_reg_by_name
diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 86acadb..dc69fa7 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -1441,12 +1441,12 @@ class UVMRegMap(UVMObject):
                 await bus_req.end_event.wait_on()
 
                 if adapter.provides_responses:
-                    bus_rsp = None  # uvm_sequence_item
+                    bus_rsp = []  # uvm_sequence_item
                     op = None  # uvm_access_e
                     # TODO: need to test for right trans type, if not put back in q
                     await rw.parent.get_base_response(bus_rsp)
-                    #rw_access = adapter.bus2reg(bus_rsp, rw_access)
-                    adapter.bus2reg(bus_rsp, rw_access)
+                    #rw_access = adapter.bus2reg(bus_rsp[0], rw_access)
+                    adapter.bus2reg(bus_rsp[0], rw_access)
                 else:
                     #rw_access = adapter.bus2reg(bus_req, rw_access)
                     adapter.bus2reg(bus_req, rw_access)
@@ -1469,6 +1469,9 @@ class UVMRegMap(UVMObject):
                 if rw.status == UVM_NOT_OK:
                     break
 
+            if rw.status == UVM_NOT_OK:
+                break
+
             for i in range(len(addrs)):
                 addrs[i] = addrs[i] + map_info.mem_range.stride
 
@@ -1590,11 +1593,11 @@ class UVMRegMap(UVMObject):
                 await bus_req.end_event.wait_on()
 
                 if adapter.provides_responses:
-                    bus_rsp = None  # uvm_sequence_item
+                    bus_rsp = []  # uvm_sequence_item
                     op = 0  # uvm_access_e
                     # TODO: need to test for right trans type, if not put back in q
                     await rw.parent.get_base_response(bus_rsp)
-                    adapter.bus2reg(bus_rsp, rw_access)
+                    adapter.bus2reg(bus_rsp[0], rw_access)
                 else:
                     adapter.bus2reg(bus_req,rw_access)
 
@@ -1616,6 +1619,9 @@ class UVMRegMap(UVMObject):
                 if (rw.parent is not None and i == len(addrs)-1):
                     rw.parent.post_do(rw)
 
+            if rw.status == UVM_NOT_OK:
+                break
+
             for i in range(len(addrs)):
                 addrs[i] = addrs[i] + map_info.mem_range.stride
 
@@ -1660,11 +1666,8 @@ class UVMRegMap(UVMObject):
             uvm_debug(self, 'do_write', 'do_bus_write because adapter exists')
             await self.do_bus_write(rw, sequencer, adapter)
 
-        # TODO
-        #  if (tmp_parent_seq is not None)
-        #    sequencer.m_sequence_exiting(tmp_parent_seq)
-        #
-        #endtask
+        if tmp_parent_seq is not None:
+            sequencer.m_sequence_exiting(tmp_parent_seq)
 
 
     async def do_read(self, rw: UVMRegItem) -> None:
-- 
2.43.0


From b6fc463bbafe9b4a19b9ac32e569e5c45b50dfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:07 +0000
Subject: [PATCH 60/76] fix: memory accesses: refused accesses went on, nested
 memories were not found from a higher map, burst reads never ended, poke and
 peek did not run user backdoors, one word too many was sampled, get_access
 returned nothing, callbacks of reads were not awaited

---
 src/uvm/reg/sequences/uvm_mem_access_seq.py | 17 +++---
 src/uvm/reg/uvm_mem.py                      | 58 ++++++++++++---------
 2 files changed, 41 insertions(+), 34 deletions(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_access_seq.py b/src/uvm/reg/sequences/uvm_mem_access_seq.py
index 4dbaa0c..cd4d947 100644
--- a/src/uvm/reg/sequences/uvm_mem_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_access_seq.py
@@ -115,17 +115,20 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
             # - Write complement of random value via back door
             # - Read via front door and expect inverted random value
             for k in range(mem.get_size()):
-                val = sv.random() & (1 << n_bits) - 1  # cast to 'uvm_reg_data_t' removed
+                val = sv.random()  # cast to 'uvm_reg_data_t' removed
                 if n_bits > 32:
                     val = (val << 32) | sv.random()
+                val = val & ((1 << n_bits) - 1)
                 if mode == "RO":
                     status = []
+                    exp = []
                     await mem.peek(status, k, exp)
                     status = status[0]
+                    exp = exp[0] if exp else 0
                     if status != UVM_IS_OK:
                        uvm_error("UVMMemAccessSeq", sv.sformatf(
                            "Status was %s when reading \"%s[%0d]\" through backdoor.",
-                           status.name(), mem.get_full_name(), k))
+                           str(status), mem.get_full_name(), k))
                 else:
                     exp = val
 
@@ -135,13 +138,12 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
                         "Status was %s when writing '%s[%0d]' through map '%s'.",
-                        status.name(), mem.get_full_name(), k, maps[j].get_full_name()))
+                        str(status), mem.get_full_name(), k, maps[j].get_full_name()))
                 await Timer(1, "NS")
 
                 val = []
                 status = []
-                #yield mem.peek(status, k, val)
-                mem.peek(status, k, val)
+                await mem.peek(status, k, val)
                 status = status[0]
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
@@ -157,8 +159,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
 
                 exp = ~exp & ((1 << n_bits)-1)
                 status = []
-                #yield mem.poke(status, k, exp)
-                mem.poke(status, k, exp)
+                await mem.poke(status, k, exp)
                 status = status[0]
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
@@ -173,7 +174,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
                         "Status was %s when reading \"%s[%0d]\" through map \"%s\".",
-                        status.name(), mem.get_full_name(), k, maps[j].get_full_name()))
+                        str(status), mem.get_full_name(), k, maps[j].get_full_name()))
                 else:
                     if mode == "WO":
                         if val != 0:
diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index b790fdb..1f7d31e 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -21,6 +21,8 @@
 #//    permissions and limitations under the License.
 #// -------------------------------------------------------------
 
+from inspect import isawaitable
+
 from ..base.uvm_object import UVMObject
 from ..base.uvm_pool import UVMPool, UVMObjectStringPool
 from ..base.uvm_queue import UVMQueue
@@ -293,7 +295,7 @@ class UVMMem(UVMObject):
         if _map in self.m_maps:
             return _map
 
-        for l in self.m_maps:
+        for l in self.m_maps.key_list():
             local_map = l  # uvm_reg_map
             parent_map = local_map.get_parent_map()
 
@@ -327,12 +329,11 @@ class UVMMem(UVMObject):
 
 
         # if only one map, choose that
-        default_map = None
         if self.m_maps.num() == 1:
-            get_default_map = self.m_maps.first()
+            return self.m_maps.first()
 
         # try to choose one based on default_map in parent blocks.
-        for l in self.m_maps:
+        for l in self.m_maps.key_list():
             _map = l  # uvm_reg_map
             blk = _map.get_parent()  # uvm_reg_block
             default_map = blk.get_default_map()  # uvm_reg_map
@@ -400,7 +401,7 @@ class UVMMem(UVMObject):
     #   extern virtual function string get_access(uvm_reg_map map = None)
     def get_access(self, _map=None):
         get_access = self.m_access
-        if (self.get_n_maps() == 1):
+        if self.get_n_maps() == 1 or _map is UVMRegMap.backdoor():
             return get_access
         _map = self.get_local_map(_map, "get_access()")
         if _map is None:
@@ -433,6 +434,7 @@ class UVMMem(UVMObject):
         else:
             uvm_error("RegModel", "Shared memory '" + self.get_full_name()
                 + "' is not shared in map '" + _map.get_full_name() + "'")
+        return get_access
 
     #   // Function: get_size
     #   //
@@ -721,7 +723,7 @@ class UVMMem(UVMObject):
         rw.element_kind = UVM_MEM
         rw.kind         = UVM_BURST_WRITE
         rw.offset       = offset
-        rw.value        = value
+        rw.value        = list(value)
         rw.path         = path
         rw.map          = _map
         rw.parent       = parent
@@ -759,13 +761,13 @@ class UVMMem(UVMObject):
     async def burst_read(self, status, offset,
     value, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname="",
             lineno=0):
-        uvm_check_output_args([status, value])
+        uvm_check_output_args([status])
         rw = UVMRegItem.type_id.create("mem_burst_read", None, self.get_full_name())
         rw.element      = self
         rw.element_kind = UVM_MEM
         rw.kind         = UVM_BURST_READ
         rw.offset       = offset
-        rw.value        = value
+        rw.value        = list(value)
         rw.path         = path
         rw.map          = _map
         rw.parent       = parent
@@ -776,8 +778,7 @@ class UVMMem(UVMObject):
 
         await self.do_read(rw)
         status.append(rw.status)
-        for val in rw.value:
-            value.append(val)
+        value[:] = rw.value
 
 
     #   // Task: poke
@@ -798,7 +799,7 @@ class UVMMem(UVMObject):
     #                            input  uvm_object         extension = None,
     #                            input  string             fname = "",
     #                            input  int                lineno = 0)
-    def poke(self, status,
+    async def poke(self, status,
             offset, value, kind="", parent=None, extension=None, fname="", lineno=0):
         uvm_check_output_args([status])
         bkdr = self.get_backdoor()  # uvm_reg_backdoor
@@ -818,7 +819,7 @@ class UVMMem(UVMObject):
         rw.element      = self
         rw.path         = UVM_BACKDOOR
         rw.element_kind = UVM_MEM
-        rw.kind         = UVM_READ
+        rw.kind         = UVM_WRITE
         rw.offset       = offset
         rw.value[0]     = value & ((1 << self.m_n_bits)-1)
         rw.bd_kind      = kind
@@ -828,7 +829,7 @@ class UVMMem(UVMObject):
         rw.lineno       = lineno
 
         if bkdr is not None:
-            bkdr.write(rw)
+            await bkdr.write(rw)
         else:
             self.backdoor_write(rw)
 
@@ -857,7 +858,7 @@ class UVMMem(UVMObject):
     #                            input  uvm_object         extension = None,
     #                            input  string             fname = "",
     #                            input  int                lineno = 0)
-    def peek(self, status, offset, value, kind="", parent=None, extension=None, fname="",
+    async def peek(self, status, offset, value, kind="", parent=None, extension=None, fname="",
             lineno=0):
         uvm_check_output_args([status, value])
         bkdr = self.get_backdoor()  # uvm_reg_backdoor
@@ -886,7 +887,7 @@ class UVMMem(UVMObject):
         rw.lineno       = lineno
 
         if bkdr is not None:
-            bkdr.read(rw)
+            await bkdr.read(rw)
         else:
             self.backdoor_read(rw)
 
@@ -903,7 +904,7 @@ class UVMMem(UVMObject):
     def Xcheck_accessX(self, rw, map_info, caller):
         uvm_check_output_args([map_info])
 
-        if rw.offset >= self.m_size:
+        if rw.offset < 0 or rw.offset >= self.m_size:
             uvm_error(self.get_type_name(),
                sv.sformatf("Offset 'h%0h exceeds size of memory, 'h%0h",
                  rw.offset, self.m_size))
@@ -926,9 +927,11 @@ class UVMMem(UVMObject):
             rw.local_map = self.get_local_map(rw.map,caller)
 
             if rw.local_map is None:
+                name = "the default map"
+                if rw.map is not None:
+                    name = "map '" + rw.map.get_full_name() + "'"
                 uvm_error(self.get_type_name(),
-                    "No transactor available to physically access memory from map '"
-                    + rw.map.get_full_name() + "'")
+                    "No transactor available to physically access memory from " + name)
                 rw.status = UVM_NOT_OK
                 return 0
 
@@ -939,7 +942,7 @@ class UVMMem(UVMObject):
 
                 if (_map_info_data.unmapped):
                     uvm_error("RegModel", "Memory '" + self.get_full_name()
-                              + "' unmapped in map '" + rw.map.get_full_name()
+                              + "' unmapped in map '" + rw.local_map.get_full_name()
                               + "' and does not have a user-defined frontdoor")
                     rw.status = UVM_NOT_OK
                     return 0
@@ -956,6 +959,7 @@ class UVMMem(UVMObject):
                         uvm_error("RegModel",
                            sv.sformatf("Burst of size 'd%0d starting at offset 'd%0d exceeds size of memory, 'd%0d",
                                len(rw.value), rw.offset, self.m_size))
+                        rw.status = UVM_NOT_OK
                         return 0
 
             if rw.map is None:
@@ -972,7 +976,7 @@ class UVMMem(UVMObject):
         self.m_fname  = rw.fname
         self.m_lineno = rw.lineno
 
-        if self.Xcheck_accessX(rw, arr_map_info, "burst_write()") is False:
+        if not self.Xcheck_accessX(rw, arr_map_info, "burst_write()"):
             await uvm_zero_delay()
             return
 
@@ -1010,7 +1014,7 @@ class UVMMem(UVMObject):
 
             if rw.status != UVM_NOT_OK:
                 _min = rw.offset
-                _max = rw.offset + len(rw.value) + 1
+                _max = rw.offset + len(rw.value)
                 for idx in range(_min, _max):
                     self.XsampleX(map_info.mem_range.stride * idx, 0, rw.map)
                     self.m_parent.XsampleX(map_info.offset +
@@ -1020,7 +1024,7 @@ class UVMMem(UVMObject):
             #raise Exception("Backdoor access not implemented yet for UVMMem!")
             # // BACKDOOR TODO
             # // Mimick front door access, i.e. do not write read-only memories
-            if self.get_access(rw.map) == "RW":
+            if self.get_access(rw.map) in ("RW", "WO"):
                 bkdr = self.get_backdoor()  # uvm_reg_backdoor
                 if bkdr is not None:
                     await bkdr.write(rw)
@@ -1075,7 +1079,7 @@ class UVMMem(UVMObject):
         self.m_fname = rw.fname
         self.m_lineno = rw.lineno
 
-        if self.Xcheck_accessX(rw, arr_map_info, "burst_read()") is False:
+        if not self.Xcheck_accessX(rw, arr_map_info, "burst_read()"):
             await uvm_zero_delay()
             return
 
@@ -1086,7 +1090,7 @@ class UVMMem(UVMObject):
         await self.pre_read(rw)
         cb = cbs.first()
         while cb is not None:
-            cb.pre_read(rw)
+            await cb.pre_read(rw)
             cb = cbs.next()
 
         if rw.status != UVM_IS_OK:
@@ -1111,7 +1115,7 @@ class UVMMem(UVMObject):
 
             if rw.status != UVM_NOT_OK:
                 _min = rw.offset
-                _max = rw.offset + len(rw.value) + 1
+                _max = rw.offset + len(rw.value)
                 for idx in range(_min, _max):
                     self.XsampleX(map_info.mem_range.stride * idx, 1, rw.map)
                     self.m_parent.XsampleX(map_info.offset +
@@ -1129,7 +1133,9 @@ class UVMMem(UVMObject):
         await self.post_read(rw)
         cb = cbs.first()
         while cb is not None:
-            await cb.post_read(rw)
+            res = cb.post_read(rw)
+            if isawaitable(res):
+                await res
             cb = cbs.next()
 
         # REPORT
-- 
2.43.0


From 68e850e7d788f7976b9e9397a5088a892eb198f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 61/76] fix: register predictor: registers in a map narrower
 than the predictor's were put together at the wrong bits, and byte enables of
 the last access stood for the whole of a wide register

---
 src/uvm/reg/uvm_reg_predictor.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_predictor.py b/src/uvm/reg/uvm_reg_predictor.py
index 293d03f..02459b4 100644
--- a/src/uvm/reg/uvm_reg_predictor.py
+++ b/src/uvm/reg/uvm_reg_predictor.py
@@ -46,6 +46,7 @@ class UVMPredictS():
 
     def __init__(self):
         self.addr = {}
+        self.byte_en = 0
         self.reg_item = None
 
 
@@ -197,7 +198,11 @@ class UVMRegPredictor(UVMComponent):
             for i in range(len(map_info.addr)):
                 if rw.addr == map_info.addr[i]:
                     found = True
-                    reg_item.value[0] |= rw.data << (i * self.map.get_n_bytes()*8)
+                    # The data and byte enables of this access go where its part of the
+                    # register is: the local map may be narrower than the predictor's map
+                    n_bytes = local_map.get_n_bytes()
+                    reg_item.value[0] |= rw.data << (i * n_bytes * 8)
+                    predict_info.byte_en |= (rw.byte_en & ((1 << n_bytes) - 1)) << (i * n_bytes)
                     predict_info.addr[rw.addr] = 1
 
                     if len(predict_info.addr) == len(map_info.addr):
@@ -214,7 +219,7 @@ class UVMRegPredictor(UVMComponent):
 
                         self.pre_predict(reg_item)
 
-                        ir.XsampleX(reg_item.value[0], rw.byte_en,
+                        ir.XsampleX(reg_item.value[0], predict_info.byte_en,
                                     reg_item.kind == UVM_READ, local_map)
 
                         blk = rg.get_parent()  # uvm_reg_block
@@ -222,7 +227,7 @@ class UVMRegPredictor(UVMComponent):
                                      reg_item.kind == UVM_READ,
                                      local_map)
 
-                        rg.do_predict(reg_item, predict_kind, rw.byte_en)
+                        rg.do_predict(reg_item, predict_kind, predict_info.byte_en)
                         if reg_item.kind == UVM_WRITE:
                             uvm_info("REG_PREDICT", "Observed WRITE transaction to register "
                                      + ir.get_full_name() + ": value='h"
-- 
2.43.0


From 56dcad396b2fd969aae640e8b90de837ebadae88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:49 +0000
Subject: [PATCH 62/76] fix: FIFO and indirect registers work: a FIFO write
 pushes its value once, idle updates and reads of empty FIFOs succeed or fail
 cleanly, indirect frontdoors are installed, read and write the selected entry
 once and release their locks on errors, and copying a register item copies
 its values

---
 src/uvm/reg/uvm_reg.py          | 11 +++++-
 src/uvm/reg/uvm_reg_fifo.py     | 11 +++++-
 src/uvm/reg/uvm_reg_indirect.py | 70 ++++++++++++++-------------------
 src/uvm/reg/uvm_reg_item.py     |  4 +-
 4 files changed, 51 insertions(+), 45 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 879bd79..1827cec 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -897,7 +897,7 @@ class UVMReg(UVMObject):
         # create an abstract transaction for this operation
         rw = UVMRegItem.type_id.create("write_item", None, self.get_full_name())
         await self.XatomicX(1, rw)
-        self.set(value)
+        self.m_set_for_write(value)
 
         rw.element      = self
         rw.element_kind = UVM_REG
@@ -917,6 +917,15 @@ class UVMReg(UVMObject):
         return rw.status
 
 
+    def m_set_for_write(self, value):
+        """
+        Sets the desired value before a write.
+
+        Args:
+            value: Value about to be written.
+        """
+        self.set(value)
+
     async def read(self, status, value, path=UVM_DEFAULT_PATH, _map=None,
             parent=None, prior=-1, extension=None, fname="", lineno=0):
         """
diff --git a/src/uvm/reg/uvm_reg_fifo.py b/src/uvm/reg/uvm_reg_fifo.py
index 332bf06..259a609 100644
--- a/src/uvm/reg/uvm_reg_fifo.py
+++ b/src/uvm/reg/uvm_reg_fifo.py
@@ -23,7 +23,7 @@
 import cocotb
 from .uvm_reg import UVMReg
 from .uvm_reg_field import UVMRegField
-from .uvm_reg_model import (UVM_CHECK, UVM_DEFAULT_PATH, UVM_NOT_OK,
+from .uvm_reg_model import (UVM_CHECK, UVM_DEFAULT_PATH, UVM_IS_OK, UVM_NOT_OK,
     UVM_PREDICT_WRITE, UVM_PREDICT_DIRECT, UVM_PREDICT_READ)
 from ..macros import uvm_warning, uvm_error
 from ..base.sv import sv
@@ -155,6 +155,11 @@ class UVMRegFIFO(UVMReg):
         self.fifo.append(self.value.value)
 
 
+    def m_set_for_write(self, value):
+        # A write pushes its value when it is predicted, not before
+        super().set(value & ((1 << self.get_n_bits())-1))
+
+
     #    // Function: update
     #    //
     #    // Pushes (writes) all values preloaded using <set()> to the DUT.
@@ -166,6 +171,8 @@ class UVMRegFIFO(UVMReg):
             prior=-1, extension=None, fname="", lineno=0):
         upd = 0x0
         if self.m_set_cnt == 0 or len(self.fifo) == 0:
+            if len(status) == 0:
+                status.append(UVM_IS_OK)
             return
         self.m_update_in_progress = 1
         i = len(self.fifo)-self.m_set_cnt
@@ -196,6 +203,8 @@ class UVMRegFIFO(UVMReg):
     #    //
     def get(self, fname="", lineno=0):
         #return fifo.pop(0)();
+        if len(self.fifo) == 0:
+            return 0
         val = self.fifo[0]
         return val
 
diff --git a/src/uvm/reg/uvm_reg_indirect.py b/src/uvm/reg/uvm_reg_indirect.py
index b40803c..6be8a60 100644
--- a/src/uvm/reg/uvm_reg_indirect.py
+++ b/src/uvm/reg/uvm_reg_indirect.py
@@ -70,6 +70,7 @@ class UVMRegIndirectData(UVMReg):
         UVMReg.__init__(self, name,n_bits,has_cover)
         self.m_idx = None
         self.m_tbl = []
+        self.m_tbl_access = False  # a register of the table is being accessed
         #endfunction: new
 
     def build(self):
@@ -140,7 +141,7 @@ class UVMRegIndirectData(UVMReg):
                 continue
             fd = uvm_reg_indirect_ftdr_seq(self.m_idx, i, self)
             if self.m_tbl[i].is_in_map(_map):
-                self.m_tbl[i].set_frontdoor(fd, _map)
+                _map.m_regs_info[self.m_tbl[i]].frontdoor = fd
             else:
                 _map.add_reg(self.m_tbl[i], -1, "RW", 1, fd)
 
@@ -156,6 +157,9 @@ class UVMRegIndirectData(UVMReg):
             UVM_PREDICT_DIRECT: 
             be: 
         """
+        if self.m_tbl_access and rw.path == UVM_FRONTDOOR:
+            return  # the register of the table is predicted by its own access
+
         if self.m_idx.get() >= len(self.m_tbl):
             uvm_error(self.get_full_name(), sv.sformatf(
                 "Address register %s has a value (%0d) greater than the maximum indirect register array size (%0d)",
@@ -207,9 +211,11 @@ class UVMRegIndirectData(UVMReg):
     #
     #   virtual function uvm_reg get_indirect_reg(string  fname = "",
     #                                        int     lineno = 0)
-    #      int unsigned idx = m_idx.get_mirrored_value()
-    #      return(m_tbl[idx])
-    #   endfunction
+    def get_indirect_reg(self, fname="", lineno=0):
+        idx = self.m_idx.get_mirrored_value()
+        if idx >= len(self.m_tbl):
+            return self
+        return self.m_tbl[idx]
 
     def needs_update(self):
         return 0
@@ -323,32 +329,14 @@ class UVMRegIndirectData(UVMReg):
     #   endtask
 
     #
-    #   virtual task update(output uvm_status_e      status,
-    #                       input  uvm_path_e        path = UVM_DEFAULT_PATH,
-    #                       input  uvm_reg_map       map = None,
-    #                       input  uvm_sequence_base parent = None,
-    #                       input  int               prior = -1,
-    #                       input  uvm_object        extension = None,
-    #                       input  string            fname = "",
-    #                       input  int               lineno = 0)
-    #      status = UVM_IS_OK
-    #   endtask
+    async def update(self, status, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1,
+            extension=None, fname="", lineno=0):
+        status.append(UVM_IS_OK)
 
-    #
-    #   virtual task mirror(output uvm_status_e      status,
-    #                       input uvm_check_e        check  = UVM_NO_CHECK,
-    #                       input uvm_path_e         path = UVM_DEFAULT_PATH,
-    #                       input uvm_reg_map        map = None,
-    #                       input uvm_sequence_base  parent = None,
-    #                       input int                prior = -1,
-    #                       input  uvm_object        extension = None,
-    #                       input string             fname = "",
-    #                       input int                lineno = 0)
-    #      status = UVM_IS_OK
 
-    #   endtask
-    #
-    #endclass : uvm_reg_indirect_data
+    async def mirror(self, status, check=UVM_NO_CHECK, path=UVM_DEFAULT_PATH, _map=None,
+            parent=None, prior=-1, extension=None, fname="", lineno=0):
+        status.append(UVM_IS_OK)
 
 
 class uvm_reg_indirect_ftdr_seq(UVMRegFrontdoor):
@@ -389,20 +377,20 @@ class uvm_reg_indirect_ftdr_seq(UVMRegFrontdoor):
         # This write selects the address to write/read
         await self.m_addr_reg.do_write(rw)
 
-        if rw.status == UVM_NOT_OK:
-            return
+        if rw.status != UVM_NOT_OK:
+            arr = []
+            if sv.cast(arr, self.rw_info.clone(), UVMRegItem):
+                rw = arr[0]
+            rw.element = self.m_data_reg
 
-        arr = []
-        if sv.cast(arr, self.rw_info.clone(), UVMRegItem):
-            rw = arr[0]
-        rw.element = self.m_data_reg
-
-        # This fetches the actual data
-        if self.rw_info.kind == UVM_WRITE:
-            await self.m_data_reg.do_write(rw)
-        else:
-            await self.m_data_reg.do_read(rw)
-            self.rw_info.value[0] = rw.value[0]
+            # This fetches the actual data
+            self.m_data_reg.m_tbl_access = True
+            if self.rw_info.kind == UVM_WRITE:
+                await self.m_data_reg.do_write(rw)
+            else:
+                await self.m_data_reg.do_read(rw)
+                self.rw_info.value[0] = rw.value[0]
+            self.m_data_reg.m_tbl_access = False
 
         await self.m_addr_reg.XatomicX(0)
         await self.m_data_reg.XatomicX(0)
diff --git a/src/uvm/reg/uvm_reg_item.py b/src/uvm/reg/uvm_reg_item.py
index 7799aea..b1e474d 100644
--- a/src/uvm/reg/uvm_reg_item.py
+++ b/src/uvm/reg/uvm_reg_item.py
@@ -211,11 +211,11 @@ class UVMRegItem(UVMSequenceItem):
             return
         rhs_ = arr_rhs_[0]
 
-        super().copy(rhs)
+        super().do_copy(rhs)
         self.element_kind = rhs_.element_kind
         self.element = rhs_.element
         self.kind = rhs_.kind
-        self.value = rhs_.value
+        self.value = list(rhs_.value)
         self.offset = rhs_.offset
         self.status = rhs_.status
         self.local_map = rhs_.local_map
-- 
2.43.0


From 1c9d41643a347f0712782774bb0ef235c8589f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 63/76] fix: comparators count a compare result of 0 as a
 mismatch, and pairs of objects and of values copy and compare their contents

---
 src/uvm/comps/uvm_in_order_comparator.py |  2 +-
 src/uvm/comps/uvm_pair.py                | 77 ++++++++++++++----------
 2 files changed, 45 insertions(+), 34 deletions(-)

diff --git a/src/uvm/comps/uvm_in_order_comparator.py b/src/uvm/comps/uvm_in_order_comparator.py
index 218a4bf..1dc97df 100644
--- a/src/uvm/comps/uvm_in_order_comparator.py
+++ b/src/uvm/comps/uvm_in_order_comparator.py
@@ -167,7 +167,7 @@ class UVMInOrderComparator(UVMComponent):
             a = arr_a[0]
 
             # pytype: disable=wrong-arg-types
-            if self.CompType.comp(b, a) is False:
+            if not self.CompType.comp(b, a):
                 s = sv.sformatf("%s differs from %s", self.Convert.convert2string(a),
                     self.Convert.convert2string(b))
                 uvm_error("Comparator Mismatch", s)
diff --git a/src/uvm/comps/uvm_pair.py b/src/uvm/comps/uvm_pair.py
index 3f21905..07ddd3d 100644
--- a/src/uvm/comps/uvm_pair.py
+++ b/src/uvm/comps/uvm_pair.py
@@ -29,7 +29,7 @@ This section defines container classes for handling value pairs.
 
 from uvm.base.sv import sv
 from uvm.base.uvm_object import UVMObject
-from uvm.macros import uvm_object_utils, uvm_error
+from uvm.macros import uvm_object_utils, uvm_error, uvm_fatal
 
 
 
@@ -86,22 +86,33 @@ class UVMClassPair(UVMObject):
         return s
 
 
-    #  def do_compare(self,uvm_object rhs, uvm_comparer comparer):
-    #    this_type rhs_
-    #    if(!sv.cast(rhs_,rhs)):
-    #      uvm_error("WRONG_TYPE", {"do_compare: rhs argument is not of type '",get_type_name(),"'"})
-    #      return 0
-    #    end
-    #    return first.compare(rhs_.first)  and  second.compare(rhs_.second)
-    #  endfunction
-
-    #  def do_copy(self,uvm_object rhs):
-    #    this_type rhs_
-    #    if(!sv.cast(rhs_,rhs))
-    #      uvm_fatal("WRONG_TYPE", {"do_copy: rhs argument is not of type '",get_type_name(),"'"})
-    #    first.copy(rhs_.first)
-    #    second.copy(rhs_.second)
-    #  endfunction
+    def do_compare(self, rhs, comparer):
+        if not isinstance(rhs, UVMClassPair):
+            uvm_error("WRONG_TYPE", "do_compare: rhs argument is not of type '"
+                + self.get_type_name() + "'")
+            return False
+        for mine, other in ((self.first, rhs.first), (self.second, rhs.second)):
+            if mine is None or other is None:
+                if mine is not other:
+                    return False
+            elif not mine.compare(other):
+                return False
+        return True
+
+    def do_copy(self, rhs):
+        if not isinstance(rhs, UVMClassPair):
+            uvm_fatal("WRONG_TYPE", "do_copy: rhs argument is not of type '"
+                + self.get_type_name() + "'")
+            return
+        self.first = self.m_copy_item(self.first, rhs.first)
+        self.second = self.m_copy_item(self.second, rhs.second)
+
+    @staticmethod
+    def m_copy_item(mine, other):
+        if mine is None or other is None:
+            return None if other is None else other.clone()
+        mine.copy(other)
+        return mine
 
 
 uvm_object_utils(UVMClassPair)
@@ -139,7 +150,7 @@ class UVMBuiltInPair(UVMObject):
     def __init__(self, name=""):
         super().__init__(name)
         self.first = 0
-        self.seconds = 0
+        self.second = 0
 
 
     def get_type_name(self):
@@ -151,20 +162,20 @@ class UVMBuiltInPair(UVMObject):
 
 
     def do_compare(self, rhs, comparer):
-        rhs_ = []
-        if not sv.cast(rhs_,rhs, UVMBuiltInPair):
-            uvm_error("WRONG_TYPE", {"do_compare: rhs argument is not of type '",
-                self.get_type_name(),"'"})
-            return 0
-        rhs_ = rhs[0]
-        return self.first == rhs_.first and self.second == rhs_.second
-
-
-    #  def do_copy(self,uvm_object rhs):
-    #    this_type rhs_
-    #    if(!sv.cast(rhs_,rhs))
-    #      uvm_fatal("WRONG_TYPE", {"do_copy: rhs argument is not of type '",get_type_name(),"'"})
-    #    first = rhs_.first
-    #    second = rhs_.second
+        if not isinstance(rhs, UVMBuiltInPair):
+            uvm_error("WRONG_TYPE", "do_compare: rhs argument is not of type '"
+                + self.get_type_name() + "'")
+            return False
+        return self.first == rhs.first and self.second == rhs.second
+
+
+    def do_copy(self, rhs):
+        if not isinstance(rhs, UVMBuiltInPair):
+            uvm_fatal("WRONG_TYPE", "do_copy: rhs argument is not of type '"
+                + self.get_type_name() + "'")
+            return
+        self.first = rhs.first
+        self.second = rhs.second
+
 
 uvm_object_utils(UVMBuiltInPair)
-- 
2.43.0


From 2405b657d0cf8e9613670a4184be1622d66dab68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:29 +0000
Subject: [PATCH 64/76] fix: non-blocking TLM2 sockets accept a separate
 implementation and pass the backward path through pass-through sockets, and
 wrong socket connections are reported

---
 src/uvm/tlm2/uvm_tlm2_sockets.py | 62 ++++++++++++++++----------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/src/uvm/tlm2/uvm_tlm2_sockets.py b/src/uvm/tlm2/uvm_tlm2_sockets.py
index cc2a03a..8fb863e 100644
--- a/src/uvm/tlm2/uvm_tlm2_sockets.py
+++ b/src/uvm/tlm2/uvm_tlm2_sockets.py
@@ -126,10 +126,9 @@ class UVMTLMBTargetSocket(UVMTLMBTargetSocketBase):
     def connect(self, provider):
         super().connect(provider)
 
-        c = self.get_comp()
-        # TODO:
-#         uvm_error_context(get_type_name(),
-#             "You cannot call connect() on a target termination socket", c)
+        uvm_error_context(self.get_type_name(),
+            "You cannot call connect() on a target termination socket",
+            self.get_comp())
 
 UVM_TLM_B_TRANSPORT_IMP('m_imp', UVMTLMBTargetSocket)
 
@@ -155,9 +154,9 @@ class UVMTLMNbInitiatorSocket(UVMTLMNbInitiatorSocketBase):
     def __init__(self, name, parent, imp=None):
         super().__init__(name, parent)
 
-        if (imp is None):
+        if imp is None:
             imp = parent
-        else:
+        if imp is None:
             uvm_error("UVM/TLM2/NOIMP", cat("nb_initiator socket ", name,
                                      " has no implementation"))
         self.bw_imp = UVMTLMNbTransportBwImp("bw_imp", imp)
@@ -228,10 +227,9 @@ class UVMTLMNbTargetSocket(UVMTLMNbTargetSocketBase):
     #// Connect this socket to the specified <uvm_tlm_nb_initiator_socket>
     def connect(self, provider):
         super().connect(provider)
-        # TODO:
-        #uvm_error_context(self.get_type_name(),
-        #    "You cannot call connect() on a target termination socket",
-        #    self.get_comp())
+        uvm_error_context(self.get_type_name(),
+            "You cannot call connect() on a target termination socket",
+            self.get_comp())
 
 UVM_TLM_NB_TRANSPORT_FW_IMP('m_imp', UVMTLMNbTargetSocket)
 
@@ -257,11 +255,9 @@ class UVMTLMBPassthroughInitiatorSocket(UVMTLMBPassthroughInitiatorSocketBase):
         super().connect(provider)
 
         if not isinstance(provider, valid_providers):
-            # TODO:
-            # uvm_error_context(get_type_name(),
-            #    "type mismatch in connect -- connection cannot be completed",
-            #    self.get_comp())
-            pass
+            uvm_error_context(self.get_type_name(),
+                "type mismatch in connect -- connection cannot be completed",
+                self.get_comp())
 
 #//----------------------------------------------------------------------
 #// Class: uvm_tlm_b_passthrough_target_socket
@@ -283,11 +279,9 @@ class UVMTLMBPassthroughTargetSocket(UVMTLMBPassthroughTargetSocketBase):
         super().connect(provider)
 
         if not isinstance(provider, valid_providers):
-            # TODO:
-            # uvm_error_context(self.get_type_name(),
-            #    "type mismatch in connect -- connection cannot be completed",
-            #    self.get_comp())
-            pass
+            uvm_error_context(self.get_type_name(),
+                "type mismatch in connect -- connection cannot be completed",
+                self.get_comp())
 
 
 #//----------------------------------------------------------------------
@@ -312,11 +306,17 @@ class UVMTLMNbPassthroughInitiatorSocket(UVMTLMNbPassthroughInitiatorSocketBase)
         super().connect(provider)
 
         if not isinstance(provider, valid_providers):
-            # TODO:
-            # uvm_error_context(self.get_type_name(),
-            #     "type mismatch in connect -- connection cannot be completed",
-            #     self.get_comp())
-            pass
+            uvm_error_context(self.get_type_name(),
+                "type mismatch in connect -- connection cannot be completed",
+                self.get_comp())
+            return
+
+        # the backward path ends at the exports of this socket
+        if isinstance(provider, UVMTLMNbPassthroughInitiatorSocketBase):
+            provider.bw_export.connect(self.bw_export)
+        else:
+            provider.bw_port.connect(self.bw_export)
+
 
 #//----------------------------------------------------------------------
 #// Class -- NODOCS -- uvm_tlm_nb_passthrough_target_socket
@@ -339,8 +339,10 @@ class UVMTLMNbPassthroughTargetSocket(UVMTLMNbPassthroughTargetSocketBase):
         super().connect(provider)
 
         if not isinstance(provider, valid_providers):
-            # TODO:
-            # uvm_error_context(self.get_type_name(),
-            #     "type mismatch in connect -- connection cannot be completed",
-            #     self.get_comp())
-            pass
+            uvm_error_context(self.get_type_name(),
+                "type mismatch in connect -- connection cannot be completed",
+                self.get_comp())
+            return
+
+        # the backward path goes on through the port of this socket
+        provider.bw_port.connect(self.bw_port)
-- 
2.43.0


From 5d295ec43379078fe15a94a9bcfbd198f2bd23ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:24 +0000
Subject: [PATCH 65/76] fix: data access policies: trying to set or get the
 value of a locked or unset policy answers whether it worked instead of
 failing or passing silently

---
 src/uvm/dap/uvm_get_to_lock_dap.py    | 19 +++++++++++--------
 src/uvm/dap/uvm_set_before_get_dap.py |  8 +++-----
 src/uvm/dap/uvm_simple_lock_dap.py    | 20 +++++++++++---------
 3 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/uvm/dap/uvm_get_to_lock_dap.py b/src/uvm/dap/uvm_get_to_lock_dap.py
index 98616d2..79cd085 100644
--- a/src/uvm/dap/uvm_get_to_lock_dap.py
+++ b/src/uvm/dap/uvm_get_to_lock_dap.py
@@ -26,6 +26,7 @@ from typing import Any
 
 from .uvm_set_get_dap_base import uvm_set_get_dap_base
 from ..base.sv import sv
+from ..base.uvm_globals import uvm_check_output_args
 from ..macros import uvm_error, uvm_object_utils
 
 ERR_MSG1 = ("Attempt to set new value on '%s', but the data access policy " +
@@ -77,14 +78,11 @@ class uvm_get_to_lock_dap(uvm_set_get_dap_base):
     #   // updated, or a 0 if the value can not be updated due
     #   // to ~get~ having been called.  No errors will be reported
     #   // if ~try_set~ fails.
-    #   virtual function bit try_set(T value);
-    #      if (m_locked)
-    #        return 0;
-    #      else begin
-    #         m_value = value;
-    #         return 1;
-    #      end
-    #   endfunction : try_set
+    def try_set(self, value):
+        if self.m_locked:
+            return False
+        self.m_value = value
+        return True
 
     #   // Function: get
     #   // Returns the current value stored within the DAP, and 'locks' the DAP.
@@ -95,6 +93,11 @@ class uvm_get_to_lock_dap(uvm_set_get_dap_base):
         self.m_locked = True
         return self.m_value
 
+    def try_get(self, value):
+        uvm_check_output_args([value])
+        value.append(self.get())
+        return True
+
     #   // Function: try_get
     #   // Retrieves the current value stored within the DAP, and 'locks' the DAP.
     #   //
diff --git a/src/uvm/dap/uvm_set_before_get_dap.py b/src/uvm/dap/uvm_set_before_get_dap.py
index 9e2b607..d34e1ae 100644
--- a/src/uvm/dap/uvm_set_before_get_dap.py
+++ b/src/uvm/dap/uvm_set_before_get_dap.py
@@ -101,11 +101,9 @@ class uvm_set_before_get_dap(uvm_set_get_dap_base):
     #   // Attempts to update the value stored within the DAP.
     #   //
     #   // ~try_set~ will always return a 1.
-    #   virtual function bit try_set(T value);
-    #      set(value);
-    #      return 1;
-    #   endfunction : try_set
-    #
+    def try_set(self, value):
+        self.set(value)
+        return True
 
     #   // Function: get
     #   // Returns the current value stored within the DAP.
diff --git a/src/uvm/dap/uvm_simple_lock_dap.py b/src/uvm/dap/uvm_simple_lock_dap.py
index 36207a6..5a46d01 100644
--- a/src/uvm/dap/uvm_simple_lock_dap.py
+++ b/src/uvm/dap/uvm_simple_lock_dap.py
@@ -25,6 +25,7 @@ from .uvm_set_get_dap_base import uvm_set_get_dap_base
 from ..macros.uvm_object_defines import uvm_object_utils
 from ..macros.uvm_message_defines import *
 from ..base.sv import sv
+from ..base.uvm_globals import uvm_check_output_args
 
 ERR_MSG1 = "Attempt to set new value on '%s', but the data access policy forbids setting while locked!"
 
@@ -72,15 +73,11 @@ class uvm_simple_lock_dap(uvm_set_get_dap_base):
     #   // updated, or a 0 if the value can not be updated due
     #   // to the DAP being locked.  No errors will be reported
     #   // if ~try_set~ fails.
-    #   virtual function bit try_set(T value);
-    #      if (m_locked)
-    #        return 0;
-    #      else begin
-    #         m_value = value;
-    #         return 1;
-    #      end
-    #   endfunction : try_set
-    #
+    def try_set(self, value):
+        if self.m_locked:
+            return False
+        self.m_value = value
+        return True
 
     #   // Function: get
     #   // Returns the current value stored within the DAP
@@ -88,6 +85,11 @@ class uvm_simple_lock_dap(uvm_set_get_dap_base):
     def get(self):
         return self.m_value
 
+    def try_get(self, value):
+        uvm_check_output_args([value])
+        value.append(self.m_value)
+        return True
+
     #   // Function: try_get
     #   // Retrieves the current value stored within the DAP
     #   //
-- 
2.43.0


From 3a3d85bfcdae538dd87cf2294c80b4d37c7d79ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:24 +0000
Subject: [PATCH 66/76] fix: transaction recording: streams can be closed,
 freed and queried, child and related links are written, ended records are
 closed and freed once, a component records every transaction in its main
 stream, and a text database can be reopened after it was closed

---
 src/uvm/base/uvm_component.py        |   2 +-
 src/uvm/base/uvm_links.py            |  50 ++--
 src/uvm/base/uvm_recorder.py         |   4 +-
 src/uvm/base/uvm_tr_database.py      |  44 +---
 src/uvm/base/uvm_tr_stream.py        | 378 ++++++++++++---------------
 src/uvm/base/uvm_transaction.py      |   7 +-
 src/uvm/macros/uvm_object_defines.py |   5 +-
 7 files changed, 219 insertions(+), 271 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 7a3ff90..e59167d 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2281,7 +2281,7 @@ class UVMComponent(UVMReportObject):
             if (stream_name == "") or (stream_name == "main"):
                 if self.m_main_stream is None:
                     self.m_main_stream = db.open_stream("main", self.get_full_name(), "TVM")
-                    stream = self.m_main_stream
+                stream = self.m_main_stream
             else:
                 stream = self.get_tr_stream(stream_name)
 
diff --git a/src/uvm/base/uvm_links.py b/src/uvm/base/uvm_links.py
index 11eb197..593c028 100644
--- a/src/uvm/base/uvm_links.py
+++ b/src/uvm/base/uvm_links.py
@@ -404,34 +404,34 @@ class UVMRelatedLink(UVMLinkBase):
 
 
     #   // Group: Implementation Callbacks
-    #
-    #   // Function: do_set_lhs
-    #   // Sets the left-hand-side
-    #   //
-    #   virtual def void do_set_lhs(self,UVMObject lhs):
-    #      m_lhs = lhs
-    #   endfunction : do_set_lhs
 
-    #   // Function: do_get_lhs
-    #   // Retrieves the left-hand-side
-    #   //
-    #   virtual def UVMObject do_get_lhs(self):
-    #      return m_lhs
-    #   endfunction : do_get_lhs
+    def do_set_lhs(self, lhs):
+        """
+           Function: do_set_lhs
+           Sets the left-hand-side
+        """
+        self.m_lhs = lhs
 
-    #   // Function: do_set_rhs
-    #   // Sets the right-hand-side
-    #   //
-    #   virtual def void do_set_rhs(self,UVMObject rhs):
-    #      m_rhs = rhs
-    #   endfunction : do_set_rhs
+    def do_get_lhs(self):
+        """
+           Function: do_get_lhs
+           Retrieves the left-hand-side
+        """
+        return self.m_lhs
 
-    #   // Function: do_get_rhs
-    #   // Retrieves the right-hand-side
-    #   //
-    #   virtual def UVMObject do_get_rhs(self):
-    #      return m_rhs
-    #   endfunction : do_get_rhs
+    def do_set_rhs(self, rhs):
+        """
+           Function: do_set_rhs
+           Sets the right-hand-side
+        """
+        self.m_rhs = rhs
+
+    def do_get_rhs(self):
+        """
+           Function: do_get_rhs
+           Retrieves the right-hand-side
+        """
+        return self.m_rhs
 
 
 uvm_object_utils(UVMRelatedLink)
diff --git a/src/uvm/base/uvm_recorder.py b/src/uvm/base/uvm_recorder.py
index 5b25dee..5f7d48d 100644
--- a/src/uvm/base/uvm_recorder.py
+++ b/src/uvm/base/uvm_recorder.py
@@ -199,7 +199,7 @@ class UVMRecorder(UVMObject):
         if (close_time == 0):
             close_time = sv.realtime()
 
-        if self.is_open() is False:
+        if not self.is_open():
             return
 
         self.do_close(close_time)
@@ -378,7 +378,7 @@ class UVMRecorder(UVMObject):
 
         Returns:
         """
-        if (self.is_open() is False and self.is_closed() is False):
+        if not self.is_open() and not self.is_closed():
             return 0
         else:
             handle = self.get_inst_id()
diff --git a/src/uvm/base/uvm_tr_database.py b/src/uvm/base/uvm_tr_database.py
index 33c532d..822dd4c 100644
--- a/src/uvm/base/uvm_tr_database.py
+++ b/src/uvm/base/uvm_tr_database.py
@@ -89,7 +89,7 @@ class UVMTrDatabase(UVMObject):
            and return the result.
         Returns:
         """
-        if self.m_is_opened is False:
+        if not self.m_is_opened:
             self.m_is_opened = self.do_open_db()
         return self.m_is_opened
 
@@ -110,6 +110,8 @@ class UVMTrDatabase(UVMObject):
         Returns:
         """
         if self.m_is_opened:
+            for stream in list(self.m_streams):
+                stream.free()
             if self.do_close_db():
                 self.m_is_opened = 0
         return self.m_is_opened == 0
@@ -232,10 +234,6 @@ class UVMTrDatabase(UVMObject):
         Args:
             link:
         """
-        s_lhs = []  # UVMTrStream
-        s_rhs = []  # UVMTrStream
-        r_lhs = []  # uvm_recorder
-        r_rhs = []  # uvm_recorder
         lhs = link.get_lhs()
         rhs = link.get_rhs()
         db = None  # UVMTrDatabase
@@ -243,6 +241,7 @@ class UVMTrDatabase(UVMObject):
         if lhs is None:
             uvm_warning("UVM/TR_DB/BAD_LINK",
                 "left hand side '<None>' is not supported in links for 'UVMTrDatabase'")
+            return
 
         if rhs is None:
             uvm_warning("UVM/TR_DB/BAD_LINK",
@@ -250,31 +249,20 @@ class UVMTrDatabase(UVMObject):
             return
 
 
-        if (not sv.cast(s_lhs, lhs, UVMTrStream)) or (not sv.cast(r_lhs, lhs,
-            UVMRecorder)):
+        if not isinstance(lhs, (UVMTrStream, UVMRecorder)):
             uvm_warning("UVM/TR_DB/BAD_LINK",
                 sv.sformatf("left hand side of type '%s' not supported in links for 'UVMTrDatabase'",
                 lhs.get_type_name()))
             return
-        else:
-            s_lhs = s_lhs[0]
-            r_lhs = r_lhs[0]
 
-        if (not sv.cast(s_rhs, rhs, UVMTrStream)) or (not sv.cast(r_rhs, rhs, UVMRecorder)):
+        if not isinstance(rhs, (UVMTrStream, UVMRecorder)):
             uvm_warning("UVM/TR_DB/BAD_LINK",
-                sv.sformatf("right hand side of type '%s' not supported in links for 'uvm_record_datbasae'",
+                sv.sformatf("right hand side of type '%s' not supported in links for 'UVMTrDatabase'",
                 rhs.get_type_name()))
             return
-        else:
-            s_rhs = s_rhs[0]
-            r_rhs = r_rhs[0]
-
-        if r_lhs is not None:
-            s_lhs = r_lhs.get_stream()
-
-        if r_rhs is not None:
-            s_rhs = r_rhs.get_stream()
 
+        s_lhs = lhs.get_stream() if isinstance(lhs, UVMRecorder) else lhs
+        s_rhs = rhs.get_stream() if isinstance(rhs, UVMRecorder) else rhs
 
         if ((s_lhs is not None) and (s_lhs.get_db() != self)):
             db = s_lhs.get_db()
@@ -392,6 +380,7 @@ class UVMTextTrDatabase(UVMTrDatabase):
         if self.m_file != NO_FILE_OPEN:
             #fork // Needed because $fclose is a task
             sv.fclose(self.m_file)
+            self.m_file = NO_FILE_OPEN
             #join_none
             self.m_filename_dap.unlock()
         return 1
@@ -426,17 +415,10 @@ class UVMTextTrDatabase(UVMTrDatabase):
         Args:
             link:
         """
-        cast_r_lhs = []
-        cast_r_rhs = []  # uvm_recorder
-        lhs = link.get_lhs()
-        rhs = link.get_rhs()
-
-        sv.cast(cast_r_lhs, lhs, UVMRecorder)
-        sv.cast(cast_r_rhs, rhs, UVMRecorder)
-        r_lhs = cast_r_lhs[0]
-        r_rhs = cast_r_rhs[0]
+        r_lhs = link.get_lhs()
+        r_rhs = link.get_rhs()
 
-        if (r_lhs is None or r_rhs is None):
+        if not isinstance(r_lhs, UVMRecorder) or not isinstance(r_rhs, UVMRecorder):
             return
         else:
             pc_link = []  # uvm_parent_child_link
diff --git a/src/uvm/base/uvm_tr_stream.py b/src/uvm/base/uvm_tr_stream.py
index 938f7f3..8d720ab 100644
--- a/src/uvm/base/uvm_tr_stream.py
+++ b/src/uvm/base/uvm_tr_stream.py
@@ -104,7 +104,9 @@ class UVMTrStream(UVMObject):
         #   // Variable- m_records
         #   // Active records in the stream (active == open or closed)
         self.m_records = {}  # bit [uvm_recorder]
-        self.m_warn_null_cfg = 0
+        self.m_warn_null_cfg = 1
+        self.m_is_opened = False
+        self.m_is_closed = False
 
 
     #   // Variable- m_ids_by_stream
@@ -142,43 +144,42 @@ class UVMTrStream(UVMObject):
         return m_cfg[0].db
 
 
-    #   // Function: get_scope
-    #   // Returns the ~scope~ supplied when opening this stream.
-    #   //
-    #   // A warning will be asserted if get_scope is called prior to
-    #   // the stream being initialized via <do_open>.
-    #   function string get_scope()
-    #      m_uvm_tr_stream_cfg m_cfg
-    #      if (!m_cfg_dap.try_get(m_cfg)) begin
-    #         if (m_warn_null_cfg == 1)
-    #           `uvm_warning("UVM/REC_STR/NO_CFG",
-    #                        $sformatf("attempt to retrieve scope from '%s' before it was set!",
-    #                                  get_name()))
-    #         m_warn_null_cfg = 0
-    #         return ""
-    #      end
-    #      return m_cfg.scope
-    #   endfunction : get_scope
-    #
-    #   // Function: get_stream_type_name
-    #   // Returns a reference to the database which contains this
-    #   // stream.
-    #   //
-    #   // A warning will be asserted if get_stream_type_name is called prior to
-    #   // the stream being initialized via <do_open>.
-    #   function string get_stream_type_name()
-    #      m_uvm_tr_stream_cfg m_cfg
-    #      if (!m_cfg_dap.try_get(m_cfg)) begin
-    #         if (m_warn_null_cfg == 1)
-    #           `uvm_warning("UVM/REC_STR/NO_CFG",
-    #                        $sformatf("attempt to retrieve STREAM_TYPE_NAME from '%s' before it was set!",
-    #                                  get_name()))
-    #         m_warn_null_cfg = 0
-    #         return ""
-    #      end
-    #      return m_cfg.stream_type_name
-    #   endfunction : get_stream_type_name
-    #
+    def get_scope(self):
+        """
+           Function: get_scope
+           Returns the `scope` supplied when opening this stream.
+
+           A warning will be asserted if get_scope is called prior to
+           the stream being initialized via <do_open>.
+        """
+        m_cfg = []
+        if not self.m_cfg_dap.try_get(m_cfg):
+            if self.m_warn_null_cfg == 1:
+                uvm_warning("UVM/REC_STR/NO_CFG",
+                    sv.sformatf("attempt to retrieve scope from '%s' before it was set!",
+                        self.get_name()))
+            self.m_warn_null_cfg = 0
+            return ""
+        return m_cfg[0].scope
+
+    def get_stream_type_name(self):
+        """
+           Function: get_stream_type_name
+           Returns the type name supplied when opening this stream.
+
+           A warning will be asserted if get_stream_type_name is called prior to
+           the stream being initialized via <do_open>.
+        """
+        m_cfg = []
+        if not self.m_cfg_dap.try_get(m_cfg):
+            if self.m_warn_null_cfg == 1:
+                uvm_warning("UVM/REC_STR/NO_CFG",
+                    sv.sformatf("attempt to retrieve STREAM_TYPE_NAME from '%s' before it was set!",
+                        self.get_name()))
+            self.m_warn_null_cfg = 0
+            return ""
+        return m_cfg[0].stream_type_name
+
     #   // Group: Stream API
     #   //
     #   // Once a stream has been opened via <uvm_tr_database::open_stream>, the user
@@ -192,70 +193,63 @@ class UVMTrStream(UVMObject):
     #   //
     #
 
-    #   // Function: close
-    #   // Closes this stream.
-    #   //
-    #   // Closing a stream closes all open recorders in the stream.
-    #   //
-    #   // This method will trigger a <do_close> call, followed by
-    #   // <uvm_recorder::close> on all open recorders within the
-    #   // stream.
-    #   function void close()
-    #      if (!is_open())
-    #        return
-    #
-    #      do_close()
-    #
-    #      foreach (m_records[idx])
-    #        if (idx.is_open())
-    #          idx.close()
-    #
-    #      m_is_opened = 0
-    #      m_is_closed = 1
-    #   endfunction : close
-    #
+    def close(self):
+        """
+           Function: close
+           Closes this stream.
 
-    #   // Function: free
-    #   // Frees this stream.
-    #   //
-    #   // Freeing a stream indicates that the database can free any
-    #   // references to the stream (including references to records
-    #   // within the stream).
-    #   //
-    #   // This method will trigger a <do_free> call, followed by
-    #   // <uvm_recorder::free> on all recorders within the stream.
-    #   function void free()
-    #	   process p
-    #	   string s
-    #      uvm_tr_database db
-    #      if (!is_open() && !is_closed())
-    #        return
-    #
-    #      if (is_open())
-    #        close()
-    #
-    #      do_free()
-    #
-    #      foreach (m_records[idx])
-    #        idx.free()
-    #
-    #      // Clear out internal state
-    #      db = get_db()
-    #      m_is_closed = 0
-    #      p = process::self()
-    #      if(p != None)
-    #      	s = p.get_randstate()
-    #      m_cfg_dap = new("cfg_dap")
-    #      if(p != None)
-    #      	p.set_randstate(s)
-    #      m_warn_null_cfg = 1
-    #      if (m_ids_by_stream.exists(this))
-    #        m_free_id(m_ids_by_stream[this])
-    #
-    #      // Clear out DB state
-    #      if (db != None)
-    #        db.m_free_stream(this)
-    #   endfunction : free
+           Closing a stream closes all open recorders in the stream.
+
+           This method will trigger a <do_close> call, followed by
+           <uvm_recorder::close> on all open recorders within the
+           stream.
+        """
+        if not self.is_open():
+            return
+
+        self.do_close()
+
+        for rec in list(self.m_records):
+            if rec.is_open():
+                rec.close()
+
+        self.m_is_opened = False
+        self.m_is_closed = True
+
+    def free(self):
+        """
+           Function: free
+           Frees this stream.
+
+           Freeing a stream indicates that the database can free any
+           references to the stream (including references to records
+           within the stream).
+
+           This method will trigger a <do_free> call, followed by
+           <uvm_recorder::free> on all recorders within the stream.
+        """
+        if not self.is_open() and not self.is_closed():
+            return
+
+        if self.is_open():
+            self.close()
+
+        self.do_free()
+
+        for rec in list(self.m_records):
+            rec.free()
+
+        # Clear out internal state
+        db = self.get_db()
+        self.m_is_closed = False
+        self.m_cfg_dap = uvm_set_before_get_dap("cfg_dap")
+        self.m_warn_null_cfg = 1
+        if self in UVMTrStream.m_ids_by_stream:
+            UVMTrStream.m_free_id(UVMTrStream.m_ids_by_stream[self])
+
+        # Clear out DB state
+        if db is not None:
+            db.m_free_stream(self)
 
     def m_do_open(self, db, scope="", stream_type_name=""):
         """
@@ -395,31 +389,19 @@ class UVMTrStream(UVMObject):
         if recorder in self.m_records:
             del self.m_records[recorder]
 
-    #
-    #   // Function: get_recorders
-    #   // Provides a queue of all transactions within the stream.
-    #   //
-    #   // Parameters:
-    #   // q - A reference to the queue of <uvm_recorder>s
-    #   //
-    #   // The <get_recorders> method returns the size of the queue,
-    #   // such that the user can conditionally process the elements.
-    #   //
-    #   // | uvm_recorder tr_q[$]
-    #   // | if (my_stream.get_recorders(tr_q)) begin
-    #   // |   // Process the queue...
-    #   // | end
-    #   //
-    #   function unsigned get_recorders(ref uvm_recorder q[$])
-    #      // Clear out the queue first...
-    #      q.delete()
-    #      // Fill in the values
-    #      foreach (m_records[idx])
-    #        q.push_back(idx)
-    #      // Finally return the size of the queue
-    #      return q.size()
-    #   endfunction : get_recorders
-    #
+    def get_recorders(self, q):
+        """
+           Function: get_recorders
+           Provides a queue of all transactions within the stream.
+
+           Args:
+             q (list): Filled with the recorders of the stream.
+           Returns:
+             int: Number of recorders.
+        """
+        q.clear()
+        q.extend(self.m_records)
+        return len(q)
 
     #   // Group: Handles
     #
@@ -443,7 +425,7 @@ class UVMTrStream(UVMObject):
         m_streams_by_id = UVMTrStream.m_streams_by_id
         m_ids_by_stream = UVMTrStream.m_ids_by_stream
 
-        if self.is_open() is False and self.is_closed() is False:
+        if not self.is_open() and not self.is_closed():
             return 0
         else:
             handle = self.get_inst_id()
@@ -471,38 +453,30 @@ class UVMTrStream(UVMObject):
     #   endfunction : m_get_handle
     #
 
-    #   // Function: get_stream_from_handle
-    #   // Static accessor, returns a stream reference for a given unique id.
-    #   //
-    #   // If no stream exists with the given ~id~, or if the
-    #   // stream with that ~id~ has been freed, then ~None~ is
-    #   // returned.
-    #   //
-    #   static function UVMTrStream get_stream_from_handle(integer id)
-    #      if (id == 0)
-    #        return None
-    #
-    #      if ($isunknown(id) || !m_streams_by_id.exists(id))
-    #        return None
-    #
-    #      return m_streams_by_id[id]
-    #   endfunction : get_stream_from_handle
-    #
+    @classmethod
+    def get_stream_from_handle(cls, id):
+        """
+           Function: get_stream_from_handle
+           Static accessor, returns a stream reference for a given unique id.
+
+           If no stream exists with the given `id`, or if the
+           stream with that `id` has been freed, then `None` is
+           returned.
+        """
+        if id == 0 or sv.isunknown(id):
+            return None
+        return UVMTrStream.m_streams_by_id.get(id)
+
+    @classmethod
+    def m_free_id(cls, id):
+        """
+           Function- m_free_id
+           Frees the id/stream link (memory cleanup)
+        """
+        stream = UVMTrStream.m_streams_by_id.pop(id, None)
+        if stream is not None:
+            del UVMTrStream.m_ids_by_stream[stream]
 
-    #   // Function- m_free_id
-    #   // Frees the id/stream link (memory cleanup)
-    #   //
-    #   static function void m_free_id(integer id)
-    #      UVMTrStream stream
-    #      if (!$isunknown(id) && m_streams_by_id.exists(id))
-    #        stream = m_streams_by_id[id]
-    #
-    #      if (stream != None) begin
-    #         m_streams_by_id.delete(id)
-    #         m_ids_by_stream.delete(stream)
-    #      end
-    #   endfunction : m_free_id
-    #
     #   // Group: Implementation Agnostic API
     #   //
     #
@@ -524,25 +498,25 @@ class UVMTrStream(UVMObject):
     #   endfunction : do_open
 
     #
-    #   // Function: do_close
-    #   // Callback triggered via <close>.
-    #   //
-    #   // The ~do_close~ callback can be used to set internal state
-    #   // within the stream, as well as providing a location to
-    #   // record any closing information.
-    #   protected virtual function void do_close()
-    #   endfunction : do_close
-    #
+    def do_close(self):
+        """
+           Function: do_close
+           Callback triggered via <close>.
 
-    #   // Function: do_free
-    #   // Callback triggered via <free>.
-    #   //
-    #   // The ~do_free~ callback can be used to release the internal
-    #   // state within the stream, as well as providing a location
-    #   // to record any "freeing" information.
-    #   protected virtual function void do_free()
-    #   endfunction : do_free
-    #
+           The `do_close` callback can be used to set internal state
+           within the stream, as well as providing a location to
+           record any closing information.
+        """
+
+    def do_free(self):
+        """
+           Function: do_free
+           Callback triggered via <free>.
+
+           The `do_free` callback can be used to release the internal
+           state within the stream, as well as providing a location
+           to record any "freeing" information.
+        """
 
     #   // Function: do_open_recorder
     #   // Marks the beginning of a new record in the stream.
@@ -602,36 +576,30 @@ class UVMTextTrStream(UVMTrStream):
                       scope,
                       self.get_handle())
 
-    #   // Function: do_close
-    #   // Callback triggered via <UVMTrStream::close>.
-    #   protected virtual function void do_close()
-    #      if (m_text_db.open_db())
-    #        $fdisplay(m_text_db.m_file,
-    #                  "  CLOSE_STREAM @%0t {NAME:%s T:%s SCOPE:%s STREAM:%0d}",
-    #                  $time,
-    #                  this.get_name(),
-    #                  this.get_stream_type_name(),
-    #                  this.get_scope(),
-    #                  this.get_handle())
-    #   endfunction : do_close
-    #
+    def do_close(self):
+        """
+           Function: do_close
+           Callback triggered via <UVMTrStream::close>.
+        """
+        self.m_write_change("CLOSE_STREAM")
 
-    #   // Function: do_free
-    #   // Callback triggered via <UVMTrStream::free>.
-    #   //
-    #   protected virtual function void do_free()
-    #      if (m_text_db.open_db())
-    #        $fdisplay(m_text_db.m_file,
-    #                  "  FREE_STREAM @%0t {NAME:%s T:%s SCOPE:%s STREAM:%0d}",
-    #                  $time,
-    #                  this.get_name(),
-    #                  this.get_stream_type_name(),
-    #                  this.get_scope(),
-    #                  this.get_handle())
-    #      m_text_db = None
-    #      return
-    #   endfunction : do_free
-    #
+    def do_free(self):
+        """
+           Function: do_free
+           Callback triggered via <UVMTrStream::free>.
+        """
+        self.m_write_change("FREE_STREAM")
+
+    def m_write_change(self, what):
+        if self.m_text_db.open_db():
+            sv.fdisplay(self.m_text_db.m_file,
+                      "  %s @%0t {{NAME:%s T:%s SCOPE:%s STREAM:%0d}}",
+                      what,
+                      uvm_sim_time(),
+                      self.get_name(),
+                      self.get_stream_type_name(),
+                      self.get_scope(),
+                      self.get_handle())
 
     def do_open_recorder(self, name, open_time, type_name):
         """
diff --git a/src/uvm/base/uvm_transaction.py b/src/uvm/base/uvm_transaction.py
index 55d6c20..91dde53 100644
--- a/src/uvm/base/uvm_transaction.py
+++ b/src/uvm/base/uvm_transaction.py
@@ -22,6 +22,7 @@
 #-----------------------------------------------------------------------------
 
 from .sv import sv
+from .uvm_links import UVMParentChildLink
 from .uvm_recorder import UVMRecorder
 from .uvm_object import UVMObject
 from .uvm_pool import UVMEventPool
@@ -559,10 +560,8 @@ class UVMTransaction(UVMObject):
                         "Begin_End, Link")
 
                 if (self.tr_recorder is not None):
-                    pass
-                    #link = uvm_parent_child_link::get_link(parent_recorder, self.tr_recorder)
-                    # TODO
-                    #db.establish_link(link)
+                    db.establish_link(UVMParentChildLink.get_link(parent_recorder,
+                        self.tr_recorder))
 
             if (self.tr_recorder is not None):
                 m_begin_tr = self.tr_recorder.get_handle()
diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 64e60be..3e086b6 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -350,11 +350,10 @@ def uvm_field_utils_start(T):
             for v in vals:
                 mask_v = masks[v]
                 if not(mask_v & UVM_NORECORD):
-                    print("Recording now attr " + v)
                     val = getattr(self, v)
                     if isinstance(val, int):
-                        T_cont.recorder.record_field(v, val, 32)
-                    elif isinstance(val, UVMObject):
+                        T_cont.recorder.record_field(v, val, 32, mask_v & UVM_RADIX)
+                    elif val is None or isinstance(val, UVMObject):
                         T_cont.recorder.record_object(v, val)
                     elif isinstance(val, str):
                         T_cont.recorder.record_string(v, val)
-- 
2.43.0


From d1a6a884a4098a6b8223831d80001ef5bb129889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:31 +0000
Subject: [PATCH 67/76] fix: command line verbosity, severity, action and
 default settings take effect, only where their patterns match, and bad ones
 are reported

---
 src/uvm/base/uvm_cmdline_processor.py |  4 +-
 src/uvm/base/uvm_component.py         | 74 ++++++++++-----------------
 src/uvm/base/uvm_globals.py           | 33 ++++++------
 src/uvm/base/uvm_report_server.py     |  2 +-
 src/uvm/base/uvm_root.py              | 44 +++++++++++++---
 5 files changed, 84 insertions(+), 73 deletions(-)

diff --git a/src/uvm/base/uvm_cmdline_processor.py b/src/uvm/base/uvm_cmdline_processor.py
index b4b064d..6daf08c 100644
--- a/src/uvm/base/uvm_cmdline_processor.py
+++ b/src/uvm/base/uvm_cmdline_processor.py
@@ -255,7 +255,7 @@ def uvm_dpi_regcomp(match):
 
 
 def uvm_dpi_regexec(exp_h, elem):
-    if exp_h.match(elem) is not None:
+    if exp_h.search(elem) is not None:
         return 0
     return 1
 
@@ -526,7 +526,7 @@ class UVMCmdlineProcessor(UVMReportObject):
                 continue
             self.m_argv.append(arg)
             if arg[0] == "+":
-                self.m_plus_argv.append(arg[0])
+                self.m_plus_argv.append(arg)
                 uvm_debug(self, '__init__', "Simple UVM plusarg %s" % (arg))
             sub = arg[1:4]
             sub = sub.upper()
diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index e59167d..0e0fab2 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2360,11 +2360,7 @@ class UVMComponent(UVMReportObject):
             uvm_split_string(values[i], ",", args)
 
             # Warning is already issued in uvm_root, so just don't keep it
-            len_match = len(args) not in [4, 5]
-            setting.verbosity = clp.m_convert_verb(args[2])
-            if UVMComponent.first_m_set_cl_verb and (len_match or setting.verbosity == -1):
-                del values[i]
-            else:
+            if len(args) in [4, 5] and clp.m_convert_verb(args[2]) != -1:
                 setting.comp = args[0]
                 setting.id = args[1]
                 setting.verbosity = clp.m_convert_verb(args[2])
@@ -2379,10 +2375,7 @@ class UVMComponent(UVMReportObject):
                     if((setting.phase == "" or setting.phase == "build" or
                             setting.phase == "time") and setting.offset == 0):
 
-                        if setting.id == "_ALL_":
-                            self.set_report_verbosity_level(setting.verbosity)
-                        else:
-                            self.set_report_id_verbosity(setting.id, setting.verbosity)
+                        self.m_set_cl_verbosity(setting)
                     else:
                         if setting.phase != "time":
                             self.m_verbosity_settings.append(setting)
@@ -2398,24 +2391,23 @@ class UVMComponent(UVMReportObject):
         last_time = 0
         if len(m_time_settings) > 0:
             m_time_settings.sort(key=lambda item: item.offset)
-        for i in range(len(m_time_settings)):
+        for setting in m_time_settings:
+            duration = setting.offset - last_time
+            last_time = setting.offset
+            if duration > 0:
+                await Timer(duration, sv.default_time_unit)
             comps = []
-            top.find_all(m_time_settings[i].comp, comps)
-            duration = m_time_settings[i].offset - last_time
-            last_time = m_time_settings[i].offset
-            cocotb.start_soon(self.m_set_comp_settings(i, comps.copy(), duration))
+            top.find_all(setting.comp, comps)
+            for comp in comps:
+                comp.m_set_cl_verbosity(setting)
         #end join_none // fork begin
 
 
-    async def m_set_comp_settings(self, i, comps, dur):
-        m_time_settings = UVMComponent.m_time_settings
-        await Timer(dur)
-        if m_time_settings[i].id == "_ALL_":
-            for comp in comps:
-                comp.set_report_verbosity_level(m_time_settings[i].verbosity)
+    def m_set_cl_verbosity(self, setting):
+        if setting.id == "_ALL_":
+            self.set_report_verbosity_level(setting.verbosity)
         else:
-            for comp in comps:
-                comp.set_report_id_verbosity(m_time_settings[i].id, m_time_settings[i].verbosity)
+            self.set_report_id_verbosity(setting.id, setting.verbosity)
 
 
     initialized_m_set_cl_action = 0
@@ -2439,12 +2431,13 @@ class UVMComponent(UVMReportObject):
 
                 if len(args) != 4:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN1, len(args), values[idx]))
+                    continue
 
-                if((args[2] != "_ALL_") and not uvm_string_to_severity(args[2], sev)):
+                if args[2] != "_ALL_" and uvm_string_to_severity(args[2], sev) == -1:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN2, args[2], values[idx]))
                     continue
 
-                if not uvm_string_to_action(args[3], action):
+                if uvm_string_to_action(args[3], action) == -1:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN3, args[3], values[idx]))
                     continue
                 t.args = args
@@ -2500,7 +2493,7 @@ class UVMComponent(UVMReportObject):
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN4, len(args), values[idx]))
                     continue
 
-                if args[2] != "_ALL_" and not uvm_string_to_severity(args[2], orig_sev):
+                if args[2] != "_ALL_" and uvm_string_to_severity(args[2], orig_sev) == -1:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN5, args[2], values[idx]))
                     continue
 
@@ -2567,29 +2560,18 @@ class UVMComponent(UVMReportObject):
         Args:
             phase:
         """
-        pass
-        for i in self.m_verbosity_settings:
-            if phase.get_name() == self.m_verbosity_settings[i].phase:
-                if self.m_verbosity_settings[i].offset == 0:
-                    if self.m_verbosity_settings[i].id == "_ALL_":
-                        self.set_report_verbosity_level(self.m_verbosity_settings[i].verbosity)
-                    else:
-                        self.set_report_id_verbosity(self.m_verbosity_settings[i].id,
-                                self.m_verbosity_settings[i].verbosity)
+        for setting in list(self.m_verbosity_settings):
+            if phase.get_name() == setting.phase:
+                if setting.offset == 0:
+                    self.m_set_cl_verbosity(setting)
                 else:
-                    #process p = process::self()
-                    #string p_rand = p.get_randstate()
-                    #fork begin
-                    setting = self.m_verbosity_settings[i]
-                    #setting.offset
-                    if setting.id == "_ALL_":
-                        self.set_report_verbosity_level(setting.verbosity)
-                    else:
-                        self.set_report_id_verbosity(setting.id, setting.verbosity)
-                    #end join_none
-                    #p.set_randstate(p_rand)
+                    cocotb.start_soon(self.m_set_cl_verbosity_later(setting))
                 # Remove after use
-                del self.m_verbosity_settings[i]
+                self.m_verbosity_settings.remove(setting)
+
+    async def m_set_cl_verbosity_later(self, setting):
+        await Timer(setting.offset, sv.default_time_unit)
+        self.m_set_cl_verbosity(setting)
 
     def kill(self):
         """
diff --git a/src/uvm/base/uvm_globals.py b/src/uvm/base/uvm_globals.py
index f42d299..b477181 100644
--- a/src/uvm/base/uvm_globals.py
+++ b/src/uvm/base/uvm_globals.py
@@ -210,26 +210,25 @@ def uvm_string_to_severity(sev_str, sev):
     return -1
 
 
+UVM_ACTIONS_BY_NAME = {
+    "UVM_NO_ACTION": UVM_NO_ACTION,
+    "UVM_DISPLAY": UVM_DISPLAY,
+    "UVM_LOG": UVM_LOG,
+    "UVM_COUNT": UVM_COUNT,
+    "UVM_EXIT": UVM_EXIT,
+    "UVM_CALL_HOOK": UVM_CALL_HOOK,
+    "UVM_STOP": UVM_STOP,
+    "UVM_RM_RECORD": UVM_RM_RECORD,
+}
+
+
 def uvm_string_to_action(action_str, action):
     actions = action_str.split('|')  # uvm_split_string(action_str,"|",actions)
     action = 0x0
-    for i in range(len(actions)):
-        if actions[i] == "UVM_NO_ACTION":
-            action |= UVM_NO_ACTION
-        if actions[i] == "UVM_DISPLAY":
-            action |= UVM_DISPLAY
-        if actions[i] == "UVM_LOG":
-            action |= UVM_LOG
-        if actions[i] == "UVM_COUNT":
-            action |= UVM_COUNT
-        if actions[i] == "UVM_EXIT":
-            action |= UVM_EXIT
-        if actions[i] == "UVM_CALL_HOOK":
-            action |= UVM_CALL_HOOK
-        if actions[i] == "UVM_STOP":
-            action |= UVM_STOP
-        if actions[i] == "UVM_RM_RECORD":
-            action |= UVM_RM_RECORD
+    for name in actions:
+        if name not in UVM_ACTIONS_BY_NAME:
+            return -1
+        action |= UVM_ACTIONS_BY_NAME[name]
     return action
 
 """
diff --git a/src/uvm/base/uvm_report_server.py b/src/uvm/base/uvm_report_server.py
index c78cd98..681c997 100644
--- a/src/uvm/base/uvm_report_server.py
+++ b/src/uvm/base/uvm_report_server.py
@@ -191,7 +191,7 @@ class UVMReportServer(UVMObject):
     # before a UVM_EXIT action is taken. The default is 0, which specifies
     # no maximum.
     def set_max_quit_count(self, count, overridable=True):
-        if self.max_quit_overridable is False:
+        if not self.max_quit_overridable:
             uvm_report_info("NOMAXQUITOVR",
                 "The max quit count setting of {} is not overridable to {} due to a previous setting."
                 .format(self.m_max_quit_count, count), UVM_NONE)
diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 4470971..53b3c59 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -524,19 +524,19 @@ class UVMRoot(UVMComponent):
         extern local function void m_do_verbosity_settings()
         """
         set_verbosity_settings = []
-        split_vals = []
 
         # Retrieve them all into set_verbosity_settings
         self.clp.get_arg_values("+uvm_set_verbosity=", set_verbosity_settings)
 
         for i in range(len(set_verbosity_settings)):
+            split_vals = []
             uvm_split_string(set_verbosity_settings[i], ",", split_vals)
             if len(split_vals) < 4 or len(split_vals) > 5:
                 self.uvm_report_warning("INVLCMDARGS",
                   sv.sformatf(MSG_INVLCMDARGS, set_verbosity_settings[i]), UVM_NONE, "", "")
 
             # Invalid verbosity
-            if self.clp.m_convert_verb(split_vals[2]) == -1:
+            if len(split_vals) > 2 and self.clp.m_convert_verb(split_vals[2]) == -1:
                 self.uvm_report_warning("INVLCMDVERB",
                   sv.sformatf("Invalid verbosity found on the command line for setting '%s'.",
                   set_verbosity_settings[i]), UVM_NONE, "", "")
@@ -571,9 +571,8 @@ class UVMRoot(UVMComponent):
                 sv.sformatf("'+UVM_TIMEOUT=%s' provided on the command line is being applied.",
                     timeout), UVM_NONE)
 
-            matches = sv.sscanf(timeout,"%d,%s", timeout_int, override_spec)
-            if len(matches) == 2:
-                override_spec, timeout_int = matches
+            timeout_spec, _, override_spec = timeout.partition(",")
+            timeout_int = int(timeout_spec)
             if override_spec == "YES":
                 self.set_timeout(timeout_int, 1)
             elif override_spec == "NO":
@@ -630,7 +629,33 @@ class UVMRoot(UVMComponent):
         Args:
             ovr:
         """
-        pass  # TODO
+        from .uvm_coreservice import UVMCoreService
+        split_val = []
+        replace = True
+        factory = UVMCoreService.get().get_factory()
+
+        uvm_split_string(ovr, ",", split_val)
+
+        if len(split_val) > 3 or len(split_val) < 2:
+            self.uvm_report_error("UVM_CMDLINE_PROC", "Invalid setting for +uvm_set_type_override="
+                + ovr
+                + ", setting must specify <requested_type>,<override_type>[,<replace>]", UVM_NONE)
+            return
+
+        # Replace arg is optional. If set, must be 0 or 1
+        if len(split_val) == 3:
+            if split_val[2] == "0":
+                replace = False
+            elif split_val[2] != "1":
+                self.uvm_report_error("UVM_CMDLINE_PROC",
+                    "Invalid replace arg for +uvm_set_type_override=" + ovr
+                    + " value must be 0 or 1", UVM_NONE)
+                return
+
+        uvm_info("UVM_CMDLINE_PROC",
+            "Applying type override from the command line: +uvm_set_type_override=" + ovr,
+            UVM_NONE)
+        factory.set_type_override_by_name(split_val[0], split_val[1], replace)
 
 
     def m_do_config_settings(self):
@@ -689,6 +714,8 @@ class UVMRoot(UVMComponent):
                     srvr.set_max_quit_count(max_quit_int, 1)
                 elif split_max_quit[1] == "NO":
                     srvr.set_max_quit_count(max_quit_int, 0)
+                else:
+                    srvr.set_max_quit_count(max_quit_int, 1)
             else:
                 srvr.set_max_quit_count(max_quit_int, 1)
 
@@ -832,7 +859,10 @@ class UVMRoot(UVMComponent):
             elif verb_string == "DEBUG":
                 verbosity = UVM_DEBUG
             else:
-                verbosity = int(verb_string)
+                try:
+                    verbosity = int(verb_string)
+                except ValueError:
+                    verbosity = 0
                 if verbosity > 0:
                     self.uvm_report_info("NSTVERB",
                             sv.sformatf(NON_STD_VERB, verbosity), UVM_NONE)
-- 
2.43.0


From a47e051852379ffc6f64ddc625654824fba13d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:50 +0000
Subject: [PATCH 68/76] fix: writing an equal but different object to a
 resource keeps the one written

---
 src/uvm/base/uvm_resource.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index 150b48b..5937bd7 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -813,8 +813,9 @@ class UVMResource(UVMResourceBase):
             return
 
         # Set the modified bit and record the transaction only if the value
-        # has actually changed.
-        if self.val == t:
+        # has actually changed. Objects that are equal are still not the same.
+        if self.val is t or (type(self.val) is type(t) and
+                isinstance(t, (int, float, str)) and self.val == t):
             return
 
         self.record_write_access(accessor)
-- 
2.43.0


From d49f6b69b6a69c279c53f3337a5c8cab81188eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:19 +0000
Subject: [PATCH 69/76] fix: hardware reset test of maps with submaps, access
 test of error status, walk test exclusions

---
 src/uvm/reg/sequences/uvm_mem_walk_seq.py     |  4 ++--
 src/uvm/reg/sequences/uvm_reg_access_seq.py   |  8 ++++----
 src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py | 17 ++++++-----------
 3 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_walk_seq.py b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
index a4d6bc3..68c11f2 100644
--- a/src/uvm/reg/sequences/uvm_mem_walk_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
@@ -140,7 +140,7 @@ class UVMMemSingleWalkSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemWalkSeq", sv.sformatf(
                         "Status was %s when writing \"%s[%0d]\" through map \"%s\".",
-                        status.name(), mem.get_full_name(), k, maps[j].get_full_name()))
+                        UVM_STATUS_NAMES[status], mem.get_full_name(), k, maps[j].get_full_name()))
 
                 if k > 0:
                     status = []
@@ -258,7 +258,7 @@ class UVMMemWalkSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
             UVMResourceDb.get_by_name("REG::" + blk.get_full_name(),
                 "NO_MEM_TESTS", 0) is not None or
             UVMResourceDb.get_by_name("REG::" + blk.get_full_name(),
-                "NO_MEM_ACCESS_TEST", 0) is not None):
+                "NO_MEM_WALK_TEST", 0) is not None):
             return
 
         # Iterate over all memories, checking accesses
diff --git a/src/uvm/reg/sequences/uvm_reg_access_seq.py b/src/uvm/reg/sequences/uvm_reg_access_seq.py
index e85aa77..f990b83 100644
--- a/src/uvm/reg/sequences/uvm_reg_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_reg_access_seq.py
@@ -139,7 +139,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             status = status[0]
 
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + uvm_status_e(status)
                    + "' when writing '" + rg.get_full_name()
                    + "' through map '" + maps[j].get_full_name() + "'"))
             await Timer(1, "NS")  # tpoikela: Original UVM has #1
@@ -148,7 +148,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             await rg.mirror(status, UVM_CHECK, UVM_BACKDOOR, UVMRegMap.backdoor(), self)
             status = status[0]
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + uvm_status_e(status)
                                     + "' when reading reset value of register '"
                                     + rg.get_full_name() +  "' through backdoor"))
 
@@ -156,7 +156,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             await rg.write(status, v, UVM_BACKDOOR, maps[j], self)
             status = status[0]
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + uvm_status_e(status)
                    + "' when writing '" + rg.get_full_name()
                    + "' through backdoor"))
 
@@ -164,7 +164,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             await rg.mirror(status, UVM_CHECK, UVM_FRONTDOOR, maps[j], self)
             status = status[0]
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + uvm_status_e(status)
                    + "' when reading reset value of register '"
                    + rg.get_full_name() + "' through map '"
                    + maps[j].get_full_name() + "'"))
diff --git a/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py b/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py
index 35e237c..7d0ea29 100644
--- a/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py
+++ b/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py
@@ -29,7 +29,7 @@ from ...base.uvm_resource_db import UVMResourceDb
 from ...base.sv import sv
 from ...base import UVM_LOW, UVM_HIGH
 from ...base.uvm_globals import uvm_zero_delay
-from ..uvm_reg_model import UVM_CHECK, UVM_FRONTDOOR, UVM_IS_OK, uvm_status_e
+from ..uvm_reg_model import UVM_CHECK, UVM_FRONTDOOR, UVM_IS_OK, UVM_NO_HIER, uvm_status_e
 
 
 class UVMRegHWResetSeq(UVMRegSequence):
@@ -97,7 +97,6 @@ class UVMRegHWResetSeq(UVMRegSequence):
     
     async def do_block(self, blk):
         maps = []  # uvm_reg_map maps[$]
-        sub_maps = []  # uvm_reg_map sub_maps[$]
         no_rr1 = UVMResourceDb.get_by_name("REG::" + blk.get_full_name(), "NO_REG_TESTS", 0)
         no_rr2 = UVMResourceDb.get_by_name("REG::" + blk.get_full_name(), "NO_REG_HW_RESET_TEST", 0)
 
@@ -109,16 +108,12 @@ class UVMRegHWResetSeq(UVMRegSequence):
         # Iterate over all maps defined for the RegModel block
         for d in range(len(maps)):
             regs = []  # uvm_reg[]
-            maps[d].get_submaps(sub_maps)
-            if len(sub_maps) != 0:
-                continue
-
             # Iterate over all registers in the map, checking accesses
             # Note: if map were in inner loop, could test simulataneous
             # access to same reg via different bus interfaces
 
             regs = []
-            maps[d].get_registers(regs)
+            maps[d].get_registers(regs, UVM_NO_HIER)
 
             for i in range(len(regs)):
                 status = 0
@@ -143,10 +138,10 @@ class UVMRegHWResetSeq(UVMRegSequence):
                           sv.sformatf("Status was %s when reading reset value of register \"%s\" through map \"%s\".",
                           uvm_status_e(status), regs[i].get_full_name(), maps[d].get_full_name()))
 
-            blks = []  # uvm_reg_block blks[$]
-            blk.get_blocks(blks)
-            for i in range(len(blks)):
-                await self.do_block(blks[i])
+        blks = []  # uvm_reg_block blks[$]
+        blk.get_blocks(blks)
+        for i in range(len(blks)):
+            await self.do_block(blks[i])
 
         #   endtask:do_block
 
-- 
2.43.0


From a04c884aa51a89ee58e69d0a9f2dd634167078d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:32 +0000
Subject: [PATCH 70/76] fix: backdoor access by HDL path reads every slice, and
 fails for objects that do not exist

---
 src/uvm/dpi/uvm_hdl.py | 44 ++++++++++++++++++++++++------------------
 src/uvm/reg/uvm_mem.py |  8 +++++++-
 src/uvm/reg/uvm_reg.py |  8 +++++++-
 3 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/src/uvm/dpi/uvm_hdl.py b/src/uvm/dpi/uvm_hdl.py
index 07fecee..949f8a1 100644
--- a/src/uvm/dpi/uvm_hdl.py
+++ b/src/uvm/dpi/uvm_hdl.py
@@ -34,11 +34,7 @@ class uvm_hdl():
     @classmethod
     def uvm_hdl_read(cls, path, value):
         if cls.dut is not None:
-            curr_obj = cls.dut
-            #split = path.split('.')
-            split = cls.split_hdl_path(path)
-            for spl in split:
-                curr_obj = cls.get_next_obj(curr_obj, spl)
+            curr_obj = cls.find_obj(path)
             if curr_obj is not None:
                 value.append(int(curr_obj))
                 return 1
@@ -50,15 +46,7 @@ class uvm_hdl():
     @classmethod
     def uvm_hdl_deposit(cls, path, value):
         if cls.dut is not None:
-            curr_obj = cls.dut
-            #split = path.split('.')
-            split = cls.split_hdl_path(path)
-            for spl in split:
-                curr_obj = cls.get_next_obj(curr_obj, spl)
-                #if hasattr(curr_obj, spl):
-                #    curr_obj = getattr(curr_obj, spl)
-                #else:
-                #    continue
+            curr_obj = cls.find_obj(path)
             if curr_obj is not None:
                 curr_obj.value = value
                 return 1
@@ -67,11 +55,29 @@ class uvm_hdl():
             raise Exception("dut is None. Use uvm_hdl.set_dut(dut) in your @cocotb.test()")
 
 
+    @classmethod
+    def find_obj(cls, path):
+        """
+        Returns the object of the given hierarchical path, or None if there is none.
+        The path may start with names of scopes above the dut (or of the dut itself).
+        """
+        curr_obj = cls.dut
+        for spl in cls.split_hdl_path(path):
+            next_obj = cls.get_next_obj(curr_obj, spl)
+            if next_obj is not None:
+                curr_obj = next_obj
+            elif curr_obj is not cls.dut:
+                return None
+        if curr_obj is cls.dut:
+            return None
+        return curr_obj
+
+
     @classmethod
     def get_next_obj(cls, curr_obj, spl):
         if isinstance(spl, int):
-            #return curr_obj[spl]
-            return curr_obj[spl]
-        elif hasattr(curr_obj, spl):
-            curr_obj = getattr(curr_obj, spl)
-        return curr_obj
+            try:
+                return curr_obj[spl]
+            except (IndexError, TypeError):
+                return None
+        return getattr(curr_obj, spl, None)
diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 1f7d31e..28656d3 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -1489,12 +1489,18 @@ class UVMMem(UVMObject):
                     if hdl_concat.slices[j].offset < 0:
                         arr = []
                         ok &= uvm_hdl.uvm_hdl_read(hdl_path, arr)
+                        if not arr:
+                            return UVM_NOT_OK
                         val = arr[0]
                         continue
 
                     _slice = 0
                     k = hdl_concat.slices[j].offset
-                    ok &= uvm_hdl.uvm_hdl_read(hdl_path, _slice)
+                    arr = []
+                    ok &= uvm_hdl.uvm_hdl_read(hdl_path, arr)
+                    if not arr:
+                        return UVM_NOT_OK
+                    _slice = arr[0]
 
                     # TODO Loops all bits one by one
                     for n in range(hdl_concat.slices[j].size):
diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 1827cec..8581f10 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -2158,13 +2158,19 @@ class UVMReg(UVMObject):
                 if hdl_concat.slices[j].offset < 0:
                     arr = []
                     ok &= uvm_hdl.uvm_hdl_read(hdl_concat.slices[j].path, arr)
+                    if not arr:
+                        return UVM_NOT_OK
                     val = arr[0]
                     continue
 
                 _slice = 0
                 k = hdl_concat.slices[j].offset
 
-                ok &= uvm_hdl.uvm_hdl_read(hdl_concat.slices[j].path, _slice)
+                arr = []
+                ok &= uvm_hdl.uvm_hdl_read(hdl_concat.slices[j].path, arr)
+                if not arr:
+                    return UVM_NOT_OK
+                _slice = arr[0]
 
                 for _ in range(hdl_concat.slices[j].size):
                     bit_val = _slice & 0x1
-- 
2.43.0


From 0e4895c94d65825cb12ccb98abbcd6747fdc51be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:35 +0000
Subject: [PATCH 71/76] fix: randomization draws from the state of each object,
 calls hooks once, forgets inline constraints and leaves fixed fields alone

---
 src/uvm/base/sv.py           | 67 ++++++++++++++++++++++--------------
 src/uvm/reg/uvm_reg_field.py |  1 +
 2 files changed, 43 insertions(+), 25 deletions(-)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index 9a315b7..00865c0 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -393,8 +393,7 @@ class sv_obj(crv.Randomized):
         crv.Randomized.__init__(self)
         self._sv_seed = sv.urandom()
         self._sv_rand_obj = []
-        random.seed(self._sv_seed)
-        self._sv_rand_state = random.getstate()
+        self._sv_rand_state = random.Random(self._sv_seed).getstate()
         self._rand_mode = True
         sv_obj.num_objs += 1
 
@@ -468,19 +467,7 @@ class sv_obj(crv.Randomized):
         if self._rand_mode is False:
             return True
         try:
-            random.setstate(self._sv_rand_state)
-            self.pre_randomize()
-            ok = True
-            if recurse:
-                for entry in self._sv_rand_obj:
-                    obj = entry
-                    if hasattr(self, entry):
-                        obj = getattr(self, entry)
-                    ok = ok and obj.randomize()
-            super().randomize()
-            self.post_randomize()
-            self._sv_rand_state = random.getstate()
-            return True and ok
+            return self._sv_randomize(recurse)
         except Exception as e:
             raise RandomizeError('randomize() failed for ' + str(self) + '\n' +
                     str(e))
@@ -505,20 +492,50 @@ class sv_obj(crv.Randomized):
         if self._rand_mode is False:
             return True
         try:
-            self.pre_randomize()
-            ok = True
-            for entry in self._sv_rand_obj:
-                obj = entry
-                if hasattr(self, entry):
-                    obj = getattr(self, entry)
-                ok = ok and obj.randomize()
-            super().randomize_with(*constr)
-            self.post_randomize()
-            return True and ok
+            return self._sv_randomize(True, *constr)
         except Exception as e:
             raise RandomizeError(
                 'randomize_with() failed for ' + str(self) + '\n' + str(e))
 
+    def _sv_randomize(self, recurse, *constr):
+        # Draws from the random state of this object only, and leaves the
+        # global one alone
+        global_state = random.getstate()
+        random.setstate(self._sv_rand_state)
+        try:
+            self.pre_randomize()
+            ok = True
+            if recurse:
+                for entry in self._sv_rand_obj:
+                    obj = entry
+                    if isinstance(entry, str):
+                        obj = getattr(self, entry)
+                    ok = obj.randomize() and ok
+            # Inline constraints apply to this call only. The hooks are called
+            # here, so the solver must not do it again
+            saved = dict(self.__dict__)
+            constraints = ('_simpleConstraints', '_implConstraints',
+                '_simpleDistributions', '_implDistributions')
+            for name in constraints:
+                setattr(self, name, dict(saved[name]))
+            self.pre_randomize = self.post_randomize = lambda: None
+            try:
+                if constr:
+                    super().randomize_with(*constr)
+                else:
+                    super().randomize()
+            finally:
+                for name in constraints + ('pre_randomize', 'post_randomize'):
+                    if name in saved:
+                        setattr(self, name, saved[name])
+                    else:
+                        delattr(self, name)
+            self.post_randomize()
+            return ok
+        finally:
+            self._sv_rand_state = random.getstate()
+            random.setstate(global_state)
+
 
 class semaphore():
     """
diff --git a/src/uvm/reg/uvm_reg_field.py b/src/uvm/reg/uvm_reg_field.py
index fa0ab28..7f1afed 100644
--- a/src/uvm/reg/uvm_reg_field.py
+++ b/src/uvm/reg/uvm_reg_field.py
@@ -174,6 +174,7 @@ class UVMRegField(UVMObject):
         # i.e. not "RW", "WRC", "WRS", "WO", "W1", "WO1"
         if self.m_access in NO_RAND_SET:
             self.is_rand = False
+            self.rand_mode(False)
         #if not is_rand:
         #    self.value.rand_mode(0)
 
-- 
2.43.0


From bc6ac40318f58cd2a28e7eea4c418ea898f7d795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:42 +0000
Subject: [PATCH 72/76] fix: default sequences start for their phase, and
 agents read the is_active of highest precedence

---
 src/uvm/comps/uvm_agent.py        |  6 ++--
 src/uvm/seq/uvm_sequencer_base.py | 53 +++++++++++--------------------
 2 files changed, 21 insertions(+), 38 deletions(-)

diff --git a/src/uvm/comps/uvm_agent.py b/src/uvm/comps/uvm_agent.py
index 34afc24..45e0c71 100644
--- a/src/uvm/comps/uvm_agent.py
+++ b/src/uvm/comps/uvm_agent.py
@@ -72,10 +72,8 @@ class UVMAgent(UVMComponent):
         rp = UVMResourcePool.get()
         rq = rp.lookup_name(self.get_full_name(), "is_active", None, 0)
         rq = UVMResourcePool.sort_by_precedence(rq)
-        for i in range(len(rq)):
-            rsrc = rq[i]  # uvm_resource_base
-            rap = rsrc
-            self.is_active = rap.read(self)
+        if len(rq) > 0:  # the first one has the highest precedence
+            self.is_active = rq[0].read(self)
 
     type_name = "uvm_agent"
 
diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index 15c9783..05b3fc9 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -29,9 +29,9 @@ from .uvm_sequence_base import UVMSequenceBase
 
 from ..base.sv import sv, process
 from ..base.uvm_component import UVMComponent
+from ..base.uvm_factory import UVMObjectWrapper
 # from ..base.uvm_event import UVMEvent
-from ..base.uvm_resource import UVMResourcePool, UVMResource
-from ..base.uvm_config_db import UVMConfigDb
+from ..base.uvm_resource import UVMResourcePool
 from ..macros.uvm_message_defines import (
     uvm_error, uvm_fatal, uvm_info, uvm_report_fatal, uvm_warning)
 from ..base.uvm_object_globals import (UVM_FINISHED, UVM_FULL, UVM_NONE,
@@ -286,41 +286,26 @@ class UVMSequencerBase(UVMComponent):
             if seq is not None:
                 break
             rsrc = rq[i]  # uvm_resource_base
-            sbr = []  # type: List[UVMResource]
-            owr = []  # type: List[UVMResource]
-
-            # uvm_config_db#(uvm_sequence_base)?
-            # Priority is given to uvm_sequence_base because it is a specific sequence instance
-            # and thus more specific than one that is dynamically created via the
-            # factory and the object wrapper.
-            if (sv.cast(sbr, rsrc, UVMConfigDb) and sbr[0] is not None):
-                seq = sbr[0].read(self)
-                if seq is None:
-                    uvm_info("UVM/SQR/PH/DEF/SB/None", "Default phase sequence for phase '"
-                            + phase.get_name() + "' explicitly disabled", UVM_FULL)
-                    await uvm_zero_delay()
-                    return
-
-            # uvm_config_db#(uvm_object_wrapper)?
-            elif (sv.cast(owr, rsrc, UVMConfigDb) and owr is not None):
-                wrapper = None  # uvm_object_wrapper
-                wrapper = owr[0].read(self)
-                if wrapper is None:
-                    uvm_info("UVM/SQR/PH/DEF/OW/None", "Default phase sequence for phase '"
-                            + phase.get_name() + "' explicitly disabled", UVM_FULL)
-                    await uvm_zero_delay()
-                    return
+            value = rsrc.read(self)
+            if value is None:
+                uvm_info("UVM/SQR/PH/DEF/SB/None", "Default phase sequence for phase '"
+                        + phase.get_name() + "' explicitly disabled", UVM_FULL)
+                await uvm_zero_delay()
+                return
 
-                new_obj = f.create_object_by_type(wrapper, self.get_full_name(),
-                        wrapper.get_type_name())
-                seq_arr = []
-                if not(sv.cast(seq_arr, new_obj, UVMSequence) or seq_arr[0] is None):
+            # A sequence instance, or a type to create one from with the factory
+            if isinstance(value, UVMSequenceBase):
+                seq = value
+            elif isinstance(value, UVMObjectWrapper):
+                new_obj = f.create_object_by_type(value, self.get_full_name(),
+                        value.get_type_name())
+                if not isinstance(new_obj, UVMSequenceBase):
                     uvm_warning("PHASESEQ", "Default sequence for phase '" +
-                            phase.get_name() + "' %s is not a sequence type")
+                            phase.get_name() + "' " + value.get_type_name()
+                            + " is not a sequence type")
                     await uvm_zero_delay()
                     return
-                else:
-                    seq = seq_arr[0]
+                seq = new_obj
 
         if seq is None:
             uvm_info("PHASESEQ", "No default phase sequence for phase '"
@@ -336,7 +321,7 @@ class UVMSequencerBase(UVMComponent):
         seq.reseed()
         seq.set_starting_phase(phase)
 
-        if (seq.do_not_randomize is False and seq.randomize() is False):
+        if not seq.do_not_randomize and not seq.randomize():
             uvm_warning("STRDEFSEQ", "Randomization failed for default sequence '"
                     + seq.get_type_name() + "' for phase '" + phase.get_name() + "'")
             await uvm_zero_delay()
-- 
2.43.0


From e8d2b09b5f6abe4c9eafd821b5e37a48c88f047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:56 +0000
Subject: [PATCH 73/76] fix: phases can be added in parallel, between and after
 all others, and run-time phases used in further domains

---
 src/uvm/base/uvm_phase.py          | 13 ++++++-------
 src/uvm/base/uvm_runtime_phases.py | 22 +++++++++++-----------
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 5bf9000..f65ca17 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -524,8 +524,8 @@ class UVMPhase(UVMObject):
 
         # INSERT IN PARALLEL WITH 'WITH' PHASE
         if with_phase is not None:
-            begin_node.m_predecessors = with_phase.m_predecessors
-            end_node.m_successors = with_phase.m_successors
+            begin_node.m_predecessors = dict(with_phase.m_predecessors)
+            end_node.m_successors = dict(with_phase.m_successors)
             for pred in with_phase.m_predecessors:
                 pred.m_successors[begin_node] = 1
             for succ in with_phase.m_successors:
@@ -560,7 +560,7 @@ class UVMPhase(UVMObject):
             before_phase.m_predecessors[end_node] = 1
             if before_phase in after_phase.m_successors:
                 del after_phase.m_successors[before_phase]
-                del before_phase.m_successors[after_phase]
+                del before_phase.m_predecessors[after_phase]
 
         # Transition nodes to DORMANT state
         if new_node is None:
@@ -1146,9 +1146,8 @@ class UVMPhase(UVMObject):
                         pred_of_succ[next_pred] = 1
                     done = False
 
-        # remove ourselves from the list
-        if self.get_name() != 'final':
-            del pred_of_succ[self]
+        # remove ourselves from the list (the last phase has no successors)
+        pred_of_succ.pop(self, None)
 
 
     async def m_wait_for_pred(self):
@@ -1704,7 +1703,7 @@ class UVMPhaseCb(UVMCallback):
         Args:
             name:
         """
-        UVMCallback.__init__(self)
+        UVMCallback.__init__(self, name)
 
     def phase_state_change(self, phase, change):
         """
diff --git a/src/uvm/base/uvm_runtime_phases.py b/src/uvm/base/uvm_runtime_phases.py
index 332dbc0..0c9f332 100644
--- a/src/uvm/base/uvm_runtime_phases.py
+++ b/src/uvm/base/uvm_runtime_phases.py
@@ -92,7 +92,7 @@ class UVMPreResetPhase(UVMTaskPhase):
         """
         if cls.m_inst is None:
             cls.m_inst = UVMPreResetPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_reset"):
         super().__init__(name)
@@ -144,7 +144,7 @@ class UVMResetPhase(UVMTaskPhase):
         """
         if cls.m_inst is None:
             cls.m_inst = UVMResetPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="reset"):
         super().__init__(name)
@@ -189,7 +189,7 @@ class UVMPostResetPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPostResetPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_reset"):
         super().__init__(name)
@@ -236,7 +236,7 @@ class UVMPreConfigurePhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPreConfigurePhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_configure"):
         super().__init__(name)
@@ -282,7 +282,7 @@ class UVMConfigurePhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMConfigurePhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="configure"):
         super().__init__(name)
@@ -329,7 +329,7 @@ class UVMPostConfigurePhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPostConfigurePhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_configure"):
         super().__init__(name)
@@ -373,7 +373,7 @@ class UVMPreMainPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPreMainPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_main"):
         super().__init__(name)
@@ -465,7 +465,7 @@ class UVMPostMainPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPostMainPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_main"):
         super().__init__(name)
@@ -508,7 +508,7 @@ class UVMPreShutdownPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPreShutdownPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_shutdown"):
         super().__init__(name)
@@ -554,7 +554,7 @@ class UVMShutdownPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMShutdownPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="shutdown"):
         super().__init__(name)
@@ -601,7 +601,7 @@ class UVMPostShutdownPhase(UVMTaskPhase):
         """
         if cls.m_inst is None:
             cls.m_inst = UVMPostShutdownPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_shutdown"):
         super().__init__(name)
-- 
2.43.0


From 94bfceba792838d41ab3c4066a470622de676ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:06 +0000
Subject: [PATCH 74/76] fix: integers and strings set by name reach the fields
 of nested objects, and object sets pass over fields of other kinds

---
 src/uvm/base/uvm_component.py        |  3 ---
 src/uvm/base/uvm_misc.py             |  2 +-
 src/uvm/macros/uvm_object_defines.py | 16 +++++++++++++++-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 0e0fab2..4c4f362 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -40,7 +40,6 @@ from ..macros import uvm_info, uvm_fatal, uvm_warning, uvm_error
 from .uvm_recorder import UVMRecorder
 from .uvm_globals import (uvm_is_match, uvm_string_to_action,
         uvm_string_to_severity, uvm_zero_delay)
-from .uvm_factory import UVMObjectWrapper
 from .uvm_links import (UVMRelatedLink, UVMParentChildLink)
 
 INV_WARN1 = ("+uvm_set_action requires 4 arguments, but %0d given for command "
@@ -1245,8 +1244,6 @@ class UVMComponent(UVMReportObject):
                 self.set_int_local(name, val)
             elif isinstance(val, UVMObject):
                 self.set_object_local(name, val, 0)
-            elif isinstance(val, UVMObjectWrapper):
-                self.set_object_local(name, val.obj, val.clone)
             elif isinstance(val, str):
                 self.set_string_local(name, val)
             elif verbose:
diff --git a/src/uvm/base/uvm_misc.py b/src/uvm/base/uvm_misc.py
index 83b244c..b64547a 100644
--- a/src/uvm/base/uvm_misc.py
+++ b/src/uvm/base/uvm_misc.py
@@ -331,7 +331,7 @@ class UVMStatusContainer:
             idx = -1
             #uvm_object m[$] = m_uvm_cycle_scopes.find_first(item) with (item == scope);
             for i in range(len(self.m_uvm_cycle_scopes)):
-                if self.m_uvm_cycle_scopes[i] == scope:
+                if self.m_uvm_cycle_scopes[i] is scope:
                     idx = i
                     break
             if idx != -1:
diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 3e086b6..976c9bd 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -138,6 +138,16 @@ def m_uvm_copy_field_value(val):
     return val
 
 
+def m_uvm_set_in_object(T_cont, obj, name, mask, what__, str__):
+    """Sets the fields matching str__ in the object which is the value of the field called name"""
+    from ..base.uvm_object import UVMObject
+    val = getattr(obj, name)
+    if isinstance(val, UVMObject) and not mask & (UVM_READONLY | UVM_REFERENCE):
+        T_cont.scope.down(name)
+        val._m_uvm_field_automation(None, what__, str__)
+        T_cont.scope.up()
+
+
 def m_uvm_compare_field_value(comparer, name, lhs, rhs):
     """Compares the values of a field using the comparer, which counts the differences"""
     from ..base.uvm_object import UVMObject
@@ -261,6 +271,8 @@ def uvm_field_utils_start(T):
                         val = UVMObject._m_uvm_status_container.bitstream
                         setattr(self, v, val)
                         T_cont.status = 1
+                else:
+                    m_uvm_set_in_object(T_cont, self, v, mask_v, what__, str__)
                 T_cont.scope.unset_arg(v)
         elif what__ == UVM_SETSTR:
             for v in vals:
@@ -278,6 +290,8 @@ def uvm_field_utils_start(T):
                         val = UVMObject._m_uvm_status_container.stringv
                         setattr(self, v, val)
                         T_cont.status = 1
+                else:
+                    m_uvm_set_in_object(T_cont, self, v, mask_v, what__, str__)
         elif what__ == UVM_SETOBJ:
             for v in vals:
                 mask_v = masks[v]
@@ -297,7 +311,7 @@ def uvm_field_utils_start(T):
                                 T_cont.get_full_scope_arg()), UVM_NONE)
                         setattr(self, v, T_cont_obj.object)
                         T_cont_obj.status = True
-                elif ARG is not None and (mask_v & UVM_READONLY == 0):
+                elif isinstance(ARG, UVMObject) and (mask_v & UVM_READONLY == 0):
                     cnt = 0
                     # Only traverse if there is a possible match.
                     while cnt < len(str__):
-- 
2.43.0


From faf0a8262ce6497349ec7e2d667334eee3ea5a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:45 +0000
Subject: [PATCH 75/76] fix: build_coverage of registers, memories and blocks
 returns no coverage when none is included instead of raising IndexError

---
 src/uvm/reg/uvm_mem.py       | 3 ++-
 src/uvm/reg/uvm_reg.py       | 3 ++-
 src/uvm/reg/uvm_reg_block.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 28656d3..8718a21 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -1623,7 +1623,8 @@ class UVMMem(UVMObject):
         cov_arr = []
         uvm_reg_cvr_rsrc_db.read_by_name("uvm_reg::" + self.get_full_name(),
                 "include_coverage", cov_arr, self)
-        build_coverage = cov_arr[0]
+        if cov_arr:
+            build_coverage = cov_arr[0]
         return build_coverage & models
 
 
diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 8581f10..432a8f4 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -2283,7 +2283,8 @@ class UVMReg(UVMObject):
         cov_arr = []
         uvm_reg_cvr_rsrc_db.read_by_name("uvm_reg::" + self.get_full_name(),
                 "include_coverage", cov_arr, self)
-        build_coverage = cov_arr[0]
+        if cov_arr:
+            build_coverage = cov_arr[0]
         return build_coverage & models
 
 
diff --git a/src/uvm/reg/uvm_reg_block.py b/src/uvm/reg/uvm_reg_block.py
index 691f40a..3dd6d2e 100644
--- a/src/uvm/reg/uvm_reg_block.py
+++ b/src/uvm/reg/uvm_reg_block.py
@@ -708,7 +708,8 @@ class UVMRegBlock(UVMObject):
         uvm_reg_cvr_rsrc_db.read_by_name("uvm_reg::" + self.get_full_name(),
                 "include_coverage",
                 cov_arr, self)
-        build_coverage = cov_arr[0]
+        if cov_arr:
+            build_coverage = cov_arr[0]
         return build_coverage & models
 
 
-- 
2.43.0


From 4b933d35f5fe40f2deefdc7d35f33efef329b4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:36 +0000
Subject: [PATCH 76/76] fix: execute_item gives its temporary sequence the
 default priority, so that strict and weighted arbitration can grant it

---
 src/uvm/seq/uvm_sequencer_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index 05b3fc9..e66e9b2 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -202,6 +202,7 @@ class UVMSequencerBase(UVMComponent):
         item.set_sequencer(self)
         item.set_parent_sequence(seq)
         seq.set_sequencer(self)
+        seq.set_priority(100)  # that of a sequence started without a parent
         await seq.start_item(item)
         await seq.finish_item(item)
 
-- 
2.43.0

