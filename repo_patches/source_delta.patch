From ea858c5383c47a937cfb20105aad3bfb0c28f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 01/19] fix: pyee: handle set values only once on nested
 handling

A handler which runs out of step lets the step counter handle the
remaining set values. The outer loop used the count from before that, and
failed with IndexError on the empty list.
---
 pyee/pyexec/ipc/proxy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 0fd7c7e..2bbfd45 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -455,6 +455,9 @@ class ServiceManagerProxy:
 
     def __handle_set_values(self, cnt: int):
         for i in range(0, cnt):
+            if not self.__set_handlers:
+                # a handler may have handled the others already
+                break
             handler, size = self.__set_handlers.pop(0)
             msg, data = self.__client.receive()
             if msg != Message.SETVALUE:
-- 
2.43.0


From d1ad830eb3d5a15bd06790f9af6e0b89d72f6afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 02/19] fix: pyee: handle set values before sending a request

If the handler raised (out of step), the reply for the request that had been
sent already was left unread, and was taken as the reply for the next one.
---
 pyee/pyexec/ipc/proxy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 2bbfd45..7b879e0 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -469,8 +469,9 @@ class ServiceManagerProxy:
                     handler(False, 0, 0)
 
     def send_and_receive(self, msg: int, data: bytes) -> Tuple[int, Any]:
-        self.__client.send(msg, data)
+        # a handler may raise, so requests shall be sent after handling them
         self.handle_set_values()
+        self.__client.send(msg, data)
         return self.__client.receive()
 
     def get_value(self, key: bytes) -> Optional[bytes]:
-- 
2.43.0


From 88217e454490447b925e0974a2b5126bd1505937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 03/19] fix: pyee: do not take out of step of others for one of
 set

Putting a value may handle the old values of former changes, and it may run
out of step. It shall not be handled as a failure of charging for the put,
which stored the value twice and undid the charge of the other.
---
 pyee/pyexec/database/db.py               | 3 +++
 pyee/pyexec/iconscore/icon_score_step.py | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/pyee/pyexec/database/db.py b/pyee/pyexec/database/db.py
index e62b267..91fc1a6 100644
--- a/pyee/pyexec/database/db.py
+++ b/pyee/pyexec/database/db.py
@@ -167,6 +167,9 @@ class ContextDatabase(object):
                 self._charge_step_set(context, value)
                 self._db.put(key, value, self.__refund_handler)
             except OutOfStepException as e:
+                if e.step_type != StepType.SET:
+                    # it's from one of the changes made before
+                    raise
                 # restore to the previous state
                 context.step_counter.add_step(e.step_used - e.step_limit)
                 # do fallback handling
diff --git a/pyee/pyexec/iconscore/icon_score_step.py b/pyee/pyexec/iconscore/icon_score_step.py
index b1e9e4c..64efb18 100644
--- a/pyee/pyexec/iconscore/icon_score_step.py
+++ b/pyee/pyexec/iconscore/icon_score_step.py
@@ -101,6 +101,14 @@ class OutOfStepException(IconServiceBaseException):
         """
         return self.__requested_step
 
+    @property
+    def step_type(self) -> StepType:
+        """
+        Returns the type of the step that could not be consumed.
+        :return: the type of the step
+        """
+        return self.__step_type
+
 
 class IconScoreStepCounter(object):
     """ Counts steps in a transaction
-- 
2.43.0


From 4dc89c6a8abc15a15e96eb92b6120c263e59c6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 04/19] fix: pyee: treat an empty old value as existing one on
 replacement

It's replaced with a refund if the steps are enough for setting it, but the
fallback for insufficient steps charged it as a fresh one.
---
 pyee/pyexec/database/db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyee/pyexec/database/db.py b/pyee/pyexec/database/db.py
index 91fc1a6..4b93d44 100644
--- a/pyee/pyexec/database/db.py
+++ b/pyee/pyexec/database/db.py
@@ -175,13 +175,13 @@ class ContextDatabase(object):
                 # do fallback handling
                 old_val = self._db.get(key)
                 if context.step_counter.schema == 0:
-                    if old_val:
+                    if old_val is not None:
                         context.step_counter.apply_step(StepType.REPLACE, len(value))
                     else:
                         context.step_counter.apply_step(StepType.SET, len(value))
                 else:
                     # refund first if old value exists
-                    if old_val:
+                    if old_val is not None:
                         self.__refund_handler(True, len(old_val))
                     context.step_counter.apply_step(StepType.SET, len(value))
                 self._db.put(key, value, None)
-- 
2.43.0


From 61e1b2c725ac58e3ca3485c0b1bd4bfeb71e37df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 05/19] fix: pyee: fail the call which runs out of step on its
 last changes

The steps of the remaining set values are charged after the call. If it ran
out of step there, the exception was not handled and the executor stopped
without sending the result.
---
 pyee/pyexec/service_engine.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index ef5356e..11edaee 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -95,7 +95,10 @@ class ServiceEngine(ContextContainer):
         except BaseException as e:
             status, ret = cls._get_status_from_exception(e)
         finally:
-            cls._proxy.handle_set_values()
+            try:
+                cls._proxy.handle_set_values()
+            except BaseException as e:
+                status, ret = cls._get_status_from_exception(e)
             if context.fee_sharing_proportion > 0:
                 cls._proxy.set_fee_proportion(context.fee_sharing_proportion)
             step_used = context.step_counter.step_used
-- 
2.43.0


From 4bf728a07a267a7e63d7a3a5081ca9996b7559f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 06/19] fix: pyee: remove the context of the call on every
 exception

An exception of which message cannot be built passes through, and the
context of the failed call was left as the current one.
---
 pyee/pyexec/service_engine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index 11edaee..d7e98a1 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -63,8 +63,10 @@ class ServiceEngine(ContextContainer):
         Logger.debug(f'[invoke] {context.method}, {context.params}', TAG)
 
         cls._push_context(context)
-        status, step_used, ret = cls._handle_invoke(context)
-        cls._pop_context()
+        try:
+            status, step_used, ret = cls._handle_invoke(context)
+        finally:
+            cls._pop_context()
 
         Logger.debug(f'*** RESULT: {status}, {step_used}, {ret}', TAG)
         return status, step_used, ret
-- 
2.43.0


From 67284b84ccf86db03a6b200f2335553125606ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:28 +0000
Subject: [PATCH 07/19] fix: pyee: answer requests whatever the exception of
 user code is

---
 pyee/pyexec/ipc/proxy.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 7b879e0..95dcbae 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -388,17 +388,26 @@ class ServiceManagerProxy:
                 self.encode(step_used),
                 self.encode_any(result)
             ])
-        except Exception as e:
-            e_str = traceback.format_exc()
-            self.debug(f"Exception in INVOKE:\n{e_str}", TAG)
+        except BaseException as e:
+            message = self.__describe_exception('INVOKE', e)
             self.__client.send(Message.RESULT, [
                 Status.SYSTEM_FAILURE,
                 self.encode(limit),
-                self.encode_any(f'ExceptionInInvoke({str(e)})')
+                self.encode_any(f'ExceptionInInvoke({message})')
             ])
         finally:
             self.__readonly = self.__readonly_stack.pop(-1)
 
+    def __describe_exception(self, where: str, e: BaseException) -> str:
+        # the exception may come from user code, so making a text of it may fail
+        try:
+            self.debug(f"Exception in {where}:\n{traceback.format_exc()}", TAG)
+            message = str(e)
+            message.encode('utf-8')
+            return message
+        except BaseException:
+            return 'Unknown'
+
     def __handle_get_api(self, data):
         try:
             code = self.decode(TypeTag.STRING, data)
@@ -410,9 +419,8 @@ class ServiceManagerProxy:
                     self.__client.send(Message.GETAPI, [Status.SYSTEM_FAILURE, None])
             else:
                 self.__client.send(Message.GETAPI, [status, None])
-        except Exception:
-            e_str = traceback.format_exc()
-            self.debug(f"Exception in GETAPI:\n{e_str}", TAG)
+        except BaseException as e:
+            self.__describe_exception('GETAPI', e)
             self.__client.send(Message.GETAPI, [Status.SYSTEM_FAILURE, None])
 
     def loop(self):
-- 
2.43.0


From 907be62e082a93524d8b1e430c955e2b90418b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 08/19] fix: pyee: do not execute the package on validating it

---
 pyee/pyexec/iconscore/score_package_validator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/iconscore/score_package_validator.py b/pyee/pyexec/iconscore/score_package_validator.py
index ed66daf..f8baa48 100644
--- a/pyee/pyexec/iconscore/score_package_validator.py
+++ b/pyee/pyexec/iconscore/score_package_validator.py
@@ -87,7 +87,9 @@ class ScorePackageValidator(object):
         for imp in cls.CUSTOM_IMPORT_LIST:
             full_name = f'{package}.{imp}'
 
-            spec = importlib.util.find_spec(full_name)
+            # do not find it through its package, it would execute the package
+            file_path = os.path.join(code_path, *imp.split('.')) + '.py'
+            spec = importlib.util.spec_from_file_location(full_name, file_path)
             code = spec.loader.get_code(full_name)
 
             cls._validate_import_from_code(code)
-- 
2.43.0


From f41888a8bf9fa19125d480a39bbc7312d1832a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 09/19] fix: pyee: handle extended arguments on validating
 imports

---
 .../iconscore/score_package_validator.py      | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/iconscore/score_package_validator.py b/pyee/pyexec/iconscore/score_package_validator.py
index f8baa48..f983eed 100644
--- a/pyee/pyexec/iconscore/score_package_validator.py
+++ b/pyee/pyexec/iconscore/score_package_validator.py
@@ -27,6 +27,7 @@ LOAD_CONST = 100
 IMPORT_STAR = 84
 IMPORT_NAME = 108
 IMPORT_FROM = 109
+EXTENDED_ARG = 144
 
 BASE_PACKAGE = 'iconservice'
 
@@ -125,7 +126,7 @@ class ScorePackageValidator(object):
         if not hasattr(code, CODE_ATTR):
             return
 
-        byte_code_list = [x for x in code.co_code]
+        byte_code_list = cls._merge_extended_args(code.co_code)
 
         length_byte_code_list = len(byte_code_list)
         for code_index in range(OPCODE_HEADER_END_INDEX, length_byte_code_list, 2):
@@ -133,6 +134,22 @@ class ScorePackageValidator(object):
             if IMPORT_NAME == key:
                 cls._validate_import(code_index, byte_code_list, code.co_names, code.co_consts)
 
+    @classmethod
+    def _merge_extended_args(cls, byte_code: bytes) -> list:
+        """ Returns list of opcodes and their whole arguments without EXTENDED_ARG
+        """
+        merged_list = []
+        extended_arg = 0
+        for index in range(0, len(byte_code), 2):
+            key = byte_code[index]
+            arg = byte_code[index + 1] | extended_arg
+            if EXTENDED_ARG == key:
+                extended_arg = arg << 8
+            else:
+                merged_list.extend((key, arg))
+                extended_arg = 0
+        return merged_list
+
     @classmethod
     def _validate_import_from_const(cls, co_consts: tuple):
         for co_const in co_consts:
-- 
2.43.0


From b5069d3fa8ee5fde3938af9cdf9ee4b7e05a6cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 10/19] fix: pyee: refuse modules without source on validating
 a package

---
 pyee/pyexec/iconscore/score_package_validator.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyee/pyexec/iconscore/score_package_validator.py b/pyee/pyexec/iconscore/score_package_validator.py
index f983eed..86ba155 100644
--- a/pyee/pyexec/iconscore/score_package_validator.py
+++ b/pyee/pyexec/iconscore/score_package_validator.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import importlib.machinery
 import importlib.util
 import os
 import sys
@@ -102,6 +103,7 @@ class ScorePackageValidator(object):
         tmp_list = []
         for dir_path, _, filenames in os.walk(pkg_root_path):
             for file in filenames:
+                cls._validate_file_name(file)
                 file_name, extension = os.path.splitext(file)
                 if extension != '.py':
                     continue
@@ -115,6 +117,14 @@ class ScorePackageValidator(object):
                 tmp_list.append(pkg_path)
         return tmp_list
 
+    @classmethod
+    def _validate_file_name(cls, file: str):
+        """ Modules without source can't be validated
+        """
+        for suffix in importlib.machinery.BYTECODE_SUFFIXES + importlib.machinery.EXTENSION_SUFFIXES:
+            if file.endswith(suffix) and '.' not in file[:-len(suffix)]:
+                raise IllegalFormatException(f'Invalid module: {file}')
+
     @classmethod
     def _validate_blacklist_keyword_from_names(cls, co_names: tuple):
         for co_name in co_names:
-- 
2.43.0


From 8984fee98e12bbdd5d8bb9353482e379ae631205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 11/19] fix: pyee: handle results of user code in the context
 of the call

The value and the exception of a method were formatted and encoded after
leaving the context of the call, which executes the methods of the
objects. They saw the message of the caller, spent steps of the caller,
and might leave set values of which the answers are never handled.
---
 pyee/pyexec/ipc/proxy.py      | 33 +++++++++++++++++++++++++++++----
 pyee/pyexec/pyexec.py         |  6 ++++++
 pyee/pyexec/service_engine.py | 20 ++++++++++++++++----
 3 files changed, 51 insertions(+), 8 deletions(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 95dcbae..6f63828 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -358,6 +358,31 @@ class ServiceManagerProxy:
         else:
             return self.__codec.encode(o)
 
+    def to_plain(self, o: Any) -> Any:
+        """ Copy the value to one of built-in types, which has no user code.
+        It accepts only the values that can be encoded by encode_any().
+        """
+        if o is None or type(o) in (bytes, str, bool, int):
+            return o
+        elif isinstance(o, dict):
+            m = {}
+            for k, v in o.items():
+                if not isinstance(k, str):
+                    raise Exception(f'InvalidKeyType:{type(k)}')
+                m[self.to_plain(k)] = self.to_plain(v)
+            return m
+        elif isinstance(o, list) or isinstance(o, tuple):
+            return [self.to_plain(v) for v in o]
+        elif isinstance(o, bytes):
+            return bytes.__getitem__(o, slice(None))
+        elif isinstance(o, str):
+            return str.__str__(o)
+        elif isinstance(o, int):
+            return int.__int__(o)
+        else:
+            t, v = self.__codec.encode(o)
+            return self.__codec.decode(t, v)
+
     def __handle_invoke(self, data):
         code = self.decode(TypeTag.STRING, data[0])
         option = data[1]
@@ -389,7 +414,7 @@ class ServiceManagerProxy:
                 self.encode_any(result)
             ])
         except BaseException as e:
-            message = self.__describe_exception('INVOKE', e)
+            message = self.describe_exception('INVOKE', e)
             self.__client.send(Message.RESULT, [
                 Status.SYSTEM_FAILURE,
                 self.encode(limit),
@@ -398,11 +423,11 @@ class ServiceManagerProxy:
         finally:
             self.__readonly = self.__readonly_stack.pop(-1)
 
-    def __describe_exception(self, where: str, e: BaseException) -> str:
+    def describe_exception(self, where: str, e: BaseException) -> str:
         # the exception may come from user code, so making a text of it may fail
         try:
             self.debug(f"Exception in {where}:\n{traceback.format_exc()}", TAG)
-            message = str(e)
+            message = self.to_plain(str(e))
             message.encode('utf-8')
             return message
         except BaseException:
@@ -420,7 +445,7 @@ class ServiceManagerProxy:
             else:
                 self.__client.send(Message.GETAPI, [status, None])
         except BaseException as e:
-            self.__describe_exception('GETAPI', e)
+            self.describe_exception('GETAPI', e)
             self.__client.send(Message.GETAPI, [Status.SYSTEM_FAILURE, None])
 
     def loop(self):
diff --git a/pyee/pyexec/pyexec.py b/pyee/pyexec/pyexec.py
index b82d9bd..66b868a 100644
--- a/pyee/pyexec/pyexec.py
+++ b/pyee/pyexec/pyexec.py
@@ -205,6 +205,12 @@ class PyExecEngine(object):
     def handle_set_values(self) -> bool:
         return self.__proxy.handle_set_values()
 
+    def to_plain(self, o: Any) -> Any:
+        return self.__proxy.to_plain(o)
+
+    def describe_exception(self, where: str, e: BaseException) -> str:
+        return self.__proxy.describe_exception(where, e)
+
     def get_balance(self, addr: Address) -> int:
         ret = self.__proxy.get_balance(addr)
         Logger.debug(f"get_balance({repr(addr)}) -> {ret}", TAG)
diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index d7e98a1..b665877 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -92,10 +92,7 @@ class ServiceEngine(ContextContainer):
     @classmethod
     def _handle_invoke(cls, context):
         try:
-            ret = cls._internal_call(context)
-            status = Status.SUCCESS
-        except BaseException as e:
-            status, ret = cls._get_status_from_exception(e)
+            status, ret = cls._execute(context)
         finally:
             try:
                 cls._proxy.handle_set_values()
@@ -107,6 +104,21 @@ class ServiceEngine(ContextContainer):
 
         return status, step_used, ret
 
+    @classmethod
+    def _execute(cls, context):
+        # Handling objects of user code may execute the code, so they shall
+        # be replaced with plain ones before leaving the context.
+        try:
+            try:
+                ret = cls._internal_call(context)
+                status = Status.SUCCESS
+            except BaseException as e:
+                status, ret = cls._get_status_from_exception(e)
+            return int.__int__(status), cls._proxy.to_plain(ret)
+        except BaseException as e:
+            message = cls._proxy.describe_exception(TAG, e)
+        raise Exception(message)
+
     @classmethod
     def _internal_call(cls, context: IconScoreContext):
         icon_score: 'IconScoreBase' = cls._get_icon_score(context.to, context.code)
-- 
2.43.0


From 795721beeac39dc0fc3829a57f2f6095553ab7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 12/19] fix: pyee: hide the context of the call on making API
 information

GETAPI may come while a contract waits for the result of its call. Then
the constructor of the new contract saw the message of that contract, and
spent its steps.
---
 pyee/pyexec/pyexec.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/pyexec.py b/pyee/pyexec/pyexec.py
index 66b868a..540350a 100644
--- a/pyee/pyexec/pyexec.py
+++ b/pyee/pyexec/pyexec.py
@@ -20,7 +20,7 @@ from .base.block import Block
 from .base.message import Message
 from .base.transaction import Transaction
 from .icon_constant import IconScoreContextType, Status
-from .iconscore.icon_score_context import IconScoreContext
+from .iconscore.icon_score_context import ContextContainer, IconScoreContext
 from .iconscore.icon_score_step import IconScoreStepCounter
 from .ipc.proxy import ServiceManagerProxy, Codec, TypeTag, APIInfo, APIType, DataType, Info, Log, SetHandler
 from .logger import Logger
@@ -154,6 +154,17 @@ class PyExecEngine(object):
         return ServiceEngine.invoke(context)
 
     def api_handler(self, code: str) -> Tuple[int, APIInfo]:
+        # it may be requested during a call, so hide the context of the call
+        ContextContainer._push_context(None)
+        try:
+            return self.__make_api_info(code)
+        except BaseException as e:
+            message = self.describe_exception(TAG, e)
+        finally:
+            ContextContainer._pop_context()
+        raise Exception(message)
+
+    def __make_api_info(self, code: str) -> Tuple[int, APIInfo]:
         Logger.debug(f'[api_handler] code={code}', TAG)
         status, apis = ServiceEngine.get_score_api(code, self.__verify_package)
         Logger.debug(f"get_api({code}) -> {status} {apis}", TAG)
-- 
2.43.0


From 3efb504a08c6304ff5cea144310bdc46b8af4c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 13/19] fix: pyee: refuse requests to the service on making API
 information

A contract could ask balance of an account, or use objects it had kept,
in its constructor on GETAPI. The service has nothing to answer for it,
and it stops the node on such a request.
---
 pyee/pyexec/ipc/proxy.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 6f63828..0d9c6fb 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -253,6 +253,7 @@ class ServiceManagerProxy:
         self.__codec = None
         self.__readonly_stack = []
         self.__readonly = False
+        self.__making_api = False
         self.__set_handlers: List[Tuple[SetHandler, int]] = []
 
     def connect(self, addr):
@@ -436,7 +437,7 @@ class ServiceManagerProxy:
     def __handle_get_api(self, data):
         try:
             code = self.decode(TypeTag.STRING, data)
-            status, obj = self.__get_api(code)
+            status, obj = self.__get_api_without_request(code)
             if status == Status.SUCCESS:
                 if isinstance(obj, APIInfo):
                     self.__client.send(Message.GETAPI, [Status.SUCCESS, obj.get_data()])
@@ -448,6 +449,18 @@ class ServiceManagerProxy:
             self.describe_exception('GETAPI', e)
             self.__client.send(Message.GETAPI, [Status.SYSTEM_FAILURE, None])
 
+    def __get_api_without_request(self, code: str) -> Tuple[int, APIInfo]:
+        making_api, self.__making_api = self.__making_api, True
+        try:
+            return self.__get_api(code)
+        finally:
+            self.__making_api = making_api
+
+    def __check_request(self):
+        # The service has no state to access on making API information
+        if self.__making_api:
+            raise Exception('NoPermissionToRequest')
+
     def loop(self):
         while True:
             msg, data = self.__client.receive()
@@ -461,6 +474,7 @@ class ServiceManagerProxy:
     def call(self, to: 'Address', value: int,
              step_limit: int, method: str,
              params: Any) -> Tuple[int, int, Any]:
+        self.__check_request()
         data = {
             'method': method,
             'params': params
@@ -502,6 +516,7 @@ class ServiceManagerProxy:
                     handler(False, 0, 0)
 
     def send_and_receive(self, msg: int, data: bytes) -> Tuple[int, Any]:
+        self.__check_request()
         # a handler may raise, so requests shall be sent after handling them
         self.handle_set_values()
         self.__client.send(msg, data)
@@ -517,6 +532,7 @@ class ServiceManagerProxy:
             return None
 
     def set_value(self, key: bytes, value: Optional[bytes], cb: Optional[SetHandler]):
+        self.__check_request()
         if self.__readonly:
             raise Exception('NoPermissionToWrite')
         flag = 0
@@ -533,6 +549,7 @@ class ServiceManagerProxy:
                 self.__handle_set_values(len(self.__set_handlers) - MAX_SET_VALUE_HANDLERS)
 
     def set_fee_proportion(self, pct: int):
+        self.__check_request()
         if self.__readonly:
             raise Exception('NoPermissionToWrite')
         pct = pct | 0
@@ -559,6 +576,7 @@ class ServiceManagerProxy:
         return self.decode(TypeTag.INT, value)
 
     def send_event(self, indexed: List[Any], data: List[Any]):
+        self.__check_request()
         if self.__readonly:
             return
         self.__client.send(Message.EVENT, [
-- 
2.43.0


From ea71ee9670498fe8b748170a6c2051a1af21a726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 14/19] fix: havah: refuse base transactions without data

---
 havah/hvh/base.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/havah/hvh/base.go b/havah/hvh/base.go
index 59cd506..124c33e 100644
--- a/havah/hvh/base.go
+++ b/havah/hvh/base.go
@@ -302,6 +302,9 @@ func (es *ExtensionStateImpl) OnBaseTx(cc hvhmodule.CallContext, data []byte) er
 	if err != nil {
 		return transaction.InvalidFormat.Wrap(err, "Failed to parse baseData")
 	}
+	if baseData == nil {
+		return transaction.InvalidFormat.New("NoBaseData")
+	}
 
 	termPeriod := es.state.GetTermPeriod()
 	termSeq, blockIndexInTerm := hvhstate.GetTermSequenceAndBlockIndex(height, issueStart, termPeriod)
-- 
2.43.0


From 7ade3f749607e824b50e9c3f88fca0565a72922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:35 +0000
Subject: [PATCH 15/19] fix: havah: keep going on sub validators which cannot
 become active

GetNextActiveValidatorsAndChangeIndex() returned the error of the last
sub validator which was skipped, if the rotation index came back to the
same place. It made the base transaction fail, so that no block could be made.
---
 havah/hvh/hvhstate/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/havah/hvh/hvhstate/state.go b/havah/hvh/hvhstate/state.go
index f3db644..296e2f7 100644
--- a/havah/hvh/hvhstate/state.go
+++ b/havah/hvh/hvhstate/state.go
@@ -1405,7 +1405,7 @@ func (s *State) GetNextActiveValidatorsAndChangeIndex(
 			return nil, err
 		}
 	}
-	return nextActiveValidators, err
+	return nextActiveValidators, nil
 }
 
 func (s *State) GetSubValidatorsIndex() int64 {
-- 
2.43.0


From aa83dbdfba95c33fa4bd7e4cffdcb4838162ee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:35 +0000
Subject: [PATCH 16/19] fix: havah: replace penalized validators in the order
 of their places

The order of map iteration decided which place each new validator took
(so each node could have a different validator set), and removal of
a validator shifted the places of the remaining ones.
---
 havah/hvh/decentralization.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/havah/hvh/decentralization.go b/havah/hvh/decentralization.go
index a9c944c..6d04a15 100644
--- a/havah/hvh/decentralization.go
+++ b/havah/hvh/decentralization.go
@@ -1,6 +1,8 @@
 package hvh
 
 import (
+	"sort"
+
 	"github.com/icon-project/goloop/common/errors"
 	"github.com/icon-project/goloop/havah/hvh/hvhstate"
 	"github.com/icon-project/goloop/havah/hvhmodule"
@@ -160,11 +162,19 @@ func (es *ExtensionStateImpl) replacePenalizedActiveValidators(
 		return err
 	}
 
+	// Iterate over the places in order, because the result must be same on every node
+	// and removing a validator shifts only the places after it
+	indexes := make([]int, 0, len(m))
+	for idx := range m {
+		indexes = append(indexes, idx)
+	}
+	sort.Ints(indexes)
+
 	i := 0
 	oc := validatorState.Len()
 	var owner module.Address
 	var validator module.Validator
-	for idx := range m {
+	for _, idx := range indexes {
 		info, _ := m[idx]
 		onActiveValidatorRemoved(cc, info.owner, info.validator.Address(), "penalized")
 
-- 
2.43.0


From f6fe6c301b486dac13aa339a2d75c1e8b77c1c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 17/19] fix: havah: refuse a node key which is already in the
 active validators

From revision BTP2, SetNodePublicKey() ignored the failure on replacing
the active validator, so it answered success and the old node stayed
in the active validator set without any owner.
---
 havah/hvh/extension.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/havah/hvh/extension.go b/havah/hvh/extension.go
index 060daea..637f5dc 100644
--- a/havah/hvh/extension.go
+++ b/havah/hvh/extension.go
@@ -760,11 +760,12 @@ func (es *ExtensionStateImpl) SetNodePublicKey(cc hvhmodule.CallContext, pubKey
 
 	var changed bool
 	validatorState := cc.GetValidatorState()
-	if changed, err = replaceActiveValidatorAddress(validatorState, oldNode, newNode); err == nil {
-		if changed {
-			onActiveValidatorRemoved(cc, from, oldNode, "pubkeychange")
-			onActiveValidatorAdded(cc, from, newNode)
-		}
+	if changed, err = replaceActiveValidatorAddress(validatorState, oldNode, newNode); err != nil {
+		return err
+	}
+	if changed {
+		onActiveValidatorRemoved(cc, from, oldNode, "pubkeychange")
+		onActiveValidatorAdded(cc, from, newNode)
 	}
 
 	if cc.Revision().Value() >= hvhmodule.RevisionBTP2 {
-- 
2.43.0


From 834b7dff575d993ec537a5f18d1729d9d14463c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 18/19] fix: havah: let unregistered validators leave the
 active set

initActiveValidatorSet() failed if any of old active validators (ex: the ones
from genesis or granted by the governance) had no registered owner.
It made the base transaction fail, so that no block could be made.
---
 havah/hvh/decentralization.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/havah/hvh/decentralization.go b/havah/hvh/decentralization.go
index 6d04a15..3c166ae 100644
--- a/havah/hvh/decentralization.go
+++ b/havah/hvh/decentralization.go
@@ -74,6 +74,10 @@ func (es *ExtensionStateImpl) initActiveValidatorSet(cc hvhmodule.CallContext) e
 
 		owner, err = es.state.GetOwnerByNode(node)
 		if err != nil {
+			if v < 0 {
+				// No owner for the validator which was set without registration (ex: genesis validators)
+				continue
+			}
 			return err
 		}
 		if v < 0 {
-- 
2.43.0


From b83d05249a1c04df73b3f76ae6417134344f3868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:19 +0000
Subject: [PATCH 19/19] fix: a transaction recorded in a previous block was
 accepted again at the limits of timestamps

A tracker answered that it has no transaction whose timestamp is at or over its
own limit, and the manager the same for the last timestamp of the lists which it
dropped from its cache. A transaction can be valid for a block at exactly that
timestamp (or over it, when the threshold is changed or when the tracker is the
initial one), so it was executed twice.
---
 common/txlocator/manager.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/common/txlocator/manager.go b/common/txlocator/manager.go
index bec0e19..53e8744 100644
--- a/common/txlocator/manager.go
+++ b/common/txlocator/manager.go
@@ -153,7 +153,7 @@ func (m *manager) hasLocatorInCache(group module.TransactionGroup, id []byte, ts
 	if _, ok := m.locators[string(id)]; ok {
 		return ok, true
 	}
-	if l := m.cache[group].maxTSInDB; l != 0 && l <= ts {
+	if l := m.cache[group].maxTSInDB; l != 0 && l < ts {
 		return false, true
 	}
 	return false, false
@@ -413,6 +413,26 @@ func (t *tracker) parentHasInLock(id []byte, ts int64) (bool, error) {
 	}
 }
 
+// recorded returns whether the transaction is recorded by the tracker, its ancestors or the manager.
+// It looks at all of them regardless of the timestamp, as the limits of ancestors differ.
+func (t *tracker) recorded(id []byte, ts int64) (bool, error) {
+	t.lock.Lock()
+	defer t.lock.Unlock()
+
+	if _, ok := t.locators[string(id)]; ok {
+		return true, nil
+	}
+	return t.parentRecordedInLock(id, ts)
+}
+
+func (t *tracker) parentRecordedInLock(id []byte, ts int64) (bool, error) {
+	if t.parent != nil {
+		return t.parent.recorded(id, ts)
+	} else {
+		return t.manager.Has(t.list.group, id, ts)
+	}
+}
+
 func (t *tracker) Add(list module.TransactionList, force bool) (int, error) {
 	t.lock.Lock()
 	defer t.lock.Unlock()
@@ -435,7 +455,7 @@ func (t *tracker) Add(list module.TransactionList, force bool) (int, error) {
 				return cnt, errors.IllegalArgumentError.Errorf("DuplicateTx(id=%#x)", id)
 			}
 			if !force {
-				if has, err := t.parentHasInLock(id, txi.Timestamp()) ; err != nil {
+				if has, err := t.parentRecordedInLock(id, txi.Timestamp()) ; err != nil {
 					return cnt, err
 				} else if has {
 					return cnt, errors.IllegalArgumentError.Errorf("DuplicateTx(id=%#x)", id)
-- 
2.43.0

