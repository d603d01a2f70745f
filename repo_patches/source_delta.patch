From edac9a57fe9db2276d16ef2cabf27bf2579a22de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:01 +0000
Subject: [PATCH 01/51] fix: from_input of an input class instance with no
 properties set no longer raises TypeError

---
 sdk/python/lib/pulumi/output.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index 1dd6f47..45f3a4a 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -286,7 +286,9 @@ class Output(Generic[T_co]):
 
         # Is it an input type (i.e. args class)? Recurse into the values within.
         typ = type(val)
-        if _types.is_input_type(typ):
+        # An instance with no properties set has nothing to recurse into (and `Output.all()` of nothing is an
+        # empty list, which can't be used to reconstruct the instance).
+        if _types.is_input_type(typ) and val.__dict__:
             # We know that any input type can safely be decomposed into it's `__dict__`, and then reconstructed
             # via `type(**d)` from the (unwrapped) properties.
             o_typ: Output[typ] = Output.all(**val.__dict__).apply(  # type:ignore
-- 
2.43.0


From b22f71e348fb05f9ddacd3fc5abde7a468d5dff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 02/51] fix: serializing an output no longer modifies its set
 of dependencies

---
 sdk/python/lib/pulumi/runtime/rpc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index c59a639..03600af 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -365,7 +365,8 @@ async def serialize_property(
 
     if known_types.is_output(value):
         output = cast("Output", value)
-        value_resources: Set["Resource"] = await output.resources()
+        # Copy the set, which belongs to the output (and may be shared with other outputs), as it is added to below.
+        value_resources: Set["Resource"] = set(await output.resources())
         deps.extend(value_resources)
 
         # When serializing an Output, we will either serialize it as its resolved value or the
-- 
2.43.0


From 63babf2f3c8b32e697858eef7811b69828f864e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:27 +0000
Subject: [PATCH 03/51] fix: secrets nested in a deserialized output value make
 the output secret instead of leaking the wire wrapper

---
 sdk/python/lib/pulumi/runtime/rpc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index 03600af..56644de 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -608,14 +608,19 @@ def deserialize_output_value(ref_struct: struct_pb2.Struct) -> "Output[Any]":
     is_known_future.set_result(is_known)
 
     value = None
+    is_nested_secret = False
     if is_known:
         value = deserialize_property(ref_struct["value"])
+        is_nested_secret = is_rpc_secret(value)
+        value = unwrap_rpc_secret(value)
     value_future: "asyncio.Future" = asyncio.Future()
     value_future.set_result(value)
 
     is_secret = False
     if "secret" in ref_struct:
         is_secret = deserialize_property(ref_struct["secret"]) is True
+    # A secret nested in the value makes the whole output secret.
+    is_secret = is_secret or is_nested_secret
     is_secret_future: "asyncio.Future" = asyncio.Future()
     is_secret_future.set_result(is_secret)
 
-- 
2.43.0


From e5987edcb385344fde6506e745aabdf2fbd7b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 04/51] fix: properties a remote component does not return take
 the values of their inputs, not nested outputs

---
 sdk/python/lib/pulumi/runtime/rpc.py | 49 +++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index 56644de..d51ff2e 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -496,10 +496,14 @@ def deserialize_properties(
     props_struct: struct_pb2.Struct,
     keep_unknowns: Optional[bool] = None,
     keep_internal: Optional[bool] = None,
+    unwrap_output_values: bool = False,
 ) -> Any:
     """
     Deserializes a protobuf `struct_pb2.Struct` into a Python dictionary containing normal
     Python types.
+
+    If `unwrap_output_values` is true, output values are deserialized as the plain, secret or unknown
+    values they carry rather than as `Output`s.
     """
     # Check out this link for details on what sort of types Protobuf is going to generate:
     # https://developers.google.com/protocol-buffers/docs/reference/python-generated
@@ -530,7 +534,12 @@ def deserialize_properties(
         if props_struct[_special_sig_key] == _special_archive_sig:
             # This is an archive. Re-hydrate this object into an Archive.
             if "assets" in props_struct:
-                return AssetArchive(deserialize_property(props_struct["assets"]))
+                return AssetArchive(
+                    deserialize_property(
+                        props_struct["assets"],
+                        unwrap_output_values=unwrap_output_values,
+                    )
+                )
             if "path" in props_struct:
                 return FileArchive(props_struct["path"])
             if "uri" in props_struct:
@@ -539,10 +548,22 @@ def deserialize_properties(
                 "Invalid archive encountered when unmarshalling resource property"
             )
         if props_struct[_special_sig_key] == _special_secret_sig:
-            return wrap_rpc_secret(deserialize_property(props_struct["value"]))
+            return wrap_rpc_secret(
+                deserialize_property(
+                    props_struct["value"], unwrap_output_values=unwrap_output_values
+                )
+            )
         if props_struct[_special_sig_key] == _special_resource_sig:
             return deserialize_resource(props_struct, keep_unknowns)
         if props_struct[_special_sig_key] == _special_output_value_sig:
+            if unwrap_output_values:
+                value = deserialize_property(
+                    props_struct["value"] if "value" in props_struct else UNKNOWN,
+                    keep_unknowns,
+                    unwrap_output_values,
+                )
+                is_secret = "secret" in props_struct and props_struct["secret"] is True
+                return wrap_rpc_secret(value) if is_secret else value
             return deserialize_output_value(props_struct)
         raise AssertionError(
             "Unrecognized signature when unmarshalling resource property"
@@ -561,7 +582,7 @@ def deserialize_properties(
         if not keep_internal and k.startswith("__") and k != "__provider":
             continue
 
-        value = deserialize_property(v, keep_unknowns)
+        value = deserialize_property(v, keep_unknowns, unwrap_output_values)
         # We treat values that deserialize to "None" as if they don't exist.
         if value is not None:
             output[k] = value
@@ -673,10 +694,17 @@ def unwrap_rpc_secret(value: Any) -> Any:
     return value
 
 
-def deserialize_property(value: Any, keep_unknowns: Optional[bool] = None) -> Any:
+def deserialize_property(
+    value: Any,
+    keep_unknowns: Optional[bool] = None,
+    unwrap_output_values: bool = False,
+) -> Any:
     """
     Deserializes a single protobuf value (either `Struct` or `ListValue`) into idiomatic
     Python values.
+
+    If `unwrap_output_values` is true, output values are deserialized as the plain, secret or unknown
+    values they carry rather than as `Output`s.
     """
     from ..output import Unknown  # pylint: disable=import-outside-toplevel
 
@@ -686,7 +714,10 @@ def deserialize_property(value: Any, keep_unknowns: Optional[bool] = None) -> An
     # ListValues are projected to lists
     if isinstance(value, struct_pb2.ListValue):
         # values has no __iter__ defined but this works.
-        values = [deserialize_property(v, keep_unknowns) for v in value]  # type: ignore
+        values = [
+            deserialize_property(v, keep_unknowns, unwrap_output_values)
+            for v in value  # type: ignore
+        ]
         # If there are any secret values in the list, push the secretness "up" a level by returning
         # an array that is marked as a secret with raw values inside.
         if any(is_rpc_secret(v) for v in values):
@@ -696,7 +727,9 @@ def deserialize_property(value: Any, keep_unknowns: Optional[bool] = None) -> An
 
     # Structs are projected to dictionaries
     if isinstance(value, struct_pb2.Struct):
-        props = deserialize_properties(value, keep_unknowns)
+        props = deserialize_properties(
+            value, keep_unknowns, unwrap_output_values=unwrap_output_values
+        )
         # If there are any secret values in the dictionary, push the secretness "up" a level by returning
         # a dictionary that is marked as a secret with raw values inside. Note: the isinstance check here is
         # important, since deserialize_properties will return either a dictionary or a concret type (in the case of
@@ -1051,9 +1084,9 @@ def resolve_outputs(
             translated_key = translate(key)
             if translated_key not in all_properties:
                 # input prop the engine didn't give us a final value for.Just use the value passed into the resource by
-                # the user.
+                # the user. Inputs of remote components are sent as output values: use the values these carry.
                 all_properties[translated_key] = translate_output_properties(
-                    deserialize_property(value),
+                    deserialize_property(value, unwrap_output_values=True),
                     translate_to_pass,
                     types.get(key),
                     transform_using_type_metadata,
-- 
2.43.0


From 752b8c48781f5ef0a10ad7b8ffd2229cbf31fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:19 +0000
Subject: [PATCH 05/51] fix: component providers can construct components that
 have a parent

---
 sdk/python/lib/pulumi/resource.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 33f7923..de76ed0 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -823,6 +823,12 @@ class Resource:
         if dependency:
             self._protect = False
             self._providers = {}
+            # Dependency resources may be used as parents, e.g. when a component provider is asked to construct a
+            # component that has a parent.
+            self._name = name
+            self._transformations = []
+            self._aliases = []
+            self._childResources = set()
             return
 
         if props is None:
-- 
2.43.0


From 1ce0b8db3b3e51c61f13423995d19e0c9610b3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:05 +0000
Subject: [PATCH 06/51] fix: reading or getting a resource no longer hangs when
 its response cannot be processed

---
 sdk/python/lib/pulumi/runtime/resource.py | 80 +++++++++++++++--------
 1 file changed, 52 insertions(+), 28 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index b2025eb..40054ce 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -272,26 +272,42 @@ def get_resource(
                 resolve_id(None, True, False, exn)
             raise
 
-        # Otherwise, grab the URN, ID, and output properties and resolve all of them.
-        resp = getattr(resp, "return")
-
-        log.debug(f"getResource completed successfully: ty={ty}, urn={resp['urn']}")
-        resolve_urn(resp["urn"], True, False, None)
-        if resolve_id:
-            # The ID is known if (and only if) it is a non-empty string. If it's either None or an
-            # empty string, we should treat it as unknown. TFBridge in particular is known to send
-            # the empty string as an ID when doing a preview.
-            is_known = bool(resp["id"])
-            resolve_id(resp["id"], is_known, False, None)
-
-        rpc.resolve_outputs(
-            res,
-            resolver.serialized_props,
-            resp["state"],
-            {},
-            resolvers,
-            transform_using_type_metadata,
-        )
+        # Otherwise, grab the URN, ID, and output properties and resolve all of them. As in
+        # `register_resource`, a failure to process the response fails the outputs that are not
+        # resolved yet rather than leaving them (and the program) hanging.
+        resolve_urn_called = False
+        resolve_id_called = False
+
+        try:
+            resp = getattr(resp, "return")
+
+            log.debug(f"getResource completed successfully: ty={ty}, urn={resp['urn']}")
+            resolve_urn(resp["urn"], True, False, None)
+            resolve_urn_called = True
+            if resolve_id:
+                # The ID is known if (and only if) it is a non-empty string. If it's either None or an
+                # empty string, we should treat it as unknown. TFBridge in particular is known to send
+                # the empty string as an ID when doing a preview.
+                is_known = bool(resp["id"])
+                resolve_id(resp["id"], is_known, False, None)
+                resolve_id_called = True
+
+            rpc.resolve_outputs(
+                res,
+                resolver.serialized_props,
+                resp["state"],
+                {},
+                resolvers,
+                transform_using_type_metadata,
+            )
+        except Exception as exn:
+            log.debug(f"exception after executing rpc: {traceback.format_exc()}")
+            rpc.resolve_outputs_due_to_exception(resolvers, exn)
+            if not resolve_urn_called:
+                resolve_urn(None, True, False, exn)
+            if resolve_id is not None and not resolve_id_called:
+                resolve_id(None, True, False, exn)
+            raise
 
     asyncio.ensure_future(RPC_MANAGER.do_rpc("get resource", do_get)())
 
@@ -454,14 +470,22 @@ def read_resource(
         log.debug(f"resource read successful: ty={ty}, urn={resp.urn}")
         resolve_urn(resp.urn, True, False, None)
         resolve_id(resolved_id, True, False, None)  # Read IDs are always known.
-        rpc.resolve_outputs(
-            res,
-            resolver.serialized_props,
-            resp.properties,
-            {},
-            resolvers,
-            transform_using_type_metadata,
-        )
+
+        # As in `register_resource`, a failure to process the response fails the outputs rather than
+        # leaving them (and the program) hanging.
+        try:
+            rpc.resolve_outputs(
+                res,
+                resolver.serialized_props,
+                resp.properties,
+                {},
+                resolvers,
+                transform_using_type_metadata,
+            )
+        except Exception as exn:
+            log.debug(f"exception after executing rpc: {traceback.format_exc()}")
+            rpc.resolve_outputs_due_to_exception(resolvers, exn)
+            raise
 
     asyncio.ensure_future(RPC_MANAGER.do_rpc("read resource", do_read)())
 
-- 
2.43.0


From 5cc6c324cb617500dc2748f3aa229a40fd3fecbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:23 +0000
Subject: [PATCH 07/51] fix: a program no longer succeeds when an apply nested
 in another apply failed or has not run yet

---
 sdk/python/lib/pulumi/output.py              | 14 ++++++++++++--
 sdk/python/lib/pulumi/runtime/rpc_manager.py | 14 ++++++++++++++
 sdk/python/lib/pulumi/runtime/stack.py       | 14 +++++++++++---
 3 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index 45f3a4a..06becbe 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -35,6 +35,7 @@ from typing import (
 from . import _types
 from . import runtime
 from .runtime import rpc
+from .runtime.rpc_manager import RPC_MANAGER
 
 if TYPE_CHECKING:
     from .resource import Resource
@@ -192,7 +193,12 @@ class Output(Generic[T_co]):
                     ):
                         value = cast(T_co, UNKNOWN)
 
-                transformed: Input[U] = func(value)
+                try:
+                    transformed: Input[U] = func(value)
+                except Exception as exn:
+                    RPC_MANAGER.apply_failed(exn)
+                    raise
+
                 # Transformed is an Input, meaning there are three cases:
                 #  1. transformed is an Output[U]
                 if isinstance(transformed, Output):
@@ -212,7 +218,11 @@ class Output(Generic[T_co]):
                     result_resources.set_result(resources)
                     result_is_known.set_result(True)
                     result_is_secret.set_result(is_secret)
-                    return await cast(Awaitable[U], transformed)
+                    try:
+                        return await cast(Awaitable[U], transformed)
+                    except Exception as exn:
+                        RPC_MANAGER.apply_failed(exn)
+                        raise
 
                 #  3. transformed is U. It is trivially known.
                 result_resources.set_result(resources)
diff --git a/sdk/python/lib/pulumi/runtime/rpc_manager.py b/sdk/python/lib/pulumi/runtime/rpc_manager.py
index 11d1d26..31f130f 100644
--- a/sdk/python/lib/pulumi/runtime/rpc_manager.py
+++ b/sdk/python/lib/pulumi/runtime/rpc_manager.py
@@ -41,6 +41,11 @@ class RPCManager:
     The traceback associated with unhandled_exception, if any.
     """
 
+    unhandled_apply_exception: Optional[Exception]
+    """
+    The first exception raised by an apply, if any occurs.
+    """
+
     def __init__(self):
         self.clear()
 
@@ -80,11 +85,20 @@ class RPCManager:
 
         return rpc_wrapper
 
+    def apply_failed(self, exn: Exception) -> None:
+        """
+        Records that an apply raised an exception, so that the program fails even if the apply's task is
+        finished by the time outstanding tasks are awaited.
+        """
+        if self.unhandled_apply_exception is None:
+            self.unhandled_apply_exception = exn
+
     def clear(self) -> None:
         """Clears any tracked state."""
         self.rpcs = []
         self.exception_traceback = None
         self.unhandled_exception = None
+        self.unhandled_apply_exception = None
 
 
 RPC_MANAGER: RPCManager = RPCManager()
diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index b789241..8d6de41 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -45,6 +45,8 @@ def _get_running_tasks() -> List[asyncio.Task]:
 
 
 async def run_pulumi_func(func: Callable):
+    # Applies that failed before this function runs are of no concern to it.
+    RPC_MANAGER.unhandled_apply_exception = None
     try:
         func()
     finally:
@@ -111,9 +113,15 @@ async def wait_for_rpcs(await_all_outstanding_tasks=True) -> None:
 
                 log.debug("All outstanding tasks completed.")
 
-        # Check to see if any more RPCs have been scheduled, and repeat the cycle if so.
-        # Break if no RPCs remain.
-        if len(RPC_MANAGER.rpcs) == 0:
+            # The tasks we awaited may have started further applies that have already failed.
+            if RPC_MANAGER.unhandled_apply_exception is not None:
+                raise RPC_MANAGER.unhandled_apply_exception
+
+        # Check to see if any more RPCs or tasks have been scheduled, and repeat the cycle if so.
+        # Break if none remain.
+        if len(RPC_MANAGER.rpcs) == 0 and not (
+            await_all_outstanding_tasks and _get_running_tasks()
+        ):
             break
 
 
-- 
2.43.0


From a444f989c3d2540cadc213a17b95d5c349f327a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:58 +0000
Subject: [PATCH 08/51] fix: a remote component is given all of its providers,
 not only the one for its own package

---
 sdk/python/lib/pulumi/runtime/resource.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 40054ce..9697ac0 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -772,18 +772,15 @@ def convert_providers(
     """
     Merge all providers opts (opts.provider and both list and dict forms of opts.providers) into a single dict.
     """
-    if provider is not None:
-        return convert_providers(None, [provider])
-
-    if providers is None:
-        return {}
-
+    result: Dict[str, "ProviderResource"] = {}
     if isinstance(providers, Mapping):
-        return providers
+        result.update(providers)
+    elif providers is not None:
+        for p in providers:
+            result[p.package] = p
 
-    result = {}
-    for p in providers:
-        result[p.package] = p
+    if provider is not None:
+        result[provider.package] = provider
 
     return result
 
-- 
2.43.0


From 6251c856164845c2c9aca0584f153a7a8f7861c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 09/51] fix: a child of a local component that is passed an
 output depending on that component no longer waits for itself

---
 sdk/python/lib/pulumi/runtime/resource.py |  1 +
 sdk/python/lib/pulumi/runtime/rpc.py      | 41 ++++++++++++++++++++---
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 9697ac0..5f00ab2 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -127,6 +127,7 @@ async def prepare_resource(
         translate,
         typ,
         keep_output_values=remote,
+        from_resource=res,
     )
 
     # Wait for our parent to resolve
diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index d51ff2e..8590fec 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -166,6 +166,7 @@ async def serialize_properties(
     input_transformer: Optional[Callable[[str], str]] = None,
     typ: Optional[type] = None,
     keep_output_values: Optional[bool] = None,
+    from_resource: Optional["Resource"] = None,
 ) -> struct_pb2.Struct:
     """
     Serializes an arbitrary Input bag into a Protobuf structure, keeping track of the list
@@ -182,6 +183,9 @@ async def serialize_properties(
     :param Dict[str, List[Resource]] property_deps: Dependencies are set here.
 
     :param input_transfomer: Optional name translator.
+
+    :param Optional[Resource] from_resource: The resource whose inputs are being serialized, if any. It is never waited
+    for when expanding the dependencies of output values.
     """
 
     # Default implementation of get_type that always returns None.
@@ -205,7 +209,12 @@ async def serialize_properties(
         v = inputs[k]
         deps: List["Resource"] = []
         result = await serialize_property(
-            v, deps, input_transformer, get_type(k), keep_output_values
+            v,
+            deps,
+            input_transformer,
+            get_type(k),
+            keep_output_values,
+            from_resource,
         )
         # We treat properties that serialize to None as if they don't exist.
         if result is not None:
@@ -232,6 +241,7 @@ async def serialize_property(
     input_transformer: Optional[Callable[[str], str]] = None,
     typ: Optional[type] = None,
     keep_output_values: Optional[bool] = None,
+    from_resource: Optional["Resource"] = None,
 ) -> Any:
     """
     Serializes a single Input into a form suitable for remoting to the engine, awaiting
@@ -241,6 +251,9 @@ async def serialize_property(
     names to Pulumi camelCase names, rather than using the `input_transformer`.
 
     If `keep_output_values` is true and the monitor supports output values, they will be kept.
+
+    When `from_resource` is specified, the value is an input of that resource, which therefore is not waited for when
+    expanding the dependencies of output values.
     """
 
     # Set typ to T if it's Optional[T], Input[T], or InputType[T].
@@ -261,7 +274,12 @@ async def serialize_property(
         for elem in value:
             props.append(
                 await serialize_property(
-                    elem, deps, input_transformer, element_type, keep_output_values
+                    elem,
+                    deps,
+                    input_transformer,
+                    element_type,
+                    keep_output_values,
+                    from_resource,
                 )
             )
 
@@ -360,7 +378,12 @@ async def serialize_property(
         awaitable = cast("Any", value)
         future_return = await asyncio.ensure_future(awaitable)
         return await serialize_property(
-            future_return, deps, input_transformer, typ, keep_output_values
+            future_return,
+            deps,
+            input_transformer,
+            typ,
+            keep_output_values,
+            from_resource,
         )
 
     if known_types.is_output(value):
@@ -395,7 +418,9 @@ async def serialize_property(
             promise_deps.extend(set(urn_deps))
             value_resources.update(urn_deps)
 
-            dependencies = await _expand_dependencies(value_resources, None)
+            dependencies = await _expand_dependencies(
+                value_resources, from_resource
+            )
 
             output_value: Dict[str, Any] = {_special_sig_key: _special_output_value_sig}
 
@@ -424,7 +449,12 @@ async def serialize_property(
 
         return {
             k: await serialize_property(
-                v, deps, input_transformer, types.get(k), keep_output_values
+                v,
+                deps,
+                input_transformer,
+                types.get(k),
+                keep_output_values,
+                from_resource,
             )
             for k, v in value.items()
         }
@@ -480,6 +510,7 @@ async def serialize_property(
                 input_transformer,
                 get_type(transformed_key),
                 keep_output_values,
+                from_resource,
             )
 
         return obj
-- 
2.43.0


From 1762f15f7b4c57e34939b02eb2772232feba8250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 10/51] fix: adding a child to a component while its children
 are awaited no longer fails the program

---
 sdk/python/lib/pulumi/runtime/resource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 5f00ab2..6cbf99d 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -822,7 +822,8 @@ async def _add_dependency(
     from .. import ComponentResource  # pylint: disable=import-outside-toplevel
 
     if isinstance(res, ComponentResource) and not res._remote:
-        for child in res._childResources:
+        # Iterate over a copy, as children may be added while we await their URNs.
+        for child in list(res._childResources):
             await _add_dependency(deps, child, from_resource)
         return
 
-- 
2.43.0


From b7eed482ca7e6dae3d952f865d7af2c811df7b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:27 +0000
Subject: [PATCH 11/51] fix: a component constructed by a provider is parented
 to the parent it was given

---
 sdk/python/lib/pulumi/provider/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index 17315da..3f18882 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -162,7 +162,7 @@ class ProviderServicer(ResourceProviderServicer):
     @staticmethod
     def _construct_options(request: proto.ConstructRequest) -> pulumi.ResourceOptions:
         parent = None
-        if not _empty_as_none(request.parent):
+        if _empty_as_none(request.parent) is not None:
             parent = DependencyResource(request.parent)
         return pulumi.ResourceOptions(
             aliases=list(request.aliases),
-- 
2.43.0


From 06e5a8d6d966478acfd997748b0b8c6f6180b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:33 +0000
Subject: [PATCH 12/51] fix: a provider's method call waits for the resources
 it just created, and fails if they do

---
 sdk/python/lib/pulumi/runtime/stack.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index 8d6de41..cc71431 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -59,6 +59,9 @@ async def run_pulumi_func(func: Callable):
 async def wait_for_rpcs(await_all_outstanding_tasks=True) -> None:
     log.debug("Waiting for outstanding RPCs to complete")
 
+    # RPCs that were just queued up are not tracked until their tasks have started.
+    await asyncio.sleep(0)
+
     while True:
         # Pump the event loop, giving all of the RPCs that we just queued up time to fully execute.
         # The asyncio scheduler does not expose a "yield" primitive, so this will have to do.
-- 
2.43.0


From cc0cb8d59ce8867bd262cff3649ad5b60ed3d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:33 +0000
Subject: [PATCH 13/51] fix: children of a component inherit its explicit
 provider for that provider's package only

---
 sdk/python/lib/pulumi/resource.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index de76ed0..1af1f1d 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -989,14 +989,16 @@ class Resource:
 
         provider = opts.provider or ambient_provider or parent_provider
 
-        if pkg and opts.provider:
-            if pkg in opts_providers:
-                message = f"There is a conflict between the `provider` field ({pkg}) and a member of the `providers` map"
+        if opts.provider:
+            # Children inherit the provider for its own package, which may differ from the package of this resource.
+            provider_pkg = opts.provider.package
+            if provider_pkg in opts_providers:
+                message = f"There is a conflict between the `provider` field ({provider_pkg}) and a member of the `providers` map"
                 depreciation = "This will become an error by the end of July 2022. See https://github.com/pulumi/pulumi/issues/8799 for more details"
                 warnings.warn(f"{message} for resource {t}. " + depreciation)
                 log.warn(f"{message}. {depreciation}", resource=self)
             else:
-                opts_providers[pkg] = opts.provider
+                opts_providers[provider_pkg] = opts.provider
 
         # opts_providers takes priority over self._providers
         providers = {**self._providers, **opts_providers}
-- 
2.43.0


From 207a3b392ad6d2cbadf71c64de26beb0f8520103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:52 +0000
Subject: [PATCH 14/51] fix: merging options keeps tuples, an earlier version,
 and everything when merges are chained

---
 sdk/python/lib/pulumi/invoke.py   | 5 ++++-
 sdk/python/lib/pulumi/resource.py | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/invoke.py b/sdk/python/lib/pulumi/invoke.py
index 625271b..153c7e6 100644
--- a/sdk/python/lib/pulumi/invoke.py
+++ b/sdk/python/lib/pulumi/invoke.py
@@ -115,6 +115,8 @@ class InvokeOptions:
             raise TypeError("Expected opts2 to be a InvokeOptions instance")
 
         dest = copy.copy(opts1)
+        # The copy would otherwise share the bound `merge` of `opts1`.
+        dest.merge = dest._merge_instance  # type: ignore
         source = opts2
 
         dest.parent = dest.parent if source.parent is None else source.parent
@@ -124,6 +126,7 @@ class InvokeOptions:
             if source.plugin_download_url is None
             else source.plugin_download_url
         )
-        dest.version = dest.version if source.version is None else source.version
+        # The version is an empty string unless given.
+        dest.version = source.version or dest.version
 
         return dest
diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 1af1f1d..47d429a 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -643,6 +643,8 @@ class ResourceOptions:
             raise TypeError("Expected opts2 to be a ResourceOptions instance")
 
         dest = copy.copy(opts1)
+        # The copy would otherwise share the bound `merge` of `opts1`.
+        dest.merge = dest._merge_instance  # type: ignore
         source = copy.copy(opts2)
 
         # This makes merging simple.
@@ -654,7 +656,7 @@ class ResourceOptions:
                         warnings.warn(message, UserWarning)
                         log.warn(message)
                 return list(providers.values())
-            return providers
+            return list(providers) if providers is not None else None
 
         dest_providers = expand_providers(dest.providers)
         source_providers = expand_providers(source.providers)
@@ -741,7 +743,7 @@ def _merge_lists(dest, source):
     if source is None:
         return dest
 
-    return dest + source
+    return [*dest, *source]
 
 
 # !!! IMPORTANT !!! If you add a new attribute to this type, make sure to verify that ResourceOptions.merge
-- 
2.43.0


From 3816883f48655008b4ce879f2ec091030077626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:17 +0000
Subject: [PATCH 15/51] fix: a component provider's answer waits for resources
 created by pending applies

---
 sdk/python/lib/pulumi/output.py              |  1 +
 sdk/python/lib/pulumi/runtime/rpc_manager.py | 16 +++++++++++++++-
 sdk/python/lib/pulumi/runtime/stack.py       |  5 +++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index 06becbe..5f637ac 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -240,6 +240,7 @@ class Output(Generic[T_co]):
                     result_is_secret.set_result(False)
 
         run_fut = asyncio.ensure_future(run())
+        RPC_MANAGER.apply_started(run_fut)
         return Output(result_resources, run_fut, result_is_known, result_is_secret)
 
     def __getattr__(self, item: str) -> "Output[Any]":  # type: ignore
diff --git a/sdk/python/lib/pulumi/runtime/rpc_manager.py b/sdk/python/lib/pulumi/runtime/rpc_manager.py
index 31f130f..71b4bd5 100644
--- a/sdk/python/lib/pulumi/runtime/rpc_manager.py
+++ b/sdk/python/lib/pulumi/runtime/rpc_manager.py
@@ -14,7 +14,7 @@
 import asyncio
 import sys
 import traceback
-from typing import Callable, Awaitable, Tuple, Any, Optional, List
+from typing import Callable, Awaitable, Tuple, Any, Optional, List, Set
 from .. import log
 
 
@@ -31,6 +31,11 @@ class RPCManager:
     The active RPCs.
     """
 
+    applies: Set[asyncio.Future]
+    """
+    The applies that have not finished yet.
+    """
+
     unhandled_exception: Optional[Exception]
     """
     The first unhandled exception encountered during an RPC, if any occurs.
@@ -85,6 +90,14 @@ class RPCManager:
 
         return rpc_wrapper
 
+    def apply_started(self, apply: asyncio.Future) -> None:
+        """
+        Keeps track of an apply until it has finished, because it may start further RPCs.
+        """
+        applies = self.applies
+        applies.add(apply)
+        apply.add_done_callback(applies.discard)
+
     def apply_failed(self, exn: Exception) -> None:
         """
         Records that an apply raised an exception, so that the program fails even if the apply's task is
@@ -96,6 +109,7 @@ class RPCManager:
     def clear(self) -> None:
         """Clears any tracked state."""
         self.rpcs = []
+        self.applies = set()
         self.exception_traceback = None
         self.unhandled_exception = None
         self.unhandled_apply_exception = None
diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index cc71431..cda69ff 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -120,6 +120,11 @@ async def wait_for_rpcs(await_all_outstanding_tasks=True) -> None:
             if RPC_MANAGER.unhandled_apply_exception is not None:
                 raise RPC_MANAGER.unhandled_apply_exception
 
+        elif RPC_MANAGER.applies:
+            # Applies that have not finished yet may still start RPCs (a failed apply is not an error here).
+            await asyncio.wait(RPC_MANAGER.applies)
+            continue
+
         # Check to see if any more RPCs or tasks have been scheduled, and repeat the cycle if so.
         # Break if none remain.
         if len(RPC_MANAGER.rpcs) == 0 and not (
-- 
2.43.0


From 4dd8d429ec3b5541111b5ab94c8b4fc62fff2f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 16/51] fix: urns of children of the stack omit its type, and
 alias projects and stacks may be outputs

---
 sdk/python/lib/pulumi/resource.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 47d429a..4bbe265 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -1248,14 +1248,24 @@ def create_urn(
     name: "Input[str]",
     type_: "Input[str]",
     parent: Optional[Union["Resource", "Input[str]"]] = None,
-    project: str = None,
-    stack: str = None,
+    project: "Input[str]" = None,
+    stack: "Input[str]" = None,
 ) -> "Output[str]":
     """
     create_urn computes a URN from the combination of a resource name, resource type, optional
     parent, optional project and optional stack.
     """
     parent_prefix: Optional[Output[str]] = None
+
+    def root_prefix() -> "Output[str]":
+        return Output.concat(
+            "urn:pulumi:",
+            stack if stack is not None else get_stack(),
+            "::",
+            project if project is not None else get_project(),
+            "::",
+        )
+
     if parent is not None:
         parent_urn = None
         if isinstance(parent, Resource):
@@ -1263,15 +1273,16 @@ def create_urn(
         else:
             parent_urn = Output.from_input(parent)
 
-        parent_prefix = parent_urn.apply(lambda u: u[0 : u.rfind("::")] + "$")
-    else:
-        if stack is None:
-            stack = get_stack()
-
-        if project is None:
-            project = get_project()
+        def prefix(u: str) -> "Union[str, Output[str]]":
+            parent_prefix = u[0 : u.rfind("::")] + "$"
+            if parent_prefix.endswith("::pulumi:pulumi:Stack$"):
+                # The type of the stack is not part of the URNs of its children.
+                return root_prefix()
+            return parent_prefix
 
-        parent_prefix = Output.from_input("urn:pulumi:" + stack + "::" + project + "::")
+        parent_prefix = parent_urn.apply(prefix)
+    else:
+        parent_prefix = root_prefix()
 
     all_args = [parent_prefix, type_, name]
     # invariant http://mypy.readthedocs.io/en/latest/common_issues.html#variance
-- 
2.43.0


From 7ca0ba7056eb00fafa98806da81c73bda0c474c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:05 +0000
Subject: [PATCH 17/51] fix: an invoke no longer stores its parent's provider
 in the caller's options

---
 sdk/python/lib/pulumi/runtime/invoke.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/invoke.py b/sdk/python/lib/pulumi/runtime/invoke.py
index de852e4..ccac103 100644
--- a/sdk/python/lib/pulumi/runtime/invoke.py
+++ b/sdk/python/lib/pulumi/runtime/invoke.py
@@ -70,14 +70,16 @@ def invoke(
 
     async def do_invoke():
         # If a parent was provided, but no provider was provided, use the parent's provider if one was specified.
-        if opts.parent is not None and opts.provider is None:
-            opts.provider = opts.parent.get_provider(tok)
+        # The options are not modified, as they may be used for further invokes (of functions of other packages).
+        provider = opts.provider
+        if opts.parent is not None and provider is None:
+            provider = opts.parent.get_provider(tok)
 
         # Construct a provider reference from the given provider, if one was provided to us.
         provider_ref = None
-        if opts.provider is not None:
-            provider_urn = await opts.provider.urn.future()
-            provider_id = (await opts.provider.id.future()) or rpc.UNKNOWN
+        if provider is not None:
+            provider_urn = await provider.urn.future()
+            provider_id = (await provider.id.future()) or rpc.UNKNOWN
             provider_ref = f"{provider_urn}::{provider_id}"
             log.debug(f"Invoke using provider {provider_ref}")
 
-- 
2.43.0


From a786b75373d437735bca8b66078c113a3b854865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 18/51] fix: export an object that appears more than once in
 the stack outputs in full each time

---
 sdk/python/lib/pulumi/runtime/stack.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index cda69ff..c58e6f0 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -190,8 +190,8 @@ def massage(attr: Any, seen: List[Any]):
     if is_primitive(attr):
         return attr
 
-    # from this point on, we have complex objects.  If we see them again, we don't want to emit them
-    # again fully or else we'd loop infinitely.
+    # from this point on, we have complex objects.  If we see them again within themselves, we don't want to
+    # emit them again fully or else we'd loop infinitely.
     if reference_contains(attr, seen):
         # Note: for Resources we hit again, emit their urn so cycles can be easily understood in
         # the popo objects.
@@ -201,7 +201,8 @@ def massage(attr: Any, seen: List[Any]):
         # otherwise just emit as nothing to stop the looping.
         return None
 
-    seen.append(attr)
+    # Only the enclosing objects matter here: the same object may appear more than once without being recursive.
+    seen = seen + [attr]
 
     # first check if the value is an actual dictionary.  If so, massage the values of it to deeply
     # make sure this is a popo.
-- 
2.43.0


From 28a3f5608861e1f3db5bc23d1c80dc03d12880df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 19/51] fix: export numeric enum members as their value

---
 sdk/python/lib/pulumi/runtime/stack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index c58e6f0..d0c838b 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -253,7 +253,8 @@ def is_primitive(attr: Any) -> bool:
     if attr is None:
         return True
 
-    if isinstance(attr, str):
+    # This includes the members of enums that are strings or numbers.
+    if isinstance(attr, (str, int, float)):
         return True
 
     # dictionaries, lists and dictionary-like things are not primitive.
-- 
2.43.0


From 1b43b04fdadbd2db5f1345610dd6d1bfebd067ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 20/51] fix: massage the values of exported coroutines

---
 sdk/python/lib/pulumi/runtime/stack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index d0c838b..73a95a5 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -261,7 +261,8 @@ def is_primitive(attr: Any) -> bool:
     if isinstance(attr, dict):
         return False
 
-    if hasattr(attr, "__dict__"):
+    # coroutines are neither iterable nor do they have attributes, but they do produce a value.
+    if hasattr(attr, "__dict__") or isawaitable(attr):
         return False
 
     try:
-- 
2.43.0


From efa59f5ed8eaacbab31c220e4d4b936b5eb32715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 21/51] fix: an output type that is not a dictionary is unknown
 when one of its properties is

---
 sdk/python/lib/pulumi/runtime/rpc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index 8590fec..ac809fa 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -1054,6 +1054,9 @@ def contains_unknowns(val: Any) -> bool:
                 return any((impl(val[k], stack) for k in val))
             if isinstance(val, list):
                 return any((impl(x, stack) for x in val))
+            # Output types need not be dictionaries.
+            if _types.is_output_type(type(val)):
+                return any((impl(x, stack) for x in val.__dict__.values()))
         return False
 
     return impl(val, [])
-- 
2.43.0


From 1087b9f866c7b630b934be5005985b22ea46e6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 22/51] fix: pass the log verbosity to the CLI as text

---
 sdk/python/lib/pulumi/automation/_stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index 01816aa..e2c5c6a 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -771,7 +771,7 @@ def _parse_extra_args(**kwargs) -> List[str]:
     if log_flow:
         extra_args.extend(["--logflow"])
     if log_verbosity:
-        extra_args.extend(["--verbose", log_verbosity])
+        extra_args.extend(["--verbose", str(log_verbosity)])
     if log_to_std_err:
         extra_args.extend(["--logtostderr"])
     if tracing:
-- 
2.43.0


From 950eb7e91f449dd51d66ba1a340190eb053db184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 23/51] fix: remove the state file when importing a stack fails

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 84e6837..399d275 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -348,10 +348,12 @@ class LocalWorkspace(Workspace):
     def import_stack(self, stack_name: str, state: Deployment) -> None:
         with tempfile.NamedTemporaryFile(mode="w", delete=False) as file:
             json.dump(state.__dict__, file, indent=4)
-        self._run_pulumi_cmd_sync(
-            ["stack", "import", "--file", file.name, "--stack", stack_name]
-        )
-        os.remove(file.name)
+        try:
+            self._run_pulumi_cmd_sync(
+                ["stack", "import", "--file", file.name, "--stack", stack_name]
+            )
+        finally:
+            os.remove(file.name)
 
     def stack_outputs(self, stack_name: str) -> OutputMap:
         masked_result = self._run_pulumi_cmd_sync(
-- 
2.43.0


From fe93affa03d2298de33e3910da963f3e547cd117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 24/51] fix: read stream ids, policy resources and detailed
 diffs of engine events

---
 sdk/python/lib/pulumi/automation/events.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/events.py b/sdk/python/lib/pulumi/automation/events.py
index 9afae4e..fad54b4 100644
--- a/sdk/python/lib/pulumi/automation/events.py
+++ b/sdk/python/lib/pulumi/automation/events.py
@@ -132,7 +132,7 @@ class DiagnosticEvent(BaseEvent):
             message=data.get("message", ""),
             color=data.get("color", ""),
             severity=data.get("severity", ""),
-            stream_id=data.get("streamId"),
+            stream_id=data.get("streamID"),
             ephemeral=data.get("ephemeral"),
             urn=data.get("urn"),
             prefix=data.get("prefix"),
@@ -193,7 +193,7 @@ class PolicyEvent(BaseEvent):
             policy_pack_version=data.get("policyPackVersion", ""),
             policy_pack_version_tag=data.get("policyPackVersionTag", ""),
             enforcement_level=data.get("enforcementLevel", ""),
-            resource_urn=data.get("resource_urn"),
+            resource_urn=data.get("resourceUrn"),
         )
 
 
@@ -437,6 +437,7 @@ class StepEventMetadata(BaseEvent):
     def from_json(cls, data: dict) -> "StepEventMetadata":
         old = data.get("old")
         new = data.get("new")
+        detailed_diff = data.get("detailedDiff")
 
         return cls(
             op=OpType(data.get("op", "")),
@@ -447,7 +448,11 @@ class StepEventMetadata(BaseEvent):
             new=StepEventStateMetadata.from_json(new) if new else None,
             keys=data.get("keys"),
             diffs=data.get("diffs"),
-            detailed_diff=data.get("detailed_diff"),
+            detailed_diff={
+                key: PropertyDiff.from_json(diff) for key, diff in detailed_diff.items()
+            }
+            if detailed_diff
+            else None,
             logical=data.get("logical"),
         )
 
-- 
2.43.0


From fd699fddb9bbee32e036c76a83ac5cf8774adecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 25/51] fix: read the history of updates in progress and with
 secrets left out

---
 sdk/python/lib/pulumi/automation/_stack.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index e2c5c6a..6fdb1d5 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -61,7 +61,7 @@ class UpdateSummary:
         config: Mapping[str, dict],
         # post-update info
         result: str,
-        end_time: datetime,
+        end_time: Optional[datetime] = None,
         version: Optional[int] = None,
         deployment: Optional[str] = None,
         resource_changes: Optional[OpMap] = None,
@@ -78,8 +78,9 @@ class UpdateSummary:
         self.config: ConfigMap = {}
         for key in config:
             config_value = config[key]
+            # Secret values are left out unless they are asked for.
             self.config[key] = ConfigValue(
-                value=config_value["value"], secret=config_value["secret"]
+                value=config_value.get("value"), secret=config_value["secret"]
             )
 
     def __repr__(self):
@@ -659,7 +660,10 @@ class Stack:
                 environment=summary_json["environment"],
                 config=summary_json["config"],
                 result=summary_json["result"],
-                end_time=datetime.strptime(summary_json["endTime"], _DATETIME_FORMAT),
+                # An update that is still in progress has no end time.
+                end_time=datetime.strptime(summary_json["endTime"], _DATETIME_FORMAT)
+                if "endTime" in summary_json
+                else None,
                 version=summary_json["version"] if "version" in summary_json else None,
                 deployment=summary_json["Deployment"]
                 if "Deployment" in summary_json
-- 
2.43.0


From 5c61101bbfabc5c3e24eb71a77bf95f66d624704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 26/51] fix: list plugins that were never used, and set their
 documented last_used_time

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 4 +++-
 sdk/python/lib/pulumi/automation/_workspace.py       | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 399d275..8adcf99 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -327,7 +327,9 @@ class LocalWorkspace(Workspace):
                 size=plugin_json["size"],
                 last_used_time=datetime.strptime(
                     plugin_json["lastUsedTime"], _DATETIME_FORMAT
-                ),
+                )
+                if "lastUsedTime" in plugin_json
+                else None,
                 install_time=datetime.strptime(
                     plugin_json["installTime"], _DATETIME_FORMAT
                 )
diff --git a/sdk/python/lib/pulumi/automation/_workspace.py b/sdk/python/lib/pulumi/automation/_workspace.py
index 2db0944..551d6bd 100644
--- a/sdk/python/lib/pulumi/automation/_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_workspace.py
@@ -64,7 +64,7 @@ class PluginInfo:
     name: str
     kind: str
     size: int
-    last_used_time: datetime
+    last_used_time: Optional[datetime]
     install_time: Optional[datetime]
     version: Optional[str]
 
@@ -73,7 +73,7 @@ class PluginInfo:
         name: str,
         kind: str,
         size: int,
-        last_used_time: datetime,
+        last_used_time: Optional[datetime] = None,
         install_time: Optional[datetime] = None,
         version: Optional[str] = None,
     ) -> None:
@@ -81,6 +81,7 @@ class PluginInfo:
         self.kind = kind
         self.size = size
         self.install_time = install_time
+        self.last_used_time = last_used_time
         self.last_used = last_used_time
         self.version = version
 
-- 
2.43.0


From 78b5878d1555ef6e8432e8a46e6c6e65276d31c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 27/51] fix: read event logs whole lines at a time, and stop
 when the command exits

---
 sdk/python/lib/pulumi/automation/_stack.py | 45 ++++++++++++++--------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index 6fdb1d5..4d725a2 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -288,12 +288,13 @@ class Stack:
         args.extend(["--exec-kind", kind])
 
         log_watcher_thread = None
+        stop_watching = threading.Event()
         temp_dir = None
         if on_event:
             log_file, temp_dir = _create_log_file("up")
             args.extend(["--event-log", log_file])
             log_watcher_thread = threading.Thread(
-                target=_watch_logs, args=(log_file, on_event)
+                target=_watch_logs, args=(log_file, on_event, stop_watching)
             )
             log_watcher_thread.start()
 
@@ -303,7 +304,7 @@ class Stack:
             summary = self.info(show_secrets)
             assert summary is not None
         finally:
-            _cleanup(temp_dir, log_watcher_thread, on_exit)
+            _cleanup(temp_dir, log_watcher_thread, stop_watching, on_exit)
 
         return UpResult(
             stdout=up_result.stdout,
@@ -410,15 +411,16 @@ class Stack:
                 on_event(event)
 
         # Start watching logs in a thread
+        stop_watching = threading.Event()
         log_watcher_thread = threading.Thread(
-            target=_watch_logs, args=(log_file, on_event_callback)
+            target=_watch_logs, args=(log_file, on_event_callback, stop_watching)
         )
         log_watcher_thread.start()
 
         try:
             preview_result = self._run_pulumi_cmd_sync(args, on_output)
         finally:
-            _cleanup(temp_dir, log_watcher_thread, on_exit)
+            _cleanup(temp_dir, log_watcher_thread, stop_watching, on_exit)
 
         if not summary_events:
             raise RuntimeError("summary event never found")
@@ -475,19 +477,20 @@ class Stack:
         args.extend(["--exec-kind", kind])
 
         log_watcher_thread = None
+        stop_watching = threading.Event()
         temp_dir = None
         if on_event:
             log_file, temp_dir = _create_log_file("refresh")
             args.extend(["--event-log", log_file])
             log_watcher_thread = threading.Thread(
-                target=_watch_logs, args=(log_file, on_event)
+                target=_watch_logs, args=(log_file, on_event, stop_watching)
             )
             log_watcher_thread.start()
 
         try:
             refresh_result = self._run_pulumi_cmd_sync(args, on_output)
         finally:
-            _cleanup(temp_dir, log_watcher_thread)
+            _cleanup(temp_dir, log_watcher_thread, stop_watching)
 
         summary = self.info(show_secrets)
         assert summary is not None
@@ -540,19 +543,20 @@ class Stack:
         args.extend(["--exec-kind", kind])
 
         log_watcher_thread = None
+        stop_watching = threading.Event()
         temp_dir = None
         if on_event:
             log_file, temp_dir = _create_log_file("destroy")
             args.extend(["--event-log", log_file])
             log_watcher_thread = threading.Thread(
-                target=_watch_logs, args=(log_file, on_event)
+                target=_watch_logs, args=(log_file, on_event, stop_watching)
             )
             log_watcher_thread.start()
 
         try:
             destroy_result = self._run_pulumi_cmd_sync(args, on_output)
         finally:
-            _cleanup(temp_dir, log_watcher_thread)
+            _cleanup(temp_dir, log_watcher_thread, stop_watching)
 
         summary = self.info(show_secrets)
         assert summary is not None
@@ -816,17 +820,24 @@ def _create_log_file(command: str) -> Tuple[str, tempfile.TemporaryDirectory]:
     return filepath, log_dir
 
 
-def _watch_logs(filename: str, callback: OnEvent):
-    with open(filename, encoding="utf-8") as f:
+def _watch_logs(filename: str, callback: OnEvent, stop: threading.Event):
+    with open(filename, "rb") as f:
+        line = b""
         while True:
-            line = f.readline()
-
-            # sleep if file hasn't been updated
-            if not line:
+            # Look at this first: nothing is written once the command has exited.
+            stopped = stop.is_set()
+            line += f.readline()
+
+            # sleep if the rest of the line has not been written yet
+            if not line.endswith(b"\n"):
+                # The command may exit without having written a cancel event.
+                if stopped:
+                    break
                 time.sleep(0.1)
                 continue
 
-            event = EngineEvent.from_json(json.loads(line))
+            event = EngineEvent.from_json(json.loads(line.decode("utf-8")))
+            line = b""
             callback(event)
 
             # if this is the cancel event, stop watching logs.
@@ -837,12 +848,14 @@ def _watch_logs(filename: str, callback: OnEvent):
 def _cleanup(
     temp_dir: Optional[tempfile.TemporaryDirectory],
     thread: Optional[threading.Thread],
+    stop_watching: threading.Event,
     on_exit_fn: Optional[Callable[[], None]] = None,
 ) -> None:
     # If there's an on_exit function, execute it (used in preview/up to shut down server)
     if on_exit_fn:
         on_exit_fn()
-    # If we started a thread to watch logs, wait for it to terminate, timing out after 5 seconds.
+    # If we started a thread to watch logs, let it read what was written and wait for it to terminate, timing out after 5 seconds.
+    stop_watching.set()
     if thread:
         thread.join(5)
     # If we created a temp_dir for the logs, clean up.
-- 
2.43.0


From fb20cb5430ae1d8f20f79105c8dd18301eede7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:41 +0000
Subject: [PATCH 28/51] fix: save project settings as plain data, and load any
 project file

---
 .../lib/pulumi/automation/_local_workspace.py |  8 +--
 .../pulumi/automation/_project_settings.py    | 51 +++++++++++++++++++
 2 files changed, 53 insertions(+), 6 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 8adcf99..d69dce7 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -146,11 +146,7 @@ class LocalWorkspace(Workspace):
                 found_ext = ext
                 break
         path = os.path.join(self.work_dir, f"Pulumi{found_ext}")
-        writable_settings = {
-            key: settings.__dict__[key]
-            for key in settings.__dict__
-            if settings.__dict__[key] is not None
-        }
+        writable_settings = settings._serialize()
         with open(path, "w", encoding="utf-8") as file:
             if found_ext == ".json":
                 json.dump(writable_settings, file, indent=4)
@@ -649,7 +645,7 @@ def _load_project_settings(work_dir: str) -> ProjectSettings:
             continue
         with open(project_path, "r", encoding="utf-8") as file:
             settings = json.load(file) if ext == ".json" else yaml.safe_load(file)
-            return ProjectSettings(**settings)
+            return ProjectSettings._deserialize(settings)
     raise FileNotFoundError(
         f"failed to find project settings file in workdir: {work_dir}"
     )
diff --git a/sdk/python/lib/pulumi/automation/_project_settings.py b/sdk/python/lib/pulumi/automation/_project_settings.py
index 33f70af..e88ddd2 100644
--- a/sdk/python/lib/pulumi/automation/_project_settings.py
+++ b/sdk/python/lib/pulumi/automation/_project_settings.py
@@ -15,6 +15,28 @@
 from typing import Optional, Mapping, Any, Union
 
 
+def _serialize(value: Any) -> Any:
+    """Returns the plain data to write to a project file, leaving out what is not set."""
+    if isinstance(value, _SETTINGS_TYPES):
+        value = {key: val for key, val in value.__dict__.items() if val is not None}
+    if isinstance(value, Mapping):
+        return {key: _serialize(val) for key, val in value.items()}
+    return value
+
+
+def _deserialize(cls: Any, data: Any) -> Any:
+    """Creates settings of the given class from the plain data of a project file."""
+    if not isinstance(data, Mapping):
+        return data
+    fields = {key: val for key, val in data.items() if key in cls.__annotations__}
+    settings = cls(**fields)
+    # Keep the settings that are only known to the CLI, such that they can be saved again.
+    for key, val in data.items():
+        if key not in fields:
+            setattr(settings, key, val)
+    return settings
+
+
 class ProjectRuntimeInfo:
     """A description of the Project's program runtime and associated metadata."""
 
@@ -121,3 +143,32 @@ class ProjectSettings:
         self.config = config
         self.template = template
         self.backend = backend
+
+    @classmethod
+    def _deserialize(cls, data: dict):
+        data = dict(data)
+        if "runtime" in data:
+            data["runtime"] = _deserialize(ProjectRuntimeInfo, data["runtime"])
+        if "template" in data:
+            template = _deserialize(ProjectTemplate, data["template"])
+            if isinstance(template, ProjectTemplate):
+                template.config = {
+                    key: _deserialize(ProjectTemplateConfigValue, val)
+                    for key, val in template.config.items()
+                }
+            data["template"] = template
+        if "backend" in data:
+            data["backend"] = _deserialize(ProjectBackend, data["backend"])
+        return _deserialize(cls, data)
+
+    def _serialize(self) -> dict:
+        return _serialize(self)
+
+
+_SETTINGS_TYPES = (
+    ProjectRuntimeInfo,
+    ProjectTemplateConfigValue,
+    ProjectTemplate,
+    ProjectBackend,
+    ProjectSettings,
+)
-- 
2.43.0


From 7b19db3308c87a7b544dcdddd3c850dee2d8f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:41 +0000
Subject: [PATCH 29/51] fix: load stack settings with configuration of any kind

---
 sdk/python/lib/pulumi/automation/_stack_settings.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack_settings.py b/sdk/python/lib/pulumi/automation/_stack_settings.py
index 6b467fa..a1f7e84 100644
--- a/sdk/python/lib/pulumi/automation/_stack_settings.py
+++ b/sdk/python/lib/pulumi/automation/_stack_settings.py
@@ -45,15 +45,16 @@ class StackSettings:
         self.config = config
 
     @classmethod
-    def _deserialize(cls, data: dict):
+    def _deserialize(cls, data: Optional[dict]):
+        data = data or {}
         config = data.get("config")
         if config is not None:
             stack_config: Dict[str, Any] = {}
             for key, val in config.items():
-                if isinstance(val, str):
-                    stack_config[key] = val
-                elif "secure" in val:
+                if isinstance(val, dict) and set(val) == {"secure"}:
                     stack_config[key] = StackSettingsSecureConfigValue(**val)
+                else:
+                    stack_config[key] = val
             config = stack_config
         return cls(
             secrets_provider=data.get("secretsprovider"),
-- 
2.43.0


From 42ff1983d5826cd5d549152dfc4679b3122edb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:41 +0000
Subject: [PATCH 30/51] fix: leave the workspace options of the caller alone

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index d69dce7..b1f6e10 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -15,6 +15,7 @@
 import os
 import tempfile
 import json
+from copy import copy
 from datetime import datetime
 from typing import Optional, List, Mapping, Callable
 from semver import VersionInfo
@@ -560,7 +561,8 @@ def _inline_source_stack_helper(
     init_fn: StackInitializer,
     opts: Optional[LocalWorkspaceOptions] = None,
 ):
-    workspace_options = opts or LocalWorkspaceOptions()
+    # Copy the options, which the caller may use again for another stack.
+    workspace_options = copy(opts) if opts else LocalWorkspaceOptions()
     workspace_options.program = program
 
     if not workspace_options.project_settings:
@@ -587,7 +589,7 @@ def _local_source_stack_helper(
     init_fn: StackInitializer,
     opts: Optional[LocalWorkspaceOptions] = None,
 ):
-    workspace_options = opts or LocalWorkspaceOptions()
+    workspace_options = copy(opts) if opts else LocalWorkspaceOptions()
     workspace_options.work_dir = work_dir
 
     ws = LocalWorkspace(**workspace_options.__dict__)
-- 
2.43.0


From 082fc5466044da275e1bd6063f55d08aacfe4a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 31/51] fix: restore the pickler after serializing a dynamic
 provider

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index b4374eb..76d5724 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -221,9 +221,16 @@ def serialize_provider(provider: ResourceProvider) -> str:
 
     # See: https://github.com/uqfoundation/dill/issues/481#issuecomment-1133789848
     unsorted_batch_setitems = pickle.Pickler._batch_setitems
+    unsorted_save_dict = pickle.Pickler.save_dict
 
     def batch_set_items_sorted(self, items):
-        unsorted_batch_setitems(self, sorted(items))
+        items = list(items)
+        try:
+            items = sorted(items)
+        except TypeError:
+            # Leave keys that cannot be compared in the order in which they were set.
+            pass
+        unsorted_batch_setitems(self, items)
 
     pickle.Pickler._batch_setitems = batch_set_items_sorted
 
@@ -244,6 +251,8 @@ def serialize_provider(provider: ResourceProvider) -> str:
         return base64.b64encode(byts).decode("utf-8")
     finally:
         # Restore the original pickler
+        pickle.Pickler._batch_setitems = unsorted_batch_setitems
+        pickle.Pickler.save_dict = unsorted_save_dict
         pickle.Pickler = old_pickler
 
 
-- 
2.43.0


From 5a505e5c992afd8c1b8a19af033bec95df5d51ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:42 +0000
Subject: [PATCH 32/51] fix: leave the properties given to a dynamic resource
 alone

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index 76d5724..4fd8ab6 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -286,7 +286,7 @@ class Resource(CustomResource):
         if PROVIDER_KEY in props:
             raise Exception("A dynamic resource must not define the __provider key")
 
-        props = cast(dict, props)
-        props[PROVIDER_KEY] = serialize_provider(provider)
+        # Copy the properties, which the caller may use again.
+        props = {**cast(dict, props), PROVIDER_KEY: serialize_provider(provider)}
 
         super().__init__(f"pulumi-python:{self._resource_type_name}", name, props, opts)
-- 
2.43.0


From f3f4331b54cf616e9822eeefe3c6f4009534c417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:42 +0000
Subject: [PATCH 33/51] fix: allow using dynamic resources without a subclass

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index 4fd8ab6..e65ac65 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -261,7 +261,7 @@ class Resource(CustomResource):
     Resource represents a Pulumi Resource that incorporates an inline implementation of the Resource's CRUD operations.
     """
 
-    _resource_type_name: ClassVar[str]
+    _resource_type_name: ClassVar[str] = "dynamic:Resource"
 
     def __init_subclass__(cls, module: str = "", name: str = "Resource"):
         if module:
-- 
2.43.0


From 35616ec4d8b1c494856f8721cb2e09241a65b9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:42 +0000
Subject: [PATCH 34/51] fix: let dynamic providers report that a resource is
 gone

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index 6940155..20ad332 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -173,7 +173,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
         props = rpc.deserialize_properties(request.properties)
         provider = get_provider(props)
         result = provider.read(id_, props)  # pylint: disable=no-member
-        outs = result.outs
+        outs = result.outs if result.outs is not None else {}
         outs[PROVIDER_KEY] = props[PROVIDER_KEY]
 
         loop = asyncio.new_event_loop()
-- 
2.43.0


From 92f68991086c9e0bc7a126ffd81c911b147f2985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:42 +0000
Subject: [PATCH 35/51] fix: report the stable properties of dynamic resources

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index 20ad332..472fe6c 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -82,6 +82,8 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
             ] = proto.DiffResponse.DIFF_UNKNOWN  # pylint: disable=no-member
         if result.replaces is not None:
             fields["replaces"] = result.replaces
+        if result.stables is not None:
+            fields["stables"] = result.stables
         if result.delete_before_replace is not None:
             fields["deleteBeforeReplace"] = result.delete_before_replace
         return proto.DiffResponse(**fields)
-- 
2.43.0


From 2f7e4580b1151943d333d4b94cd1468d4a124f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:42 +0000
Subject: [PATCH 36/51] fix: let the checks of dynamic providers leave out
 inputs and failures

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index 472fe6c..5a8bf1b 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -139,8 +139,8 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
             provider = get_provider(news)
 
         result = provider.check(olds, news)  # pylint: disable=no-member
-        inputs = result.inputs
-        failures = result.failures
+        inputs = result.inputs if result.inputs is not None else news
+        failures = result.failures if result.failures is not None else []
 
         inputs[PROVIDER_KEY] = news[PROVIDER_KEY]
 
-- 
2.43.0


From db2ef39eb8bed45c86e7fc4305e59649e3840b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:38 +0000
Subject: [PATCH 37/51] fix: use the old dynamic provider while the new one is
 not known

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index 5a8bf1b..4d687af 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -21,7 +21,7 @@ import time
 import dill
 import grpc
 from google.protobuf import empty_pb2
-from pulumi.runtime import proto, rpc
+from pulumi.runtime import known_types, proto, rpc
 from pulumi.runtime.proto import provider_pb2_grpc, ResourceProviderServicer
 from pulumi.dynamic import ResourceProvider
 
@@ -61,7 +61,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
     def Diff(self, request, context):
         olds = rpc.deserialize_properties(request.olds, True)
         news = rpc.deserialize_properties(request.news, True)
-        if news[PROVIDER_KEY] == rpc.UNKNOWN:
+        if known_types.is_unknown(news[PROVIDER_KEY]):
             provider = get_provider(olds)
         else:
             provider = get_provider(news)
@@ -133,7 +133,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
     def Check(self, request, context):
         olds = rpc.deserialize_properties(request.olds, True)
         news = rpc.deserialize_properties(request.news, True)
-        if news[PROVIDER_KEY] == rpc.UNKNOWN:
+        if known_types.is_unknown(news[PROVIDER_KEY]):
             provider = get_provider(olds)
         else:
             provider = get_provider(news)
-- 
2.43.0


From 1a985976a727421c14bf711618c96583114f6bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 38/51] fix: forget the configuration of earlier inline
 programs

---
 sdk/python/lib/pulumi/automation/_server.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index a714e3b..857e806 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -58,9 +58,8 @@ class LanguageServer(LanguageRuntimeServicer):
             organization=request.organization,
         )
 
-        if request.config:
-            secret_keys = request.configSecretKeys if request.configSecretKeys else None
-            set_all_config(request.config, secret_keys)
+        # Always set the config, so that nothing remains of a previous run.
+        set_all_config(request.config, request.configSecretKeys)
 
         # The strategy here is derived from sdk/python/cmd/pulumi-language-python-exec
         result = language_pb2.RunResponse()
-- 
2.43.0


From 1416049152e724333db303099d0add3d1d985779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 39/51] fix: answer the engine when an inline program exits or
 is cancelled

---
 sdk/python/lib/pulumi/automation/_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index 857e806..a1572d8 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -83,7 +83,8 @@ class LanguageServer(LanguageRuntimeServicer):
                 log.error(msg)
                 result.error = msg
                 return result
-        except Exception as exn:
+        except (Exception, SystemExit, asyncio.CancelledError) as exn:
+            # Exceptions that are not handled here leave the engine waiting for an answer.
             msg = str(
                 f"python inline source runtime error: {exn}\n{traceback.format_exc()}"
             )
-- 
2.43.0


From ed26662922fcbc25ca7a1c9fd59c6f2ee5a9313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 40/51] fix: report the outcome of inline programs whose tasks
 fail when cancelled

---
 sdk/python/lib/pulumi/automation/_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index a1572d8..26838df 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -106,7 +106,8 @@ class LanguageServer(LanguageRuntimeServicer):
             log.debug(f"Cancelling {len(pending)} tasks.")
             for task in pending:
                 task.cancel()
-                with suppress(asyncio.CancelledError):
+                # The outcome of the program stands, whatever the cancelled tasks make of it.
+                with suppress(Exception, asyncio.CancelledError):
                     loop.run_until_complete(task)
             loop.close()
             sys.stdout.flush()
-- 
2.43.0


From 80a7244585d565d66baf78ddef5775e031ce76fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 41/51] fix: keep the RPCs of inline programs that run in
 parallel apart

---
 sdk/python/lib/pulumi/runtime/rpc_manager.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc_manager.py b/sdk/python/lib/pulumi/runtime/rpc_manager.py
index 71b4bd5..97d7304 100644
--- a/sdk/python/lib/pulumi/runtime/rpc_manager.py
+++ b/sdk/python/lib/pulumi/runtime/rpc_manager.py
@@ -13,17 +13,21 @@
 # limitations under the License.
 import asyncio
 import sys
+import threading
 import traceback
 from typing import Callable, Awaitable, Tuple, Any, Optional, List, Set
 from .. import log
 
 
-class RPCManager:
+class RPCManager(threading.local):
     """
     RPCManager is responsible for keeping track of RPCs that are dispatched
     throughout the course of a Pulumi program. It records exceptions that occur
     when performing RPC calls and keeps track of whether or not there are any
     outstanding RPCs.
+
+    Every thread has its own state, so that inline programs that run in parallel
+    (each with an event loop in a thread of its own) do not affect each other.
     """
 
     rpcs: List[Awaitable]
@@ -52,6 +56,7 @@ class RPCManager:
     """
 
     def __init__(self):
+        super().__init__()
         self.clear()
 
     def do_rpc(
-- 
2.43.0


From 5b5bd40167f484a921b9d51360a924d90f6750cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:11 +0000
Subject: [PATCH 42/51] fix: run calls in the context of the program, so that
 mocks see its settings

---
 sdk/python/lib/pulumi/runtime/invoke.py     |  6 +++---
 sdk/python/lib/pulumi/runtime/resource.py   |  9 +++++----
 sdk/python/lib/pulumi/runtime/settings.py   |  4 ++--
 sdk/python/lib/pulumi/runtime/sync_await.py | 12 +++++++++++-
 4 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/invoke.py b/sdk/python/lib/pulumi/runtime/invoke.py
index ccac103..8a95d7a 100644
--- a/sdk/python/lib/pulumi/runtime/invoke.py
+++ b/sdk/python/lib/pulumi/runtime/invoke.py
@@ -25,7 +25,7 @@ from ..runtime.proto import provider_pb2, resource_pb2
 from . import rpc
 from .rpc_manager import RPC_MANAGER
 from .settings import get_monitor, grpc_error_to_exception, handle_grpc_error
-from .sync_await import _sync_await
+from .sync_await import _run_in_executor, _sync_await
 
 if TYPE_CHECKING:
     from .. import Resource, Inputs, Output
@@ -106,7 +106,7 @@ def invoke(
             except grpc.RpcError as exn:
                 return None, grpc_error_to_exception(exn)
 
-        resp, error = await asyncio.get_event_loop().run_in_executor(None, do_invoke)
+        resp, error = await _run_in_executor(do_invoke)
         log.debug(f"Invoking function completed: tok={tok}, error={error}")
 
         # If the invoke failed, raise an error.
@@ -221,7 +221,7 @@ def call(
                     handle_grpc_error(exn)
                     return None
 
-            resp = await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
+            resp = await _run_in_executor(do_rpc_call)
             if resp is None:
                 return
 
diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 6cbf99d..f7d9acb 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -39,6 +39,7 @@ from .. import log
 from ..runtime.proto import provider_pb2, resource_pb2
 from .rpc_manager import RPC_MANAGER
 from .settings import handle_grpc_error
+from .sync_await import _run_in_executor
 from .resource_cycle_breaker import declare_dependency
 from ..output import Output
 from .. import _types
@@ -255,7 +256,7 @@ def get_resource(
                     handle_grpc_error(exn)
                     return None
 
-            resp = await asyncio.get_event_loop().run_in_executor(None, do_invoke)
+            resp = await _run_in_executor(do_invoke)
 
             # If the invoke failed, raise an error.
             if resp.failures:
@@ -457,7 +458,7 @@ def read_resource(
                     handle_grpc_error(exn)
                     return None
 
-            resp = await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
+            resp = await _run_in_executor(do_rpc_call)
 
         except Exception as exn:
             log.debug(
@@ -629,7 +630,7 @@ def register_resource(
                     handle_grpc_error(exn)
                     return None
 
-            resp = await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
+            resp = await _run_in_executor(do_rpc_call)
         except Exception as exn:
             log.debug(
                 f"exception when preparing or executing rpc: {traceback.format_exc()}"
@@ -727,7 +728,7 @@ def register_resource_outputs(
                 handle_grpc_error(exn)
                 return None
 
-        await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
+        await _run_in_executor(do_rpc_call)
         log.debug(
             f"resource registration successful: urn={urn}, props={serialized_props}"
         )
diff --git a/sdk/python/lib/pulumi/runtime/settings.py b/sdk/python/lib/pulumi/runtime/settings.py
index 6dfd4d9..216070c 100644
--- a/sdk/python/lib/pulumi/runtime/settings.py
+++ b/sdk/python/lib/pulumi/runtime/settings.py
@@ -17,7 +17,6 @@ Runtime settings and configuration.
 """
 from __future__ import annotations
 
-import asyncio
 from contextvars import ContextVar
 import os
 from typing import Optional, Union, Any, TYPE_CHECKING
@@ -26,6 +25,7 @@ import grpc
 from ..runtime.proto import engine_pb2_grpc, resource_pb2, resource_pb2_grpc
 from ..errors import RunError
 from .._utils import contextproperty
+from .sync_await import _run_in_executor
 
 if TYPE_CHECKING:
     from ..resource import Resource
@@ -245,7 +245,7 @@ async def monitor_supports_feature(feature: str) -> bool:
                     handle_grpc_error(exn)
                 return False
 
-        result = await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
+        result = await _run_in_executor(do_rpc_call)
         SETTINGS.feature_support[feature] = result
 
     return SETTINGS.feature_support[feature]
diff --git a/sdk/python/lib/pulumi/runtime/sync_await.py b/sdk/python/lib/pulumi/runtime/sync_await.py
index aa65634..a5d71ba 100644
--- a/sdk/python/lib/pulumi/runtime/sync_await.py
+++ b/sdk/python/lib/pulumi/runtime/sync_await.py
@@ -12,8 +12,9 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 import asyncio
+import contextvars
 import sys
-from typing import Any, Awaitable
+from typing import Any, Awaitable, Callable
 
 # If we are not running on Python 3.7 or later, we need to swap the Python implementation of Task in for the C
 # implementation in order to support synchronous invokes.
@@ -87,6 +88,15 @@ def _sync_await(awaitable: Awaitable[Any]) -> Any:
     return fut.result()
 
 
+async def _run_in_executor(func: Callable[[], Any]) -> Any:
+    """
+    Runs the given function in a thread of the default executor. The function sees the settings and configuration
+    of the caller, which are context variables that threads do not inherit.
+    """
+    context = contextvars.copy_context()
+    return await asyncio.get_event_loop().run_in_executor(None, context.run, func)
+
+
 def _ensure_event_loop():
     """Ensures an asyncio event loop exists for the current thread."""
     loop = None
-- 
2.43.0


From 4bca4aeea0e53d0521804b24b0ad80d993e1d0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:11 +0000
Subject: [PATCH 43/51] fix: accept mocked calls that return no failures

---
 sdk/python/lib/pulumi/runtime/mocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/mocks.py b/sdk/python/lib/pulumi/runtime/mocks.py
index 6615c38..97ec2ce 100644
--- a/sdk/python/lib/pulumi/runtime/mocks.py
+++ b/sdk/python/lib/pulumi/runtime/mocks.py
@@ -192,7 +192,7 @@ class MockMonitor:
         else:
             (ret, failures) = tup[0], [
                 provider_pb2.CheckFailure(property=failure[0], reason=failure[1])
-                for failure in tup[1]
+                for failure in tup[1] or []
             ]
 
         ret_proto = _sync_await(rpc.serialize_properties(ret, {}))
-- 
2.43.0


From 10842396da80fd93948f7114e7a9c2c0d225a77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 44/51] fix: rebuild resource references with newer minor
 versions of a package

---
 sdk/python/lib/pulumi/runtime/rpc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index ac809fa..5ba6248 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -1207,10 +1207,10 @@ def same_version(a: Optional[Version], b: Optional[Version]) -> bool:
 def check_version(want: Optional[Version], have: Optional[Version]) -> bool:
     if want is None or have is None:
         return True
-    return (
-        have.major == want.major
-        and have.minor >= want.minor
-        and have.patch >= want.patch
+    # The patch version only matters between versions of the same minor version.
+    return have.major == want.major and (have.minor, have.patch) >= (
+        want.minor,
+        want.patch,
     )
 
 
-- 
2.43.0


From 34a3d4370f1b26a4eaf854ec7b0abc913893e7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 45/51] fix: keep refused declarations out of their parent's
 children

---
 sdk/python/lib/pulumi/resource.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 4bbe265..df7df0b 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -900,9 +900,6 @@ class Resource:
             if not isinstance(opts.parent, Resource):
                 raise TypeError("Resource parent is not a valid Resource")
 
-            # Add this resource to its parent's set of child resources.
-            opts.parent._childResources.add(self)
-
             # Infer protection from parent, if one was provided.
             if opts.protect is None:
                 opts.protect = opts.parent._protect
@@ -935,15 +932,20 @@ class Resource:
         self._plugin_download_url = opts.plugin_download_url
         self._aliases = all_aliases(opts.aliases, name, t, opts.parent)
 
+        if opts.urn is None and opts.id is not None and not custom:
+            raise Exception(
+                "Cannot read an existing resource unless it has a custom provider"
+            )
+
+        # Add this resource to its parent's set of child resources, now that its declaration has been accepted.
+        if opts.parent is not None:
+            opts.parent._childResources.add(self)
+
         if opts.urn is not None:
             # This is a resource that already exists. Read its state from the engine.
             get_resource(self, props, custom, opts.urn, typ)
         elif opts.id is not None:
             # If this is a custom resource that already exists, read its state from the provider.
-            if not custom:
-                raise Exception(
-                    "Cannot read an existing resource unless it has a custom provider"
-                )
             read_resource(cast("CustomResource", self), t, name, props, opts, typ)
         else:
             register_resource(
-- 
2.43.0


From 42a192fadcb9ea6c4c344ab5a65a0aae9ff6c386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 46/51] fix: accept a coroutine as depends_on

`depends_on` is an Input, so it may be an awaitable, but the options read it
more than once (when they check it, merge it, and when the resource is
registered), and a coroutine can only be awaited once: every resource given
one failed with "cannot reuse already awaited coroutine".
---
 sdk/python/lib/pulumi/resource.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index df7df0b..d2917b1 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -16,6 +16,7 @@
 
 import asyncio
 import copy
+import inspect
 import warnings
 from typing import (
     Optional,
@@ -575,7 +576,12 @@ class ResourceOptions:
         self.transformations = transformations
         self.urn = urn
         self.replace_on_changes = replace_on_changes
-        self.depends_on = depends_on
+        # A coroutine can only be awaited once, but `depends_on` is read several times.
+        self.depends_on = (
+            asyncio.ensure_future(depends_on)
+            if inspect.isawaitable(depends_on)
+            else depends_on
+        )
         self.retain_on_delete = retain_on_delete
 
         # Proactively check that `depends_on` values are of type
-- 
2.43.0


From 1b19ed08d3e0bd85913be71b8877b50c3372d25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 47/51] fix: read resources by IDs that are secret

---
 sdk/python/lib/pulumi/runtime/resource.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index f7d9acb..9b3fcea 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -412,7 +412,12 @@ def read_resource(
             # because a "read" resource does not actually have any dependencies at all in the cloud
             # provider sense, because a read resource already exists. We do not need to track this
             # dependency.
-            resolved_id = await rpc.serialize_property(opts.id, [])
+            id_output = Output.from_input(opts.id)
+            resolved_id = await rpc.serialize_property(id_output, [])
+            if rpc.is_rpc_secret(resolved_id):
+                # The request carries the bare ID. An ID that is a secret stays one as an output of the resource.
+                resolved_id = rpc.unwrap_rpc_secret(resolved_id)
+            is_id_secret = await id_output.is_secret()
             log.debug(f"read prepared: ty={ty}, name={name}, id={opts.id}")
 
             # These inputs will end up in the snapshot, so if there are any additional secret
@@ -471,7 +476,7 @@ def read_resource(
 
         log.debug(f"resource read successful: ty={ty}, urn={resp.urn}")
         resolve_urn(resp.urn, True, False, None)
-        resolve_id(resolved_id, True, False, None)  # Read IDs are always known.
+        resolve_id(resolved_id, True, is_id_secret, None)  # Read IDs are always known.
 
         # As in `register_resource`, a failure to process the response fails the outputs rather than
         # leaving them (and the program) hanging.
-- 
2.43.0


From f1ea714357edc7d09d710d88d3927335f9c59bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 48/51] fix: keep the IDs of resources read by unknown IDs
 unknown

---
 sdk/python/lib/pulumi/runtime/resource.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 9b3fcea..df05945 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -476,7 +476,9 @@ def read_resource(
 
         log.debug(f"resource read successful: ty={ty}, urn={resp.urn}")
         resolve_urn(resp.urn, True, False, None)
-        resolve_id(resolved_id, True, is_id_secret, None)  # Read IDs are always known.
+        # Read IDs are always known, except for those that come from outputs that are not (which is sent as such).
+        is_id_known = resolved_id != rpc.UNKNOWN
+        resolve_id(resolved_id if is_id_known else None, is_id_known, is_id_secret, None)
 
         # As in `register_resource`, a failure to process the response fails the outputs rather than
         # leaving them (and the program) hanging.
-- 
2.43.0


From 7a8560116d50a53157f8e0de2ec29822ca43af6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:54 +0000
Subject: [PATCH 49/51] fix: keep failures of earlier requests to a component
 provider out of later ones

---
 sdk/python/lib/pulumi/provider/server.py     | 9 +++++++++
 sdk/python/lib/pulumi/runtime/rpc_manager.py | 6 ++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index 3f18882..7056b18 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -36,6 +36,7 @@ from pulumi.resource import (
 )
 from pulumi.runtime import known_types, proto, rpc
 from pulumi.runtime.proto import provider_pb2_grpc, ResourceProviderServicer
+from pulumi.runtime.rpc_manager import RPC_MANAGER
 from pulumi.runtime.stack import wait_for_rpcs
 import pulumi
 import pulumi.resource
@@ -70,6 +71,10 @@ class ProviderServicer(ResourceProviderServicer):
         # avoid modifying globals, we can remove the locking.
         await self.lock.acquire()
         try:
+            # What an earlier request has started and its failures are of no concern to this one (RPCs are not tracked
+            # until their tasks have started).
+            await asyncio.sleep(0)
+            RPC_MANAGER.clear()
             return await self._construct(request, context)
         finally:
             self.lock.release()
@@ -201,6 +206,10 @@ class ProviderServicer(ResourceProviderServicer):
         # avoid modifying globals, we can remove the locking.
         await self.lock.acquire()
         try:
+            # What an earlier request has started and its failures are of no concern to this one (RPCs are not tracked
+            # until their tasks have started).
+            await asyncio.sleep(0)
+            RPC_MANAGER.clear()
             return await self._call(request, context)
         finally:
             self.lock.release()
diff --git a/sdk/python/lib/pulumi/runtime/rpc_manager.py b/sdk/python/lib/pulumi/runtime/rpc_manager.py
index 97d7304..22173ef 100644
--- a/sdk/python/lib/pulumi/runtime/rpc_manager.py
+++ b/sdk/python/lib/pulumi/runtime/rpc_manager.py
@@ -77,15 +77,17 @@ class RPCManager(threading.local):
         async def rpc_wrapper(*args, **kwargs):
             log.debug(f"beginning rpc {name}")
 
+            rpcs = self.rpcs
             rpc = asyncio.ensure_future(rpc_function(*args, **kwargs))
-            self.rpcs.append(rpc)
+            rpcs.append(rpc)
             try:
                 result = await rpc
                 exception = None
             except Exception as exn:
                 log.debug("RPC failed with exception:")
                 log.debug(traceback.format_exc())
-                if self.unhandled_exception is None:
+                # RPCs that were started before the state was cleared are of no concern to what runs now.
+                if rpcs is self.rpcs and self.unhandled_exception is None:
                     self.unhandled_exception = exn
                     self.exception_traceback = sys.exc_info()[2]
                 result = None
-- 
2.43.0


From 9b70df2b085da4d436d91b41f4609915468773ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 50/51] fix: keep stack outputs secret that are looked up by
 coroutines

---
 sdk/python/lib/pulumi/stack_reference.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/stack_reference.py b/sdk/python/lib/pulumi/stack_reference.py
index ab48a81..4338321 100644
--- a/sdk/python/lib/pulumi/stack_reference.py
+++ b/sdk/python/lib/pulumi/stack_reference.py
@@ -73,7 +73,9 @@ class StackReference(CustomResource):
 
         :param Input[str] name: The name of the stack output to fetch.
         """
-        value: Output[Any] = Output.all(Output.from_input(name), self.outputs).apply(lambda l: l[1].get(l[0]))  # type: ignore
+        # The name is used more than once below, but a coroutine can only be awaited once.
+        name = Output.from_input(name)
+        value: Output[Any] = Output.all(name, self.outputs).apply(lambda l: l[1].get(l[0]))  # type: ignore
         is_secret = ensure_future(self.__is_secret_name(name))
 
         return Output(value.resources(), value.future(), value.is_known(), is_secret)
@@ -86,7 +88,9 @@ class StackReference(CustomResource):
         :param Input[str] name: The name of the stack output to fetch.
         """
 
-        value = Output.all(Output.from_input(name), self.outputs).apply(lambda l: l[1][l[0]])  # type: ignore
+        # The name is used more than once below, but a coroutine can only be awaited once.
+        name = Output.from_input(name)
+        value = Output.all(name, self.outputs).apply(lambda l: l[1][l[0]])  # type: ignore
         is_secret = ensure_future(self.__is_secret_name(name))
 
         return Output(value.resources(), value.future(), value.is_known(), is_secret)
-- 
2.43.0


From 3d87615849dd07f86547339c321eafcb929470b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 51/51] fix: accept coroutines as aliases of resources whose
 parents have aliases

---
 sdk/python/lib/pulumi/resource.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index d2917b1..7770635 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -129,10 +129,12 @@ def all_aliases(
     """
     aliases: "List[Input[str]]" = []
 
-    for child_alias in child_aliases or []:
-        aliases.append(
-            collapse_alias_to_urn(child_alias, child_name, child_type, parent)
-        )
+    # Collapse each alias only once, as the coroutines it may consist of cannot be awaited again.
+    child_alias_urns = [
+        collapse_alias_to_urn(child_alias, child_name, child_type, parent)
+        for child_alias in child_aliases or []
+    ]
+    aliases.extend(child_alias_urns)
 
     if parent is not None:
         parent_name = parent._name
@@ -142,10 +144,7 @@ def all_aliases(
                     child_name, parent._name, parent_alias, child_type
                 )
             )
-            for child_alias in child_aliases or []:
-                child_alias_urn = collapse_alias_to_urn(
-                    child_alias, child_name, child_type, parent
-                )
+            for child_alias_urn in child_alias_urns:
 
                 def inherited_alias_for_child_urn(
                     child_alias_urn: str, parent_alias=parent_alias
-- 
2.43.0

