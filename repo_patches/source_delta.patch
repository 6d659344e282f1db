From a7fc74a0f2170aca956746439d8a18877b4edf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:53 +0000
Subject: [PATCH 1/7] fix: accept valid per-message skipped key limits in
 Backend

`a or 0 > b` parses as `a or (0 > b)`, which rejected every nonzero per-message limit, including those that do
not exceed the per-session limit.
---
 omemo/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omemo/backend.py b/omemo/backend.py
index 2e15ebc..cd2c4bc 100644
--- a/omemo/backend.py
+++ b/omemo/backend.py
@@ -111,7 +111,7 @@ class Backend(ABC):
                 " skipped keys to keep is nonzero."
             )
 
-        if max_num_per_message_skipped_keys or 0 > max_num_per_session_skipped_keys:
+        if (max_num_per_message_skipped_keys or 0) > max_num_per_session_skipped_keys:
             raise ValueError(
                 "The number of allowed per-message skipped keys must not be greater than the number of"
                 " per-session skipped keys to keep."
-- 
2.43.0


From 2f2fa5e30f80cf21b4fd39f2ab45b12120014a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:53 +0000
Subject: [PATCH 2/7] fix: back off between bundle upload retries after a
 signed pre key rotation

The retry delay was reset to one minute on each attempt, so that the doubling and the one hour cap had no effect.
---
 omemo/session_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index c5fc7d3..2c71989 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -676,8 +676,8 @@ class SessionManager(ABC):
 
                     # Rotate the signed pre if necessary
                     await backend.rotate_signed_pre_key()
+                    retry_delay = 60  # Start with one minute of retry delay
                     while True:
-                        retry_delay = 60  # Start with one minute of retry delay
                         try:
                             await self._upload_bundle(await backend.get_bundle(
                                 self.__own_bare_jid,
-- 
2.43.0


From 6593c268e9233859881754ea553c720d764dfeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:53 +0000
Subject: [PATCH 3/7] fix: don't overwrite newer cache entries with a value
 loaded earlier

A store or delete that completes while a load of the same key awaits _load updates the cache. The load then
replaced the up-to-date entry with the outdated value, which all following loads returned.
---
 omemo/storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omemo/storage.py b/omemo/storage.py
index 4f344c3..08f087e 100644
--- a/omemo/storage.py
+++ b/omemo/storage.py
@@ -249,7 +249,9 @@ class Storage(ABC):
 
         value = await self._load(key)
         if self.__cache is not None:
-            self.__cache[key] = value
+            # The key may have been stored or deleted while the value was being loaded, in which case the cache
+            # already holds the more recent value.
+            value = self.__cache.setdefault(key, value)
         return value
 
     async def store(self, key: str, value: JSONType) -> None:
-- 
2.43.0


From 9fbf5fae8da1fd6c6c0623c54458b80caf1075f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:53 +0000
Subject: [PATCH 4/7] fix: only build sessions with the identity key that was
 subject to the trust decision

encrypt and replace_sessions passed whatever bundle was published to build_session_active. A bundle that contains a
different identity key than the one the device is known by (and that was trusted) lead to messages being encrypted
for an identity key the user never trusted. decrypt already rejects such key exchanges.
---
 omemo/session_manager.py | 54 +++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 2c71989..ddd41f0 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1235,15 +1235,23 @@ class SessionManager(ABC):
                     # Prepare an empty message
                     content, plain_key_material = await backend.encrypt_empty()
 
+                    bundle = await self._download_bundle(
+                        backend.namespace,
+                        device.bare_jid,
+                        device.device_id
+                    )
+
+                    # Trust is assigned to the identity key, never build a session with a different one
+                    if bundle.identity_key != device.identity_key:
+                        raise KeyExchangeFailed(
+                            "The identity key in the bundle doesn't match the identity key of the device."
+                        )
+
                     # Build a new session to replace the old one
                     session, encrypted_key_material = await backend.build_session_active(
                         device.bare_jid,
                         device.device_id,
-                        await self._download_bundle(
-                            backend.namespace,
-                            device.bare_jid,
-                            device.device_id
-                        ),
+                        bundle,
                         plain_key_material
                     )
 
@@ -1896,19 +1904,31 @@ class SessionManager(ABC):
 
                 try:
                     # Build the session if necessary, and encrypt the key material
-                    session, encrypted_key_material = await backend.build_session_active(
-                        device.bare_jid,
-                        device.device_id,
-                        await self._download_bundle(
-                            backend.namespace,
+                    if session is None:
+                        if bundle is None:
+                            bundle = await self._download_bundle(
+                                backend.namespace,
+                                device.bare_jid,
+                                device.device_id
+                            )
+
+                        # Trust is assigned to the identity key, never build a session with a different one
+                        if bundle.identity_key != device.identity_key:
+                            raise KeyExchangeFailed(
+                                "The identity key in the bundle doesn't match the identity key of the device."
+                            )
+
+                        session, encrypted_key_material = await backend.build_session_active(
                             device.bare_jid,
-                            device.device_id
-                        ) if bundle is None else bundle,
-                        plain_key_material
-                    ) if session is None else (session, await backend.encrypt_key_material(
-                        session,
-                        plain_key_material
-                    ))
+                            device.device_id,
+                            bundle,
+                            plain_key_material
+                        )
+                    else:
+                        encrypted_key_material = await backend.encrypt_key_material(
+                            session,
+                            plain_key_material
+                        )
                 except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed) as e:
                     # Those failures are non-critical, i.e. encryption for other devices is still performed
                     # and the errors are simply collected and returned.
-- 
2.43.0


From ad5a01a8281c9950b1e8ea6c9874274d9f721f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:54 +0000
Subject: [PATCH 5/7] fix: delete queued empty messages when purging a bare JID

purge_bare_jid is documented to delete all data of the account, but left the account in the queues of empty messages
to send when leaving history synchronization mode.
---
 omemo/session_manager.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index ddd41f0..d1fe75c 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -614,6 +614,16 @@ class SessionManager(ABC):
                 f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}"
             )
 
+        # Remove empty messages queued for this account
+        for backend in self.__backends:
+            queued_jids = (await storage.load_list(f"/queue/{backend.namespace}", str)).maybe([])
+            if bare_jid in queued_jids:
+                await storage.store(
+                    f"/queue/{backend.namespace}",
+                    [ queued_jid for queued_jid in queued_jids if queued_jid != bare_jid ]
+                )
+            await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")
+
         # Remove backend-specific data
         for backend in self.__backends:
             await backend.purge_bare_jid(bare_jid)
-- 
2.43.0


From c54e66bbb178b0708bb2135faebdc2280b2cfaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:54 +0000
Subject: [PATCH 6/7] fix: resume an interrupted initialization in create

The loaded namespaces were recorded before the pre keys, bundles and device lists were published. If any of the
network operations failed, the next run found nothing to do, and the device was never published.
---
 omemo/session_manager.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index d1fe75c..95b781a 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -376,15 +376,16 @@ class SessionManager(ABC):
             ))
             logging.getLogger(SessionManager.LOG_TAG).debug(f"Generated device id: {self.__own_device_id}")
 
-            # Store the device information for this device
+            # Store the device information for this device. The namespaces are added once this device is
+            # published for the respective backend.
             await storage.store(
                 f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
-                [ backend.namespace for backend in self.__backends ]
+                []
             )
 
             await storage.store(
                 f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
-                { backend.namespace: True for backend in self.__backends }
+                {}
             )
 
             await storage.store(
@@ -438,18 +439,6 @@ class SessionManager(ABC):
                 f" {loaded_namespaces} vs. {active_namespaces} (now vs. previous run)"
             )
 
-            # Set the device active for all loaded namespaces
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
-                { namespace: True for namespace in loaded_namespaces }
-            )
-
-            # Store the updated list of loaded namespaces
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
-                list(loaded_namespaces)
-            )
-
             # Take care of the initialization of newly added backends
             for backend in self.__backends:
                 if backend.namespace not in active_namespaces:
@@ -472,6 +461,18 @@ class SessionManager(ABC):
             for namespace in active_namespaces - loaded_namespaces:
                 await self.purge_backend(namespace)
 
+            # Set the device active for all loaded namespaces
+            await storage.store(
+                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
+                { namespace: True for namespace in loaded_namespaces }
+            )
+
+            # Store the updated list of loaded namespaces
+            await storage.store(
+                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
+                list(loaded_namespaces)
+            )
+
         # Start signed pre key rotation management "in the background"
         if async_framework is AsyncFramework.ASYNCIO:
             asyncio.ensure_future(self.__manage_signed_pre_key_rotation(
-- 
2.43.0


From 0f2d086d647c0e212ca408e4538c60754aae16ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:03 +0000
Subject: [PATCH 7/7] fix: reject negative per-message skipped key limits in
 Backend

The limit is documented to be a number between 1 and the per-session limit (or 0 if that is 0), but negative
numbers were accepted.
---
 omemo/backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omemo/backend.py b/omemo/backend.py
index cd2c4bc..cb274a1 100644
--- a/omemo/backend.py
+++ b/omemo/backend.py
@@ -111,6 +111,9 @@ class Backend(ABC):
                 " skipped keys to keep is nonzero."
             )
 
+        if max_num_per_message_skipped_keys is not None and max_num_per_message_skipped_keys < 0:
+            raise ValueError("The number of allowed per-message skipped keys must not be negative.")
+
         if (max_num_per_message_skipped_keys or 0) > max_num_per_session_skipped_keys:
             raise ValueError(
                 "The number of allowed per-message skipped keys must not be greater than the number of"
-- 
2.43.0

