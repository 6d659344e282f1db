CASES = []


def bug(name, want, *edits):
    CASES.append((name, want, edits))


def ref(name, *edits):
    CASES.append((name, None, edits))


# ------------------------------------------------------------------------------------------------- C13 update_device_list
NEWDEV = '''        for device_id in new_devices:
            await storage.store(f"/devices/{bare_jid}/{device_id}/active", { namespace: True })
'''
LISTSTORE = '''            await storage.store(f"/devices/{bare_jid}/list", list(new_device_list | old_device_list))
'''
bug("u_inactive_all", ["C13"], ('''if namespace not in active or active[namespace] is False:''', '''if namespace not in active:'''))
bug("u_label_none", ["C13"], ('''if device_list[device_id] is not None and device_list[device_id] != label:''', '''if device_list[device_id] != label:'''))
bug("u_active_overwrite", ["C13"], ('''                    active[namespace] = True
                    await storage.store(f"/devices/{bare_jid}/{device_id}/active", active)
''', '''                    await storage.store(f"/devices/{bare_jid}/{device_id}/active", { namespace: True })
'''))
bug("u_list_replaced", ["C13"], ("list(new_device_list | old_device_list)", "list(new_device_list)"))
bug("u_ns_only_new", ["C13"], ('''                # Add the namespace if required
                if namespace not in namespaces:''', '''                # Add the namespace if required
                if len(namespaces) == 0:'''))
bug("u_own_label_lost", ["C13"], ('''            device_list[self.__own_device_id] = (await storage.load_optional(
                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label",
                str
            )).from_just()
''', '''            device_list[self.__own_device_id] = None
'''))
bug("u_publish_before_check", ["C13"], ("            and self.__own_device_id not in new_device_list\n", ""))
ref("u_helper_set", (NEWDEV, NEWDEV.replace("for device_id in new_devices:", "for device_id in sorted(new_devices):")))
ref("u_get_default", ('''if namespace not in active or active[namespace] is False:''', '''if not active.get(namespace, False):'''))
ref("u_label_local", ('''                if device_list[device_id] is not None and device_list[device_id] != label:
                    await storage.store(f"/devices/{bare_jid}/{device_id}/label", device_list[device_id])
''', '''                new_label = device_list[device_id]
                if new_label is None or new_label == label:
                    pass
                else:
                    await storage.store(f"/devices/{bare_jid}/{device_id}/label", new_label)
'''))
# ------------------------------------------------------------------------------------------------- C18 purge_bare_jid
bug("pj_trust_b64", ["C18", "C17"], ('''                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}"
            )

        # Remove empty''', '''                f"/trust/{bare_jid}/{base64.b64encode(identity_key).decode('ASCII')}"
            )

        # Remove empty'''))
bug("pj_queue_ns", ["C18"], ('''            await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")

        # Remove backend-specific data''', '''                await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")

        # Remove backend-specific data'''))
bug("pj_keys_after", ["C18"], ('''        # Collect identity keys used by this account
        identity_keys: Set[bytes] = set()
        for device_id in device_list:
            try:
                identity_keys.add((await storage.load_bytes(
                    f"/devices/{bare_jid}/{device_id}/identity_key"
                )).from_just())
            except NothingException:
                pass

        # Delete information about the individual devices
        for device_id in device_list:
            await storage.delete(f"/devices/{bare_jid}/{device_id}/namespaces")
            await storage.delete(f"/devices/{bare_jid}/{device_id}/active")
            await storage.delete(f"/devices/{bare_jid}/{device_id}/label")
            await storage.delete(f"/devices/{bare_jid}/{device_id}/identity_key")
''', '''        # Delete information about the individual devices
        for device_id in device_list:
            await storage.delete(f"/devices/{bare_jid}/{device_id}/namespaces")
            await storage.delete(f"/devices/{bare_jid}/{device_id}/active")
            await storage.delete(f"/devices/{bare_jid}/{device_id}/label")
            await storage.delete(f"/devices/{bare_jid}/{device_id}/identity_key")

        # Collect identity keys used by this account
        identity_keys: Set[bytes] = set()
        for device_id in device_list:
            try:
                identity_keys.add((await storage.load_bytes(
                    f"/devices/{bare_jid}/{device_id}/identity_key"
                )).from_just())
            except NothingException:
                pass
'''))
ref("pj_one_loop", ('''            except NothingException:
                pass

        # Delete information about the individual devices
        for device_id in device_list:
            await storage.delete(f"/devices/{bare_jid}/{device_id}/namespaces")
            await storage.delete(f"/devices/{bare_jid}/{device_id}/active")
            await storage.delete(f"/devices/{bare_jid}/{device_id}/label")
            await storage.delete(f"/devices/{bare_jid}/{device_id}/identity_key")
''', '''            except NothingException:
                pass

            for entry in ("namespaces", "active", "label", "identity_key"):
                await storage.delete(f"/devices/{bare_jid}/{device_id}/{entry}")
'''))
ref("pj_fmap", ('''            try:
                identity_keys.add((await storage.load_bytes(
                    f"/devices/{bare_jid}/{device_id}/identity_key"
                )).from_just())
            except NothingException:
                pass
''', '''            maybe_key = await storage.load_bytes(f"/devices/{bare_jid}/{device_id}/identity_key")
            if maybe_key.is_just:
                identity_keys.add(maybe_key.from_just())
'''))
# ------------------------------------------------------------------------------------------------- C19 purge_backend
POP = '''        try:
            device_list.pop(self.__own_device_id)
        except KeyError:
            pass
        else:
            await self._upload_device_list(namespace, device_list)
'''
bug("pb_upload_always_empty", ["C19"], (POP, '''        if self.__own_device_id in device_list:
            await self._upload_device_list(namespace, {})
'''))
bug("pb_filter_label", ["C19"], (POP, '''        if self.__own_device_id in device_list:
            await self._upload_device_list(namespace, { device_id: None for device_id in device_list if device_id != self.__own_device_id })
'''))
bug("pb_active_gone", ["C19"], ("            dict(device.active)\n        )\n\n        await self.__storage.store(\n            f\"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces\"", "            {}\n        )\n\n        await self.__storage.store(\n            f\"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces\""))
bug("pb_ns_kept", ["C19"], ("        device = device._replace(namespaces=device.namespaces - frozenset([ namespace ]))\n", ""))
bug("pb_unload_others", ["C19"], ("self.__backends = list(filter(lambda backend: backend.namespace != namespace, self.__backends))",
                                  "self.__backends = list(filter(lambda backend: backend.namespace == namespace, self.__backends))"))
bug("pb_purge_after_unload", ["C19"], ('''        purged_backend = next(filter(lambda backend: backend.namespace == namespace, self.__backends), None)
        self.__backends = list(filter(lambda backend: backend.namespace != namespace, self.__backends))
''', '''        self.__backends = list(filter(lambda backend: backend.namespace != namespace, self.__backends))

        purged_backend = next(filter(lambda backend: backend.namespace == namespace, self.__backends), None)
'''))
bug("pb_bundle_first", ["C19"], ('''        device_list = await self._download_device_list(namespace, self.__own_bare_jid)
        try:
            device_list.pop''', '''        await self._delete_bundle(namespace, self.__own_device_id)
        device_list = await self._download_device_list(namespace, self.__own_bare_jid)
        try:
            device_list.pop'''), ('''        await self._delete_bundle(namespace, self.__own_device_id)

        logging''', '''        logging'''))
ref("pb_in", (POP, '''        if self.__own_device_id in device_list:
            del device_list[self.__own_device_id]
            await self._upload_device_list(namespace, device_list)
'''))
ref("pb_filter", (POP, '''        if self.__own_device_id in device_list:
            await self._upload_device_list(namespace, {
                device_id: label for device_id, label in device_list.items() if device_id != self.__own_device_id
            })
'''))
ref("pb_compr", ('''        active = dict(device.active)
        active.pop(namespace, None)
        device = device._replace(namespaces=device.namespaces - frozenset([ namespace ]))
        device = device._replace(active=frozenset(active.items()))

        await self.__storage.store(
            f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
            dict(device.active)
        )

        await self.__storage.store(
            f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
            list(device.namespaces)
        )
''', '''        await self.__storage.store(
            f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
            { ns: is_active for ns, is_active in device.active if ns != namespace }
        )
        await self.__storage.store(
            f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
            [ ns for ns in device.namespaces if ns != namespace ]
        )
'''))
ref("pb_loop", ('''        purged_backend = next(filter(lambda backend: backend.namespace == namespace, self.__backends), None)
        self.__backends = list(filter(lambda backend: backend.namespace != namespace, self.__backends))
''', '''        purged_backend = None
        for backend in self.__backends:
            if backend.namespace == namespace:
                purged_backend = backend
                break

        self.__backends = [ backend for backend in self.__backends if backend.namespace != namespace ]
'''))
# ------------------------------------------------------------------------------------------------- C12 history sync
bug("hs_flag_last", ["C12"], ('''        self.__synchronizing = False

''', ''), ('''        logging.getLogger(SessionManager.LOG_TAG).debug("History synchronization mode exited.")''', '''        self.__synchronizing = False
        logging.getLogger(SessionManager.LOG_TAG).debug("History synchronization mode exited.")'''))
bug("hs_jid_queue_kept", ["C12"], ('''                await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")

                logging''', '''                logging'''))
bug("hs_first_only", ["C12"], ('''                    else:
                        # It is theoretically possible that the session has been deleted after an empty
                        # message was queued for it.
                        await self.__send_empty_message(backend, session)
''', '''                    else:
                        # It is theoretically possible that the session has been deleted after an empty
                        # message was queued for it.
                        await self.__send_empty_message(backend, session)
                        break
'''))
bug("hs_delete_before_load", ["C12"], ('''                queued_device_ids = frozenset((await storage.load_list(
                    f"/queue/{backend.namespace}/{bare_jid}",
                    int
                )).maybe([]))
                await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")
''', '''                await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")

                queued_device_ids = frozenset((await storage.load_list(
                    f"/queue/{backend.namespace}/{bare_jid}",
                    int
                )).maybe([]))
'''))
bug("hs_return_early", ["C12"], ('''            for bare_jid in queued_jids:
                # For each queued bare JID''', '''            if len(queued_jids) == 0:
                return

            for bare_jid in queued_jids:
                # For each queued bare JID'''))
ref("hs_one_loop", ('''            await backend.delete_hidden_pre_keys()

        # Send empty messages that were queued while in history synchronization mode
        for backend in self.__backends:
''', '''            await backend.delete_hidden_pre_keys()

'''))
ref("hs_continue", ('''                    else:
                        # It is theoretically possible that the session has been deleted after an empty
                        # message was queued for it.
                        await self.__send_empty_message(backend, session)
''', '''                        continue

                    await self.__send_empty_message(backend, session)
'''))
ref("hs_collect", ('''                for device_id in queued_device_ids:
                    session = await backend.load_session(bare_jid, device_id)
                    if session is None:
''', '''                for queued_device_id in sorted(queued_device_ids):
                    device_id = queued_device_id
                    session = await backend.load_session(bare_jid, device_id)
                    if not session is not None:
'''))
# ------------------------------------------------------------------------------------------------- C24
bug("dc_not_found", ["C24"], ('''            except (BundleDownloadFailed, BundleNotFound):
                logging.getLogger(SessionManager.LOG_TAG).warning(
                    "Couldn't download own bundle.",''', '''            except BundleNotFound:
                logging.getLogger(SessionManager.LOG_TAG).warning(
                    "Couldn't download own bundle.",'''))
bug("dc_remote_uploaded", ["C24"], ("await self._upload_bundle(local_bundle)", "await self._upload_bundle(remote_bundle)"),
    ("                upload_bundle = True\n            else:", "                upload_bundle = False\n            else:"))
bug("dc_ik_only", ["C24"], ("upload_bundle = remote_bundle != local_bundle", "upload_bundle = remote_bundle.identity_key != local_bundle.identity_key"))
bug("dc_first_error_stops", ["C24"], ("                upload_bundle = True\n            else:", "                upload_bundle = True\n                await self._upload_bundle(local_bundle)\n                return\n            else:"))
ref("dc_direct", ('''                upload_bundle = True
            else:
                upload_bundle = remote_bundle != local_bundle

            if upload_bundle:''', '''                remote_bundle = None

            if remote_bundle is None or remote_bundle != local_bundle:'''))
ref("dc_eq", ("upload_bundle = remote_bundle != local_bundle", "upload_bundle = not remote_bundle == local_bundle"))
# ------------------------------------------------------------------------------------------------- C25
bug("rs_store_first", ["C25"], ('''                    # Store the replacement
                    await backend.store_session(session)
''', ''), ('''                    # Send the notification message
''', '''                    await backend.store_session(session)
                    # Send the notification message
'''))
bug("rs_narrow", ["C25"], ('''                except OMEMOException as e:
                    logging.getLogger(SessionManager.LOG_TAG).warning(
                        f"Session replacement failed''', '''                except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed) as e:
                    logging.getLogger(SessionManager.LOG_TAG).warning(
                        f"Session replacement failed'''))
bug("rs_no_session_needed", ["C25"], ('''            if await backend.load_session(device.bare_jid, device.device_id) is not None
''', ''))
bug("rs_error_lost", ["C25"], ("                    unsuccessful[backend.namespace] = e\n", "                    if not isinstance(e, KeyExchangeFailed):\n                        unsuccessful[backend.namespace] = e\n"))
bug("rs_stop", ["C25"], ("                    unsuccessful[backend.namespace] = e\n", "                    unsuccessful[backend.namespace] = e\n                    break\n"))
ref("rs_continue", ('''            if backend.namespace in device.namespaces:
                try:
                    # Prepare an empty message''', '''            if backend.namespace not in device.namespaces:
                continue
            if True:
                try:
                    # Prepare an empty message'''))
ref("rs_direct_session", ('''        device = device._replace(namespaces=(device.namespaces & frozenset({
            backend.namespace
            for backend
            in self.__backends
            if await backend.load_session(device.bare_jid, device.device_id) is not None
        })))
''', ''), ('''            if backend.namespace in device.namespaces:
                try:
                    # Prepare an empty message''', '''            if (
                backend.namespace in device.namespaces
                and await backend.load_session(device.bare_jid, device.device_id) is not None
            ):
                try:
                    # Prepare an empty message'''))
ref("rs_loop_find", ('''        device = next(filter(
            lambda dev: dev.device_id == device.device_id,
            await self.get_device_information(device.bare_jid)
        ))

        logging.getLogger(SessionManager.LOG_TAG).debug(f"Device information from storage: {device}")

        # Remove namespaces that correspond to backends which are not currently loaded''', '''        device_id = device.device_id
        device = next(
            dev for dev in await self.get_device_information(device.bare_jid) if dev.device_id == device_id
        )

        logging.getLogger(SessionManager.LOG_TAG).debug(f"Device information from storage: {device}")

        # Remove namespaces that correspond to backends which are not currently loaded'''))
# ------------------------------------------------------------------------------------------------- C30
bug("ol_once", ["C30"], ('''            device_list = await self._download_device_list(backend.namespace, self.__own_bare_jid)
            device_list[self.__own_device_id] = own_label
            await self._upload_device_list(backend.namespace, device_list)
''', '''            device_list = await self._download_device_list(backend.namespace, self.__own_bare_jid)
            if self.__own_device_id not in device_list:
                break
            device_list[self.__own_device_id] = own_label
            await self._upload_device_list(backend.namespace, device_list)
'''))
bug("ol_store_skipped", ["C30"], ('''        await self.__storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label", own_label)
''', '''        if own_label is not None:
            await self.__storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label", own_label)
'''))
ref("ol_copy", ('''            device_list[self.__own_device_id] = own_label
            await self._upload_device_list(backend.namespace, device_list)
''', '''            await self._upload_device_list(
                backend.namespace, { **device_list, self.__own_device_id: own_label }
            )
'''))
# ------------------------------------------------------------------------------------------------- C32
SCL = '''session.sending_chain_length'''
bug("cl_receiving", ["C32"], ("None if session is None else session.sending_chain_length", "None if session is None else session.receiving_chain_length"))
bug("cl_zero", ["C32"], ("None if session is None else session.sending_chain_length", "0 if session is None else session.sending_chain_length"))
bug("dc_no_refresh", ["C24"], ('''        for backend in self.__backends:
            await self.refresh_device_list(backend.namespace, self.__own_bare_jid)

            local_bundle''', '''        for backend in self.__backends:
            local_bundle'''))
ref("cl_loop", ('''        sessions = {
            backend.namespace: await backend.load_session(device.bare_jid, device.device_id)
            for backend
            in self.__backends
            if backend.namespace in device.namespaces
        }

        sending_chain_length = {
            namespace: None if session is None else session.sending_chain_length
            for namespace, session
            in sessions.items()
        }
''', '''        sending_chain_length: Dict[str, Optional[int]] = {}
        for backend in self.__backends:
            if backend.namespace in device.namespaces:
                session = await backend.load_session(device.bare_jid, device.device_id)
                if session is None:
                    sending_chain_length[backend.namespace] = None
                else:
                    sending_chain_length[backend.namespace] = session.sending_chain_length
'''))
