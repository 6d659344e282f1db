CASES = []
I = "omemo/identity_key_pair.py"


def bug(name, want, *edits):
    CASES.append((name, want, edits))


def ref(name, *edits):
    CASES.append((name, None, edits))


# ---------------------------------------------------------------------------------------------------------- C17 key layout
TRUST_SET = '''            f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
            trust_level_name
'''
bug("kl_trust_b64", ["C17"], (TRUST_SET, TRUST_SET.replace("urlsafe_b64encode", "b64encode")))
bug("kl_trust_hex", ["C17"], (TRUST_SET, TRUST_SET.replace("base64.urlsafe_b64encode(identity_key).decode('ASCII')", "identity_key.hex()")))
bug("kl_trust_undec", ["C17"], (TRUST_SET, TRUST_SET.replace("            trust_level_name\n", "            self.__undecided_trust_level_name\n")))
bug("kl_trust_lower", ["C17"], (TRUST_SET, TRUST_SET.replace("{bare_jid}", "{bare_jid.lower()}")))
bug("kl_trust_own", ["C17"], (TRUST_SET, TRUST_SET.replace("{bare_jid}", "{self.__own_bare_jid}")))
bug("kl_trust_cond", ["C17"], ('''        await self.__storage.store(
''' + TRUST_SET + '''        )
''', '''        if trust_level_name != self.__undecided_trust_level_name:
            await self.__storage.store(
                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
                trust_level_name
            )
'''))
bug("kl_trust_read", ["C17"], ('''f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
                str
''', '''f"/trust/{bare_jid}/{base64.b64encode(identity_key).decode('ASCII')}",
                str
'''))
bug("kl_trust_purge", ["C17", "C18"], ('''f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}"
            )
''', '''f"/trust/{bare_jid}/{base64.b64encode(identity_key).decode('ASCII')}"
            )
'''))
bug("kl_queue_swap", ["C17"], ('''await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", list(queued_device_ids))''',
    '''await storage.store(f"/queue/{session.bare_jid}/{session.namespace}", list(queued_device_ids))'''))
bug("kl_queue_strs", ["C17"], ('''await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", list(queued_device_ids))''',
    '''await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", [ str(i) for i in queued_device_ids ])'''))
bug("kl_queue_single", ["C17"], ('''await storage.store(f"/queue/{session.namespace}", list(queued_jids))''', '''await storage.store(f"/queue/{session.namespace}", session.bare_jid)'''))
bug("kl_queues_key", ["C17"], ('''await storage.store(f"/queue/{session.namespace}", list(queued_jids))''', '''await storage.store(f"/queues/{session.namespace}", list(queued_jids))'''))
bug("kl_label_key", ["C17"], ('''await self.__storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label", own_label)''',
    '''await self.__storage.store(f"/devices/{self.__own_bare_jid}/label", own_label)'''))
bug("kl_ik_store", ["C17"], ('''                        await storage.store_bytes(
                            f"/devices/{bare_jid}/{device_id}/identity_key",
                            identity_key
                        )
''', '''                        await storage.store(
                            f"/devices/{bare_jid}/{device_id}/identity_key",
                            base64.b64encode(identity_key).decode("ASCII")
                        )
'''))
bug("kl_active_true", ["C17"], ('''await storage.store(f"/devices/{bare_jid}/{device_id}/active", { namespace: True })''', '''await storage.store(f"/devices/{bare_jid}/{device_id}/active", True)'''))
bug("kl_active_int", ["C17"], ('''await storage.store(f"/devices/{bare_jid}/{device_id}/active", { namespace: True })''', '''await storage.store(f"/devices/{bare_jid}/{device_id}/active", { namespace: 1 })'''))
bug("kl_ns_str", ["C17"], ('''await storage.store(f"/devices/{bare_jid}/{device_id}/namespaces", [ namespace ])''', '''await storage.store(f"/devices/{bare_jid}/{device_id}/namespaces", namespace)'''))
bug("kl_ns_set", ["C17"], ('''                    await storage.store(f"/devices/{bare_jid}/{device_id}/namespaces", list(namespaces))
''', '''                    await storage.store(f"/devices/{bare_jid}/{device_id}/namespaces", namespaces)
'''))
bug("kl_list_fs", ["C17"], ('''list(new_device_list | old_device_list))''', '''new_device_list | old_device_list)'''))
bug("kl_label_prim", ["C17"], ('''                label = (await storage.load_optional(
''', '''                label = (await storage.load_primitive(
'''))
bug("kl_id_str", ["C17"], ('''await self.__storage.store("/own_device_id", self.__own_device_id)''', '''await self.__storage.store("/own_device_id", str(self.__own_device_id))'''))
bug("kl_ikp_store", ["C17"], (I, '''await storage.store_bytes("/ikp/key", key)''', '''await storage.store("/ikp/key", key.hex())'''))
bug("kl_purge_label", ["C17", "C18"], ('''await storage.delete(f"/devices/{bare_jid}/{device_id}/label")''', '''await storage.delete(f"/devices/{bare_jid}/{device_id}/name")'''))
ref("kl_ref_helper", ('''    async def set_trust(''', '''    @staticmethod
    def __trust_key(bare_jid: str, identity_key: bytes) -> str:
        encoded = base64.b64encode(identity_key, b"-_")
        return "/trust/" + bare_jid + "/" + encoded.decode()

    async def set_trust('''), ('''            f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
            trust_level_name
''', '''            self.__trust_key(bare_jid, identity_key),
            trust_level_name
'''))
ref("kl_ref_join", ('''await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", list(queued_device_ids))''',
    '''await storage.store("/".join([ "", "queue", session.namespace, session.bare_jid ]), sorted(queued_device_ids))'''))
ref("kl_ref_format", ('''await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", list(queued_device_ids))''',
    '''key = "/queue/{}/{}".format(session.namespace, session.bare_jid)
                await storage.store(key, [ *queued_device_ids ])'''))
ref("kl_ref_percent", ('''await storage.store(f"/queue/{session.namespace}", list(queued_jids))''', '''await storage.store("/queue/%s" % session.namespace, sorted(queued_jids))'''))
ref("kl_ref_base", ('''            await storage.store(f"/devices/{bare_jid}/{device_id}/active", { namespace: True })
            await storage.store(f"/devices/{bare_jid}/{device_id}/label", device_list[device_id])
            await storage.store(f"/devices/{bare_jid}/{device_id}/namespaces", [ namespace ])
''', '''            base = f"/devices/{bare_jid}/{device_id}"
            for suffix, value in (
                ("active", { namespace: True }),
                ("label", device_list[device_id]),
                ("namespaces", [ namespace ])
            ):
                await storage.store(f"{base}/{suffix}", value)
'''))
# ----------------------------------------------------------------------------------------------------------- C27 failures
bug("fl_ens_broad", ["C27"], ('''            except (BundleDownloadFailed, BundleNotFound):
                logging''', '''            except OMEMOException:
                logging'''), ('''                remote_bundle = await self._download_bundle(
                    backend.namespace,
                    self.__own_bare_jid,
                    self.__own_device_id
                )
            except''', '''                await self.refresh_device_list(backend.namespace, self.__own_bare_jid)
                remote_bundle = await self._download_bundle(
                    backend.namespace,
                    self.__own_bare_jid,
                    self.__own_device_id
                )
            except'''))
bug("fl_ens_any", ["C27"], ('''            except (BundleDownloadFailed, BundleNotFound):
                logging''', '''            except Exception:
                logging'''))
bug("fl_enc_broad", ["C27"], ('''                except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed) as e:''', '''                except OMEMOException as e:'''), )
bug("fl_enc_any", ["C27"], ('''                except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed) as e:''', '''                except Exception as e:'''), )
bug("fl_rot_broad", ["C27"], ('''                        except BundleUploadFailed:''', '''                        except Exception:'''))
bug("fl_list_swallow", ["C27"], ('''        await self.update_device_list(
            namespace,
            bare_jid,
            await self._download_device_list(namespace, bare_jid)
        )
''', '''        try:
            device_list = await self._download_device_list(namespace, bare_jid)
        except DeviceListDownloadFailed:
            return
        await self.update_device_list(namespace, bare_jid, device_list)
'''))
bug("fl_upload_swallow", ["C27"], ('''            await self._upload_device_list(namespace, device_list)

        # Add new''', '''            try:
                await self._upload_device_list(namespace, device_list)
            except DeviceListUploadFailed:
                logging.getLogger(SessionManager.LOG_TAG).warning("Upload failed", exc_info=True)

        # Add new'''))
bug("fl_store_swallow", ["C27"], ('''        for backend, session in sessions:
            # Persist the session as the final step
            await backend.store_session(session)
''', '''        for backend, session in sessions:
            try:
                await backend.store_session(session)
            except Exception:  # pylint: disable=broad-except
                logging.getLogger(SessionManager.LOG_TAG).exception("Failed")
'''))
bug("fl_suppress", ["C27"], ('''        for backend, session in sessions:
            # Persist the session as the final step
            await backend.store_session(session)
''', '''        for backend, session in sessions:
            with contextlib.suppress(Exception):
                await backend.store_session(session)
'''), ('''import asyncio
''', '''import asyncio
import contextlib
'''))
bug("fl_finally_ret", ["C27"], ('''        await self.__storage.store(
            f"/trust/{bare_jid}''', '''        try:
            pass
        finally:
            pass
        await self.__storage.store(
            f"/trust/{bare_jid}'''), ('''            trust_level_name
        )
''', '''            trust_level_name
        )
''')) if 0 else None
bug("fl_finally_ret", ["C27"], ('''        for backend, session in sessions:
            # Persist the session as the final step
            await backend.store_session(session)
''', '''        for backend, session in sessions:
            try:
                await backend.store_session(session)
            finally:
                continue
'''))
bug("fl_trust_swallow", ["C27"], ('''            await self._make_trust_decision(undecided_devices, identifier)
''', '''            try:
                await self._make_trust_decision(undecided_devices, identifier)
            except Exception:  # pylint: disable=broad-except
                pass
'''))
bug("fl_send_swallow", ["C27"], ('''                # If not in history synchronization mode, send the empty message right away
                await self.__send_empty_message(backend, session)
''', '''                try:
                    await self.__send_empty_message(backend, session)
                except MessageSendingFailed:
                    pass
'''))
bug("fl_send_task", ["C27"], ('''                # If not in history synchronization mode, send the empty message right away
                await self.__send_empty_message(backend, session)
''', '''                asyncio.ensure_future(self.__send_empty_message(backend, session))
'''))
bug("fl_dec_swallow", ["C27"], ('''                bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                await self._upload_bundle(bundle)
''', '''                bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                try:
                    await self._upload_bundle(bundle)
                except BundleUploadFailed:
                    pass
'''))
bug("fl_dec_keyerr", ["C27"], ('''raise MessageNotForUs("The message to decrypt does not contain key material for us.")''', '''raise KeyError("The message to decrypt does not contain key material for us.")'''))
bug("fl_wrong_class", ["C27"], ('''                raise UnknownNamespace(
                    f"One or more''', '''                raise ValueError(
                    f"One or more'''))
bug("fl_repl_broad", ["C27"], ('''                except OMEMOException as e:''', '''                except Exception as e:'''))
bug("fl_info_swallow", ["C27"], ('''                    except BundleDownloadFailed:
''', '''                    except Exception:
'''))
bug("fl_hist_gather", ["C27"], ('''    async def refresh_device_list(self, namespace: str, bare_jid: str) -> None:''', '''    async def refresh_all(self, bare_jid: str) -> None:
        """
        Refresh all.
        """

        await asyncio.gather(*(
            self.refresh_device_list(backend.namespace, bare_jid) for backend in self.__backends
        ), return_exceptions=True)

    async def refresh_device_list(self, namespace: str, bare_jid: str) -> None:'''))
bug("fl_ikp_swallow", ["C27"], (I, '''            await storage.store_bytes("/ikp/key", key)''', '''            try:
                await storage.store_bytes("/ikp/key", key)
            except Exception:
                pass'''))
bug("fl_purge_swallow", ["C27"], ('''            await backend.purge_bare_jid(bare_jid)
''', '''            try:
                await backend.purge_bare_jid(bare_jid)
            except OMEMOException:
                pass
'''))
bug("fl_wrap", ["C27"], ('''        for backend, session in sessions:
            # Persist the session as the final step
            await backend.store_session(session)
''', '''        for backend, session in sessions:
            try:
                await backend.store_session(session)
            except Exception as e:
                raise EncryptionFailed("Could not be stored") from e
''')) if 0 else None
ref("fl_ref_log_reraise", ('''        for backend, session in sessions:
            # Persist the session as the final step
            await backend.store_session(session)
''', '''        for backend, session in sessions:
            try:
                await backend.store_session(session)
            except Exception:
                logging.getLogger(SessionManager.LOG_TAG).exception("Failed")
                raise
'''))
ref("fl_ref_merge", ('''                    except BundleDownloadFailed:
                        logging.getLogger(SessionManager.LOG_TAG).warning(
                            f"Bundle download failed for device {device_id} of bare JID {bare_jid} for"
                            f" namespace {namespace}.",
                            exc_info=True
                        )
                    except BundleNotFound:
                        logging.getLogger(SessionManager.LOG_TAG).warning(
                            f"Bundle not available for device {device_id} of bare JID {bare_jid} for"
                            f" namespace {namespace}.",
                            exc_info=True
                        )
''', '''                    except (BundleDownloadFailed, BundleNotFound) as e:
                        logging.getLogger(SessionManager.LOG_TAG).warning(
                            f"No bundle for device {device_id} of bare JID {bare_jid}: {e}"
                        )
'''))
ref("fl_ref_else", ('''            except (BundleDownloadFailed, BundleNotFound):
                logging.getLogger(SessionManager.LOG_TAG).warning(
                    "Couldn't download own bundle.",
                    exc_info=True
                )

                upload_bundle = True
            else:
                upload_bundle = remote_bundle != local_bundle
''', '''                upload_bundle = remote_bundle != local_bundle
            except BundleNotFound:
                upload_bundle = True
            except BundleDownloadFailed as e:
                logging.getLogger(SessionManager.LOG_TAG).warning(f"Couldn't download own bundle: {e}")
                upload_bundle = True
'''))
# ---------------------------------------------------------------------------------------------------------- C28 arguments
bug("ar_update", ["C28"], ('''        # Copy to make sure the original is not modified
        device_list = dict(device_list)
''', ''))
bug("ar_update_alias", ["C28"], ('''        device_list = dict(device_list)
''', '''        device_list = device_list if isinstance(device_list, dict) else dict(device_list)
'''))
bug("ar_create", ["C28"], ('''        self.__backends = list(backends)  # Copy to make sure the original is not modified
''', '''        self.__backends = backends
        self.__backends.sort(key=lambda backend: backend.namespace)
'''))
bug("ar_purge", ["C28"], ('''        self.__backends = list(backends)  # Copy to make sure the original is not modified
''', '''        self.__backends = backends
'''), ) if 0 else None
bug("ar_prio", ["C28"], ('''                raise UnknownNamespace(
                    f"One or more''', '''                for unavailable in unavailable_namespaces:
                    backend_priority_order.remove(unavailable)
                raise UnknownNamespace(
                    f"One or more'''))
bug("ar_prio_rev", ["C28"], ('''        # Add the own bare JID to the list of recipients.
''', '''        effective_backend_priority_order.reverse()
        # Add the own bare JID to the list of recipients.
'''))
bug("ar_plain_pop", ["C28"], ('''                    bare_jids
        )) - frozenset({ self.__own_bare_jid })
''', '''                    bare_jids
        )) - frozenset({ self.__own_bare_jid })
''')) if 0 else None
ref("ar_ref_copy", ('''        device_list = dict(device_list)
''', '''        device_list = { device_id: label for device_id, label in device_list.items() }
'''))
ref("ar_ref_copy2", ('''        device_list = dict(device_list)
''', '''        device_list = device_list.copy()
'''))
ref("ar_ref_prio", ('''        # Add the own bare JID to the list of recipients.
''', '''        effective_backend_priority_order = list(effective_backend_priority_order)
        # Add the own bare JID to the list of recipients.
'''))
# ----------------------------------------------------------------------------------------------------------- C29 deletions
bug("dl_update", ["C29"], ('''                    if active[namespace] is True:
                        active[namespace] = False
''', '''                    if len(namespaces) == 1:
                        await storage.delete(f"/devices/{bare_jid}/{device_id}/label")
                    if active[namespace] is True:
                        active[namespace] = False
'''))
bug("dl_trust", ["C29"], ('''        await self.__storage.store(
''' + TRUST_SET + '''        )
''', '''        if trust_level_name == self.__undecided_trust_level_name:
            await self.__storage.delete(
                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}"
            )
            return
        await self.__storage.store(
''' + TRUST_SET + '''        )
'''))
bug("dl_own", ["C29"], ('''        await storage.delete(f"/devices/{bare_jid}/list")
''', '''        await storage.delete(f"/devices/{bare_jid}/list")
        if bare_jid == self.__own_bare_jid:
            await storage.delete("/own_device_id")
'''))
bug("dl_others", ["C29", "C18"], ('''            await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")
''', '''            for queued_jid in queued_jids:
                await storage.delete(f"/queue/{backend.namespace}/{queued_jid}")
'''))
bug("dl_dec_ik", ["C29"], ('''                raise PublicDataInconsistency(''', '''                await storage.delete(f"/devices/{sender_bare_jid}/{sender_device_id}/identity_key")
                raise PublicDataInconsistency('''))
bug("dl_backend_purge", ["C29"], ('''        await self.update_device_list(
            namespace,
            bare_jid,
            await self._download_device_list(namespace, bare_jid)
        )
''', '''        device_list = await self._download_device_list(namespace, bare_jid)
        await self.update_device_list(namespace, bare_jid, device_list)
        if not device_list:
            for backend in self.__backends:
                await backend.purge_bare_jid(bare_jid)
'''))
bug("dl_label", ["C29"], ('''        await self.__storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label", own_label)
''', '''        if own_label is None:
            await self.__storage.delete(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label")
        else:
            await self.__storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label", own_label)
'''))
bug("dl_rewrite", ["C29"], ('''        self.__identity_key_pair = await IdentityKeyPair.get(storage)
''', '''        self.__identity_key_pair = await IdentityKeyPair.get(storage)
        stored = await storage.load_primitive("/own_device_id", int)
        if stored.is_just and not cls.DEVICE_ID_MIN <= stored.from_just() < 2 ** 31:
            await storage.store("/own_device_id", cls.DEVICE_ID_MIN)
'''))
ref("dl_ref_helper", ('''    async def purge_bare_jid(self''', '''    async def __forget(self, keys: List[str]) -> None:
        for key in keys:
            await self.__storage.delete(key)

    async def purge_bare_jid(self'''), ('''            await storage.delete(f"/devices/{bare_jid}/{device_id}/namespaces")
            await storage.delete(f"/devices/{bare_jid}/{device_id}/active")
            await storage.delete(f"/devices/{bare_jid}/{device_id}/label")
            await storage.delete(f"/devices/{bare_jid}/{device_id}/identity_key")
''', '''            await self.__forget([
                f"/devices/{bare_jid}/{device_id}/{part}" for part in ("namespaces", "active", "label", "identity_key")
            ])
'''))

bug("ar_iadd", ["C28"], ('''            available_namespaces if backend_priority_order is None else backend_priority_order
''', '''            available_namespaces if backend_priority_order is None else backend_priority_order
        effective_backend_priority_order += [ n for n in available_namespaces if n not in effective_backend_priority_order ]
'''))
ref("fl_ref_finally", ('''        for backend, session in sessions:
            # Persist the session as the final step
            await backend.store_session(session)
''', '''        try:
            for backend, session in sessions:
                await backend.store_session(session)
        finally:
            logging.getLogger(SessionManager.LOG_TAG).debug("done")
'''))
