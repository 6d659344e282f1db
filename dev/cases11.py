"""Third round of rewrites and bugs: the less covered functions and further idioms."""
SRC = open("/repo/omemo/session_manager.py", encoding="utf-8").read()
CASES = []


def cut(a, b):
    i = SRC.index(a)
    return SRC[i:SRC.index(b, i + len(a))]


def bug(name, want, *edits):
    CASES.append((name, want, edits))


def ref(name, *edits):
    CASES.append((name, None, edits))


STO = "omemo/storage.py"
IKP = "omemo/identity_key_pair.py"
BAK = "omemo/backend.py"

# ------------------------------------------------------------------------------------------------------------ trust
TRUST_STORE = cut("        await self.__storage.store(\n            f\"/trust/{bare_jid}/", "    ######################\n    # session management")
ref("z_trust_key_var", (TRUST_STORE, '''        encoded_identity_key = base64.urlsafe_b64encode(identity_key).decode("ASCII")
        storage_key = f"/trust/{bare_jid}/{encoded_identity_key}"

        await self.__storage.store(storage_key, trust_level_name)

'''))
ref("z_trust_method", (TRUST_STORE, '''        await self.__storage.store(self.__trust_key(bare_jid, identity_key), trust_level_name)

    @staticmethod
    def __trust_key(bare_jid: str, identity_key: bytes) -> str:
        """
        Build the storage key of a trust level.
        """

        return "/".join([ "/trust", bare_jid, str(base64.urlsafe_b64encode(identity_key), "ASCII") ])

'''))
ref("z_trust_skip_same", (TRUST_STORE, '''        key = f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}"
        if (await self.__storage.load_primitive(key, str)).maybe(None) != trust_level_name:
            await self.__storage.store(key, trust_level_name)

'''))
bug("z_trust_only_new", ["C17"], (TRUST_STORE, '''        key = f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}"
        if (await self.__storage.load_primitive(key, str)).is_nothing:
            await self.__storage.store(key, trust_level_name)

'''))
bug("z_trust_undecided_skipped", ["C17"], (TRUST_STORE, '''        if trust_level_name != self.__undecided_trust_level_name:
            await self.__storage.store(
                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
                trust_level_name
            )

'''))
bug("z_trust_rstrip", ["C17"], (TRUST_STORE, '''        await self.__storage.store(
            f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII').rstrip('=')}",
            trust_level_name
        )

'''))

# ------------------------------------------------------------------------------------------------------------ refresh
REFRESH = cut("        await self.update_device_list(\n            namespace,\n            bare_jid,\n", "    async def refresh_device_lists")
ref("z_refresh_kw", (REFRESH, '''        device_list = await self._download_device_list(namespace=namespace, bare_jid=bare_jid)

        await self.update_device_list(device_list=device_list, bare_jid=bare_jid, namespace=namespace)

'''))
REFRESH_ALL = cut("        for backend in self.__backends:\n            await self.refresh_device_list(backend.namespace, bare_jid)\n", "    ####################\n    # trust management")
ref("z_refresh_all_ns", (REFRESH_ALL, '''        for namespace in [ backend.namespace for backend in self.__backends ]:
            await self.refresh_device_list(namespace, bare_jid)

'''))
bug("z_refresh_empty_skip", ["C13", "C24", "C08"], (REFRESH, '''        device_list = await self._download_device_list(namespace, bare_jid)
        if len(device_list) > 0:
            await self.update_device_list(namespace, bare_jid, device_list)

'''))

# ------------------------------------------------------------------------------------------------------------ replace_sessions
FIND = cut("        device = next(filter(\n            lambda dev: dev.device_id == device.device_id,", "        logging.getLogger(SessionManager.LOG_TAG).debug(f\"Device information from storage")
ref("z_rep_find_gen", (FIND, '''        device_id = device.device_id
        stored_devices = await self.get_device_information(device.bare_jid)
        device = next(stored_device for stored_device in stored_devices if stored_device.device_id == device_id)

'''))
ref("z_rep_find_tuple", (FIND, '''        device, = (
            dev for dev in await self.get_device_information(device.bare_jid)
            if dev.device_id == device.device_id
        )

'''))
NSLIM = cut("        device = device._replace(namespaces=(device.namespaces & frozenset({", "        unsuccessful: Dict")
PERFORM = cut("        # Perform the replacement\n", "        logging.getLogger(SessionManager.LOG_TAG).info(\"Session replacement done")
ref("z_rep_ns_local", (NSLIM, '''        replaceable: Set[str] = set()
        for backend in self.__backends:
            if backend.namespace in device.namespaces:
                if await backend.load_session(device.bare_jid, device.device_id) is not None:
                    replaceable.add(backend.namespace)

'''), ("            if backend.namespace in device.namespaces:\n                try:\n                    # Prepare", "            if backend.namespace in replaceable:\n                try:\n                    # Prepare"))
ref("z_rep_backends_local", (NSLIM, '''        backends = [
            backend for backend in self.__backends
            if backend.namespace in device.namespaces
            and await backend.load_session(device.bare_jid, device.device_id) is not None
        ]

'''), ("        for backend in self.__backends:\n            if backend.namespace in device.namespaces:\n                try:\n                    # Prepare", "        for backend in backends:\n            if True:\n                try:\n                    # Prepare"))
ref("z_rep_one_helper", (PERFORM, '''        # Perform the replacement
        for backend in self.__backends:
            if backend.namespace not in device.namespaces:
                continue

            try:
                await self.__replace_session(backend, device)
            except OMEMOException as e:
                logging.getLogger(SessionManager.LOG_TAG).warning(
                    f"Session replacement failed for namespace {backend.namespace}.",
                    exc_info=True
                )
                unsuccessful[backend.namespace] = e

'''), ("    async def get_sending_chain_length(self", '''    async def __replace_session(self, backend: Backend, device: DeviceInformation) -> None:
        """
        Replace a single session.
        """

        content, plain_key_material = await backend.encrypt_empty()
        bundle = await self._download_bundle(backend.namespace, device.bare_jid, device.device_id)

        if bundle.identity_key != device.identity_key:
            raise KeyExchangeFailed("Identity key mismatch.")

        session, encrypted_key_material = await backend.build_session_active(
            device.bare_jid,
            device.device_id,
            bundle,
            plain_key_material
        )
        message = Message(
            namespace=backend.namespace,
            bare_jid=self.__own_bare_jid,
            device_id=self.__own_device_id,
            content=content,
            keys=frozenset({ (encrypted_key_material, session.key_exchange) })
        )
        await self._send_message(message, device.bare_jid)
        await backend.store_session(session)

    async def get_sending_chain_length(self'''))
bug("z_rep_store_else", ["C25", "C27"], ('''                    # Store the replacement
                    await backend.store_session(session)
                except OMEMOException as e:''', '''                except OMEMOException as e:'''),
    ('''                    unsuccessful[backend.namespace] = e

        logging.getLogger(SessionManager.LOG_TAG).info("Session replacement done.")''', '''                    unsuccessful[backend.namespace] = e
                finally:
                    await backend.store_session(session)

        logging.getLogger(SessionManager.LOG_TAG).info("Session replacement done.")'''))
bug("z_rep_replace_inactive_only", ["C25"], ("            if await backend.load_session(device.bare_jid, device.device_id) is not None\n        })))", "            if await backend.load_session(device.bare_jid, device.device_id) is not None\n            and dict(device.active)[backend.namespace]\n        })))"))
bug("z_rep_ik_unchecked_first", ["C03"], ('''                    if bundle.identity_key != device.identity_key:
                        raise KeyExchangeFailed(
                            "The identity key in the bundle doesn't match the identity key of the device."
                        )

                    # Build a new session to replace''', '''                    if unsuccessful and bundle.identity_key != device.identity_key:
                        raise KeyExchangeFailed(
                            "The identity key in the bundle doesn't match the identity key of the device."
                        )

                    # Build a new session to replace'''))
bug("z_rep_msg_to_self", ["C25", "C07"], ("                    ), device.bare_jid)\n\n                    # Store the replacement", "                    ), self.__own_bare_jid)\n\n                    # Store the replacement"))

# ------------------------------------------------------------------------------------------------------------ get_sending_chain_length
SCL = cut("        sessions = {\n            backend.namespace: await", "        logging.getLogger(SessionManager.LOG_TAG).debug(\n            f\"Sending chain lengths reported")
ref("z_scl_single", (SCL, '''        sending_chain_length: Dict[str, Optional[int]] = {}
        for backend in self.__backends:
            if backend.namespace not in device.namespaces:
                continue
            session = await backend.load_session(device.bare_jid, device.device_id)
            sending_chain_length[backend.namespace] = getattr(session, "sending_chain_length", None)

'''))
ref("z_scl_update", (SCL, '''        sending_chain_length: Dict[str, Optional[int]] = dict()
        for backend in filter(lambda backend: backend.namespace in device.namespaces, self.__backends):
            sending_chain_length[backend.namespace] = None
            session = await backend.load_session(device.bare_jid, device.device_id)
            if session is not None:
                sending_chain_length.update({ backend.namespace: session.sending_chain_length })

'''))
bug("z_scl_active_only", ["C32"], ("            in self.__backends\n            if backend.namespace in device.namespaces\n        }\n\n        sending", "            in self.__backends\n            if dict(device.active).get(backend.namespace, False)\n        }\n\n        sending"))
bug("z_scl_falsy", ["C32"], ("namespace: None if session is None else session.sending_chain_length", "namespace: session and (session.sending_chain_length or None)"))

# ------------------------------------------------------------------------------------------------------------ set_own_label
LABEL = cut("            device_list = await self._download_device_list(backend.namespace, self.__own_bare_jid)\n            device_list[", "    async def get_device_information(self")
ref("z_label_merge", (LABEL, '''            device_list = await self._download_device_list(backend.namespace, self.__own_bare_jid)
            await self._upload_device_list(
                backend.namespace,
                { **device_list, self.__own_device_id: own_label }
            )

'''))
ref("z_label_two_phase", (cut("        for backend in self.__backends:\n            # Note: it is not required to download", "    async def get_device_information(self"), '''        own_jid, own_id = self.__own_bare_jid, self.__own_device_id
        for namespace in (backend.namespace for backend in self.__backends):
            device_list = dict(await self._download_device_list(namespace, own_jid))
            device_list.update({ own_id: own_label })
            await self._upload_device_list(namespace, device_list)

'''))
bug("z_label_if_present", ["C30"], (LABEL, '''            device_list = await self._download_device_list(backend.namespace, self.__own_bare_jid)
            if device_list.get(self.__own_device_id) != own_label:
                device_list[self.__own_device_id] = own_label
                await self._upload_device_list(backend.namespace, device_list)

'''))
bug("z_label_accumulate", ["C30"], (cut("        for backend in self.__backends:\n            # Note: it is not required to download", "    async def get_device_information(self"), '''        device_list: Dict[int, Optional[str]] = {}
        for backend in self.__backends:
            device_list.update(await self._download_device_list(backend.namespace, self.__own_bare_jid))
            device_list[self.__own_device_id] = own_label
            await self._upload_device_list(backend.namespace, device_list)

'''))
bug("z_label_setdefault", ["C30"], ("            device_list[self.__own_device_id] = own_label\n", "            device_list.setdefault(self.__own_device_id, own_label)\n"))
bug("z_label_empty", ["C30"], ("            device_list[self.__own_device_id] = own_label\n", "            device_list[self.__own_device_id] = own_label or None\n"))

# ------------------------------------------------------------------------------------------------------------ after_history_sync, __send_empty_message
QUEUES = cut("            # Load and delete the list of bare JIDs that have queued empty messages for this backend", "        logging.getLogger(SessionManager.LOG_TAG).debug(\"History synchronization mode exited")
ref("z_ahs_take", (QUEUES, '''            for bare_jid in await self.__take_list(f"/queue/{backend.namespace}", str):
                for device_id in await self.__take_list(f"/queue/{backend.namespace}/{bare_jid}", int):
                    session = await backend.load_session(bare_jid, device_id)
                    if session is not None:
                        await self.__send_empty_message(backend, session)

'''), ("    async def __send_empty_message(self", '''    async def __take_list(self, key, primitive):
        """
        Load and delete a list.
        """

        elements = (await self.__storage.load_list(key, primitive)).maybe([])
        await self.__storage.delete(key)
        return frozenset(elements)

    async def __send_empty_message(self'''))
ref("z_ahs_sessions_first", ("                for device_id in queued_device_ids:\n                    session = await backend.load_session(bare_jid, device_id)\n", '''                loaded = [ (device_id, await backend.load_session(bare_jid, device_id)) for device_id in queued_device_ids ]
                for device_id, session in loaded:
'''))
EMPTY = cut("        content, plain_key_material = await backend.encrypt_empty()\n        encrypted_key_material = await backend.encrypt_key_material(session, plain_key_material)\n", "    async def encrypt(")
ref("z_empty_if", (EMPTY, '''        content, plain_key_material = await backend.encrypt_empty()
        encrypted_key_material = await backend.encrypt_key_material(session, plain_key_material)

        key_exchange: Optional[KeyExchange] = None
        if session.initiation is Initiation.ACTIVE:
            if not session.confirmed:
                key_exchange = session.key_exchange

        keys = { (encrypted_key_material, key_exchange) }
        message = Message(
            namespace=backend.namespace,
            bare_jid=self.__own_bare_jid,
            device_id=self.__own_device_id,
            content=content,
            keys=frozenset(keys)
        )

        await self._send_message(message, session.bare_jid)
        await backend.store_session(session)

'''))
bug("z_empty_no_store", ["C11", "C12"], ("        ), session.bare_jid)\n        await backend.store_session(session)\n", "        ), session.bare_jid)\n"))
bug("z_empty_store_active", ["C11", "C12"], ("        ), session.bare_jid)\n        await backend.store_session(session)\n", "        ), session.bare_jid)\n        if session.initiation is Initiation.ACTIVE:\n            await backend.store_session(session)\n"))
bug("z_empty_initiation", ["C07"], ("                if session.initiation is Initiation.ACTIVE and not session.confirmed\n                else None\n            )) })\n", "                if session.initiation is Initiation.ACTIVE or not session.confirmed\n                else None\n            )) })\n"))
bug("z_ahs_delete_late", ["C12"], ('''                await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")

                logging.getLogger(SessionManager.LOG_TAG).debug(f"Queued device ids: {queued_device_ids}")
''', '''                logging.getLogger(SessionManager.LOG_TAG).debug(f"Queued device ids: {queued_device_ids}")
'''), ('''                        await self.__send_empty_message(backend, session)

        logging.getLogger(SessionManager.LOG_TAG).debug("History''', '''                        await self.__send_empty_message(backend, session)
                        await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")

        logging.getLogger(SessionManager.LOG_TAG).debug("History'''))
bug("z_ahs_other_ns", ["C12"], ("                    session = await backend.load_session(bare_jid, device_id)\n                    if session is None:\n                        logging", "                    session = await self.__backends[0].load_session(bare_jid, device_id)\n                    if session is None:\n                        logging"))
bug("z_ahs_confirmed_only", ["C12"], ('''                    else:
                        # It is theoretically possible that the session has been deleted after an empty
''', '''                    elif not session.confirmed:
                        # It is theoretically possible that the session has been deleted after an empty
'''))

# ------------------------------------------------------------------------------------------------------------ purge_bare_jid
PJ_DEV = cut("        # Delete information about the individual devices\n", "        # Delete the device list\n")
ref("z_pj_fields", (PJ_DEV, '''        # Delete information about the individual devices
        for prefix in [ f"/devices/{bare_jid}/{device_id}" for device_id in device_list ]:
            for suffix in [ "namespaces", "active", "label", "identity_key" ]:
                await storage.delete(f"{prefix}/{suffix}")

'''))
ref("z_pj_keys_maybe", (cut("        # Collect identity keys used by this account\n", "        # Delete information about the individual devices\n"), '''        # Collect identity keys used by this account
        maybe_identity_keys = [
            await storage.load_bytes(f"/devices/{bare_jid}/{device_id}/identity_key") for device_id in device_list
        ]
        identity_keys = { maybe_key.from_just() for maybe_key in maybe_identity_keys if maybe_key.is_just }

'''))
bug("z_pj_ik_lost", ["C18"], ('''            except NothingException:
                pass

        # Delete information about the individual''', '''            except NothingException:
                break

        # Delete information about the individual'''))
bug("z_pj_early", ["C18"], ("        # Collect identity keys used by this account\n", "        if len(device_list) == 0:\n            return\n\n        # Collect identity keys used by this account\n"))
bug("z_pj_queue_first_only", ["C18"], ('''            await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")

        # Remove backend-specific''', '''            await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")
            break

        # Remove backend-specific'''))
bug("z_pj_prefix", ["C18"], ("[ queued_jid for queued_jid in queued_jids if queued_jid != bare_jid ]", "[ queued_jid for queued_jid in queued_jids if not queued_jid.startswith(bare_jid) ]"))

# ------------------------------------------------------------------------------------------------------------ update_device_list
ref("z_udl_store_changed", ('''                if namespace not in active or active[namespace] is False:
                    active[namespace] = True
''', '''                if not active.get(namespace, False):
                    active[namespace] = True
'''), ('''                if namespace in namespaces:
                    if active[namespace] is True:
                        active[namespace] = False
''', '''                if namespace in namespaces and active[namespace]:
                    if True:
                        active.update({ namespace: False })
'''))
ref("z_udl_union", ("        if len(new_devices) > 0:\n            await storage.store(f\"/devices/{bare_jid}/list\", list(new_device_list | old_device_list))", "        if not new_device_list <= old_device_list:\n            await storage.store(f\"/devices/{bare_jid}/list\", sorted(old_device_list.union(new_devices)))"))
ref("z_udl_own_flag", ('''        if (
            bare_jid == self.__own_bare_jid
            and namespace in frozenset(backend.namespace for backend in self.__backends)
            and self.__own_device_id not in new_device_list
        ):''', '''        is_own = bare_jid == self.__own_bare_jid
        is_loaded = any(backend.namespace == namespace for backend in self.__backends)
        if is_own and is_loaded and self.__own_device_id not in device_list:'''))
ref("z_udl_fields_dict", (cut("        for device_id in new_devices:\n            await storage.store(", "        # Update namespaces, label and status for previously known"), '''        for device_id in new_devices:
            prefix = f"/devices/{bare_jid}/{device_id}"
            initial_information = {
                "active": { namespace: True },
                "label": device_list[device_id],
                "namespaces": [ namespace ]
            }
            for field, value in initial_information.items():
                await storage.store(f"{prefix}/{field}", value)

'''))
bug("z_udl_label_truthy", ["C13"], ("if device_list[device_id] is not None and device_list[device_id] != label:", "if device_list[device_id] and device_list[device_id] != label:"))
bug("z_udl_label_only_unset", ["C13"], ("if device_list[device_id] is not None and device_list[device_id] != label:", "if label is None and device_list[device_id] is not None:"))
bug("z_udl_list_before", ["C13"], ('''        # Add new device information entries for new devices
''', '''        if len(new_devices) > 0:
            await storage.store(f"/devices/{bare_jid}/list", list(new_device_list | old_device_list))

        # Add new device information entries for new devices
'''), ('''        if len(new_devices) > 0:
            await storage.store(f"/devices/{bare_jid}/list", list(new_device_list | old_device_list))

        logging.getLogger(SessionManager.LOG_TAG).debug("Device list update proc''', '''        logging.getLogger(SessionManager.LOG_TAG).debug("Device list update proc'''))
bug("z_udl_list_drops", ["C13"], ("list(new_device_list | old_device_list))\n\n        logging", "list(new_devices | (old_device_list & new_device_list)))\n\n        logging"))
bug("z_udl_own_inactive", ["C13"], ("            if device_id in device_list:\n                # Update the status if required", "            if device_id in new_device_list:\n                # Update the status if required"))

# ------------------------------------------------------------------------------------------------------------ get_device_information
ref("z_gdi_walrus", (cut("            identity_key: bytes\n            try:", "                logging.getLogger(SessionManager.LOG_TAG).debug(\n                    f\"Identity key assigned to device {device_id} not known."), '''            identity_key = (await storage.load_bytes(f"/devices/{bare_jid}/{device_id}/identity_key")).maybe(None)
            if identity_key is None:
'''))
ref("z_gdi_find_bundle", (cut("                for namespace in namespaces:\n                    try:\n                        bundle = await self._download_bundle", "            active = (await storage.load_dict(f\"/devices/{bare_jid}/{device_id}/active\", bool)).from_just()\n            label"), '''                bundle = await self.__find_bundle(namespaces, bare_jid, device_id)
                if bundle is None:
                    continue

                bundle_cache.add(bundle)
                identity_key = bundle.identity_key
                await storage.store_bytes(f"/devices/{bare_jid}/{device_id}/identity_key", identity_key)

'''), ("    async def get_own_device_information(self", '''    async def __find_bundle(self, namespaces: Set[str], bare_jid: str, device_id: int) -> Optional[Bundle]:
        """
        Find any bundle of a device.
        """

        for namespace in namespaces:
            try:
                return await self._download_bundle(namespace, bare_jid, device_id)
            except (BundleDownloadFailed, BundleNotFound):
                logging.getLogger(SessionManager.LOG_TAG).warning("Bundle not available.", exc_info=True)

        return None

    async def get_own_device_information(self'''))
ref("z_gdi_load_helper", ('''            active = (await storage.load_dict(f"/devices/{bare_jid}/{device_id}/active", bool)).from_just()
            label = (await storage.load_optional(f"/devices/{bare_jid}/{device_id}/label", str)).from_just()

            trust_level_name = (await storage.load_primitive(
                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)
''', '''            device_prefix = f"/devices/{bare_jid}/{device_id}"
            active, label, trust_level_name = (
                (await storage.load_dict(f"{device_prefix}/active", bool)).from_just(),
                (await storage.load_optional(f"{device_prefix}/label", str)).from_just(),
                await self.__load_trust_level_name(bare_jid, identity_key)
            )
'''), ('''            devices = { device._replace(trust_level_name=(await self.__storage.load_primitive(
                f"/trust/{device.bare_jid}/{base64.urlsafe_b64encode(device.identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)) for device in devices }
''', '''            devices = {
                device._replace(trust_level_name=await self.__load_trust_level_name(
                    device.bare_jid,
                    device.identity_key
                ))
                for device in devices
            }
'''), ("    async def get_own_device_information(self", '''    async def __load_trust_level_name(self, bare_jid: str, identity_key: bytes) -> str:
        """
        Load the trust level of an identity key.
        """

        trust_level_name = await self.__storage.load_primitive(
            f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
            str
        )

        if trust_level_name.is_nothing:
            return self.__undecided_trust_level_name

        return trust_level_name.from_just()

    async def get_own_device_information(self'''))
bug("z_gdi_active_filtered", ["C31"], ("                active=frozenset(active.items()),", "                active=frozenset((ns, flag) for ns, flag in active.items() if flag),"))
bug("z_gdi_trust_any", ["C31", "C01", "C02"], ("            )).maybe(self.__undecided_trust_level_name)\n\n            if any(", "            )).maybe(None) or self.__undecided_trust_level_name\n\n            if any("))
bug("z_gdi_ik_cached_var", ["C31"], ("                else:\n                    # Skip this device in case none of the bundles could be downloaded\n", "                else:\n                    # Skip this device in case none of the bundles could be downloaded\n                    await storage.store(f\"/devices/{bare_jid}/{device_id}/active\", { ns: False for ns in namespaces })\n"))
bug("z_gdi_break_all", ["C31"], ("                        f\" {bare_jid} due to the lack of downloadable bundles for identity key assignment.\"\n                    )\n                    continue", "                        f\" {bare_jid} due to the lack of downloadable bundles for identity key assignment.\"\n                    )\n                    break"))

# ------------------------------------------------------------------------------------------------------------ storage
ref("z_sto_load_nested", (STO, '''        if self.__cache is not None and key in self.__cache:
            return self.__cache[key]

        value = await self._load(key)
''', '''        cache = self.__cache
        if cache is None:
            return await self._load(key)

        if key in cache:
            return cache[key]

        value = await self._load(key)
'''))
ref("z_just_prop", (STO, "        self.__value = copy.deepcopy(value)", "        value = copy.deepcopy(value)\n        self.__value = value"))
ref("z_list_helper", (STO, "            if isinstance(value, list) and all(isinstance(element, primitive) for element in value):\n                return cast(List[PrimitiveTypeT], value)\n", '''            if isinstance(value, list):
                for element in value:
                    if not isinstance(element, primitive):
                        break
                else:
                    return cast(List[PrimitiveTypeT], value)
'''))
ref("z_dict_guard", (STO, "            if isinstance(value, dict) and all(isinstance(v, primitive) for v in value.values()):\n                return cast(Dict[str, PrimitiveTypeT], value)\n", '''            is_dict = isinstance(value, dict)
            if is_dict and not any(not isinstance(v, primitive) for _, v in value.items()):
                return cast(Dict[str, PrimitiveTypeT], value)
'''))
bug("z_just_lazy", ["C15"], (STO, "        self.__value = copy.deepcopy(value)", "        self.__value = value"))
bug("z_just_fmap_raw", ["C15"], (STO, "        return Just(function(copy.deepcopy(self.__value)))", "        return Just(function(self.__value))"))
bug("z_just_list_copy", ["C15"], (STO, "    def maybe(self, default: DefaultTypeT) -> ValueTypeT:\n        return copy.deepcopy(self.__value)", "    def maybe(self, default: DefaultTypeT) -> ValueTypeT:\n        return list(self.__value) if isinstance(self.__value, list) else copy.deepcopy(self.__value)"))
bug("z_list_first_last", ["C16"], (STO, "all(isinstance(element, primitive) for element in value)", "isinstance(next(iter(value), primitive()), primitive)"))
bug("z_prim_subclass", ["C16"], (STO, "            if isinstance(value, primitive):\n                return value\n", "            if isinstance(value, primitive) or isinstance(value, (int, float)) and primitive in (int, float):\n                return value\n"))
bug("z_opt_falsy", ["C16"], (STO, "            if value is None or isinstance(value, primitive):\n", "            if not value or isinstance(value, primitive):\n"))

# ------------------------------------------------------------------------------------------------------------ encrypt
FAIL = cut("                except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed) as e:\n", "                else:\n                    # Extract the data that needs")
ref("z_enc_else_flat", (FAIL, FAIL + "                    continue\n\n"), (cut("                else:\n                    # Extract the data that needs", "            # Build the message from content, key material"), '''                # Extract the data that needs to be sent to the other party
                needs_key_exchange = session.initiation is Initiation.ACTIVE and not session.confirmed
                keys.add((encrypted_key_material, session.key_exchange if needs_key_exchange else None))

                # Keep track of the modified sessions to store them once encryption is fully done.
                sessions.add((backend, session))

'''))
ref("z_enc_fail_dict", ('''                    devices.remove(device)
''', '''                    devices = devices - { device }
'''))
ref("z_enc_bundle_loop", (cut("                bundle = next((bundle for bundle in bundle_cache if (", "                logging.getLogger(SessionManager.LOG_TAG).debug(f\"Cached bundle"), '''                bundle = None
                for cached_bundle in bundle_cache:
                    if (cached_bundle.namespace, cached_bundle.bare_jid, cached_bundle.device_id) == (
                        backend.namespace, device.bare_jid, device.device_id
                    ):
                        bundle = cached_bundle
                        break
'''))
ref("z_enc_noelig_set", (cut("        no_eligible_devices = frozenset(filter(", "        if len(no_eligible_devices) > 0:"), '''        covered_jids = { device.bare_jid for device in devices }
        no_eligible_devices = frozenset(
            bare_jid for bare_jid in bare_jids
            if bare_jid != self.__own_bare_jid and bare_jid not in covered_jids
        )

'''))
ref("z_enc_gather_loop", (cut("        tmp = frozenset([ await self.__get_device_information(bare_jid)", "        logging.getLogger(SessionManager.LOG_TAG).debug(\n            f\"Recipient devices: "), '''        devices: Set[DeviceInformation] = set()
        bundle_cache: Set[Bundle] = set()
        for bare_jid in bare_jids:
            jid_devices, jid_bundles = await self.__get_device_information(bare_jid)
            devices.update(device for device in jid_devices if is_valid_recipient_device(device))
            bundle_cache |= jid_bundles

'''))
ref("z_enc_trust_dict", (cut("        # Make sure the trust status of all previously undecided devices has been decided on\n", "        logging.getLogger(SessionManager.LOG_TAG).debug(f\"Trusted devices"), '''        # Make sure the trust status of all previously undecided devices has been decided on
        trust_levels = { device: await self._evaluate_custom_trust_level(device) for device in devices }

        still_undecided = { device for device, level in trust_levels.items() if level is TrustLevel.UNDECIDED }
        if still_undecided:
            raise StillUndecided(f"Still undecided: {still_undecided}")

        # Keep only trusted devices
        devices = { device for device, level in trust_levels.items() if level is TrustLevel.TRUSTED }

'''))
ref("z_enc_trust_match", (cut("        # Make sure the trust status of all previously undecided devices has been decided on\n", "        logging.getLogger(SessionManager.LOG_TAG).debug(f\"Trusted devices"), '''        # Make sure the trust status of all previously undecided devices has been decided on
        trusted_devices: Set[DeviceInformation] = set()
        still_undecided: Set[DeviceInformation] = set()
        for device in devices:
            level = await self._evaluate_custom_trust_level(device)
            if level is TrustLevel.TRUSTED:
                trusted_devices.add(device)
            elif level is TrustLevel.UNDECIDED:
                still_undecided.add(device)

        if len(still_undecided) != 0:
            raise StillUndecided(f"Still undecided: {still_undecided}")

        devices = trusted_devices

'''))
ref("z_enc_group", (cut("            backend_devices = frozenset(\n                device for device in devices if next(iter", "            logging.getLogger(SessionManager.LOG_TAG).debug(\n                f\"Encrypting for devices"), '''            backend_devices = [ device for device in devices if backend.namespace in device.namespaces ]

'''))
ref("z_enc_prio_loop", (cut("            return device._replace(namespaces=frozenset(sorted((", "        devices = {\n            apply_backend_priorty_order"), '''            active = dict(device.active)
            for namespace in backend_priority_order:
                if namespace in device.namespaces and active[namespace]:
                    return device._replace(namespaces=frozenset({ namespace }))

            return device._replace(namespaces=frozenset())

'''))
ref("z_enc_store_dict", ("        for backend, session in sessions:\n            # Persist the session as the final step\n            await backend.store_session(session)", "        for used in sessions:\n            # Persist the session as the final step\n            await used[0].store_session(used[1])"))
ref("z_enc_keys_method", ('''                    keys.add((encrypted_key_material, (
                        session.key_exchange
                        if session.initiation is Initiation.ACTIVE and not session.confirmed
                        else None
                    )))
''', '''                    keys.add((encrypted_key_material, self.__get_unconfirmed_key_exchange(session)))
'''), ('''            frozenset({ (encrypted_key_material, (
                session.key_exchange
                if session.initiation is Initiation.ACTIVE and not session.confirmed
                else None
            )) })
''', '''            frozenset({ (encrypted_key_material, self.__get_unconfirmed_key_exchange(session)) })
'''), ("    async def __send_empty_message(self", '''    @staticmethod
    def __get_unconfirmed_key_exchange(session: Session) -> Optional[KeyExchange]:
        """
        The key exchange to include in messages.
        """

        if session.confirmed or session.initiation is not Initiation.ACTIVE:
            return None

        return session.key_exchange

    async def __send_empty_message(self'''))
bug("z_enc_fail_break", ["C06"], ('''                        device.device_id,
                        e
                    ))
                else:''', '''                        device.device_id,
                        e
                    ))
                    break
                else:'''))
bug("z_enc_retry_no_check", ["C03"], ("                        if bundle.identity_key != device.identity_key:\n                            raise KeyExchangeFailed(\n                                \"The identity key in the bundle doesn't match the identity key of the device.\"\n                            )\n\n                        session, enc", "                        if bundle not in bundle_cache and bundle.identity_key != device.identity_key:\n                            raise KeyExchangeFailed(\n                                \"The identity key in the bundle doesn't match the identity key of the device.\"\n                            )\n\n                        session, enc"))
bug("z_enc_cached_ns", ["C03", "C04", "C06"], ("                    bundle.namespace == backend.namespace\n                    and bundle.bare_jid", "                    bundle.bare_jid"),)
bug("z_enc_prio_active_any", ["C04"], ("                if dict(device.active)[namespace] and namespace in backend_priority_order\n", "                if any(active for _, active in device.active) and namespace in backend_priority_order\n"))
bug("z_enc_noelig_empty_msgs", ["C06"], ("        if len(no_eligible_devices) > 0:\n            raise NoEligibleDevices(", "        if len(no_eligible_devices) > 0 and len(encryption_errors) > 0:\n            raise NoEligibleDevices("))
bug("z_enc_session_by_ns", ["C05"], ("                    sessions.add((backend, session))\n", "                    if session.initiation is Initiation.ACTIVE:\n                        sessions.add((backend, session))\n"))
bug("z_enc_trust_decided_devices", ["C01"], ("            await self._make_trust_decision(undecided_devices, identifier)\n", "            for undecided_device in undecided_devices:\n                await self._make_trust_decision(frozenset({ undecided_device }), identifier)\n"))

# ------------------------------------------------------------------------------------------------------------ decrypt
ref("z_dec_keys_dict", (cut("        try:\n            encrypted_key_material, key_exchange = next(filter(", "        logging.getLogger(SessionManager.LOG_TAG).debug(\n            f\"Encrypted key material: "), '''        own_keys = [ entry for entry in message.keys if (
            entry[0].bare_jid == self.__own_bare_jid
            and entry[0].device_id == self.__own_device_id
        ) ]
        if len(own_keys) == 0:
            raise MessageNotForUs("The message to decrypt does not contain key material for us.")
        encrypted_key_material, key_exchange = own_keys[0]

'''))
ref("z_dec_device_helper", (cut("        devices = await self.get_device_information(message.bare_jid)\n        device = next(filter(lambda device: device.device_id == message.device_id, devices), None)", "        # Check the trust level of the sending device. Abort"), '''        device = await self.__find_device(message.bare_jid, message.device_id)
        if device is None:
            await self.refresh_device_list(message.namespace, message.bare_jid)
            device = await self.__find_device(message.bare_jid, message.device_id)

        if device is None:
            raise SenderNotFound("Couldn't find public information about the device which sent this message.")

'''), ("    async def decrypt(self, message: Message)", '''    async def __find_device(self, bare_jid: str, device_id: int) -> Optional[DeviceInformation]:
        """
        Find a device.
        """

        for device in await self.get_device_information(bare_jid):
            if device.device_id == device_id:
                return device
        return None

    async def decrypt(self, message: Message)'''))
ref("z_dec_session_ifs", (cut("            session = await backend.load_session(device.bare_jid, device.device_id)\n            if session is not None:\n                logging", "            # If an existing session is used, and the session was built through active"), '''            session = await backend.load_session(device.bare_jid, device.device_id)
            if (
                session is not None
                and session.initiation is Initiation.PASSIVE
                and session.key_exchange.builds_same_session(key_exchange)
            ):
                plain_key_material = await backend.decrypt_key_material(session, encrypted_key_material)
            else:
                session, plain_key_material = await backend.build_session_passive(
                    device.bare_jid,
                    device.device_id,
                    key_exchange,
                    encrypted_key_material
                )

'''))
ref("z_dec_post_helpers", (cut("        # If this message was a key exchange, take care of pre key hiding/deletion.\n", "        # Send an empty message if necessary to avoid staleness"), '''        if key_exchange is not None:
            await self.__handle_used_pre_key(backend, session)

'''), ("    async def decrypt(self, message: Message)", '''    async def __handle_used_pre_key(self, backend: Backend, session: Session) -> None:
        """
        Remove a used pre key.
        """

        remove = backend.hide_pre_key if self.__synchronizing else backend.delete_pre_key
        if not await remove(session):
            return

        num_visible_pre_keys = await backend.get_num_visible_pre_keys()
        if not num_visible_pre_keys > self.__pre_key_refill_threshold:
            await backend.generate_pre_keys(100 - num_visible_pre_keys)

        await self._upload_bundle(await backend.get_bundle(self.__own_bare_jid, self.__own_device_id))

    async def decrypt(self, message: Message)'''))
ref("z_dec_queue_method", (cut("                # Add this bare JID to the queue\n", "            else:\n                # If not in history synchronization mode, send the empty"), '''                await self.__enqueue(f"/queue/{session.namespace}", session.bare_jid, str)
                await self.__enqueue(f"/queue/{session.namespace}/{session.bare_jid}", session.device_id, int)
'''), ("    async def decrypt(self, message: Message)", '''    async def __enqueue(self, key, element, primitive):
        """
        Add an element to a list in storage.
        """

        elements = (await self.__storage.load_list(key, primitive)).maybe([])
        if element not in elements:
            elements.append(element)
            await self.__storage.store(key, elements)

    async def decrypt(self, message: Message)'''))
ref("z_dec_stale_local", ('''        if (
            key_exchange is not None
            or (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER
        ):''', '''        receiving_chain_length = session.receiving_chain_length
        is_stale = (
            receiving_chain_length is not None
            and receiving_chain_length >= SessionManager.STALENESS_MAGIC_NUMBER + 1
        )
        if is_stale or key_exchange is not None:'''))
bug("z_dec_trust_raise_after", ["C02", "C09"], ('''        # Persist the session following successful decryption
        await backend.store_session(session)

        # If this message was a key exchange, take''', '''        # Persist the session following successful decryption
        if plaintext is not None or key_exchange is not None:
            await backend.store_session(session)

        # If this message was a key exchange, take'''))
bug("z_dec_hide_when_changed", ["C10"], ("                bundle_changed = await backend.delete_pre_key(session)\n", "                bundle_changed = await backend.hide_pre_key(session) and await backend.delete_pre_key(session)\n"))
bug("z_dec_refill_target", ["C10"], ("await backend.generate_pre_keys(100 - num_visible_pre_keys)\n\n                bundle =", "await backend.generate_pre_keys(self.__pre_key_refill_threshold - num_visible_pre_keys)\n\n                bundle ="))
bug("z_dec_upload_refill_sync", ["C10"], ("                bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)\n                await self._upload_bundle(bundle)\n\n        # Send an empty", "                if not self.__synchronizing:\n                    bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)\n                    await self._upload_bundle(bundle)\n\n        # Send an empty"))
bug("z_dec_queue_device", ["C11"], ("                queued_device_ids.add(session.device_id)\n", "                queued_device_ids.add(self.__own_device_id)\n"))
bug("z_dec_completion_empty_only", ["C11"], ("            key_exchange is not None\n            or (session.receiving_chain_length or 0) >", "            (key_exchange is not None and not message.content.empty)\n            or (session.receiving_chain_length or 0) >"))
bug("z_dec_ik_existing_ok", ["C03"], ('''            if key_exchange.identity_key != device.identity_key:
                raise''', '''            if (
                key_exchange.identity_key != device.identity_key
                and await backend.load_session(device.bare_jid, device.device_id) is None
            ):
                raise'''))
ref("z_gi_own_remove", ('''        other_own_devices = frozenset(filter(
            lambda dev: dev.device_id != self.__own_device_id,
            all_own_devices
        ))

        return next(iter(all_own_devices - other_own_devices)), other_own_devices
''', '''        own_device = next(device for device in all_own_devices if device.device_id == self.__own_device_id)
        others = set(all_own_devices)
        others.remove(own_device)
        return own_device, frozenset(others)
'''))
FLAGLOOP = '''            unknown_activity = False
            for ns in namespaces:
                if ns not in active:
                    unknown_activity = True
                    break
            if unknown_activity:
'''
ref("z_gdi_flagloop", ('''            if any(namespace not in active for namespace in namespaces):
''', FLAGLOOP))
ref("z_gdi_flagloop_samevar", ('''            if any(namespace not in active for namespace in namespaces):
''', FLAGLOOP.replace("ns in", "namespace in").replace("ns not", "namespace not")))
