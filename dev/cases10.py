"""More rewrites that keep the behaviour: storage management, device lists, rotation, creation, key pair."""
SRC = open("/repo/omemo/session_manager.py", encoding="utf-8").read()
CASES = []


def cut(a, b):
    i = SRC.index(a)
    return SRC[i:SRC.index(b, i + len(a))]


def bug(name, want, *edits):
    CASES.append((name, want, edits))


def ref(name, *edits):
    CASES.append((name, None, edits))


STO = "omemo/storage.py"
IKP = "omemo/identity_key_pair.py"
BAK = "omemo/backend.py"

# ------------------------------------------------------------------------------------------------------------ purge_backend
POP = cut("        try:\n            device_list.pop(self.__own_device_id)\n", "        # Synchronize the offline device list with the online")
ref("y_pb_if_in", (POP, '''        if self.__own_device_id in device_list:
            del device_list[self.__own_device_id]
            await self._upload_device_list(namespace, device_list)

'''))
ref("y_pb_comp", (POP, '''        remaining = { device_id: label for device_id, label in device_list.items() if device_id != self.__own_device_id }
        if len(remaining) != len(device_list):
            await self._upload_device_list(namespace, remaining)

'''))
ref("y_pb_comp2", (POP, '''        if self.__own_device_id in device_list:
            await self._upload_device_list(namespace, {
                device_id: label for device_id, label in device_list.items() if device_id != self.__own_device_id
            })

'''))
SYNC = cut("        device, _ = await self.get_own_device_information()\n        active = dict(device.active)\n", "        # If the backend is currently loaded, remove it from the list")
ref("y_pb_sync_comp", (SYNC, '''        device, _ = await self.get_own_device_information()
        own_prefix = f"/devices/{self.__own_bare_jid}/{self.__own_device_id}"
        await self.__storage.store(own_prefix + "/active", { ns: flag for ns, flag in device.active if ns != namespace })
        await self.__storage.store(own_prefix + "/namespaces", [ ns for ns in device.namespaces if ns != namespace ])

'''))
ref("y_pb_sync_helper", (SYNC, '''        await self.__forget_namespace(namespace)

'''), ("    async def purge_bare_jid(self", '''    async def __forget_namespace(self, namespace: str) -> None:
        """
        Remove a namespace from the offline information about this device.
        """

        own_device = (await self.get_own_device_information())[0]
        active = { key: value for key, value in own_device.active if key != namespace }
        namespaces = own_device.namespaces - { namespace }

        own_key = f"/devices/{self.__own_bare_jid}/{self.__own_device_id}"
        for field, value in (("active", active), ("namespaces", list(namespaces))):
            await self.__storage.store(f"{own_key}/{field}", value)

    async def purge_bare_jid(self'''))
UNLOAD = cut("        purged_backend = next(filter(lambda backend: backend.namespace == namespace", "        # Remaining backend-specific offline data removal")
ref("y_pb_unload_loop", (UNLOAD, '''        purged_backend: Optional[Backend] = None
        remaining_backends: List[Backend] = []
        for backend in self.__backends:
            if backend.namespace == namespace:
                purged_backend = backend
            else:
                remaining_backends.append(backend)
        self.__backends = remaining_backends

'''))
ref("y_pb_unload_map", (UNLOAD, '''        backends_by_namespace = { backend.namespace: backend for backend in self.__backends }
        purged_backend = backends_by_namespace.pop(namespace, None)
        self.__backends = list(backends_by_namespace.values())

'''))

# ----------------------------------------------------------------------------------------------------------- purge_bare_jid
PJ = cut("        # Collect identity keys used by this account\n", "        # Remove empty messages queued for this account\n")
ref("y_pj_one_loop", (PJ, '''        trust_keys: Set[str] = set()
        for device_id in device_list:
            prefix = f"/devices/{bare_jid}/{device_id}"
            identity_key = (await storage.load_bytes(f"{prefix}/identity_key")).maybe(None)
            if identity_key is not None:
                trust_keys.add(f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}")
            for suffix in ("namespaces", "active", "label", "identity_key"):
                await storage.delete(f"{prefix}/{suffix}")

        # Delete the device list
        await storage.delete(f"/devices/{bare_jid}/list")

        for trust_key in trust_keys:
            await storage.delete(trust_key)

'''))
ref("y_pj_keys_list", (PJ, '''        to_delete: List[str] = []
        identity_keys: Set[bytes] = set()
        for device_id in device_list:
            maybe_identity_key = await storage.load_bytes(f"/devices/{bare_jid}/{device_id}/identity_key")
            if maybe_identity_key.is_just:
                identity_keys.add(maybe_identity_key.from_just())
            to_delete.extend(
                f"/devices/{bare_jid}/{device_id}/{field}" for field in ("namespaces", "active", "label", "identity_key")
            )
        to_delete.append(f"/devices/{bare_jid}/list")
        to_delete.extend(
            f"/trust/{bare_jid}/{base64.urlsafe_b64encode(key).decode('ASCII')}" for key in identity_keys
        )
        for key in to_delete:
            await storage.delete(key)

'''))
QJ = cut("        for backend in self.__backends:\n            queued_jids = (await storage.load_list(f\"/queue/{backend.namespace}\", str)).maybe([])\n            if bare_jid", "        # Remove backend-specific data\n")
ref("y_pj_queue_set", (QJ, '''        for backend in self.__backends:
            queue_key = f"/queue/{backend.namespace}"
            queued = set((await storage.load_list(queue_key, str)).maybe([]))
            if bare_jid in queued:
                queued.remove(bare_jid)
                await storage.store(queue_key, list(queued))
            await storage.delete(f"{queue_key}/{bare_jid}")

'''))
ref("y_pj_backend_merge", (QJ, '''        for backend in self.__backends:
            await self.__drop_queue(backend.namespace, bare_jid)

'''), ("    async def __manage_signed_pre_key_rotation(", '''    async def __drop_queue(self, namespace: str, bare_jid: str) -> None:
        await self.__storage.delete(f"/queue/{namespace}/{bare_jid}")
        queued_jids = (await self.__storage.load_list(f"/queue/{namespace}", str)).maybe([])
        if bare_jid not in queued_jids:
            return
        await self.__storage.store(f"/queue/{namespace}", list(filter(lambda jid: jid != bare_jid, queued_jids)))

    async def __manage_signed_pre_key_rotation('''))

# ----------------------------------------------------------------------------------------------------------------- rotation
ROT = cut("        while True:\n            # Keep track of when the next signed pre key rotation is due\n", "    async def ensure_data_consistency(self)")
ref("y_rot_due_list", (ROT, '''        while True:
            next_check = signed_pre_key_rotation_period
            for backend in self.__backends:
                age = await backend.signed_pre_key_age()
                if age <= signed_pre_key_rotation_period:
                    next_check = min(next_check, signed_pre_key_rotation_period - age)
                    continue
                await backend.rotate_signed_pre_key()
                await self.__publish_rotated(backend, async_sleep)
            await async_sleep(next_check + 60)

    async def __publish_rotated(self, backend: Backend, async_sleep: Any) -> None:
        retry_delay = 60
        while True:
            bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
            try:
                await self._upload_bundle(bundle)
                return
            except BundleUploadFailed:
                await async_sleep(retry_delay)
                retry_delay = min(2 * retry_delay, 3600)

'''), ("from typing import ", "from typing import Any, "))
ref("y_rot_flag", (ROT, '''        while True:
            next_check = signed_pre_key_rotation_period
            for backend in self.__backends:
                remaining = signed_pre_key_rotation_period - await backend.signed_pre_key_age()
                if remaining >= 0:
                    if remaining < next_check:
                        next_check = remaining
                else:
                    await backend.rotate_signed_pre_key()
                    uploaded = False
                    retry_delay = 60
                    while not uploaded:
                        try:
                            await self._upload_bundle(
                                await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                            )
                            uploaded = True
                        except BundleUploadFailed:
                            logging.getLogger(SessionManager.LOG_TAG).error("Bundle upload failed.", exc_info=True)
                            await async_sleep(retry_delay)
                            retry_delay = min(retry_delay * 2, 60 * 60)
            await async_sleep(next_check + 60)

'''))

# --------------------------------------------------------------------------------------------------------------- consistency
EDC = cut("            upload_bundle = False\n            try:\n                remote_bundle", "        logging.getLogger(SessionManager.LOG_TAG).info(\"Data consistency ensured/restored.\")")
ref("y_edc_optional", (EDC, '''            remote_bundle: Optional[Bundle] = None
            try:
                remote_bundle = await self._download_bundle(
                    backend.namespace, self.__own_bare_jid, self.__own_device_id
                )
            except (BundleDownloadFailed, BundleNotFound):
                logging.getLogger(SessionManager.LOG_TAG).warning("No own bundle.", exc_info=True)

            if remote_bundle is None or remote_bundle != local_bundle:
                await self._upload_bundle(local_bundle)

'''))
ref("y_edc_continue", (EDC, '''            try:
                if await self._download_bundle(
                    backend.namespace, self.__own_bare_jid, self.__own_device_id
                ) == local_bundle:
                    continue
            except BundleDownloadFailed:
                pass
            except BundleNotFound:
                pass

            await self._upload_bundle(local_bundle)

'''))

# --------------------------------------------------------------------------------------------------------------- device list
OLD = cut("        # Update namespaces, label and status for previously known devices\n", "        # If there are unknown devices in the new device list")
ref("y_udl_split", (OLD, '''        for device_id in old_device_list:
            prefix = f"/devices/{bare_jid}/{device_id}"
            namespaces = (await storage.load_list(f"{prefix}/namespaces", str)).from_just()
            active = (await storage.load_dict(f"{prefix}/active", bool)).from_just()

            if device_id not in device_list:
                if namespace in namespaces and active[namespace]:
                    await storage.store(f"{prefix}/active", { **active, namespace: False })
                continue

            if active.get(namespace, False) is not True:
                active[namespace] = True
                await storage.store(f"{prefix}/active", active)

            new_label = device_list[device_id]
            if new_label is not None:
                if new_label != (await storage.load_optional(f"{prefix}/label", str)).from_just():
                    await storage.store(f"{prefix}/label", new_label)

            if namespace not in namespaces:
                await storage.store(f"{prefix}/namespaces", [ *namespaces, namespace ])

'''))
ref("y_udl_two_loops", (OLD, '''        for device_id in old_device_list & new_device_list:
            await self.__mark_active(namespace, bare_jid, device_id, device_list[device_id])

        if self.__own_device_id in old_device_list and self.__own_device_id not in new_device_list \\
                and bare_jid == self.__own_bare_jid:
            await self.__mark_active(namespace, bare_jid, self.__own_device_id, device_list[self.__own_device_id])

        for device_id in old_device_list - frozenset(device_list):
            namespaces = (await storage.load_list(f"/devices/{bare_jid}/{device_id}/namespaces", str)).from_just()
            if namespace in namespaces:
                active = (await storage.load_dict(f"/devices/{bare_jid}/{device_id}/active", bool)).from_just()
                if active[namespace] is True:
                    active[namespace] = False
                    await storage.store(f"/devices/{bare_jid}/{device_id}/active", active)

'''), ("    async def refresh_device_list(self", '''    async def __mark_active(self, namespace: str, bare_jid: str, device_id: int, new_label: Optional[str]) -> None:
        storage = self.__storage
        active = (await storage.load_dict(f"/devices/{bare_jid}/{device_id}/active", bool)).from_just()
        if not active.get(namespace, False):
            active[namespace] = True
            await storage.store(f"/devices/{bare_jid}/{device_id}/active", active)

        label = (await storage.load_optional(f"/devices/{bare_jid}/{device_id}/label", str)).from_just()
        if new_label is not None and new_label != label:
            await storage.store(f"/devices/{bare_jid}/{device_id}/label", new_label)

        namespaces = (await storage.load_list(f"/devices/{bare_jid}/{device_id}/namespaces", str)).from_just()
        if namespace not in namespaces:
            namespaces.append(namespace)
            await storage.store(f"/devices/{bare_jid}/{device_id}/namespaces", namespaces)

    async def refresh_device_list(self'''))
OWN = cut("        if (\n            bare_jid == self.__own_bare_jid\n            and namespace in frozenset(", "        # Add new device information entries for new devices\n")
ref("y_udl_own_early", (OWN, '''        is_own_account = bare_jid == self.__own_bare_jid
        if is_own_account and self.__own_device_id not in device_list:
            own_label_key = f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label"
            own_label = (await storage.load_optional(own_label_key, str)).from_just()
            device_list = { **device_list, self.__own_device_id: own_label }
            await self._upload_device_list(namespace, device_list)

'''))
NEWD = cut("        # Add new device information entries for new devices\n", "        # Update namespaces, label and status for previously known devices\n")
ref("y_udl_new_items", (NEWD, '''        for device_id, new_label in device_list.items():
            if device_id in new_devices:
                for field, value in (("active", { namespace: True }), ("label", new_label), ("namespaces", [ namespace ])):
                    await storage.store(f"/devices/{bare_jid}/{device_id}/{field}", value)

'''))
ref("y_udl_check_any", ('''        if namespace not in frozenset(backend.namespace for backend in self.__backends):
            raise UnknownNamespace(f"The backend handling the namespace {namespace} is not currently loaded.")

        # Copy to make''', '''        if not any(backend.namespace == namespace for backend in self.__backends):
            raise UnknownNamespace(f"The backend handling the namespace {namespace} is not currently loaded.")

        # Copy to make'''))
ref("y_udl_last", ('''        if len(new_devices) > 0:
            await storage.store(f"/devices/{bare_jid}/list", list(new_device_list | old_device_list))
''', '''        if new_devices:
            known_devices = sorted(old_device_list.union(new_devices))
            await storage.store(f"/devices/{bare_jid}/list", known_devices)
'''))
ref("y_refresh_var", ('''        await self.update_device_list(
            namespace,
            bare_jid,
            await self._download_device_list(namespace, bare_jid)
        )
''', '''        downloaded = await self._download_device_list(namespace=namespace, bare_jid=bare_jid)
        await self.update_device_list(device_list=downloaded, bare_jid=bare_jid, namespace=namespace)
'''))

# ------------------------------------------------------------------------------------------------------------------ replace
REP = cut("        device = device._replace(namespaces=(device.namespaces & frozenset({\n", "        logging.getLogger(SessionManager.LOG_TAG).info(\"Session replacement done.\")")
ref("y_rep_flat", (REP, '''        unsuccessful: Dict[str, OMEMOException] = {}

        candidates: List[Backend] = []
        for backend in self.__backends:
            if backend.namespace in device.namespaces:
                if await backend.load_session(device.bare_jid, device.device_id) is not None:
                    candidates.append(backend)

        for backend in candidates:
            try:
                await self.__replace_session(backend, device)
            except OMEMOException as e:
                logging.getLogger(SessionManager.LOG_TAG).warning("Session replacement failed.", exc_info=True)
                unsuccessful[backend.namespace] = e

'''), ("    async def get_sending_chain_length(self", '''    async def __replace_session(self, backend: Backend, device: DeviceInformation) -> None:
        bundle = await self._download_bundle(backend.namespace, device.bare_jid, device.device_id)
        if bundle.identity_key != device.identity_key:
            raise KeyExchangeFailed("Identity key mismatch.")

        content, plain_key_material = await backend.encrypt_empty()
        session, encrypted_key_material = await backend.build_session_active(
            device.bare_jid, device.device_id, bundle, plain_key_material
        )
        message = Message(
            namespace=backend.namespace,
            bare_jid=self.__own_bare_jid,
            device_id=self.__own_device_id,
            content=content,
            keys=frozenset([ (encrypted_key_material, session.key_exchange) ])
        )
        await self._send_message(message, device.bare_jid)
        await backend.store_session(session)

    async def get_sending_chain_length(self'''))
ref("y_rep_lookup", ('''        device = next(filter(
            lambda dev: dev.device_id == device.device_id,
            await self.get_device_information(device.bare_jid)
        ))
''', '''        device_id = device.device_id
        device = next(
            candidate for candidate in await self.get_device_information(device.bare_jid)
            if candidate.device_id == device_id
        )
'''))

# --------------------------------------------------------------------------------------------------------- get chain length
SCL = cut("        sessions = {\n            backend.namespace: await backend.load_session(device.bare_jid", "        logging.getLogger(SessionManager.LOG_TAG).debug(\n            f\"Sending chain lengths")
ref("y_scl_loop", (SCL, '''        sending_chain_length: Dict[str, Optional[int]] = {}
        for backend in self.__backends:
            if backend.namespace not in device.namespaces:
                continue
            session = await backend.load_session(device.bare_jid, device.device_id)
            sending_chain_length[backend.namespace] = session.sending_chain_length if session is not None else None

'''))

# ------------------------------------------------------------------------------------------------------------------- label
ref("y_label_copy", ('''            device_list[self.__own_device_id] = own_label
            await self._upload_device_list(backend.namespace, device_list)
''', '''            await self._upload_device_list(backend.namespace, { **device_list, self.__own_device_id: own_label })
'''))

# ---------------------------------------------------------------------------------------------------------------- own device
ref("y_own_partition", (cut("        all_own_devices = await self.get_device_information(self.__own_bare_jid)\n", "    @staticmethod\n    def format_identity_key"), '''        own_device: Optional[DeviceInformation] = None
        others: Set[DeviceInformation] = set()
        for dev in await self.get_device_information(self.__own_bare_jid):
            if dev.device_id == self.__own_device_id:
                own_device = dev
            else:
                others.add(dev)
        assert own_device is not None
        return own_device, frozenset(others)

'''))

# --------------------------------------------------------------------------------------------------------------- after sync
AHS = cut("        # Send empty messages that were queued while in history synchronization mode\n", "        logging.getLogger(SessionManager.LOG_TAG).debug(\"History synchronization mode exited.\")")
ref("y_ahs_helper", (AHS, '''        for backend in self.__backends:
            for bare_jid in await self.__take_queue(f"/queue/{backend.namespace}", str):
                for device_id in await self.__take_queue(f"/queue/{backend.namespace}/{bare_jid}", int):
                    session = await backend.load_session(bare_jid, device_id)
                    if session is not None:
                        await self.__send_empty_message(backend, session)

'''), ("    async def __send_empty_message(", '''    async def __take_queue(self, key: str, primitive: Any) -> Any:
        """
        Load and delete a queue.
        """

        queue = frozenset((await self.__storage.load_list(key, primitive)).maybe([]))
        await self.__storage.delete(key)
        return queue

    async def __send_empty_message('''), ("from typing import ", "from typing import Any, "))
ref("y_ahs_grouped", (AHS, '''        queued: Dict[Tuple[str, str], Set[int]] = {}
        for backend in self.__backends:
            jids = (await storage.load_list(f"/queue/{backend.namespace}", str)).maybe([])
            await storage.delete(f"/queue/{backend.namespace}")
            for bare_jid in set(jids):
                key = f"/queue/{backend.namespace}/{bare_jid}"
                queued[(backend.namespace, bare_jid)] = set((await storage.load_list(key, int)).maybe([]))
                await storage.delete(key)

        for backend in self.__backends:
            for (namespace, bare_jid), device_ids in queued.items():
                if namespace == backend.namespace:
                    for device_id in device_ids:
                        session = await backend.load_session(bare_jid, device_id)
                        if session is not None:
                            await self.__send_empty_message(backend, session)

'''))
ref("y_ahs_flat", (AHS, '''        for backend in self.__backends:
            recipients: List[Tuple[str, int]] = []
            jids_key = f"/queue/{backend.namespace}"
            for bare_jid in frozenset((await storage.load_list(jids_key, str)).maybe([])):
                ids_key = f"{jids_key}/{bare_jid}"
                for device_id in frozenset((await storage.load_list(ids_key, int)).maybe([])):
                    recipients.append((bare_jid, device_id))
                await storage.delete(ids_key)
            await storage.delete(jids_key)

            for bare_jid, device_id in recipients:
                session = await backend.load_session(bare_jid, device_id)
                if session is None:
                    continue
                await self.__send_empty_message(backend, session)

'''))

# -------------------------------------------------------------------------------------------------------- device information
IK = cut("            identity_key: bytes\n            try:\n                identity_key = (await storage.load_bytes(", "            active = (await storage.load_dict(f\"/devices/{bare_jid}/{device_id}/active\", bool)).from_just()\n            label")
ref("y_gdi_helper", (IK, '''            identity_key, bundle = await self.__find_identity_key(bare_jid, device_id, namespaces)
            if bundle is not None:
                bundle_cache.add(bundle)
            if identity_key is None:
                logging.getLogger(SessionManager.LOG_TAG).warning("Skipping device.")
                continue

'''), ("    async def get_own_device_information(", '''    async def __find_identity_key(
        self,
        bare_jid: str,
        device_id: int,
        namespaces: Set[str]
    ) -> Tuple[Optional[bytes], Optional[Bundle]]:
        key = f"/devices/{bare_jid}/{device_id}/identity_key"
        stored = await self.__storage.load_bytes(key)
        if stored.is_just:
            return stored.from_just(), None

        for namespace in namespaces:
            try:
                bundle = await self._download_bundle(namespace, bare_jid, device_id)
            except (BundleDownloadFailed, BundleNotFound):
                logging.getLogger(SessionManager.LOG_TAG).warning("No bundle.", exc_info=True)
                continue
            await self.__storage.store_bytes(key, bundle.identity_key)
            return bundle.identity_key, bundle

        return None, None

    async def get_own_device_information('''))
INC = cut("            if any(namespace not in active for namespace in namespaces):\n", "            devices.add(DeviceInformation(\n")
ref("y_gdi_missing", (INC, '''            missing = namespaces - set(active)
            if missing:
                namespaces -= missing
                await storage.store(f"/devices/{bare_jid}/{device_id}/namespaces", list(namespaces))

'''))
ref("y_gdi_missing2", (INC, '''            consistent = { namespace for namespace in namespaces if namespace in active }
            if consistent != namespaces:
                await storage.store(f"/devices/{bare_jid}/{device_id}/namespaces", sorted(consistent))
            namespaces = consistent

'''))

# ---------------------------------------------------------------------------------------------------------------------- sync
SEND = cut("        content, plain_key_material = await backend.encrypt_empty()\n        encrypted_key_material = await", "    async def encrypt(\n")
ref("y_empty_kx_var", (SEND, '''        content, plain_key_material = await backend.encrypt_empty()
        encrypted_key_material = await backend.encrypt_key_material(session, plain_key_material)

        key_exchange: Optional[KeyExchange] = None
        if session.initiation is Initiation.ACTIVE and not session.confirmed:
            key_exchange = session.key_exchange

        message = Message(
            namespace=backend.namespace,
            bare_jid=self.__own_bare_jid,
            device_id=self.__own_device_id,
            content=content,
            keys=frozenset({ (encrypted_key_material, key_exchange) })
        )
        await self._send_message(message, session.bare_jid)
        await backend.store_session(session)

'''))

# ------------------------------------------------------------------------------------------------------------------- create
FIRST = cut("            await storage.store(\n                f\"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces\",\n                []\n", "            # Finally store the device id once")
ref("y_create_first", (FIRST, '''            await self.__store_own_device(initial_own_label, undecided_trust_level_name)

'''), ("    async def purge_backend(self", '''    async def __store_own_device(self, initial_own_label: Optional[str], trust_level_name: str) -> None:
        storage = self.__storage
        identity_key = self.__identity_key_pair.identity_key
        prefix = f"/devices/{self.__own_bare_jid}/{self.__own_device_id}"

        await storage.store_bytes(f"{prefix}/identity_key", identity_key)
        await storage.store(f"{prefix}/label", initial_own_label)
        await storage.store(f"{prefix}/active", {})
        await storage.store(f"{prefix}/namespaces", [])
        await storage.store(
            f"/trust/{self.__own_bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
            trust_level_name
        )
        await storage.store(f"/devices/{self.__own_bare_jid}/list", [ self.__own_device_id ])

    async def purge_backend(self'''))
IDS = cut("            device_ids = cast(FrozenSet[int], frozenset()).union(*[\n", "            # Store the device information for this device. The")
ref("y_create_ids_loop", (IDS, '''            taken: Set[int] = set()
            for backend in self.__backends:
                taken |= (await self._download_device_list(backend.namespace, self.__own_bare_jid)).keys()

            while True:
                candidate = cls.DEVICE_ID_MIN + secrets.randbelow(cls.DEVICE_ID_MAX - cls.DEVICE_ID_MIN)
                if candidate not in taken:
                    break
            self.__own_device_id = candidate

'''))
ref("y_create_ids_walrus", (IDS, '''            taken: Set[int] = set()
            for backend in self.__backends:
                taken.update(await self._download_device_list(backend.namespace, self.__own_bare_jid))

            new_id = secrets.randbelow(cls.DEVICE_ID_MAX - cls.DEVICE_ID_MIN) + cls.DEVICE_ID_MIN
            while new_id in taken:
                new_id = secrets.randbelow(cls.DEVICE_ID_MAX - cls.DEVICE_ID_MIN) + cls.DEVICE_ID_MIN
            self.__own_device_id = new_id

'''))
PUB = cut("            # Generate the first 100 pre keys for each backend\n", "        # If there a mismatch between loaded and active namespaces")
ref("y_create_publish_one", (PUB, '''            for backend in self.__backends:
                await backend.generate_pre_keys(100)
                await self._upload_bundle(await backend.get_bundle(self.__own_bare_jid, self.__own_device_id))
                await self.refresh_device_list(backend.namespace, self.__own_bare_jid)

'''))
MIS = cut("        loaded_namespaces = frozenset(backend.namespace for backend in self.__backends)\n        active_namespaces", "        # Start signed pre key rotation management")
ref("y_create_mismatch", (MIS, '''        loaded_namespaces = { backend.namespace for backend in self.__backends }
        added = [ backend for backend in self.__backends if backend.namespace not in device.namespaces ]
        removed = device.namespaces - loaded_namespaces

        if added or removed:
            for backend in added:
                await self.__initialize_backend(backend)
            for namespace in removed:
                await self.purge_backend(namespace)

            own_prefix = f"/devices/{self.__own_bare_jid}/{self.__own_device_id}"
            await storage.store(f"{own_prefix}/active", dict.fromkeys(loaded_namespaces, True))
            await storage.store(f"{own_prefix}/namespaces", list(loaded_namespaces))

'''), ("    async def purge_backend(self", '''    async def __initialize_backend(self, backend: Backend) -> None:
        available = await backend.get_num_visible_pre_keys()
        if available <= self.__pre_key_refill_threshold:
            await backend.generate_pre_keys(100 - available)

        bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
        await self._upload_bundle(bundle)
        await self.refresh_device_list(backend.namespace, self.__own_bare_jid)

    async def purge_backend(self'''))
ref("y_create_arg_checks", ('''        if len(frozenset(backend.namespace for backend in backends)) != len(backends):
            raise ValueError("Multiple''', '''        namespaces = [ backend.namespace for backend in backends ]
        if len(namespaces) > len(set(namespaces)):
            raise ValueError("Multiple'''), ('''        if not 25 <= pre_key_refill_threshold <= 99:
''', '''        if pre_key_refill_threshold < 25 or pre_key_refill_threshold > 99:
'''))
ref("y_create_arg_seen", ('''        if len(frozenset(backend.namespace for backend in backends)) != len(backends):
            raise ValueError("Multiple backends that handle the same namespace were passed.")
''', '''        seen: Set[str] = set()
        for backend in backends:
            if backend.namespace in seen:
                raise ValueError("Multiple backends that handle the same namespace were passed.")
            seen.add(backend.namespace)
'''))

# ------------------------------------------------------------------------------------------------------------------- storage
ref("y_sto_cached", (STO, '''        if self.__cache is not None and key in self.__cache:
            return self.__cache[key]

        value = await self._load(key)
        if self.__cache is not None:
            # The key may have been stored or deleted while the value was being loaded, in which case the cache
            # already holds the more recent value.
            value = self.__cache.setdefault(key, value)
        return value
''', '''        cache = self.__cache
        if cache is None:
            return await self._load(key)

        if key not in cache:
            loaded = await self._load(key)
            if key not in cache:
                cache[key] = loaded

        return cache[key]
'''))
ref("y_sto_remember", (STO, '''        await self._store(key, value)

        if self.__cache is not None:
            self.__cache[key] = Just(value)
''', '''        await self._store(key, value)
        self.__remember(key, Just(value))

    def __remember(self, key: str, value: Maybe[JSONType]) -> None:
        if self.__cache is not None:
            self.__cache.update({ key: value })
'''), (STO, '''        await self._delete(key)

        if self.__cache is not None:
            self.__cache[key] = Nothing()
''', '''        await self._delete(key)
        self.__remember(key, Nothing())
'''))
ref("y_sto_typed_helper", (STO, '''        def check_type(value: JSONType) -> PrimitiveTypeT:
            if isinstance(value, primitive):
                return value
            raise TypeError(f"The value stored for key {key} is not a {primitive}: {value}")

        return (await self.load(key)).fmap(check_type)
''', '''        def check_type(value: JSONType) -> PrimitiveTypeT:
            if not isinstance(value, primitive):
                raise TypeError(f"The value stored for key {key} is not a {primitive}: {value}")
            return value

        stored = await self.load(key)
        return stored.fmap(check_type)
'''))
ref("y_sto_list_loop", (STO, '''            if isinstance(value, list) and all(isinstance(element, primitive) for element in value):
                return cast(List[PrimitiveTypeT], value)
            raise TypeError(f"The value stored for key {key} is not a list of {primitive}: {value}")
''', '''            if not isinstance(value, list):
                raise TypeError(f"The value stored for key {key} is not a list of {primitive}: {value}")
            for element in value:
                if not isinstance(element, primitive):
                    raise TypeError(f"The value stored for key {key} is not a list of {primitive}: {value}")
            return cast(List[PrimitiveTypeT], value)
'''))
ref("y_sto_just", (STO, '''    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return copy.deepcopy(self.__value)

    def fmap(self, function: Callable[[ValueTypeT], MappedValueTypeT]) -> "Just[MappedValueTypeT]":
        return Just(function(copy.deepcopy(self.__value)))
''', '''    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return self.from_just()

    def fmap(self, function: Callable[[ValueTypeT], MappedValueTypeT]) -> "Just[MappedValueTypeT]":
        mapped = function(self.from_just())
        return Just(mapped)
'''))

# ------------------------------------------------------------------------------------------------------------------ key pair
ref("y_ikp_maybe", (IKP, open("/repo/" + IKP).read().split("        is_seed: bool\n        key: bytes\n")[1].split("        logging.getLogger(IdentityKeyPair.LOG_TAG).debug(\"Identity key prepared.\")")[0], '''        stored_is_seed = await storage.load_primitive("/ikp/is_seed", bool)
        stored_key = await storage.load_bytes("/ikp/key")

        if stored_is_seed.is_just and stored_key.is_just:
            is_seed = stored_is_seed.from_just()
            key = stored_key.from_just()
        else:
            logging.getLogger(IdentityKeyPair.LOG_TAG).info("Generating identity key.")
            is_seed = True
            key = secrets.token_bytes(32)
            await storage.store("/ikp/is_seed", True)
            await storage.store_bytes("/ikp/key", key)

'''))
ref("y_ikp_return", (IKP, "        return IdentityKeyPairSeed(key) if is_seed else IdentityKeyPairPriv(key)\n", '''        if not is_seed:
            return IdentityKeyPairPriv(key)
        return IdentityKeyPairSeed(key)
'''))
