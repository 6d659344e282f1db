"""Larger rewrites that keep the behaviour."""
CASES = []
SRC = open("/repo/omemo/session_manager.py", encoding="utf-8").read()


def bug(name, want, *edits):
    CASES.append((name, want, edits))


def ref(name, *edits):
    CASES.append((name, None, edits))


def cut(a, b):
    i = SRC.index(a)
    return SRC[i:SRC.index(b, i + len(a))]


# ------------------------------------------------------------------------------------------------------------------ encrypt
BUILD = cut("                try:\n                    # Build the session if necessary, and encrypt the key material\n", "            # Build the message from content")
LOOP = cut("        for backend in self.__backends:\n            # Find the devices to encrypt for", "        logging.getLogger(SessionManager.LOG_TAG).debug(f\"Devices with sessions")
VALID = cut("        # Load the device information of all recipients\n        def is_valid", "        # Using get_device_information here means")
GATHER = cut("        tmp = frozenset([ await", "        logging.getLogger(SessionManager.LOG_TAG).debug(\n            f\"Recipient devices")
PRIO = cut("        # Apply the backend priority order to the remaining devices\n        def apply", "        logging.getLogger(SessionManager.LOG_TAG).debug(f\"Backend priority order applied")
TRUST = cut("        # Ask for trust decisions on the remaining devices", "        # Encrypt the plaintext once per backend.")
NOELIG = cut("        # Check for recipients without a single remaining device", "        for backend, session in sessions:")
STORE = cut("        for backend, session in sessions:", "        logging.getLogger(SessionManager.LOG_TAG).debug(f\"Message encrypted")
CHECKNS = cut("        # Prepare the backend priority order list", "        logging.getLogger(SessionManager.LOG_TAG).debug(\n            f\"Effective")

ref("x_e_valid_inline", (VALID, ""), (GATHER, '''        devices: Set[DeviceInformation] = set()
        bundle_cache: Set[Bundle] = set()
        for bare_jid in bare_jids:
            jid_devices, jid_bundles = await self.__get_device_information(bare_jid)
            bundle_cache |= jid_bundles
            for device in jid_devices:
                if device.bare_jid == self.__own_bare_jid and device.device_id == self.__own_device_id:
                    continue
                active = dict(device.active)
                if any(
                    active[namespace] and namespace in effective_backend_priority_order
                    for namespace in device.namespaces
                ):
                    devices.add(device)

'''))
ref("x_e_valid_tuple", (VALID, ""), (GATHER, '''        own = (self.__own_bare_jid, self.__own_device_id)
        tmp = [ await self.__get_device_information(bare_jid) for bare_jid in bare_jids ]
        bundle_cache = frozenset(bundle for _, bundles in tmp for bundle in bundles)
        devices = {
            device
            for infos, _ in tmp
            for device in infos
            if (device.bare_jid, device.device_id) != own
        }
'''))
ref("x_e_prio_min", (PRIO, '''        prioritized: Set[DeviceInformation] = set()
        for device in devices:
            candidates = [
                namespace for namespace, active in device.active
                if active and namespace in device.namespaces and namespace in effective_backend_priority_order
            ]
            if len(candidates) > 0:
                best = min(candidates, key=effective_backend_priority_order.index)
                prioritized.add(device._replace(namespaces=frozenset({ best })))
        devices = prioritized
'''))
ref("x_e_prio_next", (PRIO, '''        def first_namespace(device: DeviceInformation) -> Optional[str]:
            active = dict(device.active)
            return next((
                namespace for namespace in effective_backend_priority_order
                if namespace in device.namespaces and active[namespace]
            ), None)

        devices = {
            device._replace(namespaces=frozenset({ cast(str, first_namespace(device)) }))
            for device in devices
            if first_namespace(device) is not None
        }
'''))
ref("x_e_trust_levels", (TRUST, '''        async def partition(devs: Set[DeviceInformation]) -> Dict[TrustLevel, Set[DeviceInformation]]:
            result: Dict[TrustLevel, Set[DeviceInformation]] = { level: set() for level in TrustLevel }
            for dev in devs:
                result[await self._evaluate_custom_trust_level(dev)].add(dev)
            return result

        undecided_devices = frozenset((await partition(devices))[TrustLevel.UNDECIDED])
        if undecided_devices:
            await self._make_trust_decision(undecided_devices, identifier)
            devices = { device._replace(trust_level_name=(await self.__storage.load_primitive(
                f"/trust/{device.bare_jid}/{base64.urlsafe_b64encode(device.identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)) for device in devices }

        partitioned = await partition(devices)
        if partitioned[TrustLevel.UNDECIDED]:
            raise StillUndecided(f"Undecided: {partitioned[TrustLevel.UNDECIDED]}")
        devices = partitioned[TrustLevel.TRUSTED]

'''))
ref("x_e_trust_one_pass", (TRUST, '''        undecided: Set[DeviceInformation] = set()
        for device in devices:
            if await self._evaluate_custom_trust_level(device) is TrustLevel.UNDECIDED:
                undecided.add(device)
        if undecided:
            await self._make_trust_decision(frozenset(undecided), identifier)
            updated: Set[DeviceInformation] = set()
            for device in devices:
                encoded = base64.urlsafe_b64encode(device.identity_key).decode("ASCII")
                level = await self.__storage.load_primitive(f"/trust/{device.bare_jid}/{encoded}", str)
                updated.add(device._replace(trust_level_name=level.maybe(self.__undecided_trust_level_name)))
            devices = updated

        trusted: Set[DeviceInformation] = set()
        still_undecided: Set[DeviceInformation] = set()
        for device in devices:
            level = await self._evaluate_custom_trust_level(device)
            if level is TrustLevel.TRUSTED:
                trusted.add(device)
            elif level is TrustLevel.UNDECIDED:
                still_undecided.add(device)
        if still_undecided:
            raise StillUndecided(f"Undecided: {still_undecided}")
        devices = trusted

'''))
ref("x_e_failed_set", (BUILD, BUILD.replace("                    devices.remove(device)\n", "                    failed_devices.add(device)\n")),
    ("        sessions: Set[Tuple[Backend, Session]] = set()\n        for backend", "        sessions: Set[Tuple[Backend, Session]] = set()\n        failed_devices: Set[DeviceInformation] = set()\n        for backend"),
    (NOELIG, "        devices -= failed_devices\n\n" + NOELIG))
ref("x_e_errors_list", ("        encryption_errors: Set[EncryptionError] = set()\n", "        encryption_errors: List[EncryptionError] = []\n"),
    (BUILD, BUILD.replace("encryption_errors.add(EncryptionError(", "encryption_errors.append(EncryptionError(")))
ref("x_e_sessions_list", ("        sessions: Set[Tuple[Backend, Session]] = set()\n", "        sessions: List[Tuple[Backend, Session]] = []\n"),
    (BUILD, BUILD.replace("sessions.add((backend, session))", "sessions.append((backend, session))")))
ref("x_e_store_per_backend", ("        sessions: Set[Tuple[Backend, Session]] = set()\n", "        sessions: Dict[str, List[Session]] = { backend.namespace: [] for backend in self.__backends }\n"),
    (BUILD, BUILD.replace("sessions.add((backend, session))", "sessions[backend.namespace].append(session)")),
    (STORE, '''        for backend in self.__backends:
            for session in sessions[backend.namespace]:
                await backend.store_session(session)

'''))
ref("x_e_noelig_covered", (NOELIG, '''        covered = { device.bare_jid for device in devices }
        covered.add(self.__own_bare_jid)
        missing = frozenset(bare_jid for bare_jid in bare_jids if bare_jid not in covered)
        if missing:
            raise NoEligibleDevices(missing, f"No eligible devices: {missing}")

'''))
ref("x_e_noelig_jids", (NOELIG, '''        no_eligible_devices = bare_jids - { device.bare_jid for device in devices } - { self.__own_bare_jid }
        if no_eligible_devices:
            raise NoEligibleDevices(no_eligible_devices, "No eligible devices.")

'''))
ref("x_e_build_helper", (BUILD, '''                try:
                    session, encrypted_key_material = await self.__encrypt_key_material(
                        backend, device, session, bundle, plain_key_material
                    )
                except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed) as e:
                    devices.discard(device)
                    encryption_errors.add(EncryptionError(backend.namespace, device.bare_jid, device.device_id, e))
                    continue

                key_exchange: Optional[KeyExchange] = None
                if session.initiation is Initiation.ACTIVE and not session.confirmed:
                    key_exchange = session.key_exchange
                keys.add((encrypted_key_material, key_exchange))
                sessions.add((backend, session))

'''), ("    async def decrypt(self, message: Message)", '''    async def __encrypt_key_material(
        self,
        backend: Backend,
        device: DeviceInformation,
        session: Optional[Session],
        bundle: Optional[Bundle],
        plain_key_material: PlainKeyMaterial
    ) -> Tuple[Session, EncryptedKeyMaterial]:
        if session is not None:
            return session, await backend.encrypt_key_material(session, plain_key_material)
        if bundle is None:
            bundle = await self._download_bundle(backend.namespace, device.bare_jid, device.device_id)
        if device.identity_key != bundle.identity_key:
            raise KeyExchangeFailed("Identity key mismatch.")
        return await backend.build_session_active(device.bare_jid, device.device_id, bundle, plain_key_material)

    async def decrypt(self, message: Message)'''))
ref("x_e_two_phase", (LOOP, '''        for backend in self.__backends:
            namespace = backend.namespace
            backend_devices = [ device for device in devices if namespace in device.namespaces ]
            if not backend_devices:
                continue

            content, plain_key_material = await backend.encrypt_plaintext(plaintext[namespace])
            keys: Set[Tuple[EncryptedKeyMaterial, Optional[KeyExchange]]] = set()

            for device in backend_devices:
                bare_jid, device_id = device.bare_jid, device.device_id
                session = await backend.load_session(bare_jid, device_id)
                try:
                    if session is not None:
                        encrypted_key_material = await backend.encrypt_key_material(session, plain_key_material)
                    else:
                        cached = [
                            bundle for bundle in bundle_cache
                            if bundle.namespace == namespace
                            and bundle.bare_jid == bare_jid
                            and bundle.device_id == device_id
                        ]
                        if cached:
                            bundle = cached[0]
                        else:
                            bundle = await self._download_bundle(namespace, bare_jid, device_id)
                        if bundle.identity_key != device.identity_key:
                            raise KeyExchangeFailed("Identity key mismatch.")
                        session, encrypted_key_material = await backend.build_session_active(
                            bare_jid, device_id, bundle, plain_key_material
                        )
                except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed) as exception:
                    devices.remove(device)
                    encryption_errors.add(EncryptionError(namespace, bare_jid, device_id, exception))
                else:
                    unconfirmed = session.initiation is Initiation.ACTIVE and not session.confirmed
                    keys.add((encrypted_key_material, session.key_exchange if unconfirmed else None))
                    sessions.add((backend, session))

            message = Message(namespace, self.__own_bare_jid, self.__own_device_id, content, frozenset(keys))
            messages[message] = plain_key_material

'''))
ref("x_e_checkns", (CHECKNS, '''        available_namespaces = [ backend.namespace for backend in self.__backends ]
        effective_backend_priority_order = available_namespaces
        if backend_priority_order is not None:
            for namespace in backend_priority_order:
                if namespace not in available_namespaces:
                    raise UnknownNamespace(f"Unavailable namespace {namespace}")
            effective_backend_priority_order = list(backend_priority_order)

'''))
ref("x_e_union", ("        bare_jids = frozenset(bare_jids) | frozenset({ self.__own_bare_jid })\n", "        bare_jids = frozenset([ *bare_jids, self.__own_bare_jid ])\n"))
ref("x_e_union2", ("        bare_jids = frozenset(bare_jids) | frozenset({ self.__own_bare_jid })\n", "        recipients = set(bare_jids)\n        recipients.add(self.__own_bare_jid)\n        bare_jids = frozenset(recipients)\n"))
ref("x_e_store_first_msgs", (STORE, '''        for entry in sessions:
            await entry[0].store_session(entry[1])

'''))

# ------------------------------------------------------------------------------------------------------------------ decrypt
FINDKEY = cut("        # Check if there is key material for us\n", "        logging.getLogger(SessionManager.LOG_TAG).debug(\n            f\"Encrypted key material")
FINDDEV = cut("        # Check whether the sending device is known\n", "        # Check the trust level of the sending device.")
HELPERS = cut("        async def decrypt_key_material(\n", "        logging.getLogger(SessionManager.LOG_TAG).debug(f\"Plain key material")
POST = cut("        # If this message was a key exchange, take care of pre key", "        # Send an empty message if necessary")
ANSWER = cut("        # Send an empty message if necessary to avoid", "        logging.getLogger(SessionManager.LOG_TAG).debug(\"Post-decryption")

ref("x_d_findkey", (FINDKEY, '''        for_us = [
            key for key in message.keys
            if (key[0].bare_jid, key[0].device_id) == (self.__own_bare_jid, self.__own_device_id)
        ]
        if not for_us:
            raise MessageNotForUs("Not for us.")
        encrypted_key_material, key_exchange = for_us[0]

'''))
ref("x_d_findkey_for", (FINDKEY, '''        for encrypted_key_material, key_exchange in message.keys:
            if (
                encrypted_key_material.bare_jid == self.__own_bare_jid
                and encrypted_key_material.device_id == self.__own_device_id
            ):
                break
        else:
            raise MessageNotForUs("Not for us.")

'''))
ref("x_d_finddev_loop", (FINDDEV, '''        device: Optional[DeviceInformation] = None
        for attempt in range(2):
            if attempt > 0:
                await self.refresh_device_list(message.namespace, message.bare_jid)
            for candidate in await self.get_device_information(message.bare_jid):
                if candidate.device_id == message.device_id:
                    device = candidate
                    break
            if device is not None:
                break
        if device is None:
            raise SenderNotFound("Sender not found.")

'''))
ref("x_d_finddev_dict", (FINDDEV, '''        async def find_sender() -> Optional[DeviceInformation]:
            by_id = { dev.device_id: dev for dev in await self.get_device_information(message.bare_jid) }
            return by_id.get(message.device_id)

        device = await find_sender()
        if device is None:
            await self.refresh_device_list(message.namespace, message.bare_jid)
            device = await find_sender()
        if device is None:
            raise SenderNotFound("Sender not found.")

'''))
ref("x_d_flat", (HELPERS, '''        session: Optional[Session]
        if key_exchange is not None and key_exchange.identity_key != device.identity_key:
            raise PublicDataInconsistency("Identity key mismatch.")

        session = await backend.load_session(device.bare_jid, device.device_id)
        if key_exchange is None:
            if session is None:
                raise NoSession("No session.")
            plain_key_material = await backend.decrypt_key_material(session, encrypted_key_material)
        elif (
            session is not None
            and session.initiation is Initiation.PASSIVE
            and session.key_exchange.builds_same_session(key_exchange)
        ):
            plain_key_material = await backend.decrypt_key_material(session, encrypted_key_material)
        else:
            session, plain_key_material = await backend.build_session_passive(
                device.bare_jid,
                device.device_id,
                key_exchange,
                encrypted_key_material
            )

'''))
ref("x_d_reuse_flag", (HELPERS, '''        loaded = await backend.load_session(device.bare_jid, device.device_id) if key_exchange is None else None
        if key_exchange is None:
            if loaded is None:
                raise NoSession("No session.")
            reuse = True
        else:
            if key_exchange.identity_key != device.identity_key:
                raise PublicDataInconsistency("Identity key mismatch.")
            loaded = await backend.load_session(device.bare_jid, device.device_id)
            reuse = loaded is not None and loaded.initiation is Initiation.PASSIVE
            if reuse:
                reuse = loaded.key_exchange.builds_same_session(key_exchange)

        if reuse:
            session = loaded
            plain_key_material = await backend.decrypt_key_material(session, encrypted_key_material)
        else:
            session, plain_key_material = await backend.build_session_passive(
                device.bare_jid, device.device_id, key_exchange, encrypted_key_material
            )

'''))
ref("x_d_post_helper", (POST, '''        if key_exchange is not None:
            consume = backend.hide_pre_key if self.__synchronizing else backend.delete_pre_key
            if await consume(session):
                await self.__replenish(backend)

'''), ("    async def decrypt(self, message: Message)", '''    async def __replenish(self, backend: Backend) -> None:
        visible = await backend.get_num_visible_pre_keys()
        if not visible > self.__pre_key_refill_threshold:
            await backend.generate_pre_keys(100 - visible)
        await self._upload_bundle(await backend.get_bundle(self.__own_bare_jid, self.__own_device_id))

    async def decrypt(self, message: Message)'''))
ref("x_d_answer_guard", (ANSWER, '''        chain_length = session.receiving_chain_length
        if chain_length is None:
            chain_length = 0
        stale = chain_length > SessionManager.STALENESS_MAGIC_NUMBER
        needs_answer = stale or key_exchange is not None
        if needs_answer and not self.__synchronizing:
            await self.__send_empty_message(backend, session)
        elif needs_answer:
            await self.__enqueue(session.namespace, session.bare_jid, session.device_id)

'''), ("    async def decrypt(self, message: Message)", '''    async def __enqueue(self, namespace: str, bare_jid: str, device_id: int) -> None:
        jids_key = f"/queue/{namespace}"
        ids_key = f"/queue/{namespace}/{bare_jid}"

        jids = set((await self.__storage.load_list(jids_key, str)).maybe([]))
        if bare_jid not in jids:
            await self.__storage.store(jids_key, [ *jids, bare_jid ])

        ids = set((await self.__storage.load_list(ids_key, int)).maybe([]))
        if device_id not in ids:
            await self.__storage.store(ids_key, [ *ids, device_id ])

    async def decrypt(self, message: Message)'''))
ref("x_d_backend_for", ('''        backend = next(filter(lambda backend: backend.namespace == message.namespace, self.__backends), None)
        if backend is None:
            raise UnknownNamespace(
                f"Backend corresponding to''', '''        matching = [ b for b in self.__backends if b.namespace == message.namespace ]
        backend = matching[0] if matching else None
        if backend is None:
            raise UnknownNamespace(
                f"Backend corresponding to'''))
ref("x_d_trust_enum", ('''        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
            raise SenderDistrusted(''', '''        sender_trust = await self._evaluate_custom_trust_level(device)
        if sender_trust not in (TrustLevel.TRUSTED, TrustLevel.UNDECIDED):
            raise SenderDistrusted('''))
ref("x_d_plaintext", ('''        plaintext = None if message.content.empty else await backend.decrypt_plaintext(
            message.content,
            plain_key_material
        )
''', '''        plaintext: Optional[bytes] = None
        if not message.content.empty:
            plaintext = await backend.decrypt_plaintext(message.content, plain_key_material)
'''))


# ------------------------------------------------------------------------------------------------------------------ the rest
EMPTY = cut("        content, plain_key_material = await backend.encrypt_empty()\n        encrypted_key_material", "    async def encrypt(\n")
AFTER = cut("        # Delete pre keys that were hidden while", "        logging.getLogger(SessionManager.LOG_TAG).debug(\"History synchronization mode exited")
INFO = cut("        for device_id in device_list:\n            namespaces = set((await", "        logging.getLogger(SessionManager.LOG_TAG).debug(\"Device information gathered")
OWN = cut("        all_own_devices = await self.get_device_information", "    @staticmethod\n    def format_identity_key")
LABEL = cut("        # For each loaded backend, upload an updated device list", "    async def get_device_information(self, bare_jid")
CHAIN = cut("        sessions = {\n            backend.namespace: await", "        logging.getLogger(SessionManager.LOG_TAG).debug(\n            f\"Sending chain lengths reported")
REPL = cut("        # Do not assume that the given device information is complete", "        logging.getLogger(SessionManager.LOG_TAG).info(\"Session replacement done")
UPD = cut("        new_device_list = frozenset(device_list.keys())", "        logging.getLogger(SessionManager.LOG_TAG).debug(\"Device list update processed")
CONS = cut("        for backend in self.__backends:\n            await self.refresh_device_list(backend.namespace, self.__own_bare_jid)\n\n            local_bundle", "        logging.getLogger(SessionManager.LOG_TAG).info(\"Data consistency")
PJ = cut("        # Get the set of devices to delete", "        logging.getLogger(SessionManager.LOG_TAG).info(\n            f\"Bare JID {bare_jid} purged")
PB = cut("        # First half of online data removal: remove", "        logging.getLogger(SessionManager.LOG_TAG).info(f\"Backend {namespace} purged")
ROT = cut("        while True:\n            # Keep track of when the next signed", "    async def ensure_data_consistency")

ref("x_m_empty_locals", (EMPTY, '''        content, plain_key_material = await backend.encrypt_empty()
        encrypted_key_material = await backend.encrypt_key_material(session, plain_key_material)

        key_exchange = None
        if not session.confirmed and session.initiation is Initiation.ACTIVE:
            key_exchange = session.key_exchange
        keys = frozenset([ (encrypted_key_material, key_exchange) ])
        message = Message(backend.namespace, self.__own_bare_jid, self.__own_device_id, content, keys)

        await self._send_message(message, session.bare_jid)
        await backend.store_session(session)

'''))
ref("x_m_after_pairs", (AFTER, '''        for backend in self.__backends:
            await backend.delete_hidden_pre_keys()

        for backend in self.__backends:
            for bare_jid, device_id in await self.__take_queue(backend.namespace):
                session = await backend.load_session(bare_jid, device_id)
                if session is not None:
                    await self.__send_empty_message(backend, session)

'''), ("    async def __send_empty_message(self, backend", '''    async def __take_queue(self, namespace: str) -> List[Tuple[str, int]]:
        entries: List[Tuple[str, int]] = []
        jids = (await self.__storage.load_list(f"/queue/{namespace}", str)).maybe([])
        await self.__storage.delete(f"/queue/{namespace}")
        for bare_jid in frozenset(jids):
            key = f"/queue/{namespace}/{bare_jid}"
            ids = (await self.__storage.load_list(key, int)).maybe([])
            await self.__storage.delete(key)
            entries.extend((bare_jid, device_id) for device_id in frozenset(ids))
        return entries

    async def __send_empty_message(self, backend'''))
ref("x_m_info_helpers", (INFO, '''        for device_id in device_list:
            prefix = f"/devices/{bare_jid}/{device_id}"
            namespaces = frozenset((await storage.load_list(f"{prefix}/namespaces", str)).from_just())

            known_key = await storage.load_bytes(f"{prefix}/identity_key")
            if known_key.is_just:
                identity_key = known_key.from_just()
            else:
                fetched = await self.__fetch_any_bundle(namespaces, bare_jid, device_id)
                if fetched is None:
                    continue
                bundle_cache.add(fetched)
                identity_key = fetched.identity_key
                await storage.store_bytes(f"{prefix}/identity_key", identity_key)

            active = (await storage.load_dict(f"{prefix}/active", bool)).from_just()
            label = (await storage.load_optional(f"{prefix}/label", str)).from_just()
            encoded_key = base64.urlsafe_b64encode(identity_key).decode("ASCII")
            trust = await storage.load_primitive(f"/trust/{bare_jid}/{encoded_key}", str)

            consistent = frozenset(namespace for namespace in namespaces if namespace in active)
            if consistent != namespaces:
                await storage.store(f"{prefix}/namespaces", list(consistent))

            devices.add(DeviceInformation(
                consistent,
                frozenset(active.items()),
                bare_jid,
                device_id,
                identity_key,
                trust.maybe(self.__undecided_trust_level_name),
                label
            ))

'''), ("    async def get_own_device_information(self)", '''    async def __fetch_any_bundle(
        self,
        namespaces: FrozenSet[str],
        bare_jid: str,
        device_id: int
    ) -> Optional[Bundle]:
        for namespace in namespaces:
            try:
                return await self._download_bundle(namespace, bare_jid, device_id)
            except (BundleDownloadFailed, BundleNotFound):
                logging.getLogger(SessionManager.LOG_TAG).warning("No bundle.", exc_info=True)
        return None

    async def get_own_device_information(self)'''))
ref("x_m_own_partition", (OWN, '''        own_device: Optional[DeviceInformation] = None
        others: Set[DeviceInformation] = set()
        for device in await self.get_device_information(self.__own_bare_jid):
            if device.device_id == self.__own_device_id:
                own_device = device
            else:
                others.add(device)
        assert own_device is not None
        return own_device, frozenset(others)

'''))
ref("x_m_own_single", (OWN, '''        all_own_devices = await self.get_device_information(self.__own_bare_jid)
        own_device = next(dev for dev in all_own_devices if dev.device_id == self.__own_device_id)
        return own_device, all_own_devices - { own_device }

'''))
ref("x_m_label_spread", (LABEL, '''        for backend in self.__backends:
            published = await self._download_device_list(backend.namespace, self.__own_bare_jid)
            await self._upload_device_list(
                backend.namespace,
                { **published, self.__own_device_id: own_label }
            )

'''))
ref("x_m_label_ns", (LABEL, '''        for namespace in [ backend.namespace for backend in self.__backends ]:
            device_list = dict(await self._download_device_list(namespace, self.__own_bare_jid))
            device_list.update({ self.__own_device_id: own_label })
            await self._upload_device_list(namespace, device_list)

'''))
ref("x_m_chain_loop", (CHAIN, '''        sending_chain_length: Dict[str, Optional[int]] = {}
        for backend in self.__backends:
            if backend.namespace not in device.namespaces:
                continue
            session = await backend.load_session(device.bare_jid, device.device_id)
            length = session.sending_chain_length if session is not None else None
            sending_chain_length[backend.namespace] = length

'''))
ref("x_m_repl_inline", (REPL, '''        known_devices = await self.get_device_information(device.bare_jid)
        device = next(dev for dev in known_devices if dev.device_id == device.device_id)

        candidates: List[Backend] = []
        for backend in self.__backends:
            if backend.namespace in device.namespaces:
                if await backend.load_session(device.bare_jid, device.device_id) is not None:
                    candidates.append(backend)

        unsuccessful: Dict[str, OMEMOException] = {}
        for backend in candidates:
            try:
                await self.__replace_session(backend, device)
            except OMEMOException as exception:
                unsuccessful[backend.namespace] = exception

'''), ("    async def get_sending_chain_length(self", '''    async def __replace_session(self, backend: Backend, device: DeviceInformation) -> None:
        content, plain_key_material = await backend.encrypt_empty()
        bundle = await self._download_bundle(backend.namespace, device.bare_jid, device.device_id)
        if bundle.identity_key != device.identity_key:
            raise KeyExchangeFailed("Identity key mismatch.")
        session, encrypted_key_material = await backend.build_session_active(
            device.bare_jid, device.device_id, bundle, plain_key_material
        )
        message = Message(
            backend.namespace,
            self.__own_bare_jid,
            self.__own_device_id,
            content,
            frozenset([ (encrypted_key_material, session.key_exchange) ])
        )
        await self._send_message(message, device.bare_jid)
        await backend.store_session(session)

    async def get_sending_chain_length(self'''))
ref("x_m_upd_split", (UPD, '''        key = lambda device_id, field: f"/devices/{bare_jid}/{device_id}/{field}"

        known = frozenset((await storage.load_list(f"/devices/{bare_jid}/list", int)).maybe([]))
        announced = frozenset(device_list)
        unknown = announced - known

        is_own = bare_jid == self.__own_bare_jid
        if is_own and self.__own_device_id not in announced:
            own_label = await storage.load_optional(key(self.__own_device_id, "label"), str)
            device_list[self.__own_device_id] = own_label.from_just()
            await self._upload_device_list(namespace, device_list)

        for device_id in unknown:
            await storage.store(key(device_id, "active"), { namespace: True })
            await storage.store(key(device_id, "label"), device_list[device_id])
            await storage.store(key(device_id, "namespaces"), [ namespace ])

        for device_id in known:
            namespaces = (await storage.load_list(key(device_id, "namespaces"), str)).from_just()
            active = (await storage.load_dict(key(device_id, "active"), bool)).from_just()

            if device_id not in device_list:
                if namespace in namespaces and active[namespace]:
                    await storage.store(key(device_id, "active"), { **active, namespace: False })
                continue

            if not active.get(namespace, False):
                active[namespace] = True
                await storage.store(key(device_id, "active"), active)

            announced_label = device_list[device_id]
            if announced_label is not None:
                known_label = (await storage.load_optional(key(device_id, "label"), str)).from_just()
                if announced_label != known_label:
                    await storage.store(key(device_id, "label"), announced_label)

            if namespace not in namespaces:
                await storage.store(key(device_id, "namespaces"), namespaces + [ namespace ])

        if unknown:
            await storage.store(f"/devices/{bare_jid}/list", list(known | announced))

'''))
ref("x_m_cons_none", (CONS, '''        for backend in self.__backends:
            await self.refresh_device_list(backend.namespace, self.__own_bare_jid)

            remote_bundle: Optional[Bundle] = None
            local_bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
            try:
                remote_bundle = await self._download_bundle(
                    backend.namespace, self.__own_bare_jid, self.__own_device_id
                )
            except (BundleDownloadFailed, BundleNotFound):
                pass

            if remote_bundle is None or remote_bundle != local_bundle:
                await self._upload_bundle(local_bundle)

'''))
ref("x_m_cons_two_except", (CONS, '''        for backend in self.__backends:
            namespace = backend.namespace
            await self.refresh_device_list(namespace, self.__own_bare_jid)
            local_bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
            try:
                remote_bundle = await self._download_bundle(namespace, self.__own_bare_jid, self.__own_device_id)
                up_to_date = remote_bundle == local_bundle
            except BundleNotFound:
                up_to_date = False
            except BundleDownloadFailed:
                up_to_date = False
            if up_to_date:
                continue
            await self._upload_bundle(local_bundle)

'''))
ref("x_m_pj_single", (PJ, '''        device_ids = (await storage.load_list(f"/devices/{bare_jid}/list", int)).maybe([])
        trust_keys: List[str] = []
        for device_id in device_ids:
            identity_key = await storage.load_bytes(f"/devices/{bare_jid}/{device_id}/identity_key")
            if identity_key.is_just:
                encoded = base64.urlsafe_b64encode(identity_key.from_just()).decode("ASCII")
                trust_keys.append(f"/trust/{bare_jid}/{encoded}")

        for device_id in device_ids:
            for field in ("namespaces", "active", "label", "identity_key"):
                await storage.delete(f"/devices/{bare_jid}/{device_id}/{field}")
        await storage.delete(f"/devices/{bare_jid}/list")
        for trust_key in trust_keys:
            await storage.delete(trust_key)

        for backend in self.__backends:
            queue_key = f"/queue/{backend.namespace}"
            queued_jids = set((await storage.load_list(queue_key, str)).maybe([]))
            if bare_jid in queued_jids:
                queued_jids.remove(bare_jid)
                await storage.store(queue_key, list(queued_jids))
            await storage.delete(f"{queue_key}/{bare_jid}")
            await backend.purge_bare_jid(bare_jid)

'''))
ref("x_m_pb_split", (PB, '''        device_list = await self._download_device_list(namespace, self.__own_bare_jid)
        if self.__own_device_id in device_list:
            del device_list[self.__own_device_id]
            await self._upload_device_list(namespace, device_list)

        device, _ = await self.get_own_device_information()
        own_key = f"/devices/{self.__own_bare_jid}/{self.__own_device_id}"
        await self.__storage.store(f"{own_key}/active", { ns: on for ns, on in device.active if ns != namespace })
        await self.__storage.store(f"{own_key}/namespaces", [ ns for ns in device.namespaces if ns != namespace ])

        purged_backend: Optional[Backend] = None
        remaining: List[Backend] = []
        for backend in self.__backends:
            if backend.namespace == namespace:
                purged_backend = backend
            else:
                remaining.append(backend)
        self.__backends = remaining

        if purged_backend is not None:
            await purged_backend.purge()
        await self._delete_bundle(namespace, self.__own_device_id)

'''))
ref("x_m_rot_min_list", (ROT, '''        while True:
            checks = [ signed_pre_key_rotation_period ]
            for backend in self.__backends:
                remaining = signed_pre_key_rotation_period - await backend.signed_pre_key_age()
                if remaining >= 0:
                    checks.append(remaining)
                    continue

                await backend.rotate_signed_pre_key()
                retry_delay = 60
                uploaded = False
                while not uploaded:
                    try:
                        bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                        await self._upload_bundle(bundle)
                        uploaded = True
                    except BundleUploadFailed:
                        await async_sleep(retry_delay)
                        retry_delay = min(2 * retry_delay, 3600)

            await async_sleep(min(checks) + 60)

'''))
ref("x_m_rot_method", (ROT, '''        while True:
            next_check = signed_pre_key_rotation_period
            for backend in self.__backends:
                age = await backend.signed_pre_key_age()
                if age > signed_pre_key_rotation_period:
                    await backend.rotate_signed_pre_key()
                    await self.__publish_persistently(backend, async_sleep)
                else:
                    next_check = min(next_check, signed_pre_key_rotation_period - age)
            await async_sleep(next_check + 60)

    async def __publish_persistently(self, backend: Backend, async_sleep: Any) -> None:
        delay = 60
        while True:
            bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
            try:
                await self._upload_bundle(bundle)
                return
            except BundleUploadFailed:
                logging.getLogger(SessionManager.LOG_TAG).error("Upload failed.", exc_info=True)
            await async_sleep(delay)
            delay = min(delay * 2, 60 * 60)

'''))
