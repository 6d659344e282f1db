CASES = []


def bug(name, want, *edits):
    CASES.append((name, want, edits))


def ref(name, *edits):
    CASES.append((name, None, edits))


RELOAD = '''            # Update to the new trust levels
            devices = { device._replace(trust_level_name=(await self.__storage.load_primitive(
                f"/trust/{device.bare_jid}/{base64.urlsafe_b64encode(device.identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)) for device in devices }
'''
TRUSTED = '''        devices = {
            device for device in devices
            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.TRUSTED
        }
'''
KEEP = '''                    # Keep track of the modified sessions to store them once encryption is fully done.
                    sessions.add((backend, session))
'''
# ------------------------------------------------------------------------------------------------- encrypt bugs
bug("e_no_reload", ["C01"], (RELOAD, ''))
bug("e_reload_only_undecided", ["C01"], (RELOAD, '''            devices = { device._replace(trust_level_name=(await self.__storage.load_primitive(
                f"/trust/{device.bare_jid}/{base64.urlsafe_b64encode(device.identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)) if device in undecided_devices else device for device in devices }
'''))
bug("e_reload_std_b64", ["C01", "C17"], (RELOAD, RELOAD.replace("urlsafe_b64encode", "b64encode")))
bug("e_reload_own_jid", ["C01"], (RELOAD, RELOAD.replace("/trust/{device.bare_jid}", "/trust/{self._SessionManager__own_bare_jid}")))
bug("e_not_distrusted", ["C01"], (TRUSTED, TRUSTED.replace("is TrustLevel.TRUSTED", "is not TrustLevel.DISTRUSTED")),
    ('''        if len(undecided_devices) > 0:
            raise StillUndecided(''', '''        if len(undecided_devices) > 1:
            raise StillUndecided('''))
bug("e_no_trust_filter_own", ["C01"], (TRUSTED, TRUSTED.replace("if (await", "if device.bare_jid == self._SessionManager__own_bare_jid or (await")))
bug("e_still_undecided_gone", ["C01"], ('''        if len(undecided_devices) > 0:
            raise StillUndecided(''', '''        if len(undecided_devices) == len(devices) and len(devices) > 0:
            raise StillUndecided('''))
bug("e_no_ik_match", ["C03"], ('''                        if bundle.identity_key != device.identity_key:
                            raise KeyExchangeFailed(
                                "The identity key in the bundle doesn't match the identity key of the device."
                            )
''', ''))
bug("e_cache_any_device", ["C03"], ('''                    bundle.namespace == backend.namespace
                    and bundle.bare_jid == device.bare_jid
                    and bundle.device_id == device.device_id
                )), None)''', '''                    bundle.namespace == backend.namespace
                    and bundle.bare_jid == device.bare_jid
                )), None)'''))
bug("e_inactive_ok", ["C04"], ('''                if dict(device.active)[namespace] and namespace in backend_priority_order
''', '''                if namespace in backend_priority_order
'''))
bug("e_own_device_by_id", ["C04"], ('''            if device.bare_jid == self.__own_bare_jid and device.device_id == self.__own_device_id:
                return False
''', '''            if device.device_id == self.__own_device_id:
                return False
'''))
bug("e_no_own_filter", ["C04"], ('''            if device.bare_jid == self.__own_bare_jid and device.device_id == self.__own_device_id:
                return False
''', ''))
bug("e_reverse_prio", ["C04"], ('''            ), key=backend_priority_order.index)[0:1]))''', '''            ), key=backend_priority_order.index)[-1:]))'''))
bug("e_no_own_devices", ["C04"], ('''        bare_jids = frozenset(bare_jids) | frozenset({ self.__own_bare_jid })
''', '''        bare_jids = frozenset(bare_jids)
'''))
bug("e_session_not_kept_existing", ["C05"], (KEEP, '''                    if session.initiation is Initiation.ACTIVE:
                        sessions.add((backend, session))
'''))
bug("e_store_early", ["C05"], (KEEP, '''                    await backend.store_session(session)
'''))
bug("e_sessions_reset", ["C05"], ('''            keys: Set[Tuple[EncryptedKeyMaterial, Optional[KeyExchange]]] = set()
''', '''            keys: Set[Tuple[EncryptedKeyMaterial, Optional[KeyExchange]]] = set()
            sessions = set()
'''))
bug("e_stored_before_check", ["C05"], ('''        # Check for recipients without a single remaining device, except for ourselves
''', '''        for backend, session in sessions:
            await backend.store_session(session)
'''), ('''        for backend, session in sessions:
            # Persist the session as the final step
            await backend.store_session(session)
''', ''))
bug("e_dont_remove_failed", ["C06"], ('''                    devices.remove(device)
''', ''))
bug("e_not_caught_kex", ["C06"], ('''except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed) as e:
                    # Those''', '''except (BundleDownloadFailed, BundleNotFound) as e:
                    # Those'''))
bug("e_error_not_reported", ["C06"], ('''                    encryption_errors.add(EncryptionError(
                        backend.namespace,
                        device.bare_jid,
                        device.device_id,
                        e
                    ))
''', '''                    if not isinstance(e, BundleNotFound):
                        encryption_errors.add(EncryptionError(
                            backend.namespace,
                            device.bare_jid,
                            device.device_id,
                            e
                        ))
'''))
bug("e_no_eligible_any", ["C06"], ('''            lambda bare_jid: all(device.bare_jid != bare_jid for device in devices),
''', '''            lambda bare_jid: any(device.bare_jid != bare_jid for device in devices),
'''))
bug("e_no_eligible_before", ["C06"], ('''        if len(no_eligible_devices) > 0:
            raise NoEligibleDevices(''', '''        if len(no_eligible_devices) == len(bare_jids) - 1 and no_eligible_devices:
            raise NoEligibleDevices('''))
bug("e_kex_always_active", ["C07"], ('''                    keys.add((encrypted_key_material, (
                        session.key_exchange
                        if session.initiation is Initiation.ACTIVE and not session.confirmed
                        else None
                    )))
''', '''                    keys.add((encrypted_key_material, (
                        session.key_exchange
                        if session.initiation is Initiation.ACTIVE
                        else None
                    )))
'''))
bug("e_kex_missing_unconfirmed", ["C07"], ('''                if session.initiation is Initiation.ACTIVE and not session.confirmed
                else None
            )) })''', '''                if session.initiation is Initiation.ACTIVE and not session.confirmed and session.sending_chain_length == 0
                else None
            )) })'''))
bug("e_share_pkm", ["C07"], ('''            content, plain_key_material = await backend.encrypt_plaintext(plaintext[backend.namespace])
''', '''            content, plain_key_material = await backend.encrypt_plaintext(next(iter(plaintext.values())))
'''))
bug("e_wrong_sender", ["C07"], ('''            messages[Message(
                backend.namespace,
                self.__own_bare_jid,
                self.__own_device_id,
''', '''            messages[Message(
                self.__backends[0].namespace,
                self.__own_bare_jid,
                self.__own_device_id,
'''))
bug("e_skip_message_when_error", ["C06", "C07"], ('''            # Build the message from content, key material and key exchange information
            messages[''', '''            if encryption_errors and len(keys) < 2:
                continue
            messages['''))
# ------------------------------------------------------------------------------------------- encrypt refactorings
ref("re_reload_helper", (RELOAD, '''            devices = { await self.__with_current_trust(device) for device in devices }
'''), ('''    async def __send_empty_message(self, backend''', '''    async def __with_current_trust(self, device: DeviceInformation) -> DeviceInformation:
        level = await self.__load_trust_level_name(device.bare_jid, device.identity_key)
        return device._replace(trust_level_name=level)

    async def __load_trust_level_name(self, bare_jid: str, identity_key: bytes) -> str:
        encoded = base64.urlsafe_b64encode(identity_key).decode("ASCII")
        maybe_level = await self.__storage.load_primitive(f"/trust/{bare_jid}/{encoded}", str)
        return maybe_level.maybe(self.__undecided_trust_level_name)

    async def __send_empty_message(self, backend'''), ('''            trust_level_name = (await storage.load_primitive(
                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)
''', '''            trust_level_name = await self.__load_trust_level_name(bare_jid, identity_key)
'''))
ref("re_undecided_helper", ('''        undecided_devices = frozenset({
            device for device in devices
            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.UNDECIDED
        })

        logging.getLogger(SessionManager.LOG_TAG).debug(f"Undecided''', '''        undecided_devices = await self.__filter_by_trust(devices, TrustLevel.UNDECIDED)

        logging.getLogger(SessionManager.LOG_TAG).debug(f"Undecided'''), ('''        undecided_devices = frozenset({
            device for device in devices
            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.UNDECIDED
        })

        if len(''', '''        undecided_devices = await self.__filter_by_trust(devices, TrustLevel.UNDECIDED)

        if len('''), (TRUSTED, '''        devices = set(await self.__filter_by_trust(devices, TrustLevel.TRUSTED))
'''), ('''    async def __send_empty_message(self, backend''', '''    async def __filter_by_trust(self, devices: Set[DeviceInformation], level: TrustLevel) -> FrozenSet[DeviceInformation]:
        result = set()
        for device in devices:
            if await self._evaluate_custom_trust_level(device) is level:
                result.add(device)
        return frozenset(result)

    async def __send_empty_message(self, backend'''))
ref("re_session_list", (KEEP, '''                    sessions.append((backend, session))
'''), ('''        sessions: Set[Tuple[Backend, Session]] = set()
''', '''        sessions: List[Tuple[Backend, Session]] = []
'''))
ref("re_kex_helper", ('''                    keys.add((encrypted_key_material, (
                        session.key_exchange
                        if session.initiation is Initiation.ACTIVE and not session.confirmed
                        else None
                    )))
''', '''                    keys.add((encrypted_key_material, self.__key_exchange_to_send(session)))
'''), ('''            frozenset({ (encrypted_key_material, (
                session.key_exchange
                if session.initiation is Initiation.ACTIVE and not session.confirmed
                else None
            )) })
''', '''            frozenset({ (encrypted_key_material, self.__key_exchange_to_send(session)) })
'''), ('''    async def __send_empty_message(self, backend''', '''    @staticmethod
    def __key_exchange_to_send(session: Session) -> Optional[KeyExchange]:
        if session.confirmed or session.initiation is not Initiation.ACTIVE:
            return None
        return session.key_exchange

    async def __send_empty_message(self, backend'''))
ref("re_no_eligible_loop", ('''        no_eligible_devices = frozenset(filter(
            lambda bare_jid: all(device.bare_jid != bare_jid for device in devices),
            bare_jids
        )) - frozenset({ self.__own_bare_jid })
''', '''        covered_jids = { device.bare_jid for device in devices }
        no_eligible_devices = frozenset(
            bare_jid for bare_jid in bare_jids if bare_jid not in covered_jids and bare_jid != self.__own_bare_jid
        )
'''))
ref("re_no_eligible_setminus", ('''        no_eligible_devices = frozenset(filter(
            lambda bare_jid: all(device.bare_jid != bare_jid for device in devices),
            bare_jids
        )) - frozenset({ self.__own_bare_jid })
''', '''        no_eligible_devices = bare_jids - { device.bare_jid for device in devices } - { self.__own_bare_jid }
'''))
ref("re_collect_loop", ('''        tmp = frozenset([ await self.__get_device_information(bare_jid) for bare_jid in bare_jids ])

        devices = cast(Set[DeviceInformation], set()).union(*(devices for devices, _ in tmp))
        devices = set(filter(is_valid_recipient_device, devices))

        bundle_cache = cast(FrozenSet[Bundle], frozenset()).union(*(bundle_cache for _, bundle_cache in tmp))
''', '''        devices: Set[DeviceInformation] = set()
        bundle_cache: Set[Bundle] = set()
        for bare_jid in bare_jids:
            jid_devices, jid_bundles = await self.__get_device_information(bare_jid)
            for device in jid_devices:
                if is_valid_recipient_device(device):
                    devices.add(device)
            bundle_cache |= jid_bundles
'''))
ref("re_encrypt_for_device", ('''                try:
                    # Build the session if necessary, and encrypt the key material
                    if session is None:
                        if bundle is None:
                            bundle = await self._download_bundle(
                                backend.namespace,
                                device.bare_jid,
                                device.device_id
                            )

                        # Trust is assigned to the identity key, never build a session with a different one
                        if bundle.identity_key != device.identity_key:
                            raise KeyExchangeFailed(
                                "The identity key in the bundle doesn't match the identity key of the device."
                            )

                        session, encrypted_key_material = await backend.build_session_active(
                            device.bare_jid,
                            device.device_id,
                            bundle,
                            plain_key_material
                        )
                    else:
                        encrypted_key_material = await backend.encrypt_key_material(
                            session,
                            plain_key_material
                        )
''', '''                try:
                    session, encrypted_key_material = await self.__encrypt_for(
                        backend, device, session, bundle, plain_key_material
                    )
'''), ('''    async def __send_empty_message(self, backend''', '''    async def __encrypt_for(
        self,
        backend: Backend,
        device: DeviceInformation,
        session: Optional[Session],
        bundle: Optional[Bundle],
        plain_key_material: PlainKeyMaterial
    ) -> Tuple[Session, EncryptedKeyMaterial]:
        if session is not None:
            return session, await backend.encrypt_key_material(session, plain_key_material)
        if bundle is None:
            bundle = await self._download_bundle(backend.namespace, device.bare_jid, device.device_id)
        if bundle.identity_key != device.identity_key:
            raise KeyExchangeFailed("identity key mismatch")
        return await backend.build_session_active(device.bare_jid, device.device_id, bundle, plain_key_material)

    async def __send_empty_message(self, backend'''))
ref("re_bundle_lookup_dict", ('''                bundle = next((bundle for bundle in bundle_cache if (
                    bundle.namespace == backend.namespace
                    and bundle.bare_jid == device.bare_jid
                    and bundle.device_id == device.device_id
                )), None)
''', '''                bundle = None
                for cached in bundle_cache:
                    if cached.namespace != backend.namespace:
                        continue
                    if (cached.bare_jid, cached.device_id) == (device.bare_jid, device.device_id):
                        bundle = cached
                        break
'''))
ref("re_own_filter_de_morgan", ('''            if device.bare_jid == self.__own_bare_jid and device.device_id == self.__own_device_id:
                return False

            # Remove namespaces for which the device is inactive
            namespaces_active = frozenset(filter(
                lambda namespace: dict(device.active)[namespace],
                device.namespaces
            ))

            # Remove devices which are only available with backends that are not currently loaded and in
            # the priority list
            if len(namespaces_active & frozenset(effective_backend_priority_order)) == 0:
                return False

            return True
''', '''            is_own = device.bare_jid == self.__own_bare_jid and device.device_id == self.__own_device_id
            active = dict(device.active)
            return not is_own and any(
                active[namespace] and namespace in effective_backend_priority_order for namespace in device.namespaces
            )
'''))
ref("re_prio_loop", ('''            return device._replace(namespaces=frozenset(sorted((
                namespace
                for namespace
                in device.namespaces
                if dict(device.active)[namespace] and namespace in backend_priority_order
            ), key=backend_priority_order.index)[0:1]))
''', '''            active = dict(device.active)
            for namespace in backend_priority_order:
                if namespace in device.namespaces and active[namespace]:
                    return device._replace(namespaces=frozenset({ namespace }))
            return device._replace(namespaces=frozenset())
'''))
ref("re_backend_devices_group", ('''            backend_devices = frozenset(
                device for device in devices if next(iter(device.namespaces)) == backend.namespace
            )
''', '''            backend_devices = { device for device in devices if backend.namespace in device.namespaces }
'''), ('''            if len(backend_devices) == 0:
                continue
''', '''            if not backend_devices:
                continue
'''))
ref("re_unavail", ('''            unavailable_namespaces = frozenset(backend_priority_order) - frozenset(available_namespaces)
''', '''            unavailable_namespaces = [ ns for ns in backend_priority_order if ns not in available_namespaces ]
'''))
ref("re_store_dict_order", ('''        for backend, session in sessions:
            # Persist the session as the final step
            await backend.store_session(session)
''', '''        for entry in sessions:
            await entry[0].store_session(entry[1])
'''))
