CASES = []


def bug(name, want, *edits):
    CASES.append((name, want, edits))


def ref(name, *edits):
    CASES.append((name, None, edits))


# ------------------------------------------------------------------------------------------------- decrypt bugs
bug("d_trusted_instead", ["C02"], ('''        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
            raise SenderDistrusted(''', '''        if device.trust_level_name == "distrusted":
            raise SenderDistrusted('''))
bug("d_undecided_rejected", ["C02"], ('''        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
            raise SenderDistrusted(''', '''        if (await self._evaluate_custom_trust_level(device)) is not TrustLevel.TRUSTED:
            raise SenderDistrusted('''))
bug("d_distrust_skipped_for_sessions", ["C02"], ('''        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
            raise SenderDistrusted(''', '''        if key_exchange is not None and \\
                (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
            raise SenderDistrusted('''))
bug("d_distrust_empty_ok", ["C02"], ('''        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
            raise SenderDistrusted(''', '''        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED and not message.content.empty:
            raise SenderDistrusted('''))
bug("d_key_by_id_only", ["C08"], ('''                lambda k: k[0].bare_jid == self.__own_bare_jid and k[0].device_id == self.__own_device_id,
''', '''                lambda k: k[0].device_id == self.__own_device_id,
'''))
bug("d_no_ik_check", ["C03"], ('''            if key_exchange.identity_key != device.identity_key:
''', '''            if key_exchange.identity_key != device.identity_key and device.trust_level_name == "x":
'''))
bug("d_reuse_any_session", ["C08"], ('''                if (
                    session.initiation is Initiation.PASSIVE
                    and session.key_exchange.builds_same_session(key_exchange)
                ):
''', '''                if (
                    session.initiation is Initiation.PASSIVE
                    or session.key_exchange.builds_same_session(key_exchange)
                ):
'''))
bug("d_always_rebuild", ["C08"], ('''                if (
                    session.initiation is Initiation.PASSIVE
                    and session.key_exchange.builds_same_session(key_exchange)
                ):
''', '''                if (
                    session.initiation is Initiation.PASSIVE
                    and session.confirmed
                    and session.key_exchange.builds_same_session(key_exchange)
                ):
'''))
bug("d_store_before_plaintext", ["C09"], ('''        # Decrypt the message
        plaintext = None if''', '''        await backend.store_session(session)
        # Decrypt the message
        plaintext = None if'''), ('''        # Persist the session following successful decryption
        await backend.store_session(session)
''', ''))
bug("d_store_only_nonempty", ["C09"], ('''        # Persist the session following successful decryption
        await backend.store_session(session)
''', '''        if plaintext is not None:
            await backend.store_session(session)
'''))
bug("d_store_after_prekey", ["C09"], ('''        # Persist the session following successful decryption
        await backend.store_session(session)
''', ''), ('''        # Send an empty message if necessary to avoid staleness and''', '''        await backend.store_session(session)
        # Send an empty message if necessary to avoid staleness and'''))
bug("d_store_in_finally", ["C09"], ('''        plaintext = None if message.content.empty else await backend.decrypt_plaintext(
            message.content,
            plain_key_material
        )
''', '''        try:
            plaintext = None if message.content.empty else await backend.decrypt_plaintext(
                message.content,
                plain_key_material
            )
        finally:
            await backend.store_session(session)
'''), ('''        # Persist the session following successful decryption
        await backend.store_session(session)
''', ''))
bug("d_swap_hide_delete", ["C10"], ('''                bundle_changed = await backend.hide_pre_key(session)
''', '''                bundle_changed = await backend.delete_pre_key(session)
'''))
bug("d_hide_always", ["C10"], ('''                bundle_changed = await backend.delete_pre_key(session)
''', '''                bundle_changed = await backend.hide_pre_key(session)
'''))
bug("d_refill_lt", ["C10"], ('''                num_visible_pre_keys = await backend.get_num_visible_pre_keys()
                if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")''', '''                num_visible_pre_keys = await backend.get_num_visible_pre_keys()
                if num_visible_pre_keys < self.__pre_key_refill_threshold:
                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")'''))
bug("d_refill_thr", ["C10"], ('''                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")
                    await backend.generate_pre_keys(100 - num_visible_pre_keys)
''', '''                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")
                    await backend.generate_pre_keys(self.__pre_key_refill_threshold - num_visible_pre_keys)
'''))
bug("d_upload_only_refilled", ["C10"], ('''                    await backend.generate_pre_keys(100 - num_visible_pre_keys)

                bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                await self._upload_bundle(bundle)

        # Send an empty''', '''                    await backend.generate_pre_keys(100 - num_visible_pre_keys)

                    bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                    await self._upload_bundle(bundle)

        # Send an empty'''))
bug("d_bundle_before_refill", ["C10"], ('''                num_visible_pre_keys = await backend.get_num_visible_pre_keys()
                if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")
                    await backend.generate_pre_keys(100 - num_visible_pre_keys)

                bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
''', '''                bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                num_visible_pre_keys = await backend.get_num_visible_pre_keys()
                if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")
                    await backend.generate_pre_keys(100 - num_visible_pre_keys)

'''))
bug("d_no_completion_on_known", ["C11"], ('''            key_exchange is not None
            or (session.receiving_chain_length or 0) >''', '''            (key_exchange is not None and plaintext is not None)
            or (session.receiving_chain_length or 0) >'''))
bug("d_stale_ge", ["C11"], ('''(session.receiving_chain_length or 0) > self''', '''(session.receiving_chain_length or 0) >= self'''))
bug("d_stale_sending", ["C11"], ('''(session.receiving_chain_length or 0) > self''', '''(session.sending_chain_length or 0) > self'''))
bug("d_stale_const", ["C11"], ('''    STALENESS_MAGIC_NUMBER = 53''', '''    STALENESS_MAGIC_NUMBER = 100'''))
bug("d_queue_overwrite", ["C11"], ('''                queued_device_ids = set((await storage.load_list(
                    f"/queue/{session.namespace}/{session.bare_jid}",
                    int
                )).maybe([]))
''', '''                queued_device_ids = set()
'''))
bug("d_queue_wrong_ns", ["C11"], ('''await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", list''', '''await storage.store(f"/queue/{session.namespace}/{self.__own_bare_jid}", list'''))
bug("d_queue_only_ids", ["C11"], ('''                await storage.store(f"/queue/{session.namespace}", list(queued_jids))
''', ''))
bug("d_send_while_sync", ["C11"], ('''            if self.__synchronizing:
                # Add this bare JID to the queue''', '''            if self.__synchronizing and key_exchange is None:
                # Add this bare JID to the queue'''))
bug("d_no_refresh", ["C08"], ('''            await self.refresh_device_list(message.namespace, message.bare_jid)
''', ''))
bug("d_wrong_refresh", ["C08"], ('''            await self.refresh_device_list(message.namespace, message.bare_jid)
''', '''            await self.refresh_device_list(message.namespace, self.__own_bare_jid)
'''))
bug("d_empty_unstored", ["C09"], ('''        ), session.bare_jid)
        await backend.store_session(session)
''', '''        ), session.bare_jid)
'''))
bug("d_swallow_decrypt", ["C08", "C09"], ('''            plain_key_material = await backend.decrypt_key_material(session, encrypted_key_material)

            return''', '''            try:
                plain_key_material = await backend.decrypt_key_material(session, encrypted_key_material)
            except DecryptionFailed:
                await backend.store_session(session)
                raise

            return'''), ('''from .backend import Backend, ''', '''from .backend import DecryptionFailed, Backend, '''))
# ------------------------------------------------------------------------------------------- decrypt refactorings
ref("rd_backend_loop", ('''        backend = next(filter(lambda backend: backend.namespace == message.namespace, self.__backends), None)
        if backend is None:
            raise UnknownNamespace(
                f"Backend corresponding to namespace {message.namespace} is not currently loaded."
            )
''', '''        for candidate in self.__backends:
            if candidate.namespace == message.namespace:
                backend = candidate
                break
        else:
            raise UnknownNamespace(
                f"Backend corresponding to namespace {message.namespace} is not currently loaded."
            )
'''))
ref("rd_keys_loop", ('''        try:
            encrypted_key_material, key_exchange = next(filter(
                lambda k: k[0].bare_jid == self.__own_bare_jid and k[0].device_id == self.__own_device_id,
                message.keys
            ))
        except StopIteration:
            # pylint: disable=raise-missing-from
            raise MessageNotForUs("The message to decrypt does not contain key material for us.")
''', '''        own = None
        for ekm, kex in message.keys:
            if ekm.bare_jid == self.__own_bare_jid and ekm.device_id == self.__own_device_id:
                own = (ekm, kex)
                break
        if own is None:
            raise MessageNotForUs("The message to decrypt does not contain key material for us.")
        encrypted_key_material, key_exchange = own
'''))
ref("rd_prekey_helper", ('''            if bundle_changed:
                num_visible_pre_keys = await backend.get_num_visible_pre_keys()
                if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")
                    await backend.generate_pre_keys(100 - num_visible_pre_keys)

                bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                await self._upload_bundle(bundle)

        # Send''', '''            if bundle_changed:
                await self.__refill_and_publish(backend)

        # Send'''), ('''    async def __send_empty_message(self, backend''', '''    async def __refill_and_publish(self, backend: Backend) -> None:
        num = await backend.get_num_visible_pre_keys()
        missing = 100 - num
        if not num > self.__pre_key_refill_threshold:
            await backend.generate_pre_keys(missing)
        await self._upload_bundle(await backend.get_bundle(self.__own_bare_jid, self.__own_device_id))

    async def __send_empty_message(self, backend'''))
ref("rd_stale_rewrite", ('''        if (
            key_exchange is not None
            or (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER
        ):
''', '''        chain_length = session.receiving_chain_length
        stale = chain_length is not None and chain_length > SessionManager.STALENESS_MAGIC_NUMBER
        needs_answer = stale or key_exchange is not None
        if needs_answer:
'''))
ref("rd_stale_rewrite2", ('''        if (
            key_exchange is not None
            or (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER
        ):
''', '''        chain_length = 0 if session.receiving_chain_length is None else session.receiving_chain_length
        if not (key_exchange is None and chain_length <= self.STALENESS_MAGIC_NUMBER):
'''))
ref("rd_queue_helper", ('''                # Add this bare JID to the queue
                queued_jids = set((await storage.load_list(f"/queue/{session.namespace}", str)).maybe([]))

                queued_jids.add(session.bare_jid)
                await storage.store(f"/queue/{session.namespace}", list(queued_jids))

                # Add this device id to the queue
                queued_device_ids = set((await storage.load_list(
                    f"/queue/{session.namespace}/{session.bare_jid}",
                    int
                )).maybe([]))

                queued_device_ids.add(session.device_id)
                await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", list(queued_device_ids))
''', '''                await self.__queue(session)
'''), ('''    async def __send_empty_message(self, backend''', '''    async def __queue(self, session: Session) -> None:
        jids_key = f"/queue/{session.namespace}"
        ids_key = f"{jids_key}/{session.bare_jid}"
        ids = (await self.__storage.load_list(ids_key, int)).maybe([])
        if session.device_id not in ids:
            ids.append(session.device_id)
        await self.__storage.store(ids_key, ids)
        jids = (await self.__storage.load_list(jids_key, str)).maybe([])
        await self.__storage.store(jids_key, list(set(jids) | {session.bare_jid}))

    async def __send_empty_message(self, backend'''))
ref("rd_sync_early", ('''            if self.__synchronizing:
                # If the library is currently in history synchronization mode, hide the pre key but defer the
                # deletion.
                logging.getLogger(SessionManager.LOG_TAG).debug("Hiding pre key.")
                bundle_changed = await backend.hide_pre_key(session)
            else:
                # Otherwise, delete the pre key right away
                logging.getLogger(SessionManager.LOG_TAG).debug("Deleting pre key.")
                bundle_changed = await backend.delete_pre_key(session)
''', '''            remove_pre_key = backend.hide_pre_key if self.__synchronizing else backend.delete_pre_key
            bundle_changed = await remove_pre_key(session)
'''))
ref("rd_kex_restructure", ('''            session = await backend.load_session(device.bare_jid, device.device_id)
            if session is not None:
                logging.getLogger(SessionManager.LOG_TAG).debug("Key exchange present, but session exists.")
                # If the key exchange would build a new session, treat this session as non-existent
                if (
                    session.initiation is Initiation.PASSIVE
                    and session.key_exchange.builds_same_session(key_exchange)
                ):
                    logging.getLogger(SessionManager.LOG_TAG).debug("Key exchange builds existing session.")
                else:
                    logging.getLogger(SessionManager.LOG_TAG).warning(
                        "Key exchange replaces existing session."
                    )
                    session = None

            # If a new session needs to be built, do so.
            session, plain_key_material = await backend.build_session_passive(
                device.bare_jid,
                device.device_id,
                key_exchange,
                encrypted_key_material
            ) if session is None else (session, await backend.decrypt_key_material(
                session,
                encrypted_key_material
            ))

            # If an existing session is used, and the session was built through active session initiation, it
            # should now be flagged as confirmed.
            return session, plain_key_material
''', '''            existing = await backend.load_session(device.bare_jid, device.device_id)
            if (
                existing is not None
                and existing.initiation is Initiation.PASSIVE
                and existing.key_exchange.builds_same_session(key_exchange)
            ):
                return existing, await backend.decrypt_key_material(existing, encrypted_key_material)
            return await backend.build_session_passive(
                bare_jid=device.bare_jid,
                device_id=device.device_id,
                key_exchange=key_exchange,
                encrypted_key_material=encrypted_key_material
            )
'''))
ref("rd_find_device_helper", ('''        devices = await self.get_device_information(message.bare_jid)
        device = next(filter(lambda device: device.device_id == message.device_id, devices), None)
        if device is None:
''', '''        device = await self.__find_device(message.bare_jid, message.device_id)
        if device is None:
'''), ('''            devices = await self.get_device_information(message.bare_jid)

            # This time''', '''            # This time'''), ('''            device = next((device for device in devices if device.device_id == message.device_id), None)
            if device is None:
                raise SenderNotFound(''', '''            device = await self.__find_device(message.bare_jid, message.device_id)
            if device is None:
                raise SenderNotFound('''), ('''    async def __send_empty_message(self, backend''', '''    async def __find_device(self, bare_jid: str, device_id: int) -> Optional[DeviceInformation]:
        for device in await self.get_device_information(bare_jid):
            if device.device_id == device_id:
                return device
        return None

    async def __send_empty_message(self, backend'''))
ref("rd_plaintext_if", ('''        plaintext = None if message.content.empty else await backend.decrypt_plaintext(
            message.content,
            plain_key_material
        )
''', '''        plaintext: Optional[bytes] = None
        if not message.content.empty:
            plaintext = await backend.decrypt_plaintext(message.content, plain_key_material)
'''))
ref("rd_trust_var", ('''        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
            raise SenderDistrusted(''', '''        trust_level = await self._evaluate_custom_trust_level(device)
        if trust_level == TrustLevel.DISTRUSTED:
            raise SenderDistrusted('''))
ref("rd_trust_match", ('''        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
            raise SenderDistrusted(''', '''        trust_level = await self._evaluate_custom_trust_level(device)
        if trust_level not in (TrustLevel.TRUSTED, TrustLevel.UNDECIDED):
            raise SenderDistrusted('''))
