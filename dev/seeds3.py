SEEDS = []


def seed(sid, pid, needs, breaks, edits, demo):
    SEEDS.append((sid, pid, needs, breaks, edits, demo))


PAIR = '''
async def pair(w, nss=("A",), sync=False):
    a, sa, ba = await w.account("a@x", nss)
    b, sb, bb = await w.account("b@x", nss)
    if not sync:
        await b.after_history_sync()
    await a.after_history_sync()
    await w.learn(a, "b@x", nss)
    await w.learn(b, "a@x", nss)
    return a, sa, ba, b, sb, bb
'''

seed("s32-refresh-known-namespaces", "C36",
     "Two loaded backends, and a contact that starts to support the second one while no notification arrives.",
     "Only the lists of namespaces that a known device of the contact supports are refreshed, so support for another namespace is never found.",
     [('''        for backend in self.__backends:
            await self.refresh_device_list(backend.namespace, bare_jid)
''', '''        known_devices = await self.get_device_information(bare_jid)
        known_namespaces = frozenset(namespace for device in known_devices for namespace in device.namespaces)

        for backend in self.__backends:
            if len(known_devices) == 0 or backend.namespace in known_namespaces:
                await self.refresh_device_list(backend.namespace, bare_jid)
''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x", ("A", "B"))
    b, sb, bb = await w.account("b@x", ("A",))
    await a.refresh_device_lists("b@x")
    w.lists[("B", "b@x")] = {own_id(sb): None}
    await a.refresh_device_lists("b@x")
    d = next(iter(await a.get_device_information("b@x")))
    assert d.namespaces == frozenset({"A", "B"}), d.namespaces
''')

seed("s33-fingerprint-leading-zeros", "C37",
     "An identity key whose Curve25519 form starts with a zero digit (one in sixteen keys).",
     "The key is formatted as a number, so leading zeros are lost and all groups are shifted.",
     [('''        ik_hex_string = xeddsa.ed25519_pub_to_curve25519_pub(identity_key).hex()
        group_size = 8
''', '''        ik_hex_string = f"{int.from_bytes(xeddsa.ed25519_pub_to_curve25519_pub(identity_key), 'big'):x}"
        group_size = 8
''')],
     '''
async def main():
    import xeddsa
    for n in range(400):
        ik = xeddsa.priv_to_ed25519_pub(bytes([n % 256, n // 256]) + b"s" * 30)
        groups = SessionManager.format_identity_key(ik)
        want = xeddsa.ed25519_pub_to_curve25519_pub(ik).hex()
        assert groups == [want[i:i + 8] for i in range(0, 64, 8)], groups
''')

seed("s34-fingerprint-seven-groups", "C37",
     "A comparison of two keys that only differ in their last four bytes.",
     "The last group of the fingerprint is left out by the bound of the range.",
     [('''        return [ ik_hex_string[i:i + group_size] for i in range(0, len(ik_hex_string), group_size) ]
''', '''        return [ ik_hex_string[i:i + group_size] for i in range(0, len(ik_hex_string) - group_size, group_size) ]
''')],
     '''
async def main():
    import xeddsa
    ik = xeddsa.priv_to_ed25519_pub(b"s" * 32)
    groups = SessionManager.format_identity_key(ik)
    assert "".join(groups) == xeddsa.ed25519_pub_to_curve25519_pub(ik).hex(), groups
''')

seed("s35-purge-trust-alphabet", "C18",
     "An identity key whose base64 form contains one of the two characters that differ between the alphabets.",
     "The trust of a purged account is deleted under the standard alphabet, but stored under the URL safe one, so it can stay behind.",
     [('''        for identity_key in identity_keys:
            await storage.delete(
                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}"
            )
''', '''        for identity_key in identity_keys:
            await storage.delete(f"/trust/{bare_jid}/{base64.b64encode(identity_key).decode('ASCII')}")
''')],
     '''
async def main():
    for key in (b"k" * 32, b"\\xff" * 32):
        w = World()
        a, sa, ba = await w.account("a@x")
        w.lists[("A", "b@x")] = {7: None}
        w.bundles[("A", "b@x", 7)] = ToyBundle("A", "b@x", 7, key, 1, 1)
        await w.learn(a, "b@x")
        d = next(iter(await a.get_device_information("b@x")))
        await a.set_trust("b@x", d.identity_key, "TRUSTED")
        await a.purge_bare_jid("b@x")
        left = [k for k in sa.data if k.startswith("/trust/b@x")]
        assert not left, left
''')

seed("s37-replace-network-failures-only", "C25",
     "A device supporting two backends whose bundle fails the key exchange under the first one.",
     "Only failures of the network are collected, so a failed key exchange under one backend prevents the replacement under the others.",
     [('''                except OMEMOException as e:
''', '''                except XMPPInteractionFailed as e:
''')],
     PAIR + '''
async def main():
    w = World()
    a, sa, ba, b, sb, bb = await pair(w, ("A", "B"))
    for ns in ("A", "B"):
        await a.encrypt(frozenset({"b@x"}), {"A": b"x", "B": b"y"}, [ns])
    d = next(iter(await a.get_device_information("b@x")))

    def fail(op, *args):
        if op == "build_session_active":
            raise KeyExchangeFailed()
    ba[0].fail = fail
    errors = await a.replace_sessions(d)
    assert list(errors) == ["A"], errors
    assert w.sent[-1][1].namespace == "B"
''')

seed("s38-bundle-before-refill", "C10",
     "A key exchange that makes the number of pre keys reach the refill threshold.",
     "The published bundle is assembled before the pre keys are refilled, so the new pre keys stay unpublished.",
     [('''            if bundle_changed:
                num_visible_pre_keys''', '''            if bundle_changed:
                bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)

                num_visible_pre_keys'''),
      ('''                bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                await self._upload_bundle(bundle)

        # Send an empty message if''', '''                await self._upload_bundle(bundle)

        # Send an empty message if''')],
     PAIR + '''
async def main():
    w = World()
    a, sa, ba, b, sb, bb = await pair(w)
    bb[0].st["pks"] = 99
    msgs, errs = await a.encrypt(frozenset({"b@x"}), {"A": b"x"})
    await b.decrypt(next(iter(msgs)))
    assert bb[0].st["pks"] == 100 or bb[0].st["pks"] == 98
    bb[0].st["pks"] = 99
    bb[0].st["pks"] = 26
    c, sc, bc = await w.account("c@x")
    await c.after_history_sync()
    await w.learn(c, "b@x")
    await w.learn(b, "c@x")
    for n in (99, 100):
        bb[0].st["pks"] = n
    # down to the threshold (99 is the largest one allowed)
    bb[0].st["pks"] = 100
    b2, sb2, bb2 = await w.account("d@x", pre_key_refill_threshold=99)
    await b2.after_history_sync()
    await w.learn(c, "d@x")
    await w.learn(b2, "c@x")
    msgs, errs = await c.encrypt(frozenset({"d@x"}), {"A": b"x"})
    await b2.decrypt(next(iter(msgs)))
    assert bb2[0].st["pks"] == 100
    assert w.bundles[("A", "d@x", own_id(sb2))] == await bb2[0].get_bundle("d@x", own_id(sb2))
''')

seed("s39-first-lost-session-stops", "C12",
     "Several devices queued for one account, one of which no longer has a session.",
     "The first queued device without a session ends the processing of its account; the queue was deleted already, so the others are never answered.",
     [('''                            f" for namespace {backend.namespace}. The session could not be loaded."
                        )
                    else:
                        # It is theoretically possible that the session has been deleted after an empty
                        # message was queued for it.
                        await self.__send_empty_message(backend, session)
''', '''                            f" for namespace {backend.namespace}. The session could not be loaded."
                        )
                        break

                    # It is theoretically possible that the session has been deleted after an empty
                    # message was queued for it.
                    await self.__send_empty_message(backend, session)
''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x")
    for n in range(1, 9):
        if n != 1:
            ba[0].st["sessions"][("b@x", n)] = ToySession("A", "b@x", n, Initiation.PASSIVE, ToyKEX(b"k" * 32, n), n)
    sa.data["/queue/A"] = ["b@x"]
    sa.data["/queue/A/b@x"] = list(range(1, 9))
    a, sa, ba = await w.account("a@x", ("A",), MemStorage(sa.data), {"A": ba[0].st})
    await a.after_history_sync()
    assert len(w.sent) == 7, len(w.sent)
''')

seed("s40-cached-bundle-by-device-id", "C06",
     "Two contacts with the same device id, whose bundles are both downloaded for the first time in one encryption.",
     "A bundle downloaded before is looked up by device id only, so the bundle of another account's device is used and the device is left out.",
     [('''                    bundle.namespace == backend.namespace
                    and bundle.bare_jid == device.bare_jid
                    and bundle.device_id == device.device_id
''', '''                    bundle.namespace == backend.namespace
                    and bundle.device_id == device.device_id
''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x")
    for jid in ("b@x", "c@x"):
        w.lists[("A", jid)] = {7: None}
        w.bundles[("A", jid, 7)] = ToyBundle("A", jid, 7, jid.encode() * 8, 1, 1)
        await w.learn(a, jid)
    msgs, errs = await a.encrypt(frozenset({"b@x", "c@x"}), {"A": b"x"})
    assert not errs, errs
    assert {k.bare_jid for m in msgs for k, _ in m.keys} == {"b@x", "c@x"}
''')

seed("s41-label-withdrawn", "C13",
     "A labelled device that is also listed under a backend without support for labels.",
     "A list entry without a label removes the label that another backend announced.",
     [('''                if device_list[device_id] is not None and device_list[device_id] != label:
                    await storage''', '''                if device_list[device_id] is None:
                    await storage.store(f"/devices/{bare_jid}/{device_id}/label", None)
                elif device_list[device_id] != label:
                    await storage''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x", ("A", "B"))
    w.bundles[("A", "b@x", 7)] = ToyBundle("A", "b@x", 7, b"k" * 32, 1, 1)
    await a.update_device_list("A", "b@x", {7: "phone"})
    await a.update_device_list("B", "b@x", {7: None})
    d = next(iter(await a.get_device_information("b@x")))
    assert d.label == "phone", d.label
''')

seed("s42-consistency-upload-tolerated", "C27",
     "A failing upload of the own bundle while the published one is outdated.",
     "The upload happens where failures of the download are tolerated, so a bundle that couldn't be published goes unnoticed.",
     [('''                remote_bundle = await self._download_bundle(
                    backend.namespace,
                    self.__own_bare_jid,
                    self.__own_device_id
                )
            except (BundleDownloadFailed, BundleNotFound):
''', '''                remote_bundle = await self._download_bundle(
                    backend.namespace,
                    self.__own_bare_jid,
                    self.__own_device_id
                )
                if remote_bundle != local_bundle:
                    await self._upload_bundle(local_bundle)
            except XMPPInteractionFailed:
'''), ('''                upload_bundle = True
            else:
                upload_bundle = remote_bundle != local_bundle

''', '''                upload_bundle = bundle_missing = True

''')] and [('''            except (BundleDownloadFailed, BundleNotFound):
                logging.getLogger(SessionManager.LOG_TAG).warning(
                    "Couldn't download own bundle.",
                    exc_info=True
                )

                upload_bundle = True
            else:
                upload_bundle = remote_bundle != local_bundle

            if upload_bundle:
                logging.getLogger(SessionManager.LOG_TAG).warning(
                    "Online bundle data differs from offline bundle data."
                )

                await self._upload_bundle(local_bundle)
''', '''                if remote_bundle != local_bundle:
                    logging.getLogger(SessionManager.LOG_TAG).warning(
                        "Online bundle data differs from offline bundle data."
                    )
                    await self._upload_bundle(local_bundle)
            except (BundleDownloadFailed, BundleNotFound):
                logging.getLogger(SessionManager.LOG_TAG).warning(
                    "Couldn't download own bundle.",
                    exc_info=True
                )

                upload_bundle = True
            except XMPPInteractionFailed:
                logging.getLogger(SessionManager.LOG_TAG).warning("Consistency check failed.", exc_info=True)

            if upload_bundle:
                await self._upload_bundle(local_bundle)
''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x")
    ba[0].st["spk"] += 1

    def fail(op, *args):
        if op == "upload_bundle":
            raise BundleUploadFailed()
    w.fail = fail
    try:
        await a.ensure_data_consistency()
    except BundleUploadFailed:
        return
    raise AssertionError("the failed upload was swallowed")
''')

seed("s43-chain-length-without-session", "C32",
     "A device that supports a backend under which no session exists yet.",
     "Backends without a session are left out of the result instead of being reported without a length.",
     [('''            namespace: None if session is None else session.sending_chain_length
            for namespace, session
            in sessions.items()
''', '''            namespace: session.sending_chain_length
            for namespace, session
            in sessions.items()
            if session is not None
''')],
     PAIR + '''
async def main():
    w = World()
    a, sa, ba, b, sb, bb = await pair(w, ("A", "B"))
    await a.encrypt(frozenset({"b@x"}), {"A": b"x", "B": b"y"})
    d = next(iter(await a.get_device_information("b@x")))
    n = await a.get_sending_chain_length(d)
    assert set(n) == {"A", "B"} and None in n.values(), n
''')

seed("s44-consistent-bundle-first", "C24",
     "A published bundle that is current while the own device is missing from the device list.",
     "The device list is only refreshed if the bundle had to be uploaded, so a missing own device isn't added again.",
     [('''        for backend in self.__backends:
            await self.refresh_device_list(backend.namespace, self.__own_bare_jid)

            local_bundle''', '''        for backend in self.__backends:
            local_bundle'''),
      ('''                await self._upload_bundle(local_bundle)

        logging''', '''                await self._upload_bundle(local_bundle)
                await self.refresh_device_list(backend.namespace, self.__own_bare_jid)

        logging''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x")
    w.lists[("A", "a@x")] = {}
    await a.ensure_data_consistency()
    assert own_id(sa) in w.lists[("A", "a@x")]
''')

seed("s45-label-listed-only", "C30",
     "A device list of the own account from which the own device was removed by another client.",
     "Lists without the own device are skipped, so the label is not published for that backend.",
     [('''            device_list[self.__own_device_id] = own_label
            await self._upload_device_list(namespace, device_list)
''', ''''''), ('''            device_list[self.__own_device_id] = own_label
            await self._upload_device_list(backend.namespace, device_list)
''', '''            if self.__own_device_id in device_list:
                device_list[self.__own_device_id] = own_label
                await self._upload_device_list(backend.namespace, device_list)
''')][1:],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x", ("A", "B"))
    w.lists[("B", "a@x")] = {5: None}
    await a.set_own_label("desk")
    assert w.lists[("B", "a@x")] == {5: None, own_id(sa): "desk"}, w.lists
''')

seed("s46-trusted-of-one-jid", "C01",
     "Two accounts sharing an identity key, one of which distrusts it.",
     "The trust that was decided on is loaded once per identity key, so a decision about the key of one account is used for another one.",
     [('''            # Update to the new trust levels
            devices = { device._replace(trust_level_name=(await self.__storage.load_primitive(
                f"/trust/{device.bare_jid}/{base64.urlsafe_b64encode(device.identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)) for device in devices }
''', '''            # Update to the new trust levels
            levels: Dict[bytes, str] = {}
            for device in devices:
                if device.identity_key not in levels:
                    levels[device.identity_key] = (await self.__storage.load_primitive(
                        f"/trust/{device.bare_jid}/{base64.urlsafe_b64encode(device.identity_key).decode('ASCII')}",
                        str
                    )).maybe(self.__undecided_trust_level_name)

            devices = { device._replace(trust_level_name=levels[device.identity_key]) for device in devices }
''')],
     '''
async def main():
    import omemo
    w = World()
    a, sa, ba = await w.account("a@x")
    for jid in ("b@x", "c@x", "d@x", "e@x"):
        w.lists[("A", jid)] = {7: None}
        w.bundles[("A", jid, 7)] = ToyBundle("A", jid, 7, b"k" * 32, 1, 1)
        await w.learn(a, jid)
    w.decide = lambda d: "TRUSTED" if d.bare_jid in ("b@x", "c@x") else "DISTRUSTED"
    try:
        msgs, errs = await a.encrypt(frozenset({"b@x", "c@x", "d@x", "e@x"}), {"A": b"x"})
    except omemo.NoEligibleDevices as e:
        assert e.bare_jids == frozenset({"d@x", "e@x"}), e.bare_jids
        return
    raise AssertionError("encrypted for distrusted devices")
''')

seed("s47-rotation-next-check-kept", "C23",
     "Several rounds of the rotation loop, the second key being younger in a later round.",
     "The delay until the next check is carried over from round to round, so after the first rotation the loop wakes up far too often.",
     [('''        while True:
            # Keep track of when the next signed pre key rotation is due
            next_check = signed_pre_key_rotation_period
''', '''        # Keep track of when the next signed pre key rotation is due
        next_check = signed_pre_key_rotation_period

        while True:
''')],
     '''
async def main():
    sleeps = []
    backends = []
    real = asyncio.sleep

    async def sleep(n):
        sleeps.append(n)
        backends[0].st["age"] += n
        await real(3600 if len(sleeps) > 4 else 0)
    w = World()
    s = MemStorage()
    ikp = await IdentityKeyPair.get(s)
    backends.append(ToyBackend("A", {"sessions": {}, "pks": 100, "hidden": 0, "spk": 1, "age": 900}, ikp.identity_key))
    asyncio.sleep = sleep
    try:
        await w.manager("a@x").create(backends, s, "a@x", None, "UNDECIDED", signed_pre_key_rotation_period=1000)
        for _ in range(50):
            await real(0)
    finally:
        asyncio.sleep = real
    # once the key was rotated, nothing is due for a whole period
    assert sleeps[0] < 300 and sleeps[1] > 900, sleeps
''')

seed("s49-default-shared-once", "C15",
     "A mutable default that is handed out for a missing value and then modified by one caller.",
     "The mapped value of fmap isn't copied, so a function that returns its argument hands out what the cache holds.",
     [("omemo/storage.py", '''        return Just(function(copy.deepcopy(self.__value)))
''', '''        return Just(function(self.__value))
''')],
     '''
async def main():
    seen = []
    v = Just([1])
    v.fmap(lambda x: seen.append(x) or x)
    seen[0].append(2)
    assert v.from_just() == [1], v.from_just()
''')

seed("s50-session-stored-early", "C09",
     "A message whose key material decrypts but whose content is damaged.",
     "The session is stored right after the key material, so a message that fails to decrypt advances the stored ratchet.",
     [('''        # Decrypt the message
        plaintext = None if message''', '''        await backend.store_session(session)

        # Decrypt the message
        plaintext = None if message'''), ('''        # Persist the session following successful decryption
        await backend.store_session(session)

''', '''''')],
     PAIR + '''
async def main():
    w = World()
    a, sa, ba, b, sb, bb = await pair(w)
    msgs, errs = await a.encrypt(frozenset({"b@x"}), {"A": b"x"})

    def fail(op, *args):
        if op == "decrypt_plaintext":
            raise DecryptionFailed()
    bb[0].fail = fail
    try:
        await b.decrypt(next(iter(msgs)))
    except DecryptionFailed:
        pass
    assert not bb[0].st["sessions"]
''')

seed("s51-ik-not-recorded", "C31",
     "A bundle that disappears, or is replaced by one with another identity key, after its first download.",
     "The identity key from a downloaded bundle is only recorded for the namespace that is asked first, so a key found under another one isn't kept.",
     [('''                        await storage.store_bytes(
                            f"/devices/{bare_jid}/{device_id}/identity_key",
                            identity_key
                        )
                        break
''', '''                        if len(namespaces) == 1:
                            await storage.store_bytes(
                                f"/devices/{bare_jid}/{device_id}/identity_key",
                                identity_key
                            )
                        break
''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x", ("A", "B"))
    for ns in ("A", "B"):
        w.bundles[(ns, "b@x", 7)] = ToyBundle(ns, "b@x", 7, b"k" * 32, 1, 1)
        await a.update_device_list(ns, "b@x", {7: None})
    await a.get_device_information("b@x")
    w.bundles.clear()
    ds = await a.get_device_information("b@x")
    assert len(ds) == 1
''')

seed("s52-refill-by-guess", "C20",
     "A backend that isn't recorded as active, but already has some pre keys: an interrupted first run, or a backend that was unloaded for a while.",
     "create adds a full set of pre keys to those that are left, instead of refilling to 100.",
     [('''                    if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                        await backend.generate_pre_keys(100 - num_visible_pre_keys)

                    # Publish''', '''                    if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                        await backend.generate_pre_keys(100)

                    # Publish''')],
     '''
async def main():
    w = World()
    st, states = MemStorage(), {}
    await w.account("a@x", ("A",), st, states)
    states["B"] = {"sessions": {}, "pks": 40, "hidden": 0, "spk": 1, "age": 0}
    await w.account("a@x", ("A", "B"), st, states)
    assert states["B"]["pks"] == 100, states["B"]
''')

seed("s53-who-is-ineligible", "C06",
     "A recipient without any usable device, and a caller that wants to know which one that was.",
     "NoEligibleDevices doesn't tell which recipients are affected any more.",
     [('''        super().__init__(*args)

        self.bare_jids = bare_jids
''', '''        super().__init__(bare_jids, *args)
''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x")
    try:
        await a.encrypt(frozenset({"b@x"}), {"A": b"x"})
    except omemo.NoEligibleDevices as e:
        assert e.bare_jids == frozenset({"b@x"})
    else:
        assert False, "no error"
''')

seed("s54-storage-failures-unrelated", "C38",
     "A storage that fails while an application that handles OMEMOException encrypts.",
     "StorageException isn't an OMEMOException any more, so failures of the storage escape every documented handler.",
     [("omemo/storage.py", "class StorageException(OMEMOException):", "class StorageException(RuntimeError):")],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x")
    sa._Storage__cache.clear()
    sa.fail = lambda op, key: True
    try:
        await a.encrypt(frozenset({"b@x"}), {"A": b"x"})
    except omemo.OMEMOException:
        pass
    except Exception as e:
        assert False, repr(e)
    else:
        assert False, "no error"
''')

seed("s55-not-found-is-failure", "C38",
     "A bundle that doesn't exist, with an application that handles missing bundles after failed downloads.",
     "BundleNotFound became a kind of BundleDownloadFailed, so missing bundles are taken for network failures.",
     [("class BundleNotFound(XMPPInteractionFailed):", "class BundleNotFound(BundleDownloadFailed):")],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x")
    try:
        await type(a)._download_bundle("A", "b@x", 1)
    except omemo.BundleDownloadFailed:
        assert False, "taken for a network failure"
    except omemo.BundleNotFound:
        pass
''')
