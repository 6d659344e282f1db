SEEDS = []


def seed(sid, pid, needs, breaks, edits, demo):
    SEEDS.append((sid, pid, needs, breaks, edits, demo))


PAIR = '''
async def pair(w, nss=("A",), sync=False):
    a, sa, ba = await w.account("a@x", nss)
    b, sb, bb = await w.account("b@x", nss)
    if not sync:
        await b.after_history_sync()
    await a.after_history_sync()
    await w.learn(a, "b@x", nss)
    await w.learn(b, "a@x", nss)
    return a, sa, ba, b, sb, bb


async def send(a, b, jid="b@x", ns="A", text=b"secret"):
    msgs, errs = await a.encrypt(frozenset({jid}), {n: text for n in ("A", "B")})
    m = [x for x in msgs if x.namespace == ns]
    return await b.decrypt(m[0])
'''

seed("s10-refill-difference", "C10",
     "A refill threshold below 99 and enough key exchanges for the number of pre keys to fall to it.",
     "Pre keys are filled up to the threshold instead of 100, so the stock of one time keys permanently shrinks to the threshold.",
     [('''                if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")
                    await backend.generate_pre_keys(100 - num_visible_pre_keys)
''', '''                missing_pre_keys = self.__pre_key_refill_threshold - num_visible_pre_keys
                if missing_pre_keys >= 0:
                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")
                    await backend.generate_pre_keys(missing_pre_keys + 1)
''')],
     PAIR + '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x")
    b, sb, bb = await w.account("b@x", pre_key_refill_threshold=98)
    await a.after_history_sync()
    await b.after_history_sync()
    await w.learn(a, "b@x")
    await w.learn(b, "a@x")
    for i in range(4):
        ba[0].st["sessions"].clear()
        await send(a, b)
        n = bb[0].st["pks"]
        assert n > 98, f"{n} pre keys left"
        if i % 2:
            assert n == 100, f"refilled to {n} instead of 100"
''')

seed("s11-queue-skip-known-jid", "C11",
     "Two devices of one account that both need an answer during one history synchronization.",
     "Once a JID is queued, further devices of that JID are not queued, so their sessions are never completed.",
     [('''                queued_jids.add(session.bare_jid)
                await storage.store(f"/queue/{session.namespace}", list(queued_jids))

                # Add this device id to the queue
                queued_device_ids = set((await storage.load_list(
                    f"/queue/{session.namespace}/{session.bare_jid}",
                    int
                )).maybe([]))

                queued_device_ids.add(session.device_id)
                await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", list(queued_device_ids))
''', '''                queued_device_ids: Set[int] = set()
                if session.bare_jid in queued_jids:
                    queued_device_ids.update((await storage.load_list(
                        f"/queue/{session.namespace}/{session.bare_jid}",
                        int
                    )).maybe([]))
                else:
                    queued_device_ids.add(session.device_id)
                    queued_jids.add(session.bare_jid)
                    await storage.store(f"/queue/{session.namespace}", list(queued_jids))

                # Add this device id to the queue
                await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", list(queued_device_ids))
''')],
     PAIR + '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x")
    c, sc, bc = await w.account("a@x")
    b, sb, bb = await w.account("b@x")
    for x in (a, c):
        await x.after_history_sync()
        await w.learn(x, "b@x")
    await w.learn(b, "a@x")
    await send(a, b)
    await send(c, b)
    w.sent.clear()
    await b.after_history_sync()
    ids = {x[0].device_id for jid, m in w.sent for x in m.keys}
    assert ids == {own_id(sa), own_id(sc)}, f"answered {ids}"
''')

seed("s12-sync-flag-last", "C12",
     "An answer to a queued message that fails to be sent while leaving history synchronization, or a message that arrives meanwhile.",
     "The synchronization mode is only left after everything was sent; a failure leaves the manager in synchronization mode for good, although the hidden pre keys are gone.",
     [('''        storage = self.__storage

        self.__synchronizing = False

        # Delete pre keys that were hidden''', '''        storage = self.__storage

        # Delete pre keys that were hidden'''),
      ('''        logging.getLogger(SessionManager.LOG_TAG).debug("History synchronization mode exited.")
''', '''        self.__synchronizing = False

        logging.getLogger(SessionManager.LOG_TAG).debug("History synchronization mode exited.")
''')],
     PAIR + '''
async def main():
    w = World()
    a, sa, ba, b, sb, bb = await pair(w, sync=True)
    await send(a, b)

    class Boom(omemo.session_manager.MessageSendingFailed):
        pass

    def fail(op, *args):
        if op == "send":
            raise Boom()
    w.fail = fail
    try:
        await b.after_history_sync()
    except Boom:
        pass
    w.fail = None
    ba[0].st["sessions"].clear()
    bb[0].log.clear()
    await send(a, b)
    assert ("delete_pre_key", "a@x", own_id(sa)) in bb[0].log, "pre key was not deleted after leaving the synchronization mode"
''')

seed("s13-forget-inactive", "C13",
     "A device that is dropped from a device list and later added again with another label.",
     "The recorded list of devices is replaced by the online list whenever there is a new device, so devices that are currently not listed are lost together with their identity keys.",
     [('''            await storage.store(f"/devices/{bare_jid}/list", list(new_device_list | old_device_list))
''', '''            known_device_list = new_devices | frozenset(filter(lambda device_id: device_id in device_list, old_device_list))
            await storage.store(f"/devices/{bare_jid}/list", list(known_device_list))
''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x")
    await a.update_device_list("A", "b@x", {1: None, 2: None})
    await a.update_device_list("A", "b@x", {2: None})
    assert sorted(sa.data["/devices/b@x/list"]) == [1, 2]
    await a.update_device_list("A", "b@x", {2: None, 3: None})
    assert sorted(sa.data["/devices/b@x/list"]) == [1, 2, 3], sa.data["/devices/b@x/list"]
''')

seed("s14-negative-cache", "C14",
     "A store that fails after the key was deleted or before it was ever loaded.",
     "The cache entry is written before the underlying store, so a failed store leaves a value in the cache that was never persisted.",
     [("omemo/storage.py", '''        await self._store(key, value)

        if self.__cache is not None:
            self.__cache[key] = Just(value)
''', '''        if self.__cache is None:
            await self._store(key, value)
            return

        cached = self.__cache.get(key)
        self.__cache[key] = Just(value)
        try:
            await self._store(key, value)
        except StorageException:
            if cached is not None:
                self.__cache[key] = cached
            raise
''')],
     '''
async def main():
    s = MemStorage({"k": 1})
    s.fail = lambda op, key: op == "store"
    try:
        await s.store("k", 2)
    except StorageException:
        pass
    s.fail = None
    v = (await s.load("k")).maybe(None)
    assert v == 1, f"loaded {v}, stored is {s.data['k']}"
''')

seed("s15-shallow-copy", "C15",
     "A stored dictionary or list with nested containers, modified by the caller after storing or loading it.",
     "Values are only copied at the top level, so modifying something nested changes what the cache holds.",
     [("omemo/storage.py", '''        self.__value = copy.deepcopy(value)
''', '''        self.__value = copy.copy(value)
'''),
      ("omemo/storage.py", '''    def from_just(self) -> ValueTypeT:
        return copy.deepcopy(self.__value)
''', '''    def from_just(self) -> ValueTypeT:
        return copy.copy(self.__value)
''')],
     '''
async def main():
    s = MemStorage()
    v = {"a": [1]}
    await s.store("k", v)
    v["a"].append(2)
    assert (await s.load("k")).from_just() == {"a": [1]}, "changed through the stored object"
    (await s.load("k")).from_just()["a"].append(3)
    assert (await s.load("k")).from_just() == {"a": [1]}, "changed through a loaded object"
''')

seed("s16-first-element-typed", "C16",
     "A stored list whose first element has the right type and a later one doesn't.",
     "Only the first element of a list is checked.",
     [("omemo/storage.py", '''            if isinstance(value, list) and all(isinstance(element, primitive) for element in value):
''', '''            if isinstance(value, list) and next((isinstance(element, primitive) for element in value), True):
''')],
     '''
async def main():
    s = MemStorage({"k": [1, 2, "x"]})
    try:
        v = (await s.load_list("k", int)).from_just()
    except TypeError:
        return
    assert False, f"loaded {v} as a list of int"
''')

seed("s18-purge-active-only", "C18",
     "A purged JID with a device whose identity key was never obtained.",
     "The trust of the identity keys is purged while looking them up and the first device without a known key ends the collection, leaving the trust of later devices behind.",
     [('''        identity_keys: Set[bytes] = set()
        for device_id in device_list:
            try:
                identity_keys.add((await storage.load_bytes(
                    f"/devices/{bare_jid}/{device_id}/identity_key"
                )).from_just())
            except NothingException:
                pass
''', '''        identity_keys: Set[bytes] = set()
        try:
            for device_id in sorted(device_list):
                identity_keys.add((await storage.load_bytes(
                    f"/devices/{bare_jid}/{device_id}/identity_key"
                )).from_just())
        except NothingException:
            pass
''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x")
    await a.update_device_list("A", "b@x", {1: None, 2: None})
    w.bundles[("A", "b@x", 2)] = ToyBundle("A", "b@x", 2, b"\\x02" * 32, 1, 1)
    await a.get_device_information("b@x")
    await a.set_trust("b@x", b"\\x02" * 32, "TRUSTED")
    await a.purge_bare_jid("b@x")
    left = [k for k in sa.data if "b@x" in k]
    assert not left, left
''')

seed("s19-purge-returns-early", "C19",
     "Purging a backend while the own device is not on the published device list.",
     "Without an entry on the device list there is supposedly nothing to remove, so neither the bundle nor the recorded namespace are removed.",
     [('''        try:
            device_list.pop(self.__own_device_id)
        except KeyError:
            pass
        else:
            await self._upload_device_list(namespace, device_list)

        # Synchronize''', '''        if device_list.pop(self.__own_device_id, None) is not None:
            await self._upload_device_list(namespace, device_list)

        # Synchronize''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x", ("A", "B"))
    w.lists[("A", "a@x")] = {own_id(sa): None, 4: "other"}
    await a.purge_backend("A")
    assert own_id(sa) not in w.lists[("A", "a@x")], "the own device is still listed"
''')

seed("s21-ids-of-first-backend", "C21",
     "Another device of the account that only supports the second backend and has the same (randomly drawn) device id.",
     "The device id is only drawn again once, and the second draw is not compared with the published ids.",
     [('''            self.__own_device_id = next(filter(
                lambda device_id: device_id not in device_ids,
                (
                    secrets.randbelow(cls.DEVICE_ID_MAX - cls.DEVICE_ID_MIN) + cls.DEVICE_ID_MIN
                    for _
                    in itertools.count()
                )
            ))
''', '''            self.__own_device_id = next(
                device_id for attempt, device_id in enumerate(
                    secrets.randbelow(cls.DEVICE_ID_MAX - cls.DEVICE_ID_MIN) + cls.DEVICE_ID_MIN
                    for _
                    in itertools.count()
                ) if attempt > 100 or device_id not in device_ids
            )
''')],
     '''
import secrets


async def main():
    w = World()
    w.lists[("B", "a@x")] = {5: None}
    n = [0]

    def randbelow(m):
        n[0] += 1
        return 4 if n[0] < 200 else 9
    secrets.randbelow = randbelow
    a, sa, ba = await w.account("a@x", ("A", "B"))
    assert own_id(sa) == 10, own_id(sa)
''')

seed("s22-key-before-kind", "C22",
     "A crash (or storage failure) right between the two stores of a new identity key pair.",
     "A key stored without its kind is completed as a private key on the next start, so a seed is used as a private key and the identity changes.",
     [("omemo/identity_key_pair.py", '''            is_seed = (await storage.load_primitive("/ikp/is_seed", bool)).from_just()
            key = (await storage.load_bytes("/ikp/key")).from_just()
''', '''            key = (await storage.load_bytes("/ikp/key")).from_just()
            is_seed = (await storage.load_primitive("/ikp/is_seed", bool)).maybe(False)
'''),
      ("omemo/identity_key_pair.py", '''            await storage.store("/ikp/is_seed", is_seed)
            await storage.store_bytes("/ikp/key", key)
''', '''            await storage.store_bytes("/ikp/key", key)
            await storage.store("/ikp/is_seed", is_seed)
''')],
     '''
async def main():
    s = MemStorage()
    s.fail = lambda op, key: op == "store" and key == "/ikp/is_seed"
    try:
        await IdentityKeyPair.get(s)
    except StorageException:
        pass
    s.fail = None
    ikp = await IdentityKeyPair.get(MemStorage(s.data))
    assert ikp.is_seed, "a generated seed was loaded as a private key"
''')

seed("s23-rotation-first-failure", "C23",
     "A failing bundle upload after the rotation of the signed pre key of one of several backends.",
     "After a failed upload the key is left unpublished until the next check instead of being retried.",
     [('''                            await async_sleep(retry_delay)
                            retry_delay *= 2  # Double the retry delay
''', '''                            if retry_delay > 60 * 30:
                                break
                            await async_sleep(retry_delay)
                            retry_delay *= 2  # Double the retry delay
''')],
     '''
import asyncio
import omemo.session_manager as m


async def main():
    w = World()
    real = asyncio.sleep
    delays = []

    async def sleep(seconds, *a):
        if seconds > 50:
            delays.append(seconds)
            if len(delays) > 40:
                await real(1000)
        await real(0)
    states = {}
    a, sa, ba = await w.account("a@x", states=states)
    states["A"]["age"] = 10 ** 9
    count = [0]

    def fail(op, *args):
        if op == "upload_bundle" and states["A"]["spk"] > 1:
            count[0] += 1
            if count[0] < 12:
                raise BundleUploadFailed()
    w.fail = fail
    m.asyncio.sleep = sleep
    b, sb, bb = await w.account("a@x", storage=sa, states=states)
    for _ in range(400):
        await real(0)
    m.asyncio.sleep = real
    pub = w.bundles[("A", "a@x", own_id(sa))]
    assert pub._t[4] == states["A"]["spk"], f"published signed pre key {pub._t[4]}, current {states['A']['spk']}"
''')

seed("s24-bundle-identity-only", "C24",
     "A published bundle that is outdated in something other than its identity key.",
     "Only the identity keys of the published and the local bundle are compared.",
     [('''                upload_bundle = remote_bundle != local_bundle
''', '''                upload_bundle = remote_bundle.identity_key != local_bundle.identity_key
''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x")
    ba[0].st["spk"] += 1
    await a.ensure_data_consistency()
    pub = w.bundles[("A", "a@x", own_id(sa))]
    assert pub._t[4] == ba[0].st["spk"], "the outdated bundle was not replaced"
''')

seed("s25-replace-store-first", "C25",
     "A message that can't be sent while replacing a session.",
     "The new session is stored before the message with its key exchange is sent, so a failed send leaves a session the peer never learns of.",
     [('''                    # Send the notification message
                    await self._send_message(Message(
                        backend.namespace,
                        self.__own_bare_jid,
                        self.__own_device_id,
                        content,
                        frozenset({ (encrypted_key_material, session.key_exchange) })
                    ), device.bare_jid)

                    # Store the replacement
                    await backend.store_session(session)
''', '''                    # Store the replacement
                    await backend.store_session(session)

                    # Send the notification message
                    await self._send_message(Message(
                        backend.namespace,
                        self.__own_bare_jid,
                        self.__own_device_id,
                        content,
                        frozenset({ (encrypted_key_material, session.key_exchange) })
                    ), device.bare_jid)
''')],
     PAIR + '''
async def main():
    w = World()
    a, sa, ba, b, sb, bb = await pair(w)
    await send(a, b)
    old = ba[0].st["sessions"][("b@x", own_id(sb))].uid

    def fail(op, *args):
        if op == "send":
            raise omemo.session_manager.MessageSendingFailed()
    w.fail = fail
    d = next(iter(await a.get_device_information("b@x")))
    r = await a.replace_sessions(d)
    assert list(r) == ["A"], r
    assert ba[0].st["sessions"][("b@x", own_id(sb))].uid == old, "replaced although the peer was not told"
''')

seed("s27-upload-failure-lost", "C27",
     "A device list upload that fails while an own device list update is processed.",
     "The failure to publish the own device is only logged, so the device silently stays unlisted.",
     [('''                str
            )).from_just()
            await self._upload_device_list(namespace, device_list)
''', '''                str
            )).from_just()
            try:
                await self._upload_device_list(namespace, device_list)
            except XMPPInteractionFailed:
                logging.getLogger(SessionManager.LOG_TAG).warning(
                    "Couldn't publish the updated device list.",
                    exc_info=True
                )
''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x")

    def fail(op, *args):
        if op == "upload_device_list":
            raise DeviceListUploadFailed()
    w.fail = fail
    try:
        await a.update_device_list("A", "a@x", {5: None})
    except DeviceListUploadFailed:
        return
    assert False, "the failed upload was not reported"
''')

seed("s29-undecided-forgets", "C29",
     "A trust level set back to the undecided level.",
     "Assigning the undecided level deletes the stored trust instead of storing it, which changes with the configured level of a later run.",
     [('''        await self.__storage.store(
            f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
            trust_level_name
        )
''', '''        trust_key = f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}"
        if trust_level_name == self.__undecided_trust_level_name:
            await self.__storage.delete(trust_key)
        else:
            await self.__storage.store(trust_key, trust_level_name)
''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x")
    await a.set_trust("b@x", b"k" * 32, "TRUSTED")
    await a.set_trust("b@x", b"k" * 32, "UNDECIDED")
    left = [sa.data[k] for k in sa.data if k.startswith("/trust/b@x/")]
    assert left == ["UNDECIDED"], left
''')

seed("s30-label-first-list", "C30",
     "Two backends whose published device lists differ.",
     "The device list of the first backend is downloaded once and published for every backend.",
     [('''        for backend in self.__backends:
            # Note: it is not required to download the device list here, since it should be cached locally.
            # However, one PEP node fetch per backend isn't super expensive and it's nice to avoid the code to
            # load the cached device list.
            device_list = await self._download_device_list(backend.namespace, self.__own_bare_jid)
            device_list[self.__own_device_id] = own_label
            await self._upload_device_list(backend.namespace, device_list)
''', '''        device_list: Dict[int, Optional[str]] = {}
        for backend in self.__backends:
            # Note: it is not required to download the device list here, since it should be cached locally.
            # However, one PEP node fetch per backend isn't super expensive and it's nice to avoid the code to
            # load the cached device list.
            device_list.update(await self._download_device_list(backend.namespace, self.__own_bare_jid))
            device_list[self.__own_device_id] = own_label
            await self._upload_device_list(backend.namespace, device_list)
''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x", ("A", "B"))
    w.lists[("A", "a@x")][4] = None
    await a.set_own_label("new")
    assert 4 not in w.lists[("B", "a@x")], "a device of another backend was added to the device list"
''')

seed("s31-namespace-without-bundle", "C31",
     "A device on two namespaces whose identity key isn't known yet, with a bundle for only one of them.",
     "A namespace for which the device has no bundle is dropped while looking for the identity key, so the reported namespaces are not the recorded ones.",
     [('''                    except BundleNotFound:
                        logging.getLogger(SessionManager.LOG_TAG).warning(
                            f"Bundle not available for device {device_id} of bare JID {bare_jid} for"
                            f" namespace {namespace}.",
                            exc_info=True
                        )
                    else:
                        logging''', '''                    except BundleNotFound:
                        logging.getLogger(SessionManager.LOG_TAG).warning(
                            f"Bundle not available for device {device_id} of bare JID {bare_jid} for"
                            f" namespace {namespace}.",
                            exc_info=True
                        )
                        namespaces = namespaces - { namespace }
                    else:
                        logging''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x", ("A", "B"))
    await a.update_device_list("A", "b@x", {7: None})
    await a.update_device_list("B", "b@x", {7: None})
    for ns in ("A", "B"):
        w.bundles.pop(("A", "b@x", 7), None)
        w.bundles.pop(("B", "b@x", 7), None)
        w.bundles[(ns, "b@x", 7)] = ToyBundle(ns, "b@x", 7, b"k" * 32, 1, 1)
        data = {k: v for k, v in sa.data.items() if k != "/devices/b@x/7/identity_key"}
        sm, _, _ = await w.account("a@x", ("A", "B"), MemStorage(data))
        d = next(iter(await sm.get_device_information("b@x")))
        assert d.namespaces == frozenset({"A", "B"}), d.namespaces
''')

seed("s17-queue-key-casefold", "C17",
     "A peer whose bare JID contains upper case letters, answered during history synchronization.",
     "The device ids of queued empty messages are stored under the casefolded JID but loaded under the JID, so they are never sent and never removed.",
     [('''                await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", list(queued_device_ids))
''', '''                queue_key = f"/queue/{session.namespace}/{session.bare_jid.casefold()}"
                await storage.store(queue_key, list(queued_device_ids))
''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("Alice@x")
    b, sb, bb = await w.account("b@x")
    await a.after_history_sync()
    await w.learn(a, "b@x")
    await w.learn(b, "Alice@x")
    msgs, errs = await a.encrypt(frozenset({"b@x"}), {"A": b"secret"})
    await b.decrypt(next(iter(msgs)))
    before = len(w.sent)
    await b.after_history_sync()
    assert len(w.sent) > before, "the queued empty message was not sent"
''')

seed("s20-own-id-early", "C20",
     "A first run that is interrupted by a storage failure between two specific writes.",
     "The own device id is stored before the identity key of the own device, so an interrupted first run can not be resumed: the own device is missing from its own record.",
     [('''            await storage.store_bytes(
                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/identity_key",
                self.__identity_key_pair.identity_key
            )

            # Initialize the local''', '''            # Initialize the local'''),
      ('''            # Generate the first 100 pre keys for each backend
            for backend''', '''            await storage.store_bytes(
                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/identity_key",
                self.__identity_key_pair.identity_key
            )

            # Generate the first 100 pre keys for each backend
            for backend''')],
     '''
async def main():
    for n in range(1, 40):
        w = World()
        s = MemStorage()
        states = {}
        count = [0]

        def fail(op, key):
            if op == "store":
                count[0] += 1
            return op == "store" and count[0] == n
        s.fail = fail
        try:
            await w.account("a@x", ("A",), s, states)
            return
        except StorageException:
            pass
        s.fail = None
        s2 = MemStorage(s.data)
        a, sa, ba = await w.account("a@x", ("A",), s2, states)
        me, others = await a.get_own_device_information()
        assert me.namespaces == frozenset({"A"})
        assert own_id(s2) in w.lists[("A", "a@x")]
''')

seed("s28-copy-of-foreign-lists", "C28",
     "A device list of the own account that doesn't name the own device, kept by the caller.",
     "Only the device lists of other accounts are copied; the own device is added to the caller's list.",
     [('''        # Copy to make sure the original is not modified
        device_list = dict(device_list)
''', '''        # Copy to make sure the original is not modified
        if bare_jid != self.__own_bare_jid:
            device_list = dict(device_list)
''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x")
    other = dict(w.lists[("A", "a@x")])
    mine = {77: "other"}
    await a.update_device_list("A", "a@x", mine)
    assert mine == {77: "other"}, f"the given device list was changed to {mine}"
''')
