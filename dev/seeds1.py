SEEDS = []


def seed(sid, pid, needs, breaks, edits, demo):
    SEEDS.append((sid, pid, needs, breaks, edits, demo))


seed("s01-trust-reload-scope", "C01",
     "Two recipient devices, one trusted, and a trust decision for the other during which the user also withdraws trust from the first.",
     "After the trust decision only the undecided devices' trust levels are loaded again, so a device distrusted during the decision still receives the message.",
     [('''            devices = { device._replace(trust_level_name=(await self.__storage.load_primitive(
                f"/trust/{device.bare_jid}/{base64.urlsafe_b64encode(device.identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)) for device in devices }
''', '''            devices = { device._replace(trust_level_name=(await self.__storage.load_primitive(
                f"/trust/{device.bare_jid}/{base64.urlsafe_b64encode(device.identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)) if device in undecided_devices else device for device in devices }
''')],
     '''
async def main():
    w = World()
    a, sa, _ = await w.account("a@x")
    b, sb, _ = await w.account("b@x")
    c, sc, _ = await w.account("c@x")
    await w.learn(a, "b@x")
    await w.learn(a, "c@x")
    info = {d.bare_jid: d for j in ("b@x", "c@x") for d in await a.get_device_information(j)}
    await a.set_trust("b@x", info["b@x"].identity_key, "TRUSTED")

    def decide(device):
        return "TRUSTED"
    w.decide = decide
    orig = a._make_trust_decision

    async def decision(undecided, identifier):
        await orig(undecided, identifier)
        await a.set_trust("b@x", info["b@x"].identity_key, "DISTRUSTED")
    a._make_trust_decision = decision
    try:
        msgs, errs = await a.encrypt(frozenset({"b@x", "c@x"}), {"A": b"secret"})
    except Exception as e:
        if type(e).__name__ == "NoEligibleDevices":
            return
        raise
    for m in msgs:
        assert not header(m, "b@x", own_id(sb)), "message encrypted for a distrusted device"
''')

seed("s02-undecided-levels", "C02",
     "A sender whose custom trust level evaluates to DISTRUSTED without being stored under the literal name, i.e. an application with several levels of distrust.",
     "decrypt compares the stored custom level name instead of evaluating it, so custom levels that evaluate to DISTRUSTED are decrypted.",
     [('''        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
''', '''        if device.trust_level_name == TrustLevel.DISTRUSTED.name:
''')],
     '''
async def main():
    w = World()
    a, sa, _ = await w.account("a@x")
    b, sb, bb = await w.account("b@x")
    await a.after_history_sync()
    await b.after_history_sync()
    await w.learn(a, "b@x")
    await w.learn(b, "a@x")
    msgs, _ = await a.encrypt(frozenset({"b@x"}), {"A": b"secret"})
    dev = next(iter(await b.get_device_information("a@x")))
    await b.set_trust("a@x", dev.identity_key, "BLOCKED")
    w.evaluate = lambda d: TrustLevel.DISTRUSTED if d.trust_level_name == "BLOCKED" else TrustLevel.TRUSTED
    try:
        await b.decrypt(next(iter(msgs)))
    except Exception as e:
        assert type(e).__name__ == "SenderDistrusted", repr(e)
    else:
        assert False, "message of a distrusted device was decrypted"
''')

seed("s03-key-check-only-new", "C03",
     "A key exchange with a substituted identity key for a device that already has a session.",
     "The identity key of a key exchange is only compared when there is no session yet, so an attacker's key exchange replaces an existing session.",
     [('''            if key_exchange.identity_key != device.identity_key:
                raise PublicDataInconsistency(
''', '''            if (
                await backend.load_session(device.bare_jid, device.device_id) is None
                and key_exchange.identity_key != device.identity_key
            ):
                raise PublicDataInconsistency(
''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x")
    b, sb, bb = await w.account("b@x")
    await a.after_history_sync()
    await b.after_history_sync()
    await w.learn(a, "b@x")
    await w.learn(b, "a@x")
    msgs, _ = await a.encrypt(frozenset({"b@x"}), {"A": b"one"})
    await b.decrypt(next(iter(msgs)))
    ba[0].st["sessions"].clear()
    ba[0].ik = b"\\x01" * 32     # somebody else answers with a different identity key
    msgs, _ = await a.encrypt(frozenset({"b@x"}), {"A": b"two"})
    try:
        await b.decrypt(next(iter(msgs)))
    except Exception as e:
        assert type(e).__name__ == "PublicDataInconsistency", repr(e)
    else:
        assert False, "a session was built with an unknown identity key"
''')

seed("s04-priority-inactive", "C04",
     "Two backends; the preferred one is inactive for the device (it vanished from that device list), the second one active.",
     "The priority order is applied before inactive namespaces are dropped, so a device reachable through the second backend is left out.",
     [('''            return device._replace(namespaces=frozenset(sorted((
                namespace
                for namespace
                in device.namespaces
                if dict(device.active)[namespace] and namespace in backend_priority_order
            ), key=backend_priority_order.index)[0:1]))
''', '''            return device._replace(namespaces=frozenset(
                namespace for namespace in sorted((
                    namespace
                    for namespace
                    in device.namespaces
                    if namespace in backend_priority_order
                ), key=backend_priority_order.index)[0:1]
                if dict(device.active)[namespace]
            ))
''')],
     '''
async def main():
    w = World()
    a, sa, _ = await w.account("a@x", ("A", "B"))
    b, sb, _ = await w.account("b@x", ("A", "B"))
    await w.learn(a, "b@x", ("A", "B"))
    await a.update_device_list("A", "b@x", {})
    msgs, errs = await a.encrypt(frozenset({"b@x"}), {"A": b"x", "B": b"x"})
    assert [m.namespace for m in msgs] == ["B"], [m.namespace for m in msgs]
''')

seed("s05-store-before-check", "C05",
     "Two recipients of which one has no usable device: NoEligibleDevices is raised.",
     "Sessions are stored as they are used, so a refused encryption has advanced and stored sessions although no message was handed out.",
     [('''                    # Keep track of the modified sessions to store them once encryption is fully done.
                    sessions.add((backend, session))
''', '''                    # Keep track of the modified sessions to store them once encryption is fully done.
                    if session.initiation is Initiation.ACTIVE:
                        sessions.add((backend, session))
                    else:
                        await backend.store_session(session)
''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x")
    b, sb, bb = await w.account("b@x")
    c, sc, bc = await w.account("c@x")
    for m in (a, b, c):
        await m.after_history_sync()
    await w.learn(b, "a@x")
    await w.learn(a, "b@x")
    await w.learn(a, "c@x")
    msgs, _ = await b.encrypt(frozenset({"a@x"}), {"A": b"hi"})
    await a.decrypt(next(iter(msgs)))          # a has a passive session with b now
    for d in await a.get_device_information("c@x"):
        await a.set_trust("c@x", d.identity_key, "DISTRUSTED")
    before = ba[0].st["sessions"][("b@x", own_id(sb))].sent
    try:
        await a.encrypt(frozenset({"b@x", "c@x"}), {"A": b"x"})
    except Exception as e:
        assert type(e).__name__ == "NoEligibleDevices", repr(e)
    after = ba[0].st["sessions"][("b@x", own_id(sb))].sent
    assert before == after, "a failed encryption stored an advanced session"
''')

seed("s06-failed-device-counts", "C06",
     "The only device of a recipient fails during key exchange, and the own account has another device.",
     "A device whose encryption failed still counts as eligible, so the call succeeds although a recipient can't read the message.",
     [('''                    devices.remove(device)
                    encryption_errors.add(EncryptionError(
''', '''                    if not isinstance(e, KeyExchangeFailed):
                        devices.remove(device)
                    encryption_errors.add(EncryptionError(
''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x")
    b, sb, bb = await w.account("b@x")
    await w.learn(a, "b@x")

    def fail(op, *args):
        if op == "build_session_active":
            raise KeyExchangeFailed("bad signature")
    ba[0].fail = fail
    try:
        msgs, errs = await a.encrypt(frozenset({"b@x"}), {"A": b"x"})
    except Exception as e:
        assert type(e).__name__ == "NoEligibleDevices", repr(e)
    else:
        assert False, "no error although no device of the recipient can read the message"
''')

seed("s07-kex-until-reply", "C07",
     "A passively built session that is not confirmed by its backend, or any session restored without confirmation.",
     "The key exchange is attached to every unconfirmed session, including passive ones, whose key exchange is the peer's own.",
     [('''                    keys.add((encrypted_key_material, (
                        session.key_exchange
                        if session.initiation is Initiation.ACTIVE and not session.confirmed
                        else None
                    )))
''', '''                    keys.add((encrypted_key_material, (
                        session.key_exchange
                        if not session.confirmed
                        else None
                    )))
''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x")
    b, sb, bb = await w.account("b@x")
    await a.after_history_sync()
    await b.after_history_sync()
    await w.learn(a, "b@x")
    await w.learn(b, "a@x")
    msgs, _ = await a.encrypt(frozenset({"b@x"}), {"A": b"x"})
    await b.decrypt(next(iter(msgs)))
    for s in bb[0].st["sessions"].values():
        s.conf = False
    msgs, _ = await b.encrypt(frozenset({"a@x"}), {"A": b"y"})
    (k, kex), = header(next(iter(msgs)), "a@x", own_id(sa))
    assert kex is None, "a key exchange of the peer was sent back"
''')

seed("s08-any-key-entry", "C08",
     "A message whose header lists another device with the same device id under a different JID first.",
     "The header entry is looked up by device id only, so the entry of another account's device is used.",
     [('''                lambda k: k[0].bare_jid == self.__own_bare_jid and k[0].device_id == self.__own_device_id,
''', '''                lambda k: k[0].device_id == self.__own_device_id,
''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x")
    b, sb, bb = await w.account("b@x")
    await a.after_history_sync()
    await b.after_history_sync()
    await w.learn(a, "b@x")
    msgs, _ = await a.encrypt(frozenset({"b@x"}), {"A": b"x"})
    m = next(iter(msgs))
    (k, kex), = header(m, "b@x", own_id(sb))
    other = ToyEKM("c@x", own_id(sb), k.pkm, 1)
    m = m._replace(keys=frozenset({(other, kex)}))
    try:
        await b.decrypt(m)
    except Exception as e:
        assert type(e).__name__ == "MessageNotForUs", repr(e)
    else:
        assert False, "a header entry for a different account was used"
''')

seed("s09-store-only-some", "C09",
     "An ordinary non-empty message without key exchange, followed by a restart of the application.",
     "The session is only persisted for key exchanges and empty messages; after other messages the ratchet step is lost on restart.",
     [('''        # Persist the session following successful decryption
        await backend.store_session(session)
''', '''        # Persist the session following successful decryption
        if message.content.empty or key_exchange is not None:
            await backend.store_session(session)
''')],
     '''
async def main():
    w = World()
    a, sa, ba = await w.account("a@x")
    b, sb, bb = await w.account("b@x")
    await a.after_history_sync()
    await b.after_history_sync()
    await w.learn(a, "b@x")
    await w.learn(b, "a@x")
    msgs, _ = await a.encrypt(frozenset({"b@x"}), {"A": b"x"})
    await b.decrypt(next(iter(msgs)))
    await a.decrypt(w.sent[-1][1])
    msgs, _ = await a.encrypt(frozenset({"b@x"}), {"A": b"y"})
    before = bb[0].st["sessions"][("a@x", own_id(sa))].recv
    pt, _, _ = await b.decrypt(next(iter(msgs)))
    assert pt == b"y"
    assert bb[0].st["sessions"][("a@x", own_id(sa))].recv == before + 1, "the session was not persisted"
''')
