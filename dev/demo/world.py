"""A toy OMEMO world: in-memory accounts, PEP nodes and backends without cryptography, to run the real package in."""

import asyncio
import copy
import os
import sys

sys.path.insert(0, os.getcwd())

import omemo
from omemo.backend import Backend, KeyExchangeFailed, DecryptionFailed
from omemo.bundle import Bundle
from omemo.identity_key_pair import IdentityKeyPair
from omemo.message import Content, EncryptedKeyMaterial, KeyExchange, Message, PlainKeyMaterial
from omemo.session import Initiation, Session
from omemo.session_manager import SessionManager
from omemo.storage import Storage, StorageException
from omemo.types import TrustLevel
from omemo.storage import Just, Nothing
from omemo.session_manager import BundleDownloadFailed, BundleNotFound, BundleUploadFailed, DeviceListUploadFailed


class MemStorage(Storage):
    def __init__(self, data=None, cache=True):
        super().__init__(not cache)
        self.data = data if data is not None else {}
        self.fail = None     # callable(op, key) -> bool
        self.log = []
        self.slow = None     # coroutine function awaited in _load

    async def _load(self, key):
        self.log.append(("load", key))
        if self.fail and self.fail("load", key):
            raise StorageException(key)
        v = Just(copy.deepcopy(self.data[key])) if key in self.data else Nothing()
        if self.slow:
            await self.slow(key)
        return v

    async def _store(self, key, value):
        if self.fail and self.fail("store", key):
            raise StorageException(key)
        self.log.append(("store", key))
        self.data[key] = copy.deepcopy(value)

    async def _delete(self, key):
        if self.fail and self.fail("delete", key):
            raise StorageException(key)
        self.log.append(("delete", key))
        self.data.pop(key, None)


class ToyContent(Content):
    def __init__(self, data):
        self.data = data

    @property
    def empty(self):
        return self.data is None


class ToyPKM(PlainKeyMaterial):
    pass


class ToyEKM(EncryptedKeyMaterial):
    def __init__(self, jid, did, pkm, n):
        self._j, self._d, self.pkm, self.n = jid, did, pkm, n

    bare_jid = property(lambda s: s._j)
    device_id = property(lambda s: s._d)


class ToyKEX(KeyExchange):
    def __init__(self, ik, uid):
        self._ik, self.uid = ik, uid

    identity_key = property(lambda s: s._ik)

    def builds_same_session(self, other):
        return self.uid == other.uid


class ToyBundle(Bundle):
    def __init__(self, ns, jid, did, ik, spk, pks):
        self._t = (ns, jid, did, ik, spk, pks)

    namespace = property(lambda s: s._t[0])
    bare_jid = property(lambda s: s._t[1])
    device_id = property(lambda s: s._t[2])
    identity_key = property(lambda s: s._t[3])
    pre_keys = property(lambda s: s._t[5])

    def __eq__(self, o):
        return isinstance(o, ToyBundle) and self._t == o._t

    def __hash__(self):
        return hash(self._t)


class ToySession(Session):
    def __init__(self, ns, jid, did, initiation, kex, uid):
        self.ns, self.jid, self.did, self.init, self.kex, self.uid = ns, jid, did, initiation, kex, uid
        self.conf, self.recv, self.sent = False, None, 0

    namespace = property(lambda s: s.ns)
    bare_jid = property(lambda s: s.jid)
    device_id = property(lambda s: s.did)
    initiation = property(lambda s: s.init)
    confirmed = property(lambda s: s.conf)
    key_exchange = property(lambda s: s.kex)
    receiving_chain_length = property(lambda s: s.recv)
    sending_chain_length = property(lambda s: s.sent)


class ToyBackend(Backend):
    """State is kept in ``state`` (the backend's own persistence); sessions are deep-copied on load and store."""

    def __init__(self, ns, state=None, ik=b"", own=("", 0), **kw):
        super().__init__(**kw)
        self.ns = ns
        self.st = state if state is not None else {"sessions": {}, "pks": 0, "hidden": 0, "spk": 1, "age": 0}
        self.ik, self.own = ik, own
        self.log = []
        self.fail = None     # callable(op, *args) raising to inject a failure

    def _op(self, op, *a):
        self.log.append((op,) + a)
        if self.fail:
            self.fail(op, *a)

    namespace = property(lambda s: s.ns)

    async def load_session(self, bare_jid, device_id):
        return copy.deepcopy(self.st["sessions"].get((bare_jid, device_id)))

    async def store_session(self, session):
        self._op("store_session", session.jid, session.did)
        self.st["sessions"][(session.jid, session.did)] = copy.deepcopy(session)

    async def build_session_active(self, bare_jid, device_id, bundle, plain_key_material):
        self._op("build_session_active", bare_jid, device_id, bundle.identity_key)
        ToyBackend.uid = getattr(ToyBackend, "uid", 0) + 1
        s = ToySession(self.ns, bare_jid, device_id, Initiation.ACTIVE, ToyKEX(self.ik, ToyBackend.uid), ToyBackend.uid)
        s.sent = 1
        return s, ToyEKM(bare_jid, device_id, plain_key_material, 1)

    async def build_session_passive(self, bare_jid, device_id, key_exchange, encrypted_key_material):
        self._op("build_session_passive", bare_jid, device_id, key_exchange.identity_key)
        s = ToySession(self.ns, bare_jid, device_id, Initiation.PASSIVE, key_exchange, key_exchange.uid)
        s.conf, s.recv = True, 1
        return s, encrypted_key_material.pkm

    async def encrypt_plaintext(self, plaintext):
        self._op("encrypt_plaintext", plaintext)
        return ToyContent(plaintext), ToyPKM()

    async def encrypt_empty(self):
        self._op("encrypt_empty")
        return ToyContent(None), ToyPKM()

    async def encrypt_key_material(self, session, plain_key_material):
        self._op("encrypt_key_material", session.jid, session.did)
        session.sent += 1
        return ToyEKM(session.jid, session.did, plain_key_material, session.sent)

    async def decrypt_plaintext(self, content, plain_key_material):
        self._op("decrypt_plaintext")
        return content.data

    async def decrypt_key_material(self, session, encrypted_key_material):
        self._op("decrypt_key_material", session.jid, session.did)
        session.recv = (session.recv or 0) + 1
        session.conf = True
        return encrypted_key_material.pkm

    async def signed_pre_key_age(self):
        self._op("signed_pre_key_age")
        return self.st["age"]

    async def rotate_signed_pre_key(self):
        self._op("rotate_signed_pre_key")
        self.st["spk"] += 1
        self.st["age"] = 0

    async def hide_pre_key(self, session):
        self._op("hide_pre_key", session.jid, session.did)
        self.st["pks"] -= 1
        self.st["hidden"] += 1
        return True

    async def delete_pre_key(self, session):
        self._op("delete_pre_key", session.jid, session.did)
        self.st["pks"] -= 1
        return True

    async def delete_hidden_pre_keys(self):
        self._op("delete_hidden_pre_keys")
        self.st["hidden"] = 0

    async def get_num_visible_pre_keys(self):
        return self.st["pks"]

    async def generate_pre_keys(self, num_pre_keys):
        self._op("generate_pre_keys", num_pre_keys)
        self.st["pks"] += num_pre_keys

    async def get_bundle(self, bare_jid, device_id):
        self._op("get_bundle", bare_jid, device_id)
        return ToyBundle(self.ns, bare_jid, device_id, self.ik, self.st["spk"], self.st["pks"])

    async def purge(self):
        self._op("purge")
        self.st.update({"sessions": {}, "pks": 0, "hidden": 0, "spk": 1, "age": 0})

    async def purge_bare_jid(self, bare_jid):
        self._op("purge_bare_jid", bare_jid)
        for k in [k for k in self.st["sessions"] if k[0] == bare_jid]:
            del self.st["sessions"][k]


class World:
    """The server: PEP nodes of all accounts, and everything that was sent."""

    def __init__(self):
        self.bundles, self.lists, self.sent, self.log = {}, {}, [], []
        self.decisions = []
        self.fail = None     # callable(op, *args) raising to inject a failure
        self.decide = None   # callable(device) -> level name, for the trust decision
        self.evaluate = None

    def op(self, op, *a):
        self.log.append((op,) + a)
        if self.fail:
            self.fail(op, *a)

    def manager(self, jid):
        w = self

        class Impl(SessionManager):
            @staticmethod
            async def _upload_bundle(bundle):
                w.op("upload_bundle", bundle.namespace, bundle)
                w.bundles[(bundle.namespace, bundle.bare_jid, bundle.device_id)] = bundle

            @staticmethod
            async def _download_bundle(namespace, bare_jid, device_id):
                w.op("download_bundle", namespace, bare_jid, device_id)
                try:
                    return w.bundles[(namespace, bare_jid, device_id)]
                except KeyError:
                    raise BundleNotFound()

            @staticmethod
            async def _delete_bundle(namespace, device_id):
                w.op("delete_bundle", namespace, device_id)
                w.bundles.pop((namespace, jid, device_id), None)

            @staticmethod
            async def _upload_device_list(namespace, device_list):
                w.op("upload_device_list", namespace, dict(device_list))
                w.lists[(namespace, jid)] = dict(device_list)

            @staticmethod
            async def _download_device_list(namespace, bare_jid):
                w.op("download_device_list", namespace, bare_jid)
                return dict(w.lists.get((namespace, bare_jid), {}))

            async def _evaluate_custom_trust_level(self, device):
                if w.evaluate:
                    return w.evaluate(device)
                return TrustLevel[device.trust_level_name]

            async def _make_trust_decision(self, undecided, identifier):
                w.decisions.append(undecided)
                for d in undecided:
                    level = w.decide(d) if w.decide else "TRUSTED"
                    if level is not None:
                        await self.set_trust(d.bare_jid, d.identity_key, level)

            @staticmethod
            async def _send_message(message, bare_jid):
                w.op("send", bare_jid, message)
                w.sent.append((bare_jid, message))

        return Impl

    async def account(self, jid, nss=("A",), storage=None, states=None, label=None, **kw):
        """(manager, storage, backends): an initialized device."""

        storage = storage if storage is not None else MemStorage()
        states = states if states is not None else {}
        backends = [ToyBackend(ns, states.setdefault(ns, {"sessions": {}, "pks": 0, "hidden": 0, "spk": 1, "age": 0}))
                    for ns in nss]
        ikp = await IdentityKeyPair.get(storage)
        for b in backends:
            b.ik = ikp.identity_key
        sm = await self.manager(jid).create(backends, storage, jid, label, "UNDECIDED", **kw)
        return sm, storage, backends

    async def learn(self, sm, jid, nss=("A",)):
        for ns in nss:
            await sm.refresh_device_list(ns, jid)


def own_id(storage):
    return storage.data["/own_device_id"]


def header(message, jid, did):
    return [(k, x) for k, x in message.keys if k.bare_jid == jid and k.device_id == did]


def run(coro):
    async def main():
        await asyncio.wait_for(coro, 60)
    try:
        asyncio.run(main())
    except AssertionError as e:
        print("DEMO FAILED:", e)
        sys.exit(1)
    print("ok")
