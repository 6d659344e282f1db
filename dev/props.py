"""Source of properties.jsonl and MANIFEST.json: `python3 dev/props.py` rewrites both."""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

SM = "omemo/session_manager.py"
P = []
NA = {}


def prop(pid, title, statement, over, quant, why, files, mech, state=(), observe=(), technique="", note="", na=None):
    assert len(title) <= 80, (pid, len(title))
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
        "anchors": {"files": list(files),
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": None},
    })
    if na:
        NA[pid] = na
    else:
        CHECKS[pid] = (technique, note)


CHECKS = {}
TESTS = ("The two stable tests migrate one stored account with mocked hooks; ")
PATHS = "path- and effect-sensitive dataflow analysis (abstract interpretation of the syntax tree, provenance terms)"

prop("C01", "Encryption only ever targets explicitly trusted devices",
     "No key material is encrypted for, and no session is built with, a device unless the trust level stored for that device's identity key evaluates to TRUSTED. "
     "If any device that would be used is UNDECIDED, the trust decision hook is called exactly once with exactly those devices, afterwards every trust level is loaded from the storage again, and the call is refused (StillUndecided) if anything is still undecided. "
     "Devices evaluated as DISTRUSTED are left out silently.",
     ["inputs", "histories"], "every recipient set, every stored device state and every trust evaluation, on every path of encrypt",
     TESTS + "encrypt is never called with undecided or distrusted devices, and no sample covers every mix of trust states.",
     [SM], [("encrypt: trust filter and trust decision", SM + ":encrypt"), ("trust level in the device information", SM + ":get_device_information")],
     [("/trust/{jid}/{key}", "custom trust level assigned to an identity key", "storage")],
     ["_evaluate_custom_trust_level", "_make_trust_decision", "Backend.encrypt_key_material", "Backend.build_session_active"],
     PATHS + ": every key-material use must be guarded by the trust verdict of the same device", "")

prop("C02", "Messages from distrusted devices are never decrypted",
     "Nothing of a message is decrypted, stored, acknowledged or answered unless the trust level stored for the sending device's identity key evaluates to something other than DISTRUSTED. "
     "A message of a device evaluated as DISTRUSTED is rejected with SenderDistrusted, and SenderDistrusted is raised in no other case.",
     ["inputs", "histories"], "every message and stored state, on every path of decrypt",
     TESTS + "no test decrypts a message from a distrusted sender, let alone in all combinations with unknown senders and key exchanges.",
     [SM], [("decrypt: trust check of the sender", SM + ":decrypt")], [], ["_evaluate_custom_trust_level", "Backend.decrypt_key_material", "Backend.build_session_passive", "Backend.decrypt_plaintext"],
     PATHS + ": every decrypting, storing or sending effect must be dominated by the sender's trust verdict", "")

prop("C03", "A session is only built with the identity key the trust decision was about",
     "A session is built with a device, actively or passively, only if the identity key in the bundle or key exchange equals the identity key recorded for the device, which is the key that trust is assigned to. "
     "A mismatch is rejected: as PublicDataInconsistency when decrypting, as a KeyExchangeFailed when a bundle is used. "
     "The first identity key seen for a device is recorded before it is used, and a recorded identity key is never replaced.",
     ["inputs", "histories"], "every bundle and key exchange content, for encrypt, decrypt, replace_sessions and device information",
     TESTS + "bundles and key exchanges always match in the tests; an attacker's substituted key is not sampled.",
     [SM], [("decrypt: identity key comparison before a passive session", SM + ":decrypt"), ("encrypt / replace_sessions: bundle identity key comparison", SM + ":encrypt"), ("identity key recording", SM + ":get_device_information")],
     [("/devices/{jid}/{id}/identity_key", "identity key recorded for a device", "storage")], ["Backend.build_session_active", "Backend.build_session_passive", "Storage.store_bytes"],
     PATHS + ": session-building calls must be guarded by the key comparison", "")

prop("C04", "Messages go to every eligible device through the preferred backend",
     "encrypt considers every listed device of every recipient and of the own account except the own device; a device is used with exactly one backend: the first one in the given priority order (or, without one, in loading order) that the device supports, has active, and that appears in the order. "
     "A priority order naming a backend that is not loaded is rejected with UnknownNamespace before anything happens. "
     "A trusted device with such a backend is never left out, and a device without one is never used.",
     ["inputs", "configurations"], "every recipient set, device state, set of loaded backends and priority order",
     TESTS + "one backend order and a handful of devices are sampled.",
     [SM], [("encrypt: device collection, filter and priority order", SM + ":encrypt")], [], ["Backend.encrypt_key_material", "Backend.build_session_active"],
     PATHS + ": the collection of target devices is compared with the specified set; loops are analysed for a symbolic element", "")

prop("C05", "encrypt persists every advanced session before handing out messages",
     "When encrypt returns, every session used or built for the returned messages has been stored with its backend, and no session that was not used. "
     "When encrypt fails, including with NoEligibleDevices, no session was stored.",
     ["inputs", "fault_sequences"], "every path through encrypt, including failing devices and raised exceptions",
     TESTS + "a lost ratchet step only shows after a restart and on particular failure paths.",
     [SM], [("encrypt: session collection and storing", SM + ":encrypt")], [], ["Backend.store_session"],
     PATHS + ": each session-advancing call must be matched by a store on every returning path, and none before a raise", "")

prop("C06", "Failures of single devices don't prevent encryption for the others",
     "If the bundle of a device can't be downloaded or is missing, or the key exchange with it fails, encrypt continues with the other devices, leaves the failed device out of the message and reports it with its backend, JID, device id and cause in the returned errors; nothing else is reported. "
     "encrypt raises NoEligibleDevices exactly when a recipient other than the own account has no device left that key material was encrypted for, and reports exactly those recipients. "
     "Other failures are not swallowed.",
     ["inputs", "fault_sequences"], "every set of failing devices and every failure kind",
     TESTS + "no test injects bundle failures for arbitrary subsets of devices.",
     [SM], [("encrypt: error collection, eligible device check", SM + ":encrypt")], [], ["_download_bundle", "Backend.build_session_active"],
     PATHS + ": failure branches of each hook call are analysed against the handler that catches them", "")

prop("C07", "Every message sent is well-formed and consistent with its session",
     "Each message carries the namespace of the backend that encrypted it, the own bare JID and device id, the content encrypted with the same plain key material as its keys, and a single header entry per recipient device. "
     "A header entry carries the session's key exchange information if and only if the session was built actively and is not confirmed yet. "
     "The plaintext used is the one given for the backend's namespace; automatically sent messages (handshake completion, staleness, session replacement) are empty messages sent to the JID of the session's device.",
     ["inputs", "histories"], "every message built by encrypt, decrypt, replace_sessions and after_history_sync",
     TESTS + "the header composition is not asserted for any state of a session.",
     [SM], [("message construction", SM + ":encrypt"), ("empty messages", SM + ":after_history_sync")], [], ["_send_message", "encrypt's return value"],
     PATHS + ": provenance of every field of every constructed message", "")

prop("C08", "Incoming messages are attributed to the right backend, device and session",
     "A message is decrypted by the backend of its namespace, using the header entry for the own JID and device id, with the session of the sending JID and device; without a key exchange an existing session is required (NoSession), with one an existing passively built session is continued if the key exchange builds the same session and is replaced otherwise. "
     "Unknown namespaces and messages not for this device are rejected before anything else happens; an unknown sender triggers one device list refresh before SenderNotFound. "
     "The returned plaintext is None exactly for empty messages and the returned device is the sender.",
     ["inputs", "histories"], "every message and stored state, on every path of decrypt",
     TESTS + "decrypt is sampled with well-formed messages from known devices only.",
     [SM], [("decrypt", SM + ":decrypt")], [], ["Backend.build_session_passive", "Backend.decrypt_key_material", "Backend.decrypt_plaintext"],
     PATHS + ": guards and provenance of each decrypting call and of the returned triple", "")

prop("C09", "A failed decryption leaves no trace; a successful one is persisted",
     "decrypt stores the session only after both the key material and, for non-empty messages, the content were decrypted successfully, exactly once, and before pre keys are removed and before anything is returned. "
     "If decryption fails for any reason, neither sessions nor pre keys are changed and nothing is sent or queued.",
     ["inputs", "fault_sequences"], "every failure point inside decrypt and every message",
     TESTS + "no test makes the backend fail between the steps of decrypt.",
     [SM], [("decrypt: order of store_session", SM + ":decrypt")], [], ["Backend.store_session", "Backend.decrypt_plaintext"],
     PATHS + ": order of effects on every path", "")

prop("C10", "Used pre keys are withdrawn, refilled and the bundle republished",
     "Whenever a message with a key exchange was decrypted, the pre key of the session is deleted, or only hidden while a history synchronization is in progress. "
     "If that changed the bundle, pre keys are generated up to exactly 100 if and only if the number of visible ones is at most the configured threshold, and then the current bundle of that backend for the own device is uploaded. "
     "Messages without a key exchange never touch pre keys.",
     ["inputs", "histories", "configurations"], "every message, threshold and synchronization state",
     TESTS + "the refill threshold boundary and the synchronization mode are not exercised.",
     [SM], [("decrypt: pre key handling", SM + ":decrypt")], [], ["Backend.hide_pre_key", "Backend.delete_pre_key", "Backend.generate_pre_keys", "_upload_bundle"],
     PATHS + ": effects required on each path, with linear arithmetic for the refill", "")

prop("C11", "Handshakes are completed and stale sessions are answered",
     "After decrypting a message with a key exchange, or one after which the session's receiving chain is longer than 53, an empty message for that session is sent to the sender's device and the session stored again, or queued (for exactly that device, keeping all queued entries) while a history synchronization is in progress. "
     "In all other cases nothing is sent or queued.",
     ["inputs", "histories"], "every message, chain length and synchronization state",
     TESTS + "no test decrypts more than a few messages in a row or in history synchronization mode.",
     [SM], [("decrypt: empty message", SM + ":decrypt")], [("/queue/{ns}/{jid}", "device ids an empty message is queued for", "storage")], ["_send_message", "Storage.store"],
     PATHS + ": condition under which an empty message is sent or queued, on every path", "")

prop("C12", "Leaving history synchronization drops hidden pre keys and sends what was queued",
     "after_history_sync leaves the synchronization mode first, then deletes the hidden pre keys of every loaded backend, and then, for every backend and every device queued for it that still has a session, sends one empty message encrypted with that session and stores the session afterwards. "
     "The queues are deleted and nothing that was not queued is answered. "
     "before_history_sync only enters the mode, and no other operation changes it; a new session manager starts in synchronization mode.",
     ["inputs", "histories"], "every queue content and set of loaded backends",
     TESTS + "after_history_sync is called with empty queues only.",
     [SM], [("after_history_sync", SM + ":after_history_sync"), ("before_history_sync", SM + ":before_history_sync")], [("/queue/{ns}", "bare JIDs with queued empty messages", "storage")], ["Backend.delete_hidden_pre_keys", "_send_message"],
     PATHS + ": nested loops over queues analysed for symbolic elements, coverage proved for every queued device", "")

prop("C13", "Device list updates are recorded completely and without losing devices",
     "A device list update for a loaded backend marks exactly the listed devices active for that namespace and every other known device supporting it inactive, leaves all other namespaces' states and all identity keys and trust untouched, adds the namespace to listed devices, and records announced labels (a missing label never replaces a known one). "
     "Devices are never removed from the recorded list; new ones are added after their information has been stored. "
     "If the own device is missing from an own list, the list is republished with the own device and its label added; an update for an unknown namespace is rejected with UnknownNamespace without effect.",
     ["inputs", "histories"], "every device list, stored state, namespace and bare JID",
     TESTS + "lists with missing, new and reappearing devices across namespaces are not sampled.",
     [SM], [("update_device_list", SM + ":update_device_list")], [("/devices/{jid}/list", "known device ids", "storage"), ("/devices/{jid}/{id}/active", "activity by namespace", "storage")], ["Storage.store", "_upload_device_list"],
     PATHS + ": stored values and their guards compared with the specified update, for a symbolic device", "")

prop("C14", "The storage cache never disagrees with the storage",
     "While caching is enabled, a load returns what the last completed store or delete of that key left in the underlying storage, even if stores happen while a load is waiting for the storage: a successful store caches exactly the stored value, a successful delete caches its absence, a load never replaces a newer cache entry, and a failed store or delete changes no cache entry. "
     "With caching disabled nothing is ever cached.",
     ["schedules", "histories", "fault_sequences"], "every sequence and overlap of loads, stores and deletes, with failures of the underlying storage",
     TESTS + "the storage in the tests never fails and never suspends, so overlaps don't occur.",
     ["omemo/storage.py"], [("Storage.load / store / delete", "omemo/storage.py")], [("cache", "last known value by key", "omemo/storage.py:Storage")], ["Storage._load", "Storage._store", "Storage._delete"],
     PATHS + ": cache writes of load/store/delete classified per path and against suspension points", "")

prop("C15", "Loaded values are isolated copies",
     "Everything handed out by a loaded Maybe value (from_just, maybe, fmap) and everything put into one is a deep copy: mutating a value that was stored or loaded never changes the cache, the storage or what another caller loaded. "
     "A missing value raises NothingException from from_just, yields (a copy of) the given default from maybe, and stays missing under fmap.",
     ["inputs", "histories"], "every stored value and every later mutation by a caller",
     TESTS + "no test mutates a loaded list or dictionary and loads it again.",
     ["omemo/storage.py"], [("Just / Nothing", "omemo/storage.py")], [], ["Maybe.from_just", "Maybe.maybe", "Maybe.fmap"],
     PATHS + ": copy-provenance of every value crossing the Maybe boundary", "")

prop("C16", "Typed loads reject values of the wrong type and bytes round-trip",
     "Each typed load returns a stored value only if it has the requested shape (a primitive of the requested type, optionally None, a list or a string-keyed dictionary of such primitives) and raises TypeError otherwise; a missing value is reported as missing by all of them. "
     "store_bytes and load_bytes are inverse to each other for every byte string.",
     ["inputs"], "every stored JSON value and every byte string",
     TESTS + "wrongly typed stored values are never loaded.",
     ["omemo/storage.py"], [("load_primitive / load_optional / load_list / load_dict / load_bytes", "omemo/storage.py")], [], ["Storage.load_*"],
     PATHS + ": the type test guarding every returned value, and the codec pair of the bytes functions", "")

prop("C17", "Every operation agrees on where and as what information is stored",
     "All reads, writes and deletes of persistent information use the same key layout and the same value type for the same piece of information, and trust is looked up and assigned under the same encoding of the same identity key everywhere. "
     "Assigning trust stores exactly the given level for exactly the given JID and identity key.",
     ["inputs", "histories"], "every storage access site in the package",
     TESTS + "a write/read disagreement on a rarely used key is not exercised.",
     [SM, "omemo/identity_key_pair.py"], [("storage keys", SM), ("set_trust", SM + ":set_trust")], [], ["Storage.load*", "Storage.store*", "Storage.delete"],
     PATHS + ": schema inference over every storage access site reachable from the public API", "")

prop("C18", "Purging a bare JID removes everything stored about it",
     "After purge_bare_jid, no device information, identity keys, device list, assigned trust or queued empty messages of that JID are left in the storage, every loaded backend was told to purge it, and nothing of any other JID was changed.",
     ["inputs", "histories"], "every stored state and bare JID",
     TESTS + "purge_bare_jid is not called by the tests.",
     [SM], [("purge_bare_jid", SM + ":purge_bare_jid")], [], ["Storage.delete", "Backend.purge_bare_jid"],
     PATHS + ": deleted keys compared with the inferred key layout, for a symbolic device", "")

prop("C19", "Purging a backend removes the own device's traces of it",
     "purge_backend removes the own device from the published device list of the namespace if it is on it (keeping all other devices and labels), removes the namespace from the own device's recorded namespaces and activity, unloads and purges the backend if it is loaded, and finally deletes the own published bundle. "
     "Other namespaces, other devices and other loaded backends are not touched.",
     ["inputs", "configurations"], "every namespace, loaded or not, and every published device list",
     TESTS + "purge_backend only runs for one migration scenario.",
     [SM], [("purge_backend", SM + ":purge_backend")], [], ["_upload_device_list", "_delete_bundle", "Backend.purge", "Storage.store"],
     PATHS + ": effects required and allowed on each path", "")

prop("C20", "Initialization is resumable and publishes bundles before device lists",
     "create finishes or repeats an initialization that was interrupted at any point: the own device id is stored only after all information about the own device was stored, and everything that publishes is repeated until the own namespaces are recorded as the last step. "
     "For every backend the own bundle is uploaded before the device list names the own device for it, after its pre keys, if there are at most as many as the configured threshold, were filled up to exactly 100. "
     "Backends that are not loaded any more are purged, and the recorded namespaces of the own device equal those of the loaded backends when create returns.",
     ["crash_points", "configurations", "histories"], "every interruption point and every previously stored set of namespaces",
     TESTS + "no test interrupts create.",
     [SM], [("create", SM + ":create")], [("/own_device_id", "marks an initialized account", "storage")], ["Storage.store", "_upload_bundle", "_upload_device_list"],
     PATHS + ": happens-before of storage writes and uploads on each path", "")

prop("C21", "Device ids are valid and unique, and create validates its arguments",
     "A newly generated own device id lies between 1 and 2**31-1 and differs from every device id published for the own account under any loaded backend; a stored own device id is always reused. "
     "Two backends with the same namespace, or a refill threshold outside of 25 to 99, are rejected with ValueError before anything is loaded, stored or published.",
     ["inputs", "configurations"], "every published device list, random draw and argument combination",
     TESTS + "collisions of random device ids practically never occur in a test.",
     [SM], [("create: device id generation and argument checks", SM + ":create")], [], ["Storage.store", "_download_device_list"],
     PATHS + ": interval and disequality facts at the point where the id is stored", "")

prop("C22", "The identity key pair is generated once and never lost or leaked",
     "An identity key pair is generated only if none is stored, is stored in full before it is first used, and a stored one is always loaded with the kind (seed or private key) it was stored with and never overwritten. "
     "Seed and private key never appear in log output, exceptions or object representations.",
     ["histories", "crash_points"], "every stored state and every interruption between the writes",
     TESTS + "the tests load one stored key pair.",
     ["omemo/identity_key_pair.py"], [("IdentityKeyPair.get", "omemo/identity_key_pair.py")], [("/ikp/key, /ikp/is_seed", "the identity key pair", "storage")], ["Storage.store_bytes", "IdentityKeyPair.get"],
     PATHS + ": order of stores, guards of generation, and taint of the secret to log sinks", "")

prop("C23", "Signed pre keys are rotated on time for every backend and published",
     "The rotation task started by create checks every loaded backend forever, rotates a signed pre key as soon as a check finds it older than the configured period, and afterwards uploads that backend's current bundle, retrying failed uploads with growing delays of at most an hour until one succeeds. "
     "The next check is due when the first signed pre key expires, at most a period later (plus a minute).",
     ["schedules", "fault_sequences", "configurations"], "every sequence of key ages and upload failures",
     TESTS + "the rotation period never elapses during a test.",
     [SM], [("signed pre key rotation", SM + ":create")], [], ["Backend.rotate_signed_pre_key", "_upload_bundle", "sleep"],
     PATHS + ": loop-carried delay expressions with interval bounds, effects required after a rotation", "")

prop("C24", "ensure_data_consistency repairs the published data of every backend",
     "For every loaded backend, ensure_data_consistency refreshes the own device list and compares the published bundle of the own device with the current local one, and uploads the local one if they differ or the published one can't be downloaded. "
     "It uploads no bundle that is already published.",
     ["inputs", "configurations"], "every published state and set of backends",
     TESTS + "missing or outdated bundles are not sampled.",
     [SM], [("ensure_data_consistency", SM + ":ensure_data_consistency")], [], ["_download_bundle", "_upload_bundle"],
     PATHS + ": effects required and allowed per loop path", "")

prop("C25", "Session replacement only takes effect if the peer was told",
     "replace_sessions attempts to replace the session of exactly those loaded backends that the device supports and has a session with, with a freshly downloaded bundle, and stores a new session only after the message with its key exchange was sent. "
     "The failure of one backend is reported under its namespace and doesn't stop the others; nothing else is reported.",
     ["inputs", "fault_sequences"], "every device, set of backends and failing step",
     TESTS + "replace_sessions is not called by the tests.",
     [SM], [("replace_sessions", SM + ":replace_sessions")], [], ["Backend.build_session_active", "_send_message", "Backend.store_session"],
     PATHS + ": order and failure branches of the replacement steps", "")

prop("C26", "Skipped message key limits are validated and exposed unchanged",
     "A backend accepts every combination of limits with a non-negative per-session limit and a per-message limit between 0 (or, if skipped keys are kept at all, 1) and the per-session limit, rejects every other with ValueError, defaults the per-message limit to the per-session limit, and exposes both unchanged.",
     ["inputs"], "every pair of limits",
     TESTS + "backends are only constructed with default limits.",
     ["omemo/backend.py"], [("Backend.__init__", "omemo/backend.py")], [], ["Backend.max_num_per_session_skipped_keys", "Backend.max_num_per_message_skipped_keys"],
     PATHS + ": the rejection condition is proved equivalent to the specified one by linear arithmetic", "")

prop("C27", "Failures are reported, not swallowed",
     "The public operations deal only with those failures themselves that they are documented to tolerate: missing or undownloadable bundles (device information, encryption, consistency checks), failed key exchanges (encryption), every OMEMO failure of a session replacement (returned), and failed bundle uploads after a rotation (retried). "
     "Storage failures and failures of any other hook or backend call reach the caller unchanged, and the exceptions operations raise themselves are the documented ones.",
     ["fault_sequences"], "every failing storage, backend and hook call at every call site",
     TESTS + "failures of hooks are not injected.",
     ["omemo"], [("exception handlers", SM)], [], ["exceptions leaving the public API"],
     PATHS + ": for every effect site and failure class, the handlers reached", "")

prop("C38", "Every reported failure can be caught and told apart as documented",
     "Whatever fails, an application that handles OMEMOException sees it: every exception class that operations raise themselves, and every one documented for hooks, backends and storages, derives from it through SessionManagerException, BackendException or StorageException, and those of the XMPP hooks through XMPPInteractionFailed. "
     "Failures of one operation that have different documented meanings are not subclasses of each other, and the package exports all of these classes.",
     ["fault_sequences"], "every exception that leaves any operation on any path",
     TESTS + "no test catches exceptions by their parents.",
     ["omemo"], [("exception classes", SM), ("exception classes", "omemo/backend.py")], [], ["exceptions leaving the public API"],
     "Class hierarchy analysis over the exceptions found on all paths (path enumeration by abstract interpretation)", "")

prop("C28", "Caller-owned arguments are never modified",
     "No public operation modifies a collection passed to it by the caller: device lists, recipient sets, plaintexts, priority orders and backend lists are left as they were.",
     ["inputs"], "every public operation and every collection argument",
     TESTS + "the tests don't compare arguments before and after calls.",
     [SM], [("copies of arguments", SM)], [], ["arguments after a call"],
     PATHS + ": mutation effects whose receiver originates in a parameter", "")

prop("C29", "Nothing stored is deleted except by explicit purges and queue handling",
     "Persistent device information, trust, identity keys and the own device id are only deleted by the operations documented to purge them; all other operations only add to or update them. "
     "The own device id is written once and never changed.",
     ["histories"], "every operation of the public API",
     TESTS + "data loss after long histories is not sampled.",
     [SM, "omemo/identity_key_pair.py"], [("deletes", SM)], [], ["Storage.delete"],
     PATHS + ": deletion sites reachable from every public operation", "")

prop("C30", "Changing the own label updates exactly the own entry everywhere",
     "set_own_label stores the label of the own device and publishes, for every loaded backend, the device list downloaded for that backend with only the own device's label changed.",
     ["inputs", "configurations"], "every label, published device list and set of loaded backends",
     TESTS + "set_own_label is not called by the tests.",
     [SM], [("set_own_label", SM + ":set_own_label")], [], ["_upload_device_list", "Storage.store"],
     PATHS + ": provenance of stored and uploaded values", "")

prop("C31", "Device information reports exactly what is recorded",
     "get_device_information returns one entry for every device recorded for the JID whose identity key is known or can be obtained from a bundle, and no other; each entry carries the recorded namespaces that have activity information, the recorded activity, label, identity key and the trust level stored for that key, or the configured undecided level if none is stored. "
     "Namespaces without activity information are removed from the record; get_own_device_information separates the own device from all other own devices.",
     ["inputs", "histories"], "every stored state and bare JID",
     TESTS + "only a consistent stored state with one or two devices is read.",
     [SM], [("get_device_information", SM + ":get_device_information")], [], ["get_device_information", "get_own_device_information"],
     PATHS + ": provenance of every field and completeness over the recorded device list", "")

prop("C32", "Read-only queries don't change anything",
     "get_sending_chain_length and format_identity_key change nothing: they perform no store, delete, upload or send. "
     "get_sending_chain_length reports, for exactly the loaded backends the device supports, the sending chain length of the stored session or None without one.",
     ["inputs", "configurations"], "every device and set of loaded backends",
     TESTS + "neither query is called by the tests.",
     [SM], [("get_sending_chain_length", SM + ":get_sending_chain_length"), ("format_identity_key", SM + ":format_identity_key")], [], ["get_sending_chain_length"],
     PATHS + ": effect analysis and provenance of the returned mapping", "")

prop("C36", "Refreshed device lists are downloaded and recorded for every backend",
     "refresh_device_list downloads the device list of the given namespace and bare JID and records what was downloaded exactly like an incoming update of that list. "
     "refresh_device_lists does so for every loaded backend, and nothing else.",
     ["inputs", "histories", "configurations"], "every stored state, downloaded list, JID and set of loaded backends",
     TESTS + "device lists are never refreshed by the tests, apart from the first start.",
     [SM], [("refresh_device_list", SM + ":refresh_device_list"), ("refresh_device_lists", SM + ":refresh_device_lists")], [], ["refresh_device_list", "refresh_device_lists"],
     PATHS + ": provenance of the recorded list, obligations of an update for it", "")

prop("C37", "Fingerprints show the complete identity key in its Curve25519 form",
     "format_identity_key returns the lowercase hexadecimal form of the Curve25519 form of the identity key as eight groups of eight characters each, in order and without leaving any character out.",
     ["inputs"], "every identity key",
     TESTS + "fingerprints aren't covered by the tests.",
     [SM], [("format_identity_key", SM + ":format_identity_key")], [], ["format_identity_key"],
     "provenance of the returned value and constant folding of the bounds of its groups", "")

prop("C33", "Encryption and decryption round-trip between two devices",
     "A message encrypted for a device and delivered to it decrypts to the original plaintext, in any order of delivery and across restarts.",
     ["inputs", "schedules", "histories"], "every message exchange between any number of devices",
     TESTS + "message exchanges are endless in variety.",
     [SM], [("encrypt / decrypt", SM)], [], ["decrypt's return value"],
     na="The cryptographic round-trip is decided by the ratchet and cipher code in the backend packages (python-twomemo, python-oldmemo, python-doubleratchet), outside of this repository; no static argument about this repository's source establishes it. The parts this package contributes (routing, headers, persistence) are C07 to C11.")

prop("C34", "Overlapping API calls behave as if executed one after another",
     "Concurrent calls of the public operations of one session manager have the same effect as some sequential order of them.",
     ["schedules"], "every interleaving of two or more public coroutines",
     TESTS + "tests await one call at a time.",
     [SM], [("public coroutines", SM)], [], ["storage contents"],
     na="The package takes no locks and documents no atomicity across await points: read-modify-write sequences on stored values (device lists, queues) can interleave, so the property does not hold as stated and the documentation doesn't promise it; the cache part that must hold under overlap is C14.")

prop("C35", "Signed pre keys are never older than the rotation period allows",
     "At any wall-clock time the published signed pre key of every backend is younger than the rotation period plus a bounded delay.",
     ["schedules"], "every schedule and suspend/resume of the host",
     TESTS + "needs weeks of wall-clock time.",
     [SM], [("signed pre key rotation", SM)], [], ["signed pre key age"],
     na="Depends on timer scheduling, on the duration of uploads and on the process being run at all, which are runtime quantities without a static bound; what the source determines (when the next check is scheduled, retries) is C23.")

LEVEL_NOTE = (
    "Path-complete static analysis of the current source of the entry points (helpers inlined, loops for a symbolic element): each rule is decided on "
    "every path and call site, the obligations are listed in the evidence. Assumes backends, storages and hooks honour their documented contracts and, except where stated, that public coroutines "
    "of one session manager don't overlap. Constructs outside the modelled language make an obligation 'undecided' (reported, nothing claimed). Not a machine-checked proof: the analyser itself is trusted.")


def main():
    from rules import REGISTRY
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    na = dict(NA)
    for p in P:
        if p["id"] not in REGISTRY and p["id"] not in na:
            na[p["id"]] = "Decidable by the same analysis, but its rule set is not built yet; nothing is claimed."
    m = {
        "version": 1,
        "setup_cmd": "true",
        "checks": [{
            "property": k, "quick_cmd": f"python3 check.py {k}", "thorough_cmd": f"python3 check.py {k}",
            "technique": "static analysis: " + CHECKS[k][0], "level": "other",
            "level_note": (CHECKS[k][1] + " " + LEVEL_NOTE).strip(),
        } for k in sorted(REGISTRY)],
        "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
        "notes": "All checks are static: they parse /repo's current working tree and never run it. No hooks in /repo are needed.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

    design(REGISTRY)


def design(registry):
    rows = []
    for p in P:
        if p["id"] in registry:
            doc = " ".join((registry[p["id"]].__doc__ or "").split())
            rows.append(f"* **{p['id']} {p['title']}.** Analysed: {', '.join(x['where'] for x in p['anchors']['mechanism'])}. "
                        f"Decided by {CHECKS[p['id']][0].replace(PATHS + ': ', '')}." + (f" {doc}" if len(doc) > 60 else ""))
        elif p["id"] not in NA:
            rows.append(f"* **{p['id']} {p['title']}.** Rule set not built yet.")
    res = os.path.join(HERE, "dev", "seeded.json")
    known = json.load(open(res)) if os.path.exists(res) else {}
    srows = []
    for sid in sorted(os.listdir(os.path.join(HERE, "seeded"))) if os.path.isdir(os.path.join(HERE, "seeded")) else []:
        meta = json.load(open(os.path.join(HERE, "seeded", sid, "meta.json")))
        srows.append(f"* `{sid}` ({meta['property']}): {meta['what_it_breaks']} Caught by: {known.get(sid) or 'nothing'}.")
    t = open(os.path.join(HERE, "dev", "DESIGN.in"), encoding="utf-8").read()
    t = t.replace("%PROPS%", "\n".join(rows)).replace("%SEEDED%", "\n".join(srows))
    with open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8") as f:
        f.write(t)


main()
