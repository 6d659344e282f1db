CASES = []


def bug(name, want, *edits):
    CASES.append((name, want, edits))


def ref(name, *edits):
    CASES.append((name, None, edits))


# ------------------------------------------------------------------------------------------------- C31 device information
NSAND = "                namespaces = namespaces & set(active.keys())\n"
NSSTORE = '''                await storage.store(f"/devices/{bare_jid}/{device_id}/namespaces", list(namespaces))
'''
bug("gi_ns_unfiltered", ["C31"], (NSAND, ""), (NSSTORE, '''                await storage.store(
                    f"/devices/{bare_jid}/{device_id}/namespaces", list(namespaces & set(active.keys()))
                )
'''))
bug("gi_ns_from_active", ["C31"], (NSAND, "                namespaces = set(active.keys())\n"))
bug("gi_no_repair", ["C31"], (NSAND + NSSTORE, NSAND))
bug("gi_repair_all", ["C31"], ("if any(namespace not in active for namespace in namespaces):", "if all(namespace not in active for namespace in namespaces):"))
bug("gi_trust_jid", ["C31", "C01", "C17"], ("f\"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}\",\n                str",
                                     "f\"/trust/{self.__own_bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}\",\n                str"))
SKIP = '''                    continue

            active = '''
bug("gi_skip_break", ["C31"], (SKIP, SKIP.replace("continue", "break")))
bug("gi_no_store_ik", ["C31"], ('''                        await storage.store_bytes(
                            f"/devices/{bare_jid}/{device_id}/identity_key",
                            identity_key
                        )
                        break
                else:''', '''                        break
                else:'''))
bug("gi_first_ns_only", ["C31"], ("""                for namespace in namespaces:
                    try:
                        bundle = await self._download_bundle(namespace, bare_jid, device_id)
                    except BundleDownloadFailed:
                        logging.getLogger(SessionManager.LOG_TAG).warning(
                            f"Bundle download failed for device""", """                for namespace in sorted(namespaces)[:1]:
                    try:
                        bundle = await self._download_bundle(namespace, bare_jid, device_id)
                    except BundleDownloadFailed:
                        logging.getLogger(SessionManager.LOG_TAG).warning(
                            f"Bundle download failed for device"""))
bug("gi_notfound_escapes", ["C31"], ('''                    except BundleNotFound:
                        logging.getLogger(SessionManager.LOG_TAG).warning(
                            f"Bundle not available for device {device_id} of bare JID {bare_jid} for"
                            f" namespace {namespace}.",
                            exc_info=True
                        )
                    else:''', '''                    else:'''))
bug("gi_own_all", ["C31"], ("lambda dev: dev.device_id != self.__own_device_id", "lambda dev: dev.device_id != self.__own_device_id or len(dev.active) > 1"))
bug("gi_active_true", ["C31"], ("                active=frozenset(active.items()),\n                bare_jid=bare_jid,\n                device_id=device_id,\n                identity_key=identity_key",
                                "                active=frozenset((n, a) for n, a in active.items() if n in namespaces),\n                bare_jid=bare_jid,\n                device_id=device_id,\n                identity_key=identity_key"))
bug("gi_only_active", ["C31"], ("            devices.add(DeviceInformation(\n                namespaces=frozenset(namespaces)", "            if len(active) > 0: devices.add(DeviceInformation(\n                namespaces=frozenset(namespaces)"))
bug("gi_label_default", ["C31", "C17"], ("label = (await storage.load_optional(f\"/devices/{bare_jid}/{device_id}/label\", str)).from_just()\n\n            trust",
                                  "label = (await storage.load_optional(f\"/devices/{bare_jid}/{self.__own_device_id}/label\", str)).from_just()\n\n            trust"))
ref("gi_helper", ('''            trust_level_name = (await storage.load_primitive(
                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)

            if any(namespace not in active for namespace in namespaces):''', '''            trust_level_name = await self.__load_trust(bare_jid, identity_key)

            if len(namespaces - set(active)) > 0:'''), ('''    async def get_own_device_information(self)''', '''    async def __load_trust(self, jid: str, key: bytes) -> str:
        fingerprint = base64.urlsafe_b64encode(key).decode("ASCII")
        stored = await self.__storage.load_primitive(f"/trust/{jid}/{fingerprint}", str)
        return stored.maybe(self.__undecided_trust_level_name)

    async def get_own_device_information(self)'''))
ref("gi_own_loop", ('''        other_own_devices = frozenset(filter(
            lambda dev: dev.device_id != self.__own_device_id,
            all_own_devices
        ))

        return next(iter(all_own_devices - other_own_devices)), other_own_devices
''', '''        own_device = next(device for device in all_own_devices if device.device_id == self.__own_device_id)

        return own_device, all_own_devices - { own_device }
'''))
ref("gi_own_loop2", ('''        other_own_devices = frozenset(filter(
            lambda dev: dev.device_id != self.__own_device_id,
            all_own_devices
        ))

        return next(iter(all_own_devices - other_own_devices)), other_own_devices
''', '''        others = set()
        own = None
        for dev in all_own_devices:
            if dev.device_id == self.__own_device_id:
                own = dev
            else:
                others.add(dev)
        assert own is not None

        return own, frozenset(others)
'''))
ref("gi_active_comp", (NSAND, "                namespaces = { ns for ns in namespaces if ns in active }\n"))
ref("gi_flag", ('''                        break
                else:
                    # Skip this device in case none of the bundles could be downloaded
''', '''                        found = True
                        break

                if not found:
                    # Skip this device in case none of the bundles could be downloaded
'''), ('''                for namespace in namespaces:
                    try:
                        bundle = await self._download_bundle(namespace, bare_jid, device_id)
                    except BundleDownloadFailed:
                        logging.getLogger(SessionManager.LOG_TAG).warning(
                            f"Bundle download failed for device''', '''                found = False
                for namespace in namespaces:
                    try:
                        bundle = await self._download_bundle(namespace, bare_jid, device_id)
                    except BundleDownloadFailed:
                        logging.getLogger(SessionManager.LOG_TAG).warning(
                            f"Bundle download failed for device'''))
