CASES = []


def bug(name, want, *edits):
    CASES.append((name, want, edits))


def ref(name, *edits):
    CASES.append((name, None, edits))


# ------------------------------------------------------------------------------------------------- C21 arguments and device ids
bug("cr_threshold_low", ["C21"], ("not 25 <= pre_key_refill_threshold <= 99", "not 0 < pre_key_refill_threshold <= 99"))
bug("cr_threshold_high", ["C21"], ("not 25 <= pre_key_refill_threshold <= 99", "not 25 <= pre_key_refill_threshold <= 100"))
bug("cr_threshold_strict", ["C21"], ("not 25 <= pre_key_refill_threshold <= 99", "not 25 < pre_key_refill_threshold <= 99"))
bug("cr_validate_late", ["C21"], ('''        if not 25 <= pre_key_refill_threshold <= 99:
            raise ValueError("Pre key refill threshold out of allowed range.")

''', ""), ('''        self.__synchronizing = True

        try:
            self.__own_device_id''', '''        self.__synchronizing = True

        if not 25 <= pre_key_refill_threshold <= 99:
            raise ValueError("Pre key refill threshold out of allowed range.")

        try:
            self.__own_device_id'''))
bug("cr_no_dup", ["C21"], ("if len(frozenset(backend.namespace for backend in backends)) != len(backends):", "if len(frozenset(backends)) != len(backends):"))
bug("cr_id_zero", ["C21"], ("secrets.randbelow(cls.DEVICE_ID_MAX - cls.DEVICE_ID_MIN) + cls.DEVICE_ID_MIN", "secrets.randbelow(cls.DEVICE_ID_MAX - cls.DEVICE_ID_MIN)"))
bug("cr_id_over", ["C21"], ("secrets.randbelow(cls.DEVICE_ID_MAX - cls.DEVICE_ID_MIN) + cls.DEVICE_ID_MIN", "secrets.randbelow(cls.DEVICE_ID_MAX + 1) + cls.DEVICE_ID_MIN"))
bug("cr_id_const", ["C21"], ("    DEVICE_ID_MAX = 2 ** 31 - 1", "    DEVICE_ID_MAX = 2 ** 32 - 1"))
bug("cr_id_no_filter", ["C21"], ("lambda device_id: device_id not in device_ids", "lambda device_id: device_id not in frozenset(device_ids) - frozenset([ device_id ])"))
bug("cr_id_first_backend", ["C21"], ('''                for backend
                in self.__backends
            ])

            # Generate''', '''                for backend
                in self.__backends[:1]
            ])

            # Generate'''))
bug("cr_id_intersection", ["C21"], ("device_ids = cast(FrozenSet[int], frozenset()).union(*[", "device_ids = cast(FrozenSet[int], frozenset()).intersection(*["))
bug("cr_id_other_jid", ["C21", "C13"], ("frozenset((await self._download_device_list(backend.namespace, self.__own_bare_jid)).keys())\n                for",
                                "frozenset((await self._download_device_list(backend.namespace, initial_own_label or self.__own_bare_jid)).keys())\n                for"))
ref("cr_id_max_excl", ("secrets.randbelow(cls.DEVICE_ID_MAX - cls.DEVICE_ID_MIN) + cls.DEVICE_ID_MIN", "secrets.randbelow(cls.DEVICE_ID_MAX) + cls.DEVICE_ID_MIN"))
ref("cr_id_while", ('''            self.__own_device_id = next(filter(
                lambda device_id: device_id not in device_ids,
                (
                    secrets.randbelow(cls.DEVICE_ID_MAX - cls.DEVICE_ID_MIN) + cls.DEVICE_ID_MIN
                    for _
                    in itertools.count()
                )
            ))
''', '''            own_device_id = secrets.randbelow(cls.DEVICE_ID_MAX - cls.DEVICE_ID_MIN) + cls.DEVICE_ID_MIN
            while own_device_id in device_ids:
                own_device_id = secrets.randbelow(cls.DEVICE_ID_MAX - cls.DEVICE_ID_MIN) + cls.DEVICE_ID_MIN
            self.__own_device_id = own_device_id
'''))
ref("cr_id_loop_set", ('''            device_ids = cast(FrozenSet[int], frozenset()).union(*[
                frozenset((await self._download_device_list(backend.namespace, self.__own_bare_jid)).keys())
                for backend
                in self.__backends
            ])
''', '''            device_ids: Set[int] = set()
            for backend in self.__backends:
                device_ids |= set(await self._download_device_list(backend.namespace, self.__own_bare_jid))
'''))
ref("cr_threshold_split", ("if not 25 <= pre_key_refill_threshold <= 99:", "if pre_key_refill_threshold < 25 or pre_key_refill_threshold > 99:"))
ref("cr_dup_set", ("if len(frozenset(backend.namespace for backend in backends)) != len(backends):", "if len({ backend.namespace for backend in backends }) < len(backends):"))
ref("cr_dup_list", ("        if len(frozenset(backend.namespace for backend in backends)) != len(backends):",
                    "        namespaces = [ backend.namespace for backend in backends ]\n        if len(namespaces) != len(set(namespaces)):"))
ref("cr_load_maybe", ('''        try:
            self.__own_device_id = (await self.__storage.load_primitive("/own_device_id", int)).from_just()
            logging''', '''        stored_device_id = await self.__storage.load_primitive("/own_device_id", int)
        try:
            self.__own_device_id = stored_device_id.from_just()
            logging'''))

# ------------------------------------------------------------------------------------------------- C20 initialization
IDSTORE = '''            # Finally store the device id once the other setup is done
            await self.__storage.store("/own_device_id", self.__own_device_id)

'''
LABEL = '''            await storage.store(
                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label",
                initial_own_label
            )

'''
PUB = '''            # Publish the bundles for all backends
            for backend in self.__backends:
                await self._upload_bundle(await backend.get_bundle(self.__own_bare_jid, self.__own_device_id))

'''
REF = '''            for backend in self.__backends:
                await self.refresh_device_list(backend.namespace, self.__own_bare_jid)

        # If'''
GEN = '''            # Generate the first 100 pre keys for each backend
            for backend in self.__backends:
                await backend.generate_pre_keys(100)

'''
bug("cr_id_early", ["C20"], (IDSTORE, ""), (LABEL, IDSTORE + LABEL))
bug("cr_id_early2", ["C20"], (IDSTORE, ""), ('''            # The trust level of the own identity key doesn't''', IDSTORE + '''            # The trust level of the own identity key doesn't'''))
bug("cr_id_late", ["C20"], (IDSTORE, ""), (REF, REF.replace("        # If", IDSTORE.rstrip() + "\n\n        # If")))
bug("cr_no_label", ["C20"], (LABEL, ""))
bug("cr_ns_first_run", ["C20"], ('''                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
                []
''', '''                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
                [ backend.namespace for backend in self.__backends ]
'''))
bug("cr_refresh_first", ["C20"], (PUB, ""), (REF, REF.replace("\n        # If", "\n" + PUB.rstrip() + "\n\n        # If")))
bug("cr_gen_late", ["C20"], (GEN, ""), (PUB, PUB + GEN))
bug("cr_gen_few", ["C20"], ("await backend.generate_pre_keys(100)\n", "await backend.generate_pre_keys(50)\n"))
bug("cr_new_gen_few", ["C20"], ("""await backend.generate_pre_keys(100 - num_visible_pre_keys)

                    # Publish the bundle of the new backend""", """await backend.generate_pre_keys(self.__pre_key_refill_threshold - num_visible_pre_keys)

                    # Publish the bundle of the new backend"""))
bug("cr_new_gen_cmp", ["C20"], ("""                    if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                        await backend.generate_pre_keys(100 - num_visible_pre_keys)

                    # Publish the bundle of the new backend""", """                    if num_visible_pre_keys < self.__pre_key_refill_threshold:
                        await backend.generate_pre_keys(100 - num_visible_pre_keys)

                    # Publish the bundle of the new backend"""))
NEWUP = '''                    # Publish the bundle of the new backend
                    await self._upload_bundle(await backend.get_bundle(
                        self.__own_bare_jid,
                        self.__own_device_id
                    ))

'''
NEWREF = '''                    await self.refresh_device_list(backend.namespace, self.__own_bare_jid)

            # Perform'''
bug("cr_new_no_upload", ["C20"], (NEWUP, ""))
bug("cr_new_refresh_first", ["C20"], (NEWUP, ""), (NEWREF, NEWREF.replace("\n\n            # Perform", "\n\n" + NEWUP + "            # Perform")))
NSFINAL = '''            await storage.store(
                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
                list(loaded_namespaces)
            )
'''
PERF = '''            # Perform cleanup of removed backends
            for namespace in active_namespaces - loaded_namespaces:
                await self.purge_backend(namespace)

'''
bug("cr_ns_before_purge", ["C20"], (NSFINAL, ""), (PERF, NSFINAL + "\n" + PERF))
bug("cr_ns_before_new", ["C20"], (NSFINAL, ""), ('''            # Take care of the initialization of newly added backends
''', NSFINAL + '''
            # Take care of the initialization of newly added backends
'''))
bug("cr_ns_before_active", ["C20"], ('''            # Set the device active for all loaded namespaces
''', NSFINAL + '''            # Set the device active for all loaded namespaces
'''), ('''
            # Store the updated list of loaded namespaces
''' + NSFINAL, ""))
bug("cr_ns_union", ["C20"], ("                list(loaded_namespaces)\n            )\n", "                list(loaded_namespaces | active_namespaces)\n            )\n"))
bug("cr_subset", ["C20"], ("        if loaded_namespaces != active_namespaces:", "        if not loaded_namespaces <= active_namespaces:"))
bug("cr_superset", ["C20"], ("        if loaded_namespaces != active_namespaces:", "        if len(loaded_namespaces) != len(active_namespaces):"))
bug("cr_purge_sym", ["C20"], ("for namespace in active_namespaces - loaded_namespaces:", "for namespace in active_namespaces ^ loaded_namespaces:"))
bug("cr_purge_rev", ["C20"], ("for namespace in active_namespaces - loaded_namespaces:", "for namespace in loaded_namespaces - active_namespaces:"))
bug("cr_purge_none", ["C20"], (PERF, ""))
bug("cr_active_new_only", ["C20"], ("{ namespace: True for namespace in loaded_namespaces }", "{ namespace: True for namespace in loaded_namespaces - active_namespaces }"))
bug("cr_active_false", ["C20"], ("{ namespace: True for namespace in loaded_namespaces }", "{ namespace: namespace in active_namespaces for namespace in loaded_namespaces }"))
bug("cr_new_break", ["C20"], (NEWREF, NEWREF.replace("own_bare_jid)\n", "own_bare_jid)\n                    break\n", 1)))
bug("cr_old_publish", ["C20"], ('''            for backend in self.__backends:
                if backend.namespace not in active_namespaces:
                    # Refill''', '''            for backend in self.__backends:
                if backend.namespace in active_namespaces:
                    # Refill'''))
bug("cr_else_sync", ["C20"], ("        # If there a mismatch between loaded and active namespaces, look for changes in the loaded backends.\n",
                      "        if device_is_new:\n            return self\n"), ("        try:\n            self.__own_device_id = (await", "        device_is_new = False\n        try:\n            self.__own_device_id = (await"),
    ("            # Generate the first 100 pre", "            device_is_new = True\n            # Generate the first 100 pre"))
ref("cr_merge_loops", (PUB, ""), ('''                await backend.generate_pre_keys(100)

            # Trigger''', '''                await backend.generate_pre_keys(100)
                await self._upload_bundle(await backend.get_bundle(self.__own_bare_jid, self.__own_device_id))

            # Trigger'''))
ref("cr_helper", ('''            for backend in self.__backends:
                if backend.namespace not in active_namespaces:
                    # Refill''', '''            for backend in [ b for b in self.__backends if b.namespace not in active_namespaces ]:
                if True:
                    # Refill'''))
ref("cr_early_return", ('''            for backend in self.__backends:
                if backend.namespace not in active_namespaces:
                    # Refill''', '''            for backend in self.__backends:
                if backend.namespace in active_namespaces:
                    continue
                else:
                    # Refill'''))
ref("cr_sorted", ("                list(loaded_namespaces)\n            )\n", "                sorted(loaded_namespaces)\n            )\n"))
ref("cr_purge_loop", ("            for namespace in active_namespaces - loaded_namespaces:\n                await self.purge_backend(namespace)\n",
                      "            for namespace in active_namespaces:\n                if namespace not in loaded_namespaces:\n                    await self.purge_backend(namespace)\n"))
ref("cr_dict_fromkeys", ("{ namespace: True for namespace in loaded_namespaces }", "dict.fromkeys(loaded_namespaces, True)"))
ref("cr_store_order", (LABEL, ""), ('''            # Initialize the local device list for this bare JID
            await''', LABEL + '''            # Initialize the local device list for this bare JID
            await'''))
ref("cr_extract_init", (GEN + PUB, "            await self.__publish_bundles()\n\n"), ("    async def purge_backend(self", '''    async def __publish_bundles(self) -> None:
        for backend in self.__backends:
            await backend.generate_pre_keys(100)

        for backend in self.__backends:
            bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
            await self._upload_bundle(bundle)

    async def purge_backend(self'''))
ref("cr_extract_new", (NEWUP, '''                    await self.__publish(backend)

'''), ("    async def purge_backend(self", '''    async def __publish(self, backend: Backend) -> None:
        await self._upload_bundle(await backend.get_bundle(self.__own_bare_jid, self.__own_device_id))

    async def purge_backend(self'''))
ref("cr_while_ns", ("active_namespaces - loaded_namespaces:\n", "sorted(active_namespaces.difference(loaded_namespaces)):\n"))
