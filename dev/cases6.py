CASES = []
K = "omemo/identity_key_pair.py"
S = "omemo/storage.py"
B = "omemo/backend.py"


def bug(name, want, *edits):
    CASES.append((name, want, edits))


def ref(name, *edits):
    CASES.append((name, None, edits))


# ------------------------------------------------------------------------------------------------- C22 identity key pair
bug("ikp_log_key", ["C22"], (K, 'f"Loaded identity key from storage. is_seed={is_seed}"', 'f"Loaded identity key from storage. is_seed={is_seed} key={key!r}"'))
bug("ikp_log_hex", ["C22"], (K, '"New seed generated and stored."', '"New seed generated and stored: %s", key.hex()'))
bug("ikp_log_len_ok", ["C22"], (K, '"New seed generated and stored."', 'f"New seed generated and stored: {key[:4].hex()}."'))
bug("ikp_repr", ["C22"], (K, '''    @property
    def seed(self) -> Seed:''', '''    def __repr__(self) -> str:
        return f"IdentityKeyPairSeed({self.__seed.hex()})"

    @property
    def seed(self) -> Seed:'''))
bug("ikp_no_kind_store", ["C22"], (K, '            await storage.store("/ikp/is_seed", is_seed)\n', ""))
bug("ikp_late_store", ["C22"], (K, '            await storage.store("/ikp/is_seed", is_seed)\n            await storage.store_bytes("/ikp/key", key)\n', '            await storage.store_bytes("/ikp/key", key)\n'),
    (K, '        logging.getLogger(IdentityKeyPair.LOG_TAG).debug("Identity key prepared.")\n', '        await storage.store("/ikp/is_seed", False)\n'))
bug("ikp_default_kind", ["C22"], (K, '(await storage.load_primitive("/ikp/is_seed", bool)).from_just()', '(await storage.load_primitive("/ikp/is_seed", bool)).maybe(True)'))
bug("ikp_swapped", ["C22"], (K, "IdentityKeyPairSeed(key) if is_seed else IdentityKeyPairPriv(key)", "IdentityKeyPairPriv(key) if is_seed else IdentityKeyPairSeed(key)"))
bug("ikp_always_seed", ["C22"], (K, "IdentityKeyPairSeed(key) if is_seed else IdentityKeyPairPriv(key)", "IdentityKeyPairSeed(key)"))
bug("ikp_regen_priv", ["C22"], (K, '''            logging.getLogger(IdentityKeyPair.LOG_TAG).debug(
                f"Loaded''', '''            if not is_seed:
                raise NothingException()

            logging.getLogger(IdentityKeyPair.LOG_TAG).debug(
                f"Loaded'''))
bug("ikp_short", ["C22"], (K, "secrets.token_bytes(32)", "secrets.token_bytes(16)"))
bug("ikp_weak", ["C22"], (K, "secrets.token_bytes(32)", "bytes(32)"))
bug("ikp_regen_type", ["C22", "C27"], (K, "except NothingException:", "except (NothingException, TypeError):"), (K, '(await storage.load_bytes("/ikp/key")).from_just()', '(await storage.load_bytes("/ikp/key")).from_just()\n            if len(key) != 32: raise TypeError()'))
bug("ikp_priv_pub", ["C22"], (K, "xeddsa.priv_to_ed25519_pub(self.__priv)", "xeddsa.seed_to_ed25519_pub(self.__priv)"))
bug("ikp_as_priv", ["C22"], (K, "IdentityKeyPairPriv(xeddsa.seed_to_priv(self.__seed))", "IdentityKeyPairPriv(self.__seed)"))
bug("ikp_sm_log", ["C22"], ('            f"\\tpre_key_refill_threshold={pre_key_refill_threshold}"\n        )\n', '            f"\\tpre_key_refill_threshold={pre_key_refill_threshold}"\n        )\n'),
    ("        self.__synchronizing = True\n\n        try:", '        self.__synchronizing = True\n        logging.getLogger(SessionManager.LOG_TAG).debug(f"{self.__identity_key_pair.as_priv().priv!r}")\n\n        try:'))
bug("ikp_dc", ["C22"], (K, "class IdentityKeyPairPriv(IdentityKeyPair):", "import dataclasses\n\n\n@dataclasses.dataclass\nclass IdentityKeyPairPriv(IdentityKeyPair):"))
bug("ikp_exc", ["C22"], (K, '''        logging.getLogger(IdentityKeyPair.LOG_TAG).debug("Identity key prepared.")
''', '''        if len(key) != 32:
            raise ValueError(f"Invalid key: {key!r}")
'''))
ref("ikp_split", (K, '''            is_seed = (await storage.load_primitive("/ikp/is_seed", bool)).from_just()
            key = (await storage.load_bytes("/ikp/key")).from_just()
''', '''            stored_is_seed = await storage.load_primitive("/ikp/is_seed", bool)
            stored_key = await storage.load_bytes("/ikp/key")
            is_seed, key = stored_is_seed.from_just(), stored_key.from_just()
'''))
ref("ikp_order", (K, '''            await storage.store("/ikp/is_seed", is_seed)
            await storage.store_bytes("/ikp/key", key)
''', '''            await storage.store_bytes("/ikp/key", key)
            await storage.store("/ikp/is_seed", True)
'''))
ref("ikp_if", (K, "        return IdentityKeyPairSeed(key) if is_seed else IdentityKeyPairPriv(key)\n", '''        if is_seed:
            return IdentityKeyPairSeed(key)
        return IdentityKeyPairPriv(key)
'''))
ref("ikp_isjust", (K, '''        try:
            # Try to load both is_seed and the key. If any one of the loads fails, generate a new seed.
            is_seed = (await storage.load_primitive("/ikp/is_seed", bool)).from_just()
            key = (await storage.load_bytes("/ikp/key")).from_just()
''', '''        stored_is_seed = await storage.load_primitive("/ikp/is_seed", bool)
        stored_key = await storage.load_bytes("/ikp/key")
        if stored_is_seed.is_just and stored_key.is_just:
            is_seed = stored_is_seed.from_just()
            key = stored_key.from_just()
'''), (K, "        except NothingException:\n", "        else:\n"))
ref("ikp_helper", (K, '''            is_seed = True
            key = secrets.token_bytes(32)

            await storage.store("/ikp/is_seed", is_seed)
            await storage.store_bytes("/ikp/key", key)
''', '''            is_seed = True
            key = await IdentityKeyPair._generate(storage)
'''), (K, '''    @property
    @abstractmethod
    def is_seed(self)''', '''    @staticmethod
    async def _generate(storage: Storage) -> bytes:
        seed = secrets.token_bytes(32)
        await storage.store("/ikp/is_seed", True)
        await storage.store_bytes("/ikp/key", seed)
        return seed

    @property
    @abstractmethod
    def is_seed(self)'''))
ref("ikp_repr_pub", (K, '''    @property
    def seed(self) -> Seed:''', '''    def __repr__(self) -> str:
        return f"IdentityKeyPairSeed({self.identity_key.hex()}, {len(self.__seed)})"

    @property
    def seed(self) -> Seed:'''))

# ------------------------------------------------------------------------------------------------- C23 rotation
UPL = '''                            await self._upload_bundle(await backend.get_bundle(
                                self.__own_bare_jid,
                                self.__own_device_id
                            ))
                        except BundleUploadFailed:'''
bug("rot_inverted", ["C23"], ("                if next_rotation < 0:\n", "                if next_rotation > 0:\n"))
bug("rot_age", ["C23"], ("next_rotation = signed_pre_key_rotation_period - signed_pre_key_age", "next_rotation = signed_pre_key_age - signed_pre_key_rotation_period"))
bug("rot_double", ["C23"], ("next_rotation = signed_pre_key_rotation_period - signed_pre_key_age", "next_rotation = 2 * signed_pre_key_rotation_period - signed_pre_key_age"))
bug("rot_max", ["C23"], ("next_check = min(next_check, next_rotation)", "next_check = max(next_check, next_rotation)"))
bug("rot_last", ["C23"], ("next_check = min(next_check, next_rotation)", "next_check = next_rotation"))
bug("rot_break", ["C23"], ("                    next_check = min(next_check, next_rotation)\n", "                    next_check = min(next_check, next_rotation)\n                    break\n"))
bug("rot_no_cap", ["C23"], ("                            retry_delay = min(retry_delay, 60 * 60)  # Cap the retry delay at one hour\n", ""))
bug("rot_cap_min", ["C23"], ("retry_delay = min(retry_delay, 60 * 60)", "retry_delay = max(retry_delay, 60 * 60)"))
bug("rot_const_delay", ["C23"], ("                            retry_delay *= 2  # Double the retry delay\n", ""))
bug("rot_give_up", ["C23"], ("                            retry_delay *= 2  # Double the retry delay\n", "                            retry_delay *= 2  # Double the retry delay\n                            if retry_delay > 3600:\n                                break\n"))
bug("rot_no_retry", ["C23"], ("                            await async_sleep(retry_delay)\n                            retry_delay *= 2", "                            break\n                            retry_delay *= 2"))
bug("rot_bundle_before", ["C23"], ("                    await backend.rotate_signed_pre_key()\n", "                    bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)\n                    await backend.rotate_signed_pre_key()\n"),
    (UPL, "                            await self._upload_bundle(bundle)\n                        except BundleUploadFailed:"))
bug("rot_no_sleep_retry", ["C23"], ("                            await async_sleep(retry_delay)\n", ""))
bug("rot_no_minute", ["C23"], ("            next_check += 60\n", "            next_check += 60 * 60\n"))
bug("rot_zero_period", ["C23"], ("            next_check = signed_pre_key_rotation_period\n", "            next_check = 2 * signed_pre_key_rotation_period\n"))
bug("rot_init_outside", ["C23"], ("        while True:\n            # Keep track of when the next signed pre key rotation is due\n            next_check = signed_pre_key_rotation_period\n", "        next_check = signed_pre_key_rotation_period\n        while True:\n"))
bug("rot_framework", ["C23"], ("            if async_framework is AsyncFramework.ASYNCIO:\n                await asyncio.sleep", "            if async_framework is AsyncFramework.TWISTED:\n                await asyncio.sleep"), ("            elif async_framework is AsyncFramework.TWISTED:\n                await task", "            elif async_framework is AsyncFramework.ASYNCIO:\n                await task"))
bug("rot_sleep_ms", ["C23"], ("await asyncio.sleep(seconds)", "await asyncio.sleep(seconds * 1000)"))
bug("rot_once", ["C23"], ("            # Wait for the given delay and check again\n            await async_sleep(next_check)\n", "            # Wait for the given delay and check again\n            await async_sleep(next_check)\n            if not self.__backends:\n                return\n"))
bug("rot_not_spawned", ["C23"], ("        if async_framework is AsyncFramework.ASYNCIO:\n            asyncio.ensure_future", "        if async_framework is AsyncFramework.ASYNCIO and loaded_namespaces == active_namespaces:\n            asyncio.ensure_future"),
    ("        elif async_framework is AsyncFramework.TWISTED:\n            defer", "        elif async_framework is AsyncFramework.TWISTED:\n            defer"), ("        else:\n            assert_never(async_framework)\n\n        logging.getLogger(SessionManager.LOG_TAG).info(\n            \"Library", "        logging.getLogger(SessionManager.LOG_TAG).info(\n            \"Library"))
bug("rot_first_only", ["C23"], ("            for backend in self.__backends:\n                signed_pre_key_age", "            for backend in self.__backends[:1]:\n                signed_pre_key_age"))
bug("rot_while_cond", ["C23"], ("        while True:\n            # Keep track", "        while not self.__synchronizing:\n            # Keep track"))
ref("rot_lt", ("next_check = min(next_check, next_rotation)", "if next_rotation < next_check:\n                        next_check = next_rotation"))
ref("rot_cmp", ("                if next_rotation < 0:\n", "                if signed_pre_key_age > signed_pre_key_rotation_period:\n"))
ref("rot_le", ("                if next_rotation < 0:\n", "                if next_rotation <= 0:\n"))
ref("rot_delay_one", ("                            retry_delay *= 2  # Double the retry delay\n                            retry_delay = min(retry_delay, 60 * 60)  # Cap the retry delay at one hour\n", "                            retry_delay = min(2 * retry_delay, 3600)\n"))
ref("rot_helper", ('''                    retry_delay = 60  # Start with one minute of retry delay
                    while True:
                        try:
''' + UPL + '''
                            logging.getLogger(SessionManager.LOG_TAG).error(
                                "Bundle upload failed after rotating signed pre key.",
                                exc_info=True
                            )
                            await async_sleep(retry_delay)
                            retry_delay *= 2  # Double the retry delay
                            retry_delay = min(retry_delay, 60 * 60)  # Cap the retry delay at one hour
                        else:
                            break
''', "                    await self.__retry_upload(backend, async_sleep)\n"), ("    async def ensure_data_consistency(self", '''    async def __retry_upload(self, backend: Backend, async_sleep: Any) -> None:
        delay = 60
        while True:
            try:
                bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                await self._upload_bundle(bundle)
                return
            except BundleUploadFailed:
                pass
            await async_sleep(delay)
            delay = min(delay * 2, 60 * 60)

    async def ensure_data_consistency(self'''))
ref("rot_success_flag", ("                    while True:\n                        try:\n" + UPL, "                    uploaded = False\n                    while not uploaded:\n                        try:\n" + UPL), ("                        else:\n                            break\n                else:", "                        else:\n                            uploaded = True\n                else:"))
ref("rot_continue", ("                else:\n                    logging.getLogger(SessionManager.LOG_TAG).debug(\n                        f\"Signed pre key age for backend {backend.namespace}: {signed_pre_key_age}. Rotating\"\n                        f\" in {next_rotation} seconds.\"\n                    )\n\n                    # Otherwise, keep track of when the next signed pre key rotation is due\n                    next_check = min(next_check, next_rotation)\n",
    "                    continue\n                next_check = min(next_check, next_rotation)\n"))
ref("rot_field", ("        self.__synchronizing = True\n\n        try:", "        self.__synchronizing = True\n        self.__period = signed_pre_key_rotation_period\n\n        try:"), ("            next_check = signed_pre_key_rotation_period\n", "            next_check = self.__period\n"), ("next_rotation = signed_pre_key_rotation_period - ", "next_rotation = self.__period - "))
ref("rot_plus60", ("            next_check += 60\n\n            # Wait for the given delay and check again\n            await async_sleep(next_check)\n", "            await async_sleep(next_check + 60)\n"))
