CASES = []
S = "omemo/storage.py"
B = "omemo/backend.py"


def bug(name, want, *edits):
    CASES.append((name, want, edits))


def ref(name, *edits):
    CASES.append((name, None, edits))


LOAD = '''        if self.__cache is not None and key in self.__cache:
            return self.__cache[key]

        value = await self._load(key)
        if self.__cache is not None:
            # The key may have been stored or deleted while the value was being loaded, in which case the cache
            # already holds the more recent value.
            value = self.__cache.setdefault(key, value)
        return value
'''
STORE = '''        await self._store(key, value)

        if self.__cache is not None:
            self.__cache[key] = Just(value)
'''
DELETE = '''        await self._delete(key)

        if self.__cache is not None:
            self.__cache[key] = Nothing()
'''
# ------------------------------------------------------------------------------------------------- C14 cache
bug("st_load_overwrites", ["C14"], (S, LOAD, LOAD.replace("value = self.__cache.setdefault(key, value)", "self.__cache[key] = value")))
bug("st_load_stale_ret", ["C14"], (S, LOAD, LOAD.replace("value = self.__cache.setdefault(key, value)", "self.__cache.setdefault(key, value)")))
bug("st_load_wrong_key", ["C14"], (S, LOAD, LOAD.replace("self._load(key)", "self._load(key.strip())")))
bug("st_cache_first", ["C14"], (S, STORE, '''        if self.__cache is not None:
            self.__cache[key] = Just(value)

        await self._store(key, value)
'''))
bug("st_finally", ["C14"], (S, STORE, '''        try:
            await self._store(key, value)
        finally:
            if self.__cache is not None:
                self.__cache[key] = Just(value)
'''))
bug("st_del_pop", ["C14"], (S, DELETE, DELETE.replace("self.__cache[key] = Nothing()", "self.__cache.pop(key, None)")))
bug("st_del_first", ["C14"], (S, DELETE, '''        if self.__cache is not None:
            self.__cache[key] = Nothing()

        await self._delete(key)
'''))
bug("st_only_known", ["C14"], (S, STORE, STORE.replace("if self.__cache is not None:", "if self.__cache is not None and key in self.__cache:")))
bug("st_skip_equal", ["C14"], (S, STORE, '''        if self.__cache is not None and key in self.__cache and self.__cache[key].maybe(None) == value:
            return

''' + STORE))
bug("st_swallow", ["C14"], (S, STORE, '''        try:
            await self._store(key, value)
        except StorageException:
            return

        if self.__cache is not None:
            self.__cache[key] = Just(value)
'''))
bug("st_disabled_caches", ["C14"], (S, "None if disable_cache else {}", "{}"))
bug("st_disabled_inverted", ["C14"], (S, "None if disable_cache else {}", "{} if disable_cache else None"))
bug("st_none_missing", ["C14"], (S, STORE, STORE.replace("Just(value)", "Nothing() if value is None else Just(value)")))
bug("st_del_skip", ["C14"], (S, DELETE, '''        if self.__cache is not None and key in self.__cache and self.__cache[key].is_nothing:
            return

''' + DELETE))
ref("st_load_two", (S, LOAD, LOAD.replace("if self.__cache is not None and key in", "if self.__cache is not None and self.__cache.get(key, Nothing()).is_just and key in")
    .replace("            return self.__cache[key]\n", "            return self.__cache[key]\n", 1)))
bug("st_evict", ["C14"], (S, STORE, STORE + '''            if len(self.__cache) > 10000:
                self.__cache.clear()
'''))
bug("st_bytes_raw", ["C14"], (S, 'await self.store(key, base64.urlsafe_b64encode(value).decode("ASCII"))', 'await self._store(key, base64.urlsafe_b64encode(value).decode("ASCII"))'))
bug("st_cache_alias", ["C15"], (S, "self.__value = copy.deepcopy(value)", "self.__value = value"))
ref("st_early_return", (S, LOAD, '''        cache = self.__cache
        if cache is None:
            return await self._load(key)

        if key not in cache:
            value = await self._load(key)
            if key not in cache:
                cache[key] = value

        return cache[key]
'''))
ref("st_try_key", (S, LOAD, '''        if self.__cache is not None:
            try:
                return self.__cache[key]
            except KeyError:
                pass

        loaded = await self._load(key)
        if self.__cache is None:
            return loaded
        return self.__cache.setdefault(key, loaded)
'''))
ref("st_get", (S, LOAD, '''        if self.__cache is not None:
            cached = self.__cache.get(key, None)
            if cached is not None:
                return cached

        value = await self._load(key)
        if self.__cache is not None:
            newer = self.__cache.get(key)
            if newer is not None:
                return newer
            self.__cache[key] = value
        return value
'''))
ref("st_helper", (S, STORE, '''        await self._store(key, value)
        self.__remember(key, Just(value))
'''), (S, DELETE, '''        await self._delete(key)
        self.__remember(key, Nothing())

    def __remember(self, key: str, value: Maybe[JSONType]) -> None:
        cache = self.__cache
        if cache is None:
            return
        cache[key] = value
'''))
ref("st_flag", (S, "self.__cache: Optional[Dict[str, Maybe[JSONType]]] = None if disable_cache else {}", "self.__caching = not disable_cache\n        self.__cache: Dict[str, Maybe[JSONType]] = {}"),
    (S, LOAD, LOAD.replace("self.__cache is not None", "self.__caching")), (S, STORE, STORE.replace("self.__cache is not None", "self.__caching")), (S, DELETE, DELETE.replace("self.__cache is not None", "self.__caching")))
ref("st_update", (S, STORE, STORE.replace("self.__cache[key] = Just(value)", "self.__cache.update({key: Just(value)})")))
ref("st_reraise", (S, STORE, '''        try:
            await self._store(key, value)
        except StorageException:
            raise
        else:
            if self.__cache is not None:
                self.__cache[key] = Just(value)
'''))
ref("st_return_just", (S, STORE, '''        await self._store(key, value)

        if self.__cache is None:
            return
        maybe = Just(value)
        self.__cache[key] = maybe
'''))
# ------------------------------------------------------------------------------------------------- C15 isolation
bug("mb_from_just_ref", ["C15"], (S, '''    def from_just(self) -> ValueTypeT:
        return copy.deepcopy(self.__value)
''', '''    def from_just(self) -> ValueTypeT:
        return self.__value
'''))
bug("mb_maybe_ref", ["C15"], (S, '''    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return copy.deepcopy(self.__value)
''', '''    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return self.__value
'''))
bug("mb_shallow", ["C15"], (S, '''    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return copy.deepcopy(self.__value)
''', '''    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return copy.copy(self.__value)
'''))
bug("mb_fmap_ref", ["C15"], (S, "return Just(function(copy.deepcopy(self.__value)))", "return Just(function(self.__value))"))
bug("mb_only_list", ["C15"], (S, '''    def from_just(self) -> ValueTypeT:
        return copy.deepcopy(self.__value)
''', '''    def from_just(self) -> ValueTypeT:
        if isinstance(self.__value, list):
            return list(self.__value)  # type: ignore
        return copy.deepcopy(self.__value)
'''))
bug("mb_truthy_default", ["C15"], (S, '''    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return copy.deepcopy(self.__value)
''', '''    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return copy.deepcopy(self.__value or default)
'''))
bug("mb_fmap_none", ["C15"], (S, "return Just(function(copy.deepcopy(self.__value)))", "mapped = function(copy.deepcopy(self.__value))\n        return Nothing() if mapped is None else Just(mapped)"))
bug("mb_nothing_none", ["C15"], (S, 'raise NothingException("Maybe.fromJust: Nothing")  # -- yuck', "return None"))
bug("mb_memo", ["C15"], (S, "self.__value = copy.deepcopy(value)\n", "self.__value = copy.deepcopy(value)\n        self.__copy: Optional[ValueTypeT] = None\n"),
    (S, '''    def from_just(self) -> ValueTypeT:
        return copy.deepcopy(self.__value)
''', '''    def from_just(self) -> ValueTypeT:
        if self.__copy is None:
            self.__copy = copy.deepcopy(self.__value)
        return self.__copy
'''))
bug("mb_fmap_swallow", ["C15"], (S, "return Just(function(copy.deepcopy(self.__value)))", "try:\n            return Just(function(copy.deepcopy(self.__value)))\n        except TypeError:\n            return self"))
ref("mb_via", (S, '''    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return copy.deepcopy(self.__value)
''', '''    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return self.from_just()
'''), (S, "return Just(function(copy.deepcopy(self.__value)))", "mapped = function(self.from_just())\n        return Just(mapped)"))
ref("mb_from_import", (S, "import copy\n", "from copy import deepcopy\n"), (S, "copy.deepcopy(value)", "deepcopy(value)"),
    (S, "copy.deepcopy(self.__value)", "deepcopy(self.__value)"), (S, "copy.deepcopy(self.__value)", "deepcopy(self.__value)"), (S, "copy.deepcopy(self.__value)", "deepcopy(self.__value)"))
# ------------------------------------------------------------------------------------------------- C16 typed loads
LIST = "if isinstance(value, list) and all(isinstance(element, primitive) for element in value):"
bug("ty_list_any", ["C16"], (S, LIST, LIST.replace("all(", "any(")))
bug("ty_list_first", ["C16"], (S, LIST, "if isinstance(value, list) and (len(value) == 0 or isinstance(value[0], primitive)):"))
bug("ty_list_nocheck", ["C16"], (S, LIST, "if isinstance(value, list):"))
bug("ty_dict_keys", ["C16"], (S, "all(isinstance(v, primitive) for v in value.values())", "all(isinstance(v, primitive) for v in value)"))
bug("ty_optional_strict", ["C16"], (S, "if value is None or isinstance(value, primitive):", "if isinstance(value, primitive):"))
bug("ty_prim_none", ["C16"], (S, '''            if isinstance(value, primitive):
                return value
''', '''            if value is None or isinstance(value, primitive):
                return value
'''))
bug("ty_prim_convert", ["C16"], (S, '''            if isinstance(value, primitive):
                return value
''', '''            if isinstance(value, primitive):
                return value
            if isinstance(value, str):
                return primitive(value)
'''))
bug("ty_bytes_std", ["C16"], (S, "base64.urlsafe_b64decode(value", "base64.b64decode(value"))
bug("ty_wrong_exc", ["C16"], (S, 'raise TypeError(f"The value stored for key {key} is not a {primitive}: {value}")', 'raise ValueError(f"The value stored for key {key} is not a {primitive}: {value}")'))
bug("ty_missing_list", ["C16"], (S, '''            raise TypeError(f"The value stored for key {key} is not a list of {primitive}: {value}")

        return (await self.load(key)).fmap(check_type)''', '''            raise TypeError(f"The value stored for key {key} is not a list of {primitive}: {value}")

        return Just(check_type((await self.load(key)).maybe([])))'''))
bug("ty_filter", ["C16"], (S, '''                return cast(List[PrimitiveTypeT], value)
''', '''                return cast(List[PrimitiveTypeT], sorted(value))
'''))
bug("ty_wrong_key", ["C16"], (S, '''            raise TypeError(f"The value stored for key {key} is not a str/bytes: {value}")

        return (await self.load(key))''', '''            raise TypeError(f"The value stored for key {key} is not a str/bytes: {value}")

        return (await self.load(key.lower()))'''))
bug("ty_dict_nocheck", ["C16"], (S, "if isinstance(value, dict) and all(isinstance(v, primitive) for v in value.values()):", "if isinstance(value, dict) or all(isinstance(v, primitive) for v in value.values()):"))
ref("ty_loop", (S, '''            if isinstance(value, list) and all(isinstance(element, primitive) for element in value):
                return cast(List[PrimitiveTypeT], value)
            raise TypeError(f"The value stored for key {key} is not a list of {primitive}: {value}")
''', '''            if not isinstance(value, list):
                raise TypeError(f"The value stored for key {key} is not a list of {primitive}: {value}")
            for element in value:
                if not isinstance(element, primitive):
                    raise TypeError(f"The value stored for key {key} is not a list of {primitive}: {value}")
            return cast(List[PrimitiveTypeT], value)
'''))
ref("ty_any", (S, LIST, "if isinstance(value, list) and not any(not isinstance(element, primitive) for element in value):"))
ref("ty_nofmap", (S, '''            raise TypeError(f"The value stored for key {key} is not a list of {primitive}: {value}")

        return (await self.load(key)).fmap(check_type)''', '''            raise TypeError(f"The value stored for key {key} is not a list of {primitive}: {value}")

        loaded = await self.load(key)
        if loaded.is_nothing:
            return Nothing()
        return Just(check_type(loaded.from_just()))'''))
ref("ty_shared", (S, '''            if isinstance(value, dict) and all(isinstance(v, primitive) for v in value.values()):
                return cast(Dict[str, PrimitiveTypeT], value)

            raise''', '''            if isinstance(value, dict):
                for k, v in value.items():
                    if not isinstance(v, primitive):
                        break
                else:
                    return cast(Dict[str, PrimitiveTypeT], value)

            raise'''))
ref("ty_opt_split", (S, '''            if value is None or isinstance(value, primitive):
                return value
''', '''            if value is None:
                return None
            if isinstance(value, primitive):
                return value
'''))
ref("ty_bytes_neg", (S, '''            if isinstance(value, str):
                return base64.urlsafe_b64decode(value.encode("ASCII"))
            raise TypeError(f"The value stored for key {key} is not a str/bytes: {value}")
''', '''            if not isinstance(value, str):
                raise TypeError(f"The value stored for key {key} is not a str/bytes: {value}")
            encoded = value.encode("ASCII")
            return base64.urlsafe_b64decode(encoded)
'''))
ref("st_lock", (S, "import base64\n", "import asyncio\nimport base64\n"), (S, "        self.__cache: Optional", "        self.__lock = asyncio.Lock()\n        self.__cache: Optional"),
    (S, LOAD, '''        async with self.__lock:
            if self.__cache is not None and key in self.__cache:
                return self.__cache[key]

            value = await self._load(key)
            if self.__cache is not None:
                self.__cache[key] = value
            return value
'''), (S, STORE, '''        async with self.__lock:
            await self._store(key, value)

            if self.__cache is not None:
                self.__cache[key] = Just(value)
'''), (S, DELETE, '''        async with self.__lock:
            await self._delete(key)

            if self.__cache is not None:
                self.__cache[key] = Nothing()
'''))
# ------------------------------------------------------------------------------------------------- C26 limits
bug("li_prec", ["C26"], (B, "if (max_num_per_message_skipped_keys or 0) > max_num_per_session_skipped_keys:", "if max_num_per_message_skipped_keys or 0 > max_num_per_session_skipped_keys:"))
bug("li_ge", ["C26"], (B, "if (max_num_per_message_skipped_keys or 0) > max", "if (max_num_per_message_skipped_keys or 0) >= max"))
bug("li_or_default", ["C26"], (B, "max_num_per_session_skipped_keys if \\\n            max_num_per_message_skipped_keys is None else max_num_per_message_skipped_keys", "max_num_per_message_skipped_keys or 1000"))
bug("li_no_zero", ["C26"], (B, "if max_num_per_message_skipped_keys == 0 and max_num_per_session_skipped_keys != 0:", "if max_num_per_message_skipped_keys == 0 and max_num_per_session_skipped_keys > 1000:"))
bug("li_zero_none", ["C26"], (B, "if max_num_per_message_skipped_keys == 0 and max", "if not max_num_per_message_skipped_keys and max"))
bug("li_min", ["C26"], (B, "        self.__max_num_per_session_skipped_keys = max_num_per_session_skipped_keys\n", "        self.__max_num_per_session_skipped_keys = min(max_num_per_session_skipped_keys, 1000)\n"))
bug("li_getter", ["C26"], (B, "        return self.__max_num_per_message_skipped_keys\n", "        return self.__max_num_per_session_skipped_keys\n"))
bug("li_neg", ["C26"], (B, "max_num_per_message_skipped_keys < 0:", "max_num_per_message_skipped_keys < -1:"))
bug("li_assert", ["C26"], (B, '''            raise ValueError(
                "The number of allowed per-message skipped keys must be nonzero''', '''            raise AssertionError(
                "The number of allowed per-message skipped keys must be nonzero'''))
ref("li_local", (B, "        if (max_num_per_message_skipped_keys or 0) > max_num_per_session_skipped_keys:", "        per_message = 0 if max_num_per_message_skipped_keys is None else max_num_per_message_skipped_keys\n        if max_num_per_session_skipped_keys < per_message:"))
ref("li_chain", (B, '''        self.__max_num_per_message_skipped_keys = max_num_per_session_skipped_keys if \\
            max_num_per_message_skipped_keys is None else max_num_per_message_skipped_keys
''', '''        if max_num_per_message_skipped_keys is None:
            max_num_per_message_skipped_keys = max_num_per_session_skipped_keys
        self.__max_num_per_message_skipped_keys = max_num_per_message_skipped_keys
'''))
ref("li_or", (B, '''max_num_per_session_skipped_keys if \\
            max_num_per_message_skipped_keys is None else max_num_per_message_skipped_keys
''', '''max_num_per_message_skipped_keys or max_num_per_session_skipped_keys
'''))
ref("li_static", (B, '''        if max_num_per_message_skipped_keys == 0 and max''', '''        self.__check(max_num_per_session_skipped_keys, max_num_per_message_skipped_keys)
        if max_num_per_message_skipped_keys == 0 and max'''), (B, '''    @property
    def max_num_per_session_skipped_keys''', '''    @staticmethod
    def __check(per_session: int, per_message: Optional[int]) -> None:
        if per_session < 0:
            raise ValueError("negative")

        if per_message is not None and not 0 <= per_message <= per_session:
            raise ValueError("out of range")

    @property
    def max_num_per_session_skipped_keys'''))
ref("li_props", (B, "        return self.__max_num_per_message_skipped_keys\n", "        limit: int = self.__max_num_per_message_skipped_keys\n        return limit\n"))
