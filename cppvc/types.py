"""Types of the supported C++ subset, parsed from clang's type spellings."""
from .cast import Unsupported

INTS = {
    "bool": (1, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
    "short": (16, True), "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False),
    "unsigned": (32, False), "long": (64, True), "unsigned long": (64, False), "long long": (64, True),
    "unsigned long long": (64, False), "size_t": (64, False), "std::size_t": (64, False),
    "uint8_t": (8, False), "uint16_t": (16, False), "uint32_t": (32, False), "uint64_t": (64, False),
    "int8_t": (8, True), "int16_t": (16, True), "int32_t": (32, True), "int64_t": (64, True),
    "ptrdiff_t": (64, True), "size_type": (64, False), "difference_type": (64, True),
    "std::ptrdiff_t": (64, True), "uintptr_t": (64, False), "__u8": (8, False),
}


class Ty:
    __slots__ = ("k", "a", "name", "n")

    def __init__(self, k, a=(), name=None, n=None):
        self.k, self.a, self.name, self.n = k, tuple(a), name, n

    def __repr__(self):
        s = self.k
        if self.name:
            s += ":" + self.name
        if self.a:
            s += "<" + ",".join(map(repr, self.a)) + ">"
        if self.n is not None:
            s += "[%s]" % (self.n,)
        return s

    def key(self):
        return repr(self)

    def __eq__(self, o):
        return isinstance(o, Ty) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))

    @property
    def elem(self):
        return self.a[0]

    def isint(self):
        return self.k in ("int", "enum")

    def bits(self):
        return self.n[0] if self.k == "int" else 32

    def signed(self):
        return self.n[1] if self.k == "int" else True


def INT(bits, signed):
    return Ty("int", n=(bits, signed))


SIZE = INT(64, False)
U8 = INT(8, False)
CHAR = INT(8, True)
I32 = INT(32, True)
U32 = INT(32, False)
I64 = INT(64, True)
BOOL = Ty("bool")
VOID = Ty("void")
STR = Ty("str")
STATUS = Ty("status")


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_q(s):
    s = s.strip()
    ch = True
    while ch:
        ch = False
        for p in ("const ", "volatile ", "class ", "struct ", "enum ", "typename ", "constexpr "):
            if s.startswith(p):
                s = s[len(p):].strip()
                ch = True
        for p in (" const", " volatile", "*const", "*restrict", "*__restrict"):
            if s.endswith(p):
                s = s[:-len(p) + (1 if p[0] == "*" else 0)].strip()
                ch = True
    return s


_cache = {}


def parse(s, tu):
    key = (s, id(tu))
    if key in _cache:
        return _cache[key]
    t = _parse(s, tu)
    _cache[key] = t
    return t


def _parse(s, tu, depth=0):
    if depth > 20:
        raise Unsupported("type recursion " + s)
    s = strip_q(s)
    if s.endswith("&&"):
        return Ty("ref", [_parse(s[:-2], tu, depth + 1)])
    if s.endswith("&"):
        return Ty("ref", [_parse(s[:-1], tu, depth + 1)])
    if s.endswith(")"):
        # function pointer or function type
        return Ty("func", name=s)
    if s.endswith("*"):
        return Ty("ptr", [_parse(s[:-1], tu, depth + 1)])
    if s.endswith("]"):
        i = s.rindex("[")
        inner = s[i + 1:-1]
        n = int(inner) if inner.isdigit() else None
        return Ty("arr", [_parse(s[:i], tu, depth + 1)], n=n)
    if s in INTS:
        if s == "bool":
            return BOOL
        b, sg = INTS[s]
        return INT(b, sg)
    if s == "void":
        return VOID
    if s in ("std::nullptr_t", "nullptr_t"):
        return Ty("ptr", [VOID])
    if s in ("double", "float"):
        return Ty("double")
    base, args = s, None
    if s.endswith(">") and "<" in s:
        i = s.index("<")
        base = s[:i]
        args = split_args(s[i + 1:-1])
    last = base.split("::")[-1]
    if args is not None:
        if last == "vector":
            return Ty("vec", [_parse(args[0], tu, depth + 1)])
        if last == "basic_string":
            return STR
        if last in ("basic_string_view",):
            return Ty("sv")
        if last == "unique_ptr" or last == "UniquePtr":
            return Ty("uptr", [_parse(args[0], tu, depth + 1)])
        if last == "variant":
            return Ty("variant", [_parse(a, tu, depth + 1) for a in args])
        if last == "StatusOr":
            return Ty("statusor", [_parse(args[0], tu, depth + 1)])
        if last == "function":
            return Ty("func", name=s)
        if last == "flat_hash_set":
            return Ty("set", [_parse(args[0], tu, depth + 1)])
        if last == "flat_hash_map":
            return Ty("map", [_parse(args[0], tu, depth + 1), _parse(args[1], tu, depth + 1)])
        if last == "__normal_iterator":
            p = _parse(args[0], tu, depth + 1)
            return Ty("ptr", [p.elem])
        if last == "initializer_list":
            return Ty("initlist", [_parse(args[0], tu, depth + 1)])
        if last == "pair":
            return Ty("pair", [_parse(a, tu, depth + 1) for a in args[:2]])
        if last == "array":
            return Ty("arr", [_parse(args[0], tu, depth + 1)], n=int(args[1]))
        if last == "reverse_iterator":
            return Ty("riter", [_parse(args[0], tu, depth + 1)])
        if last in ("remove_reference_t", "type_identity_t"):
            return _parse(args[0], tu, depth + 1)
        return Ty("opaque", name=s)
    if s in ("std::string", "string"):
        return STR
    if last in ("string_view",):
        return Ty("sv")
    if s in ("absl::Status", "::absl::Status", "Status"):
        return STATUS
    if s in ("absl::StatusCode", "StatusCode"):
        return Ty("enum", name="absl::StatusCode")
    if last == "Mutex":
        return Ty("mutex")
    if last in ("MutexLock", "ReleasableMutexLock", "ReaderMutexLock", "WriterMutexLock"):
        return Ty("lock", name=last)
    if s.startswith("(lambda"):
        return Ty("lambda", name=s)
    if tu is not None:
        if s in tu.cenums:
            return Ty("enum", name=s)
        r = tu.record(s)
        if r is not None:
            return Ty("rec", name=r[0])
        for q, e in tu.enums.items():
            if tu.norm(q) == s or tu.norm(q).endswith("::" + s):
                return Ty("enum", name=tu.norm(q))
        if s in tu.aliases and tu.aliases[s] and tu.aliases[s] != s:
            return _parse(tu.aliases[s], tu, depth + 1)
        for q, ts in tu.aliases.items():
            if q.endswith("::" + s) and ts and ts != s:
                return _parse(ts, tu, depth + 1)
    return Ty("opaque", name=s)
