"""Protobuf messages as records over the real descriptors: construction, assignment, presence, oneofs and copies.

Native code of the protobuf runtime cannot hold symbolic values, so while a contract is explored symbolically a message is this
record; natively (replay, and native contracts) it is the real one.  What is modelled of a scalar field: the type check, the
range check of the integer types, the default.  Texts are taken as encodable.
"""
from __future__ import annotations

import collections

import z3

from . import sym as S
from .sym import SBool, SBytesInt, SInt, SReal, SStr, Sym, Unsupported

RANGES = {"INT64": (-2 ** 63, 2 ** 63 - 1), "SINT64": (-2 ** 63, 2 ** 63 - 1), "SFIXED64": (-2 ** 63, 2 ** 63 - 1), "UINT64": (0, 2 ** 64 - 1),
          "FIXED64": (0, 2 ** 64 - 1), "INT32": (-2 ** 31, 2 ** 31 - 1), "SINT32": (-2 ** 31, 2 ** 31 - 1), "SFIXED32": (-2 ** 31, 2 ** 31 - 1),
          "UINT32": (0, 2 ** 32 - 1), "FIXED32": (0, 2 ** 32 - 1), "ENUM": (-2 ** 31, 2 ** 31 - 1)}
_KIND = {}


def kind(fd):
    if not _KIND:
        from google.protobuf.descriptor import FieldDescriptor as F
        for n in dir(F):
            if n.startswith("TYPE_"):
                _KIND[getattr(F, n)] = n[5:]
    return _KIND[fd.type]


def is_message_class(cls):
    m = getattr(cls, "DESCRIPTOR", None)
    return m is not None and hasattr(m, "fields_by_name") and hasattr(cls, "SerializeToString")


def message_class(fd):
    return fd.message_type._concrete_class


def scalar(fd, v):
    """The stored value, or the exception the real assignment raises."""
    E = S.E
    k = kind(fd)
    t = v.pytype if isinstance(v, Sym) else type(v)
    if k == "STRING":
        if isinstance(v, SStr) or isinstance(v, str):
            return v
        if issubclass(t, bytes):
            raise Unsupported("bytes given to a text field")
        raise TypeError("bad argument type for built-in operation")
    if k == "BYTES":
        if isinstance(v, (bytes, SBytesInt)):
            return v
        if isinstance(v, (str, SStr)):
            raise TypeError("expected bytes, str found")
        raise TypeError(f"expected bytes, {t.__name__} found")
    if k in RANGES:
        if k == "ENUM" and isinstance(v, (str, SStr)):
            raise Unsupported("enum value by name")
        if issubclass(t, (float, str)) or not hasattr(t, "__index__"):
            raise TypeError(f"'{t.__name__}' object cannot be interpreted as an integer")
        lo, hi = RANGES[k]
        if isinstance(v, Sym):
            n = S.num(v)
            if E.branch(z3.Or(n < lo, n > hi)):
                raise ValueError("Value out of range")
            return SInt(n) if not isinstance(v, SInt) or isinstance(v, S.SIntOf) else v
        v = int(v)
        if not lo <= v <= hi:
            raise ValueError(f"Value out of range: {v}")
        return v
    if k == "BOOL":
        if issubclass(t, (float, str)) or not hasattr(t, "__index__"):
            raise TypeError(f"'{t.__name__}' object cannot be interpreted as an integer")
        if isinstance(v, Sym):
            return v if isinstance(v, SBool) else S.mkbool(S.num(v) != 0)
        return bool(v)
    if k == "DOUBLE":
        if isinstance(v, Sym):
            if isinstance(v, SReal):
                return v
            if isinstance(v, (SInt, SBool)):
                return SReal(z3.ToReal(S.num(v)))
        elif isinstance(v, (int, float)):
            return float(v)
        raise TypeError("must be real number, not " + t.__name__)
    raise Unsupported("protobuf field type " + k)


class PBMsg(Sym):
    """A message under construction."""
    __slots__ = ("pytype", "vals", "sealed", "__weakref__")

    def __init__(self, cls, kw=None):
        E = S.E
        self.pytype = cls
        self.vals = {}
        self.sealed = False
        E.new(self.vals)
        for n, v in (kw or {}).items():
            fd = cls.DESCRIPTOR.fields_by_name.get(n)
            if fd is None:
                raise ValueError(f'Protocol message {cls.__name__} has no "{n}" field.')
            if v is None:
                continue
            self.put(fd, v)

    def __bool__(self):
        return True

    # ---- fields
    def field(self, name):
        fd = self.pytype.DESCRIPTOR.fields_by_name.get(name)
        if fd is None:
            raise AttributeError(name)
        return fd

    def put(self, fd, v):
        E = S.E
        if fd.is_repeated if hasattr(fd, "is_repeated") else fd.label == fd.LABEL_REPEATED:
            v = self.repeated(fd, v)
        elif fd.message_type is not None:
            v = self.message(fd, v)
        else:
            v = scalar(fd, v)
        if fd.containing_oneof is not None:
            for o in fd.containing_oneof.fields:
                if o.name != fd.name and o.name in self.vals:
                    E.touch(self.vals)
                    E._ddel(self.vals, o.name)
        E.touch(self.vals)
        E._dset(self.vals, fd.name, v)

    def message(self, fd, v):
        cls = message_class(fd)
        if isinstance(v, PBMsg):
            if v.pytype is not cls:
                raise TypeError(f"Parameter to initialize message field must be dict or instance of same class: expected {cls} got {v.pytype}.")
            v.sealed = True  # the real runtime copies
            return v
        if isinstance(v, cls):
            return of_native(v)
        raise TypeError("message of the wrong kind")

    def repeated(self, fd, v):
        E = S.E
        q = E.as_sseq(v)
        if q is not None and E.concrete_len(q) is None:
            return q if not isinstance(v, Sym) or isinstance(v, S.SSeq) else E.new(v.m_copy())
        out = []
        for x in E.it(v):
            out.append(self.message(fd, x) if fd.message_type is not None else scalar(fd, x))
        E.new(out)
        E.pb_lists[id(out)] = (self, fd, out)
        return out

    def sym_getattr(self, name):
        E = S.E
        if name in ("HasField", "WhichOneof", "CopyFrom", "ClearField", "Clear"):
            return getattr(self, name)
        if name in ("SerializeToString", "ByteSize", "MergeFrom", "ParseFromString", "SerializePartialToString", "ListFields"):
            raise Unsupported("protobuf " + name)
        fd = self.field(name)
        if name in self.vals:
            return self.vals[name]
        if fd.is_repeated if hasattr(fd, "is_repeated") else fd.label == fd.LABEL_REPEATED:
            v = E.new([])
            E.pb_lists[id(v)] = (self, fd, v)
            E._dset(self.vals, name, v)
            return v
        if fd.message_type is not None:
            if fd.containing_oneof is not None:
                for o in fd.containing_oneof.fields:
                    if o.name in self.vals and self.present(o):
                        # a default instance to look at; writing into it would switch the oneof
                        v = PBMsg(message_class(fd))
                        v.sealed = True
                        return v
            v = PBMsg(message_class(fd))
            E._dset(self.vals, name, v)
            E.pb_lazy.add(id(v))
            E.pb_keep.append(v)
            return v
        return default(fd)

    def sym_setattr(self, name, v):
        if self.sealed:
            raise Unsupported("assignment to a message already copied into another")
        fd = self.field(name)
        if fd.message_type is not None or (fd.is_repeated if hasattr(fd, "is_repeated") else fd.label == fd.LABEL_REPEATED):
            raise AttributeError(f'Assignment not allowed to message, map, or repeated field "{name}" in protocol message object.')
        if v is None:
            raise TypeError("bad argument type for built-in operation")
        self.put(fd, v)

    # ---- presence
    def present(self, fd):
        """Whether a field with presence is set."""
        E = S.E
        if fd.name not in self.vals:
            return False
        v = self.vals[fd.name]
        if isinstance(v, PBMsg) and id(v) in E.pb_lazy:
            return any_set(v)
        return True

    def HasField(self, name):
        fd = self.field(name)
        if not fd.has_presence:
            raise ValueError(f"Field {name} does not have presence.")
        return self.present(fd)

    def WhichOneof(self, name):
        o = self.pytype.DESCRIPTOR.oneofs_by_name.get(name)
        if o is None:
            raise ValueError(f"no oneof {name}")
        for fd in o.fields:
            if self.present(fd):
                return fd.name
        return None

    def CopyFrom(self, other):
        E = S.E
        if not isinstance(other, PBMsg) or other.pytype is not self.pytype:
            raise TypeError("CopyFrom of another kind of message")
        for n in list(self.vals):
            E._ddel(self.vals, n)
        for n, v in other.vals.items():
            if isinstance(v, PBMsg):
                v.sealed = True
            elif type(v) is list:
                w = E.new(list(v))
                E.pb_lists[id(w)] = (self, self.field(n), w)
                v = w
            E._dset(self.vals, n, v)

    def ClearField(self, name):
        if name in self.vals:
            S.E._ddel(self.vals, name)

    def Clear(self):
        for n in list(self.vals):
            S.E._ddel(self.vals, n)

    def sym_eq(self, o):
        E = S.E
        if not isinstance(o, PBMsg):
            return False
        if o.pytype is not self.pytype:
            return False

        def gen():
            for fd in self.pytype.DESCRIPTOR.fields:
                if fd.has_presence:
                    p, q = self.present(fd), o.present(fd)
                    if p != q:
                        yield False
                        return
                    if not p:
                        continue
                yield E.eq(self.sym_getattr(fd.name), o.sym_getattr(fd.name))

        return E.conj(gen())


def any_set(m):
    E = S.E
    for n, v in m.vals.items():
        fd = m.field(n)
        if isinstance(v, PBMsg):
            if id(v) not in E.pb_lazy or any_set(v):
                return True
        elif fd.has_presence:
            return True
        elif fd.is_repeated if hasattr(fd, "is_repeated") else fd.label == fd.LABEL_REPEATED:
            if E.t(v):
                return True
        else:
            return True  # assigned, even to its default
    return False


def default(fd):
    k = kind(fd)
    return {"STRING": "", "BYTES": b"", "BOOL": False, "DOUBLE": 0.0}.get(k, 0)


def added(lst, v):
    """An element put into a repeated field: checked, and copied."""
    owner = S.E.pb_lists.get(id(lst))
    if owner is None:
        return v
    m, fd, _ = owner
    return m.message(fd, v) if fd.message_type is not None else scalar(fd, v)


def of_native(v):
    """The record of a real message."""
    m = PBMsg(type(v))
    for fd, x in v.ListFields():
        if fd.is_repeated if hasattr(fd, "is_repeated") else fd.label == fd.LABEL_REPEATED:
            m.put(fd, [of_native(y) if fd.message_type is not None else y for y in x])
        else:
            m.put(fd, of_native(x) if fd.message_type is not None else x)
    return m
