"""Pure-python models of the protobuf messages, generated from the real descriptors.

Only used in the symbolic run (the C implementation cannot hold proxies).  Every path's model is replayed
against the real protobuf implementation, which validates these models."""
import importlib
import os
import sys
import types

from . import engine as E
from .engine import SymBool, SymNum, SymStr, deep_eq
from .instrument import h_getitem, h_setitem, h_in, _key, MISSING

SYM = (SymBool, SymNum, SymStr)


def _tofloat(v):
    if type(v) is SymNum:
        return SymNum(v.t, True)
    return float(v)


def _to_value(v):
    if v is None:
        return None
    if isinstance(v, bool):
        return v
    if isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        return _tofloat(v)
    if isinstance(v, (dict, Struct)):
        s = Struct()
        s.update(v)
        return s
    if isinstance(v, (list, tuple, ListValue)):
        lv = ListValue()
        lv.extend(v)
        return lv
    raise ValueError("Unexpected type")


class Struct:
    """google.protobuf.Struct"""

    _symx_model = True
    DESCRIPTOR = None

    def __init__(self, fields=None):
        self._d = {}
        if fields:
            raise TypeError("Struct(fields=...) is not modelled")

    def __getitem__(self, k):
        kk = _key(self._d, k)
        if kk is MISSING:
            # real: self.fields[key] on a message map creates the entry; its value has no kind set
            raise ValueError("Value not set")
        return self._d[kk]

    def __contains__(self, k):
        return bool(h_in(k, self._d))

    def _sx_in(self, k):
        return h_in(k, self._d)

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise TypeError("bad key type")
        h_setitem(self._d, k, _to_value(v))

    def __delitem__(self, k):
        kk = _key(self._d, k)
        if kk is not MISSING:
            del self._d[kk]

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        return iter(list(self._d))

    def keys(self):
        return list(self._d.keys())

    def values(self):
        return list(self._d.values())

    def items(self):
        return list(self._d.items())

    def update(self, d):
        for k, v in d.items():
            self[k] = v

    def get_or_create_struct(self, k):
        if k not in self._d or not isinstance(self._d[k], Struct):
            self._d[k] = Struct()
        return self._d[k]

    def get_or_create_list(self, k):
        if k not in self._d or not isinstance(self._d[k], ListValue):
            self._d[k] = ListValue()
        return self._d[k]

    def CopyFrom(self, o):
        self._d = {k: _copy(v) for k, v in o._d.items()}

    def MergeFrom(self, o):
        self.update(o)

    def Clear(self):
        self._d = {}

    def __eq__(self, o):
        if not isinstance(o, Struct):
            return NotImplemented
        return deep_eq(plain(self), plain(o))

    __hash__ = None

    def __repr__(self):
        return "Struct(%r)" % (self._d,)

    def ByteSize(self):
        return len(self._d)

    def SerializeToString(self, **k):
        raise E.EngineLimit("serialisation to bytes")

    @property
    def fields(self):
        raise E.EngineLimit("Struct.fields")


class ListValue:
    _symx_model = True

    def __init__(self, values=None):
        self._l = []
        if values:
            raise TypeError("ListValue(values=...) is not modelled")

    def __len__(self):
        return len(self._l)

    def __getitem__(self, i):
        return self._l[i]

    def __setitem__(self, i, v):
        self._l[i] = _to_value(v)

    def __delitem__(self, i):
        del self._l[i]

    def __iter__(self):
        # real ListValue iterates through __getitem__ until IndexError
        return iter(list(self._l))

    def append(self, v):
        self._l.append(_to_value(v))

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def items(self):
        for i in range(len(self)):
            yield self[i]

    def add_struct(self):
        s = Struct()
        self._l.append(s)
        return s

    def add_list(self):
        s = ListValue()
        self._l.append(s)
        return s

    def CopyFrom(self, o):
        self._l = [_copy(x) for x in o._l]

    def __eq__(self, o):
        if not isinstance(o, ListValue):
            return NotImplemented
        return deep_eq(plain(self), plain(o))

    __hash__ = None

    def __repr__(self):
        return "ListValue(%r)" % (self._l,)


class Value:
    _symx_model = True


def _copy(v):
    if isinstance(v, Struct):
        s = Struct()
        s.CopyFrom(v)
        return s
    if isinstance(v, ListValue):
        s = ListValue()
        s.CopyFrom(v)
        return s
    if isinstance(v, Message):
        n = type(v)()
        n.CopyFrom(v)
        return n
    return v


def plain(v):
    if isinstance(v, Struct):
        return {k: plain(x) for k, x in v._d.items()}
    if isinstance(v, ListValue):
        return [plain(x) for x in v._l]
    return v


class Repeated(list):
    """Repeated field container (type checked)."""

    def __init__(self, fd):
        super().__init__()
        self._fd = fd

    def append(self, v):
        super().append(_check_scalar(self._fd, v))

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def add(self, **kw):
        m = _msgclass(self._fd.message_type)(**kw)
        super().append(m)
        return m


class MapField(dict):
    def __init__(self, fd):
        super().__init__()
        self._kfd = fd.message_type.fields_by_name["key"]
        self._vfd = fd.message_type.fields_by_name["value"]

    def __setitem__(self, k, v):
        if self._vfd.message_type is not None:
            raise ValueError("May not set values directly")
        super().__setitem__(_check_scalar(self._kfd, k), _check_scalar(self._vfd, v))

    def __missing__(self, k):
        if self._vfd.message_type is not None:
            v = _msgclass(self._vfd.message_type)()
            dict.__setitem__(self, k, v)
            return v
        v = _default(self._vfd)
        dict.__setitem__(self, k, v)
        return v

    def get(self, k, d=None):
        return dict.__getitem__(self, k) if k in self else d

    def update(self, o):
        for k, v in o.items():
            if self._vfd.message_type is not None:
                dict.__setitem__(self, _check_scalar(self._kfd, k), _copy(v))
            else:
                self[k] = v


CLASSES = {}
T_DOUBLE, T_FLOAT, T_BOOL, T_STRING, T_BYTES, T_ENUM, T_MSG = 1, 2, 8, 9, 12, 14, 11


def _msgclass(d):
    return CLASSES[d.full_name]


def _default(fd):
    if fd.type == T_STRING:
        return ""
    if fd.type == T_BOOL:
        return False
    if fd.type == T_BYTES:
        return b""
    if fd.type in (T_DOUBLE, T_FLOAT):
        return 0.0
    return 0


def _check_scalar(fd, v):
    if fd.type == T_STRING:
        if not isinstance(v, str):
            raise TypeError("bad argument type for built-in operation: %r for string field %s" % (type(v), fd.name))
        return v
    if fd.type == T_BOOL:
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return bool(v)
        raise TypeError("%r has type %s, but expected one of: bool" % (v, type(v)))
    if fd.type in (T_DOUBLE, T_FLOAT):
        if isinstance(v, (int, float)):
            return _tofloat(v)
        raise TypeError("bad float")
    if fd.type == T_BYTES:
        return v
    if fd.type == T_MSG:
        if not isinstance(v, _msgclass(fd.message_type)):
            raise TypeError("bad message type")
        return _copy(v)
    if isinstance(v, (int,)) and not isinstance(v, float):
        return v
    raise TypeError("%r has type %s, but expected one of: int for field %s" % (v, type(v), fd.name))


class Message:
    _symx_model = True
    DESCRIPTOR = None

    def __init__(self, **kw):
        object.__setattr__(self, "_f", {})
        object.__setattr__(self, "_set", set())
        fbn = self.DESCRIPTOR.fields_by_name
        for k, v in kw.items():
            fd = fbn.get(k)
            if fd is None:
                raise ValueError("Protocol message %s has no %r field." % (self.DESCRIPTOR.name, k))
            if v is None:
                continue
            if fd.label == 3:
                c = self._container(fd)
                if isinstance(c, MapField):
                    c.update(v)
                else:
                    if fd.message_type is not None:
                        for x in v:
                            c.append(_msgclass(fd.message_type)(**x) if isinstance(x, dict) else x)
                    else:
                        c.extend(v)
            elif fd.message_type is not None:
                if isinstance(v, dict):
                    if fd.message_type.full_name == "google.protobuf.Struct":
                        raise TypeError("dict for Struct field")
                    v = _msgclass(fd.message_type)(**v)
                cls = _msgclass(fd.message_type)
                if not isinstance(v, cls):
                    raise TypeError("Parameter to MergeFrom() must be instance of same class: expected %s got %s" % (
                        cls, type(v)))
                self._f[k] = _copy(v)
                self._set.add(k)
            else:
                self._f[k] = _check_scalar(fd, v)
                self._set.add(k)

    def _container(self, fd):
        c = self._f.get(fd.name)
        if c is None:
            if fd.message_type is not None and fd.message_type.GetOptions().map_entry:
                c = MapField(fd)
            else:
                c = Repeated(fd)
            self._f[fd.name] = c
        return c

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        fd = self.DESCRIPTOR.fields_by_name.get(k)
        if fd is None:
            raise AttributeError(k)
        if fd.label == 3:
            return self._container(fd)
        if k in self._f:
            return self._f[k]
        if fd.message_type is not None:
            m = _msgclass(fd.message_type)()
            self._f[k] = m
            return m
        return _default(fd)

    def __setattr__(self, k, v):
        fd = self.DESCRIPTOR.fields_by_name.get(k)
        if fd is None:
            raise AttributeError("Protocol message has no field %s" % k)
        if fd.label == 3 or fd.message_type is not None:
            raise AttributeError("Assignment not allowed to message, map, or repeated field %r" % k)
        self._f[k] = _check_scalar(fd, v)
        self._set.add(k)

    def HasField(self, k):
        fd = self.DESCRIPTOR.fields_by_name.get(k)
        if fd is None or fd.label == 3:
            raise ValueError(k)
        return k in self._set or (fd.message_type is not None and k in self._f and _nonempty(self._f[k]))

    def CopyFrom(self, o):
        self.__dict__["_f"] = {}
        self.__dict__["_set"] = set(o._set)
        for k, v in o._f.items():
            fd = self.DESCRIPTOR.fields_by_name[k]
            if fd.label == 3:
                c = self._container(fd)
                if isinstance(c, MapField):
                    c.update(v)
                else:
                    c.extend(v)
            else:
                self._f[k] = _copy(v)

    def ByteSize(self):
        return 1

    def __repr__(self):
        return "%s(%r)" % (self.DESCRIPTOR.name, self._f)

    def __eq__(self, o):
        if type(o) is not type(self):
            return NotImplemented
        for n in self.DESCRIPTOR.fields_by_name:
            if not (getattr(self, n) == getattr(o, n)):
                return False
        return True

    __hash__ = None

    @classmethod
    def FromString(cls, b):
        raise E.EngineLimit("bytes")

    def SerializeToString(self, **k):
        raise E.EngineLimit("bytes")


def _nonempty(m):
    return bool(m._d) if isinstance(m, Struct) else True


def build(root):
    """Returns {module name: model module} for pulumi.runtime.proto.* and swaps google.protobuf.{struct,empty}_pb2."""
    import google.protobuf
    from google.protobuf import empty_pb2, struct_pb2

    proto_dir = os.path.join(root, "pulumi", "runtime", "proto")
    pkg = types.ModuleType("_realproto")
    pkg.__path__ = [proto_dir]
    sys.modules["_realproto"] = pkg
    CLASSES["google.protobuf.Struct"] = Struct
    CLASSES["google.protobuf.ListValue"] = ListValue
    CLASSES["google.protobuf.Value"] = Value

    def mk(d):
        if d.full_name in CLASSES:
            return CLASSES[d.full_name]
        c = type(d.name, (Message,), {"DESCRIPTOR": d, "__module__": d.file.name})
        CLASSES[d.full_name] = c
        for n in d.nested_types:
            if not n.GetOptions().map_entry:
                setattr(c, n.name, mk(n))
        for e in d.enum_types:
            for v in e.values:
                setattr(c, v.name, v.number)
        return c

    Struct.DESCRIPTOR = struct_pb2.Struct.DESCRIPTOR
    ListValue.DESCRIPTOR = struct_pb2.ListValue.DESCRIPTOR
    out = {}
    mk(empty_pb2.Empty.DESCRIPTOR)
    for fn in sorted(os.listdir(proto_dir)):
        if not fn.endswith("_pb2.py"):
            continue
        short = fn[:-3]
        real = importlib.import_module("_realproto." + short)
        m = types.ModuleType("pulumi.runtime.proto." + short)
        m.DESCRIPTOR = real.DESCRIPTOR
        for d in real.DESCRIPTOR.message_types_by_name.values():
            setattr(m, d.name, mk(d))
        for e in real.DESCRIPTOR.enum_types_by_name.values():
            setattr(m, e.name, getattr(real, e.name))
            for v in e.values:
                setattr(m, v.name, v.number)
        out[m.__name__] = m
    sm = types.ModuleType("google.protobuf.struct_pb2")
    sm.Struct, sm.ListValue, sm.Value, sm.NULL_VALUE = Struct, ListValue, Value, 0
    sys.modules["google.protobuf.struct_pb2"] = sm
    google.protobuf.struct_pb2 = sm
    em = types.ModuleType("google.protobuf.empty_pb2")
    em.Empty = CLASSES["google.protobuf.Empty"]
    sys.modules["google.protobuf.empty_pb2"] = em
    google.protobuf.empty_pb2 = em
    return out
