"""Stand-in for the cbor2 package (not installed here): the part of RFC 8949 that plain data needs."""
import struct


def _head(major, n):
    if n < 24:
        return bytes([major << 5 | n])
    for code, size in ((24, 1), (25, 2), (26, 4), (27, 8)):
        if n < 1 << (8 * size):
            return bytes([major << 5 | code]) + n.to_bytes(size, "big")
    raise ValueError("integer too large")


def dumps(x):
    if x is None:
        return b"\xf6"
    if x is False:
        return b"\xf4"
    if x is True:
        return b"\xf5"
    if isinstance(x, int):
        return _head(0, x) if x >= 0 else _head(1, -1 - x)
    if isinstance(x, float):
        return b"\xfb" + struct.pack(">d", x)
    if isinstance(x, bytes):
        return _head(2, len(x)) + x
    if isinstance(x, str):
        b = x.encode()
        return _head(3, len(b)) + b
    if isinstance(x, (list, tuple)):
        return _head(4, len(x)) + b"".join(map(dumps, x))
    if isinstance(x, dict):
        return _head(5, len(x)) + b"".join(dumps(k) + dumps(v) for k, v in x.items())
    raise TypeError(f"cannot encode {type(x)}")


def loads(data):
    val, end = _load(data, 0)
    if end != len(data):
        raise ValueError("trailing bytes")
    return val


def _load(d, i):
    major, n = d[i] >> 5, d[i] & 31
    i += 1
    if major == 7:
        if n == 27:
            return struct.unpack(">d", d[i : i + 8])[0], i + 8
        return {20: False, 21: True, 22: None}[n], i
    if n >= 24:
        size = 1 << (n - 24)
        if len(d) < i + size:
            raise ValueError("truncated")
        n, i = int.from_bytes(d[i : i + size], "big"), i + size
    if major == 0:
        return n, i
    if major == 1:
        return -1 - n, i
    if major in (2, 3):
        if len(d) < i + n:
            raise ValueError("truncated")
        b = bytes(d[i : i + n])
        return (b if major == 2 else b.decode()), i + n
    if major == 4:
        out = []
        for _ in range(n):
            v, i = _load(d, i)
            out.append(v)
        return out, i
    if major == 5:
        out = {}
        for _ in range(n):
            k, i = _load(d, i)
            v, i = _load(d, i)
            out[k] = v
        return out, i
    raise ValueError("unsupported")
