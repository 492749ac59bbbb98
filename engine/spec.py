"""The published on-disk format, as an oracle over symbolic byte strings."""
from core import blen, bmerge, lit, seg, zeros
from fw import same_bytes
from lin import add, sub, sym

VERSIONS = {"V1": b"\xde\x01", "V2": b"\xde\x02", "V3": b"\xde\x03", "V4": b"\xde\x04", "V5": b"\xde\x05"}
ALGS = {"XChaCha20Poly1305": b"\x0e\x01", "Aes256Gcm": b"\x0e\x02", "DeoxysII256": b"\x0e\x03"}
MODES = {"StreamMode": b"\x0c\x01", "MemoryMode": b"\x0c\x02"}
SLOTS = {("Argon2id", 1): b"\xdf\xa1", ("Argon2id", 2): b"\xdf\xa2", ("Argon2id", 3): b"\xdf\xa3", ("Blake3Balloon", 4): b"\xdf\xb4", ("Blake3Balloon", 5): b"\xdf\xb5"}
SIZE = {"V1": 64, "V2": 64, "V3": 64, "V4": 128, "V5": 416}
NONCE = {"XChaCha20Poly1305": 24, "Aes256Gcm": 12, "DeoxysII256": 15}
AEAD = {"XChaCha20Poly1305": "XChaCha20-Poly1305", "Aes256Gcm": "AES-256-GCM", "DeoxysII256": "Deoxys-II-256"}


def nlen(alg, mode):
    return NONCE[alg] - (4 if mode == "StreamMode" else 0)


def layout(ver, alg, mode):
    """[(field, offset, length)] of everything that carries information; the rest is zero"""
    n, m = nlen(alg, mode), nlen(alg, "MemoryMode")
    f = [("version", 0, 2), ("algorithm", 2, 2), ("mode", 4, 2)]
    if ver in ("V1", "V3"):
        f += [("salt", 6, 16), ("nonce", 38, n)]
    elif ver == "V2":
        f += [("salt", 6, 16), ("nonce", 22, n)]
    elif ver == "V4":
        f += [("salt", 6, 16), ("nonce", 22, n), (("slot", 0, "key"), 48, 48), (("slot", 0, "nonce"), 96, m)]
    else:
        f += [("nonce", 6, n)]
        for i in range(4):
            b = 32 + 96 * i
            f += [(("slot", i, "id"), b, 2), (("slot", i, "key"), b + 2, 48), (("slot", i, "nonce"), b + 50, m), (("slot", i, "salt"), b + 74, 16)]
    return f


def compose(ver, alg, mode, vals):
    """the bytes of a header whose fields have the values vals; absent fields are zero"""
    segs = []
    pos = 0
    for name, off, n in layout(ver, alg, mode):
        if off > pos:
            segs += zeros(off - pos)[1]
        segs += (vals.get(name) or zeros(n))[1]
        pos = off + n
    if pos < SIZE[ver]:
        segs += zeros(SIZE[ver] - pos)[1]
    return ("B", bmerge(tuple(segs), _nocons))


class _NC:
    @staticmethod
    def norm(x):
        return x


_nocons = _NC()


def aad(e, st, ver, alg, full):
    """the authenticated part of the header bytes `full`"""
    if ver in ("V1", "V2"):
        return ("B", ())
    if ver == "V3":
        return full
    if ver == "V4":
        m = nlen(alg, "MemoryMode")
        a, b = e.bslice(st, full, 0, 48), e.bslice(st, full, 96 + m, 32 - m)
        return ("B", bmerge(a[1] + b[1], st.cons))
    return e.bslice(st, full, 0, 32)


def parse(e, st, full):
    """decode header bytes: (version, algorithm, mode, {field: bytes}) or None if the tags are not literal"""
    from natives import is_lit, flat

    if st.cons.norm(blen(full)) not in (64, 128, 416):
        return None
    t = e.bslice(st, full, 0, 6)
    if not is_lit(t):
        return None
    t = flat(t)
    inv = lambda d, k: next((x for x, y in d.items() if y == k), None)
    v, a, m = inv(VERSIONS, t[:2]), inv(ALGS, t[2:4]), inv(MODES, t[4:6])
    if v is None or a is None or m is None or SIZE[v] != st.cons.norm(blen(full)):
        return None
    return v, a, m, {n: e.bslice(st, full, o, l) for n, o, l in layout(v, a, m)}
