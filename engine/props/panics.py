"""Arbitrary contents never make an operation panic (H04)."""
from fw import Mon, Scenario, outcome

from . import add as reg
from .failures import like, only
from .keys import keycases
from .pipeline import cases, dec_setup, hdr_conf


class NoPanic(Mon):
    panics = True

    def start(self, e, st):
        pass

    def on_sink(self, e, st, v):
        k, _ = outcome(e, st, v)
        if k == "ok":
            self.oksinks += 1
        self.ob(e, st, "an outcome is reached", True, "")


def h04():
    yield from like(("H03",), lambda s: only(s.mon, "no panic", "version tag is recognised", "algorithm tag is recognised", "mode tag is recognised", "keyslot scheme is decoded"))
    for v in ("V1", "V2", "V3", "V4", "V5"):
        for det in (False, True):
            yield Scenario("decrypt::execute, %s header, %s" % ("detached" if det else "attached", v), "root_decrypt", NoPanic, dec_setup(det), conf=hdr_conf(cases((v,), (0, 2))), min_ok=1)
    for s in keycases(("add", "change", "delete", "verify"), ()):
        s.mon = NoPanic
        yield s
    yield from like(("D02",), NoPanic)
    yield from like(("K02",), NoPanic)


reg(
    "H04",
    "Interprets header parsing for arbitrary file contents, decryption, key commands and header commands for arbitrary headers that parse, and every cipher entry point those reach; no path may reach a panic (overflow check, bounds check, unwrap, length mismatch).",
    *h04())
