"""Specialises plugin/template.wasm: metadata and behaviour of each entry point are data."""
import hashlib, json, os, struct
from common import VERIF

MODES = {m: i for i, m in enumerate(["ECHO", "CONST", "TRAP", "GETLOG", "IDENTITY", "WHOLE", "INNER", "SQUARE",
                                     "CURLY", "ERR", "NOOUT", "ECHOSEQ", "LOOP", "SLOW"])}
CFGSIZE = 49152
NENTRIES = 24
_template = None


def T(kind):
    """Types by short names: I B A, O (optional), * (array)."""
    return {"I": "TInline", "B": "TBlock", "A": "TAST", "O": {"TOption": "TInline"}, "*": {"TArray": "TInline"},
            "OB": {"TOption": "TBlock"}, "*B": {"TArray": "TBlock"}, "IC": {"TInlineCmd": "TInline"},
            "BC": {"TBlockCmd": "TBlock"}}[kind]


def command(name, entry, ret, args=(), mode="ECHO", payload=None):
    """A command: declared under name for return type ret, served by export c<entry>."""
    return {"name": name, "entry": entry, "ret": ret, "args": list(args), "mode": mode,
            "payload": payload if payload is not None else "c%d" % entry}


def build(commands, getlog=True, metadata=None, pad=0):
    """The plugin's bytes. metadata overrides the text returned by get_metadata."""
    global _template
    if _template is None:
        _template = open(os.path.join(VERIF, "plugin", "template.wasm"), "rb").read()
    cmds = list(commands)
    if getlog:
        cmds = cmds + [command("getlog", NENTRIES - 1, "I", mode="GETLOG", payload="")]
    if metadata is None:
        metadata = json.dumps([{"command_name": c["name"], "call_name": c.get("call") or "c%d" % c["entry"],
                                "argument_types": [["a%d" % i, T(a)] for i, a in enumerate(c["args"])],
                                "return_type": T(c["ret"])} for c in cmds], ensure_ascii=False)
    metadata = metadata.encode() if isinstance(metadata, str) else metadata
    entries = [(MODES["ECHO"], b"")] * NENTRIES
    for c in cmds:
        p = c["payload"]
        entries[c["entry"]] = (MODES["SLOW" if c.get("slow") else c["mode"]], p.encode() if isinstance(p, str) else p)
    head = b"BRKCFG01" + struct.pack("<II", len(metadata), NENTRIES)
    off = 16 + 9 * NENTRIES + len(metadata)
    table, blob = b"", b""
    for mode, payload in entries:
        table += struct.pack("<BII", mode, off + len(blob), len(payload))
        blob += payload
    cfg = head + table + metadata + blob
    assert len(cfg) <= CFGSIZE, len(cfg)
    i = _template.index(b"BRKCFG01")
    return padded(_template[:i] + cfg + _template[i + len(cfg):], pad)


def padded(b, n):
    """The same plugin with a custom section of n bytes more."""
    if not n:
        return b
    body = b"\x03pad" + hashlib.shake_256(b"pad").digest(n)
    size, k = b"", len(body)
    while k > 127:
        size, k = size + bytes([k & 127 | 128]), k >> 7
    return b + b"\0" + size + bytes([k]) + body
