"""Small helpers for the demonstrations: mapblocks, maps, and running mapeditr."""
import os, shutil, sqlite3, struct, subprocess, sys, tempfile, zlib
HERE = os.path.dirname(os.path.abspath(__file__))
BIN = os.path.join(os.getcwd(), "target", "debug", "mapeditr")
DIR = tempfile.mkdtemp(prefix="medemo")
import atexit
atexit.register(lambda: shutil.rmtree(DIR, ignore_errors=True))

def s16(b): return struct.pack(">H", len(b)) + b
def s32(b): return struct.pack(">I", len(b)) + b
def key(x, y, z): return x + y * 4096 + z * 16777216
def idx(x, y, z): return x + 16 * y + 256 * z
def meta(vars, inv=b"EndInventory\n", private=()):
    return dict(vars=dict(vars), inv=inv, private=set(private))
def ent(name, data=b"", pos=(0, 0, 0)):
    return (7, pos, b"\x01" + s16(name) + s32(data) + b"\0" * 26)

def block(names=(b"air",), nodes=None, p1=None, p2=None, metas=(), objs=(), timers=(), version=28, flags=3, light=0xFFFF, stamp=7, ids=None):
    """names: id -> name in order (or `ids` as dict); nodes: list of 4096 ids."""
    ids = ids or dict(enumerate(names))
    nodes = nodes or [0] * 4096
    o = bytes([version, flags])
    if version >= 27: o += struct.pack(">H", light)
    o += b"\x02\x02"
    o += zlib.compress(struct.pack(">4096H", *nodes) + bytes(p1 or [15] * 4096) + bytes(p2 or [0] * 4096))
    mv = 2 if version >= 28 else 1
    metas = dict(metas)
    m = b"\0" if not metas else bytes([mv]) + struct.pack(">H", len(metas))
    for p, d in sorted(metas.items()):
        m += struct.pack(">HI", p, len(d["vars"]))
        for k, v in d["vars"].items():
            m += s16(k) + s32(v) + (bytes([k in d["private"]]) if mv >= 2 else b"")
        m += d["inv"]
    o += zlib.compress(m)
    o += b"\0" + struct.pack(">H", len(objs))
    for t, pos, d in objs: o += bytes([t]) + struct.pack(">iii", *pos) + s16(d)
    o += struct.pack(">I", stamp)
    o += b"\0" + struct.pack(">H", len(ids))
    for i, n in sorted(ids.items()): o += struct.pack(">H", i) + s16(n)
    o += b"\x0a" + struct.pack(">H", len(timers))
    for t in timers: o += struct.pack(">HII", *t)
    return o

class Bad(Exception): pass
def parse(d):
    """Decodes a mapblock of version 25-28."""
    pos = 0
    def take(n):
        nonlocal pos
        if pos + n > len(d): raise Bad("short")
        pos += n
        return d[pos - n:pos]
    def u(f):
        return struct.unpack(">" + f, take(struct.calcsize(">" + f)))
    b = {}
    b["version"], b["flags"] = u("BB")
    if b["version"] >= 27: b["light"], = u("H")
    assert u("BB") == (2, 2)
    def z():
        nonlocal pos
        x = zlib.decompressobj()
        r = x.decompress(d[pos:])
        if not x.eof: raise Bad("zlib")
        pos = len(d) - len(x.unused_data)
        return r
    nd = z()
    b["ids"] = list(struct.unpack(">4096H", nd[:8192])); b["p1"] = list(nd[8192:12288]); b["p2"] = list(nd[12288:])
    md = z(); mp = 0
    def mu(f):
        nonlocal mp
        n = struct.calcsize(">" + f); mp += n
        return struct.unpack(">" + f, md[mp - n:mp])
    b["meta"] = {}
    mv, = mu("B")
    if mv:
        for _ in range(mu("H")[0]):
            p, n = mu("HI"); vs = {}; pr = set()
            for _ in range(n):
                l, = mu("H"); k = md[mp:mp + l]; mp += l
                l, = mu("I"); v = md[mp:mp + l]; mp += l
                vs[k] = v
                if mv >= 2 and mu("B")[0]: pr.add(k)
            e = md.index(b"EndInventory\n", mp) + 13
            b["meta"][p] = meta(vs, md[mp:e], pr); mp = e
        if mp != len(md): raise Bad("metadata")
    assert u("B")[0] == 0
    b["objs"] = []
    for _ in range(u("H")[0]):
        t, = u("B"); p = u("iii"); l, = u("H"); b["objs"].append((t, p, take(l)))
    b["stamp"], = u("I")
    assert u("B")[0] == 0
    b["map"] = {}
    for _ in range(u("H")[0]):
        i, l = u("HH"); b["map"][i] = take(l)
    assert u("B")[0] == 10
    b["timers"] = [u("HII") for _ in range(u("H")[0])]
    if pos != len(d): raise Bad("trailing")
    b["nodes"] = [b["map"].get(i) for i in b["ids"]]
    return b

def mkmap(name, rows, page=4096):
    p = os.path.join(DIR, name)
    c = sqlite3.connect(p)
    c.execute("PRAGMA page_size=%d" % page)
    c.execute("CREATE TABLE `blocks` (`pos` INT NOT NULL PRIMARY KEY, `data` BLOB)")
    c.executemany("INSERT INTO blocks VALUES (?,?)", list(rows.items()))
    c.commit(); c.close()
    return p
def rows(p):
    c = sqlite3.connect(p)
    r = dict(c.execute("SELECT pos, data FROM blocks"))
    ok = c.execute("PRAGMA integrity_check").fetchone()[0]
    c.close()
    if ok != "ok": raise Bad("integrity: " + ok)
    return r
def run(*args, inp=None, env=None, timeout=120, yes=True, check=False):
    e = dict(os.environ); e.update(env or {})
    a = [BIN] + (["-y"] if yes else []) + [str(x) for x in args]
    r = subprocess.run(a, input=inp, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
def shim(src="shim.c"):
    so = os.path.join(DIR, "shim.so")
    subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-o", so, os.path.join(HERE, src), "-ldl", "-lpthread"], check=True)
    return so
def ok(cond, text):
    if not cond:
        print("BROKEN:", text); sys.exit(1)
def done(out): return "Done." in out and "error" not in out
