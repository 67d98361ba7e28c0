"""Lists of calls run by a 32-bit program (mini32/) and by a model on top of Python's own BLAKE2s, and compared.

An operation is a list: [name, slot, ...]. Messages are slices [offset, length] of one megabyte of random bytes."""
import hashlib, os, random, struct, subprocess

PAT = random.Random(0x6d696e69).randbytes(1 << 20)
TARGET = "i686-unknown-linux-gnu"
RUSTFLAGS = "-Clinker=rust-lld -Clinker-flavor=ld.lld -Clink-arg=-static -Clink-arg=-nostdlib -Crelocation-model=static"
CARGO = ["cargo", "build", "-Zbuild-std=core,compiler_builtins", "-Zbuild-std-features=compiler-builtins-mem", "--offline", "--locked",
         "--release", "--target", TARGET]
CHECKED = ["--config", "profile.release.package.blake2s_simd.overflow-checks=true", "--config", "profile.release.package.blake2s_simd.debug-assertions=true"]

# --- model -----------------------------------------------------------------------------------

IV = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19]
SIGMA = [[int(c, 16) for c in r] for r in (
    "0123456789abcdef", "ea489fd61c02b753", "b8c052fdae367194", "7931dcbe265a40f8", "905724afe1bc683d",
    "2c6a0b834d75fe19", "c51fed4a0763928b", "db7ec13950f4862a", "6fe9b308c2d714a5", "a2847615fb9e3cd0")]
M = 0xffffffff

def compress(h, block, t, last, node):
    m = struct.unpack("<16I", block)
    v = h + IV
    v[12] ^= t & M
    v[13] ^= t >> 32 & M
    v[14] ^= M if last else 0
    v[15] ^= M if node else 0
    for s in SIGMA:
        for i, (a, b, c, d) in enumerate(((0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15),
                                          (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14))):
            for x, r, q in ((m[s[2 * i]], 16, 12), (m[s[2 * i + 1]], 8, 7)):
                v[a] = (v[a] + v[b] + x) & M
                w = v[d] ^ v[a]
                v[d] = (w >> r | w << (32 - r)) & M
                v[c] = (v[c] + v[d]) & M
                w = v[b] ^ v[c]
                v[b] = (w >> q | w << (32 - q)) & M
    return [h[i] ^ v[i] ^ v[i + 8] for i in range(8)]

class Slow:
    """One node of a tree, with all 32 bytes of its digest, and with or without the key block."""
    def __init__(self, block, key_block, node):
        self.h = [a ^ b for a, b in zip(IV, struct.unpack("<8I", block))]
        self.buf, self.t, self.node = key_block, 0, node
    def update(self, d):
        self.buf += d
        while len(self.buf) > 64:
            self.t += 64
            self.h = compress(self.h, self.buf[:64], self.t, False, False)
            self.buf = self.buf[64:]
    def digest(self):
        h = compress(self.h, self.buf.ljust(64, b"\0"), self.t + len(self.buf), True, self.node)
        return struct.pack("<8I", *h)

def param_block(hl, kl, fo, md, leaf, off, nd, inner):
    return struct.pack("<BBBBI", hl, kl, fo, md, leaf) + struct.pack("<Q", off)[:6] + bytes([nd, inner]) + bytes(16)

class State:
    def __init__(self, p=None):
        p = p or DEFAULT
        hl, key, salt, pers, fo, md, leaf, off, nd, inner, last = p
        self.h = {x: hashlib.blake2s(digest_size=hl, key=bytes.fromhex(key), salt=bytes.fromhex(salt), person=bytes.fromhex(pers), fanout=fo,
                                     depth=md, leaf_size=leaf, node_offset=off, node_depth=nd, inner_size=inner, last_node=x)
                  for x in (False, True)}
        self.last, self.n = bool(last), 0
    def update(self, d, times=1):
        self.n += len(d) * times
        if len(d) * times > 1 << 24:
            # One of the two only: the flag stays as it is after so much.
            self.h = {self.last: self.h[self.last]}
        big, k = (d * 64, times // 64) if times > 1000 else (d, 0)
        for h in self.h.values():
            for _ in range(k):
                h.update(big)
            for _ in range(times - 64 * k):
                h.update(d)
    def digest(self):
        return self.h[self.last].digest()
    def copy(self):
        s = State()
        s.h, s.last, s.n = {k: h.copy() for k, h in self.h.items()}, self.last, self.n
        return s

class Sp:
    def __init__(self, hl=32, key=""):
        key = bytes.fromhex(key)
        kb = key.ljust(64, b"\0") if key else b""
        self.hl, self.kl, self.n = hl, len(key), 0
        if hl == 32:
            self.leaf = [hashlib.blake2s(key=key, fanout=8, depth=2, node_offset=i, inner_size=32, last_node=i == 7) for i in range(8)]
        else:
            self.leaf = [Slow(param_block(hl, len(key), 8, 2, 0, i, 0, 32), kb, i == 7) for i in range(8)]
    def update(self, d, times=1):
        if times > 1:
            # Whole stripes at once.
            while self.n % 512 and times:
                self.update(d)
                times -= 1
            per = 1
            while len(d) * per % 512:
                per *= 2
            if times >= per and self.n % 512 == 0:
                big = d * per
                parts = [b"".join(big[o:o + 64] for o in range(64 * i, len(big), 512)) for i in range(8)]
                for l, p in zip(self.leaf, parts):
                    for _ in range(times // per):
                        l.update(p)
                self.n += len(big) * (times // per)
                times %= per
            for _ in range(times):
                self.update(d)
            return
        at = 0
        while at < len(d):
            k = min(64 - self.n % 64, len(d) - at)
            self.leaf[self.n // 64 % 8].update(d[at:at + k])
            self.n += k
            at += k
    def digest(self):
        root = Slow(param_block(self.hl, self.kl, 8, 2, 0, 0, 1, 32), b"", True)
        for l in self.leaf:
            root.update(l.digest())
        return root.digest()[:self.hl]

DEFAULT = [32, "", "", "", 1, 1, 0, 0, 0, 0, 0]

def model_ok():
    d = bytes(range(256))
    # The last of the official vectors for keyed BLAKE2sp.
    s = Sp(32, bytes(range(32)).hex())
    s.update(d[:255])
    ok = s.digest().hex() == KAT_SP
    for n in (0, 1, 64, 65, 255):
        w = Slow(param_block(32, 5, 1, 1, 0, 0, 0, 0), b"12345".ljust(64, b"\0"), False)
        w.update(d[:n])
        ok = ok and w.digest() == hashlib.blake2s(d[:n], key=b"12345").digest()
    return ok

KAT_SP = "0c8a36597d7461c63a94732821c941856c668376606c86a52de0ee4104c615db"

# --- a list of calls, encoded, and what it should give ------------------------------------------

def enc_params(p):
    hl, key, salt, pers, fo, md, leaf, off, nd, inner, last = p
    o = bytes([hl])
    for x in (key, salt, pers):
        x = bytes.fromhex(x)
        o += bytes([len(x)]) + x
    return o + struct.pack("<BBIQBBB", fo, md, leaf, off, nd, inner, last)

def enc(op):
    o, k = op[0], op[1]
    d = lambda x: struct.pack("<II", *x)
    ds = lambda v: b"".join(map(d, v))
    code = CODES.index(o)
    b = bytes([code, k])
    if o == "new":
        return b + enc_params(op[2])
    if o in ("up", "sup"):
        return b + d(op[2])
    if o in ("feed", "sfeed"):
        return b + struct.pack("<I", op[2]) + d(op[3])
    if o == "clone" or o == "last":
        return b + bytes([op[2]])
    if o == "up8":
        return b + ds(op[2])
    if o == "snew":
        key = bytes.fromhex(op[3])
        return b + bytes([op[2], len(key)]) + key
    if o == "hash8":
        return b + b"".join(map(enc_params, op[2])) + ds(op[3])
    if o in ("exact8", "exact4"):
        return b + enc_params(op[2]) + ds(op[3])
    return b
CODES = ["new", "up", "feed", "fin", "clone", "last", "up8", "fin8", "snew", "sup", "sfeed", "sfin", "hash8", "exact8", "exact4", "end"]

class Model:
    def __init__(self):
        self.s = [State() for _ in range(9)]
        self.sp = [Sp() for _ in range(2)]
    def step(self, op):
        o, k = op[0], op[1]
        msg = lambda x: PAT[x[0]:x[0] + x[1]]
        dig = lambda h: bytes([len(h)]) + h
        count = lambda s: struct.pack("<Q", s.n)
        def whole(p, x):
            s = State(p)
            s.update(msg(x))
            return dig(s.digest())
        if o == "new":
            self.s[k] = State(op[2])
        elif o == "up":
            self.s[k].update(msg(op[2]))
            return count(self.s[k])
        elif o == "feed":
            self.s[k].update(msg(op[3]), op[2])
            return count(self.s[k])
        elif o == "fin":
            return dig(self.s[k].digest())
        elif o == "clone":
            self.s[op[2]] = self.s[k].copy()
        elif o == "last":
            self.s[k].last = bool(op[2])
        elif o == "up8":
            for s, x in zip(self.s, op[2]):
                s.update(msg(x))
            return b"".join(count(s) for s in self.s[:8])
        elif o == "fin8":
            return b"".join(dig(s.digest()) for s in self.s[:8])
        elif o == "snew":
            self.sp[k] = Sp(op[2], op[3])
        elif o == "sup":
            self.sp[k].update(msg(op[2]))
            return count(self.sp[k])
        elif o == "sfeed":
            self.sp[k].update(msg(op[3]), op[2])
            return count(self.sp[k])
        elif o == "sfin":
            return dig(self.sp[k].digest())
        elif o == "hash8":
            return b"".join(whole(p, x) for p, x in zip(op[2], op[3]))
        elif o in ("exact8", "exact4"):
            return b"".join(whole(op[2], x) for x in op[3])
        elif o == "end":
            return bytes([254, k])
        return b""

def run(exe, ops, timeout):
    """None, or what is wrong: (index of the operation, text)."""
    prog = b"".join(map(enc, ops))
    assert len(prog) <= 4 << 20
    r = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    import threading
    box = []
    th = threading.Thread(target=lambda: box.append(r.communicate(PAT + prog)[0]))
    th.start()
    m = Model()
    want = [m.step(op) for op in ops]
    th.join(timeout)
    if th.is_alive():
        r.kill()
        th.join()
        raise TimeoutError()
    got, at = box[0], 0
    for i, w in enumerate(want):
        if got[at:at + len(w)] != w:
            part = got[at:at + len(w)]
            if part[:1] == b"\xff" and r.returncode == 101 and len(got) == at + 1:
                return i, "a 32-bit program panics"
            j = next((j for j in range(len(w)) if part[j:j + 1] != w[j:j + 1]), 0)
            a = j // 33 * 33 if len(w) % 33 == 0 else j // 8 * 8
            n = 33 if len(w) % 33 == 0 else 8
            if len(w) % 33 and op_is_digest(ops[i]):
                a, n = 0, len(w)
            return i, "a 32-bit program's %s gives %s, should be %s%s" % (
                ops[i][0], part[a:a + n].hex() or "nothing (it ended with %s)" % r.returncode, w[a:a + n].hex(),
                "" if a == 0 else " (at byte %d of the results)" % a)
        at += len(w)
    if r.returncode != 0 or at != len(got):
        return len(ops) - 1, "a 32-bit program ended with %s" % r.returncode
    return None

def op_is_digest(op):
    return op[0] in ("fin", "fin8", "sfin", "hash8", "exact8", "exact4")

# --- generated lists ----------------------------------------------------------------------------

EDGE = [0, 1, 31, 63, 64, 65, 127, 128, 129, 191, 192, 193, 448, 449, 511, 512, 513, 960, 961, 1023, 1024, 1025, 1472, 1473]

def gen_params(r, keyed=True):
    p = list(DEFAULT)
    f = lambda a: r.random() < a
    if f(.4): p[0] = r.choice([1, 16, 20, 31, r.randint(1, 32)])
    if keyed and f(.4): p[1] = r.randbytes(r.choice([1, 16, 32, r.randint(1, 32)])).hex()
    if f(.3): p[2] = r.randbytes(r.choice([8, r.randint(1, 8)])).hex()
    if f(.3): p[3] = r.randbytes(r.choice([8, r.randint(1, 8)])).hex()
    if f(.3): p[4] = r.choice([0, 2, 128, 255, r.randint(0, 255)])
    if f(.3): p[5] = r.choice([2, 128, 255, r.randint(1, 255)])
    if f(.3): p[6] = r.choice([1, 1 << 31, M, r.getrandbits(32)])
    if f(.4): p[7] = r.choice([1, M, M + 1, 1 << 40, (1 << 48) - 1, r.getrandbits(48)])
    if f(.3): p[8] = r.choice([1, 255, r.randint(0, 255)])
    if f(.3): p[9] = r.choice([32, r.randint(0, 32)])
    if f(.3): p[10] = 1
    return p

def gen_data(r, top=2000):
    n = r.choice(EDGE) if r.random() < .6 else r.randint(0, top if r.random() < .9 else 70000)
    return [r.randint(0, (1 << 20) - n), n]

def gen_case(r):
    kind = r.random()
    if kind < .12:
        e = gen_data(r)
        v = [gen_data(r) if r.random() < .3 else [r.randint(0, 1 << 19), e[1]] for _ in range(8)]
        ps = [gen_params(r, False) for _ in range(8)] if r.random() < .7 else [gen_params(r, False)] * 8
        return [["hash8", 0, ps, v]]
    if kind < .22:
        n = 64 * r.randint(1, 20)
        w = r.choice([4, 8])
        return [["exact%d" % w, 0, gen_params(r), [[r.randint(0, 1 << 19), n] for _ in range(w)]]]
    if kind < .5:
        hl = 32 if r.random() < .85 else r.randint(1, 31)
        ops = [["snew", 0, hl, r.randbytes(r.choice([1, 32])).hex() if r.random() < .5 else ""]]
        for _ in range(r.randint(1, 6)):
            ops.append(["sfin", 0] if r.random() < .25 else ["sup", 0, gen_data(r, 2000 if hl == 32 else 700)])
        return ops + [["sfin", 0]]
    eight = r.random() < .4
    ops = [["new", k, gen_params(r)] for k in (range(9) if eight else range(3))]
    for _ in range(r.randint(1, 8)):
        k = r.randint(0, 8 if eight else 2)
        x = r.random()
        if x < .45:
            ops.append(["up", k, gen_data(r)])
        elif x < .6:
            ops.append(["fin", k])
        elif x < .7:
            ops.append(["clone", k, r.randint(0, 8 if eight else 2)])
        elif x < .8:
            ops.append(["last", k, r.randint(0, 1)])
        elif eight and x < .95:
            n = gen_data(r)[1]
            ops.append(["up8", 0, [gen_data(r) if r.random() < .2 else [r.randint(0, 1 << 19), n] for _ in range(8)]])
        elif eight:
            ops.append(["fin8", 0])
    return ops + [["fin", k] for k in range(3)] + ([["fin8", 0]] if eight else [])

def nontrivial(ops):
    """Several updates, or more than one block."""
    n = [x for op in ops for x in ([op[2]] if op[0] in ("up", "sup") else op[2] if op[0] == "up8" else op[3] if op[0] in ("hash8", "exact4", "exact8") else [])]
    return len(n) > 1 or any(x[1] > 64 for x in n)

def big_lists(seed, thorough):
    r = random.Random(seed * 7 + 3)
    g4 = 1 << 32
    def near(below):
        """Pieces that add up to 2^32 - below."""
        n = r.choice([65536, 65537, 100003, 1 << 19])
        k = (g4 - below) // n
        rest = g4 - below - k * n
        return k, n, rest
    out = []
    k, n, rest = near(r.randint(65, 190))
    out.append(("state", [["new", 0, gen_params(r)], ["feed", 0, k, [7, n]], ["up", 0, [1, rest]], ["fin", 0], ["up", 0, [3, 64]], ["fin", 0]]
                + [x for i in range(20) for x in (["up", 0, [i, 13]], ["fin", 0])] + [["clone", 0, 1], ["up", 1, [5, 70001]], ["fin", 1], ["up", 0, [9, 200]], ["fin", 0]]))
    # The same in one piece across.
    n = r.choice([100003, (1 << 19) - 1, (1 << 19) - 64, 1 << 19])
    k = g4 // n - 1
    rest = g4 - k * n - r.randint(100, 40000)
    out.append(("state, at once", [["new", 0, gen_params(r)], ["feed", 0, k, [7, n]], ["up", 0, [1, rest]], ["up", 0, [3, 80000]], ["fin", 0], ["up", 0, [3, 64]], ["fin", 0]]))
    k, n, rest = near(r.randint(1, 300))
    lane = r.randint(0, 7)
    out.append(("update8", [["new", i, gen_params(r)] for i in range(8)] + [["feed", lane, k, [7, n]], ["up", lane, [1, rest]], ["fin8", 0],
                ["up8", 0, [[i * 1000, 700] for i in range(8)]], ["fin8", 0], ["up8", 0, [[i * 999, 100] for i in range(8)]], ["fin8", 0]]))
    k, n, rest = near(r.randint(1, 1500))
    out.append(("BLAKE2sp", [["snew", 0, 32, r.choice(["", "0102"])], ["sfeed", 0, k, [7, n]], ["sup", 0, [1, rest]], ["sfin", 0],
                ["sup", 0, [8, 3000]], ["sfin", 0]] + [x for i in range(10) for x in (["sup", 0, [i, 77]], ["sfin", 0])]))
    if thorough:
        out.append(("BLAKE2sp, leaves", [["snew", 0, 32, ""], ["sfeed", 0, 65535, [7, 1 << 19]], ["sup", 0, [0, (1 << 19) - 1000]], ["sfin", 0],
                    ["sup", 0, [8, 3000]], ["sfin", 0], ["sup", 0, [8, 3000]], ["sfin", 0]]))
    return out

def shrink(exe, ops, end):
    """Fewer calls, shorter inputs."""
    import time
    def bad(o):
        try:
            return o and time.time() < end and run(exe, o, 120)
        except TimeoutError:
            return None
    w = run(exe, ops, 600)
    if not w:
        return ops, None
    # Nothing after the wrong answer matters.
    q = bad(ops[:w[0] + 1])
    if q:
        ops, w = ops[:w[0] + 1], q
    i = len(ops) - 2
    while i >= 0:
        o = ops[:i] + ops[i + 1:]
        q = bad(o)
        if q:
            ops, w = o, q
        i -= 1
    for i, op in enumerate(ops):
        if op[0] in ("up", "sup"):
            for n in (0, 1, 64, 65, 512, 1024):
                o = ops[:i] + [[op[0], op[1], [op[2][0], n]]] + ops[i + 1:]
                q = n < op[2][1] and bad(o)
                if q:
                    ops, w = o, q
                    break
        elif op[0] in ("new", "snew"):
            o = ops[:i] + [["new", op[1], DEFAULT] if op[0] == "new" else ["snew", op[1], 32, ""]] + ops[i + 1:]
            q = o != ops and bad(o)
            if q:
                ops, w = o, q
    return ops, w
