"""Helpers of the demonstrations: real programs, scratch directories, peers."""
import atexit, ctypes, hashlib, hmac, os, shutil, signal, socket, struct, subprocess, sys, tempfile, threading, time

REPO = os.getcwd()
DIR = tempfile.mkdtemp(prefix="demo")
PROCS = []


def cleanup():
    for p in PROCS:
        if p.poll() is None:
            p.kill()
            p.wait()
    shutil.rmtree(DIR, ignore_errors=True)


atexit.register(cleanup)


def key(data=b"the key of the demonstration", name="key"):
    p = os.path.join(DIR, name)
    with open(p, "wb") as f:
        f.write(data)
    return p


def port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    n = s.getsockname()[1]
    s.close()
    return n


def start(argv, **kw):
    p = subprocess.Popen(argv, **kw)
    PROCS.append(p)
    return p


def wait_listen(n, t=10):
    """Until something listens on the port (looked up, not connected to)."""
    end = time.time() + t
    while time.time() < end:
        for l in open("/proc/net/tcp").readlines()[1:]:
            f = l.split()
            if f[3] == "0A" and int(f[1].split(":")[1], 16) == n:
                return
        time.sleep(0.02)
    raise SystemExit("nothing listens on %d" % n)


def spiped(mode, src, tgt, keyfile, *opts, wait=True, **kw):
    kw.setdefault("stderr", subprocess.DEVNULL)
    p = start([REPO + "/spiped/spiped", mode, "-s", "[127.0.0.1]:%d" % src, "-t", "[127.0.0.1]:%d" % tgt, "-k", keyfile, "-F"] + list(opts), **kw)
    if wait:
        wait_listen(src)
    return p


def listen(n=None, backlog=50):
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    s.bind(("127.0.0.1", n or 0))
    s.listen(backlog)
    return s


def connect(n, t=10):
    s = socket.create_connection(("127.0.0.1", n), timeout=t)
    return s


def readall(s, t=10):
    s.settimeout(t)
    out = b""
    while True:
        try:
            b = s.recv(65536)
        except ConnectionError:
            return out, "reset"
        except socket.timeout:
            return out, "timeout"
        if not b:
            return out, "eof"
        out += b


def readn(s, n, t=10):
    s.settimeout(t)
    out = b""
    while len(out) < n:
        b = s.recv(n - len(out))
        if not b:
            break
        out += b
    return out


def pattern(n, seed=1):
    out = b""
    i = 0
    while len(out) < n:
        out += hashlib.sha256(b"%d.%d" % (seed, i)).digest()
        i += 1
    return out[:n]


def fail(msg):
    print("FAIL: " + msg)
    sys.exit(1)


def ok(msg="ok"):
    print(msg)
    sys.exit(0)


# --- the protocol, independently --------------------------------------
P14 = int("FFFFFFFFFFFFFFFFC90FDAA22168C234C4C6628B80DC1CD129024E088A67CC74020BBEA63B139B22514A08798E3404DDEF9519B3CD3A431B302B0A6DF25F14374FE1356D6D51C245E485B576625E7EC6F44C42E9A637ED6B0BFF5CB6F406B7EDEE386BFB5A899FA5AE9F24117C4B1FE649286651ECE45B3DC2007CB8A163BF0598DA48361C55D39A69163FA8FD24CF5F83655D23DCA3AD961C62F356208552BB9ED529077096966D670C354E4ABC9804F1746C08CA18217C32905E462E36CE3BE39E772C180E86039B2783A2EC07A28FB5C55DF06F4C52C9DE2BCBF6955817183995497CEA956AE515D2261898FA051015728E5A8AACAA68FFFFFFFFFFFFFFFF", 16)


def mac(k, m):
    return hmac.new(k, m, hashlib.sha256).digest()


def ctr(k, nonce, data):
    c = ctypes.CDLL("libcrypto.so.3")
    sched = ctypes.create_string_buffer(512)
    c.AES_set_encrypt_key(k, 256, sched)
    out = bytearray()
    for i in range(0, len(data), 16):
        blk = ctypes.create_string_buffer(16)
        c.AES_encrypt(struct.pack(">QQ", nonce, i // 16), blk, sched)
        out += bytes(a ^ b for a, b in zip(data[i:i + 16], blk.raw))
    return bytes(out)


class Peer:
    """One end of the protocol on a connected socket."""

    def __init__(self, s, keydata, decr, nopfs=True):
        self.s, self.K, self.decr, self.nopfs = s, hashlib.sha256(keydata).digest(), decr, nopfs
        self.nl = os.urandom(32)
        self.tx = self.rx = 0

    def handshake(self, y=None):
        s = self.s
        s.sendall(self.nl)
        self.nr = readn(s, 32)
        nc, ns = (self.nr, self.nl) if self.decr else (self.nl, self.nr)
        dk = hashlib.pbkdf2_hmac("sha256", self.K, nc + ns, 1, 64)
        mine, theirs = (dk[32:], dk[:32]) if self.decr else (dk[:32], dk[32:])
        x = int.from_bytes(os.urandom(32), "big") | (1 << 258)
        yl = (1).to_bytes(256, "big") if self.nopfs else pow(2, x, P14).to_bytes(256, "big")
        if y is not None:
            yl = y
        if self.decr:
            yr = readn(s, 288)
            s.sendall(yl + mac(mine, yl))
        else:
            s.sendall(yl + mac(mine, yl))
            yr = readn(s, 288)
        if len(yr) != 288 or mac(theirs, yr[:256]) != yr[256:]:
            return False
        self.yr = yr[:256]
        ysc = (1).to_bytes(256, "big") if self.nopfs else pow(int.from_bytes(yr[:256], "big"), x, P14).to_bytes(256, "big")
        dk = hashlib.pbkdf2_hmac("sha256", self.K, nc + ns + ysc, 1, 128)
        c, v = (dk[:32], dk[32:64]), (dk[64:96], dk[96:])
        self.kt, self.kr = (v, c) if self.decr else (c, v)
        return True

    def packet(self, data, n=None):
        if n is None:
            n = self.tx
            self.tx += 1
        e = ctr(self.kt[0], n, data.ljust(1024, b"\0") + struct.pack(">I", len(data)))
        return e + mac(self.kt[1], e + struct.pack(">Q", n))

    def send(self, data):
        for i in range(0, len(data), 1024):
            self.s.sendall(self.packet(data[i:i + 1024]))

    def recv(self, t=10):
        b = readn(self.s, 1060, t)
        if len(b) < 1060:
            return b""
        if mac(self.kr[1], b[:1028] + struct.pack(">Q", self.rx)) != b[1028:]:
            raise ValueError("bad packet")
        m = ctr(self.kr[0], self.rx, b[:1028])
        self.rx += 1
        return m[:struct.unpack(">I", m[1024:1028])[0]]
