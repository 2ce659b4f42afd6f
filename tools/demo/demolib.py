"""Runs the sinksmtp of the current directory for a demonstration, with the
stand-in for the smtpd package that lies beside this file."""
import os, re, shutil, signal, socket, ssl, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
TMP = tempfile.mkdtemp(prefix="demo")
BIN = os.path.join(TMP, "sinksmtp")
procs = []


def goenv():
    e = dict(os.environ)
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, text=True)
    for kv in r.stdout.split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            e[k] = v
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOWORK="off", GOTOOLCHAIN="local", CGO_ENABLED="0")
    return e


def build(race=False):
    shutil.copy(os.path.join(REPO, "go.mod"), TMP + "/go.mod")
    if os.path.exists(REPO + "/go.sum"):
        shutil.copy(REPO + "/go.sum", TMP + "/go.sum")
    with open(TMP + "/go.mod", "a") as f:
        f.write("\nreplace github.com/siebenmann/smtpd => %s/smtpd\n" % HERE)
    e = goenv()
    subprocess.run(["go", "build", "-modfile=" + TMP + "/go.mod", "-o", BIN, "."], cwd=REPO, env=e, check=True)


class Server:
    def __init__(self, args=(), files=None, dirs=("spool",), dns=None, ip="127.0.0.1", pre=()):
        self.dir = tempfile.mkdtemp(dir=TMP)
        for d in dirs:
            os.mkdir(self.dir + "/" + d)
        for n, t in (files or {}).items():
            self.write(n, t)
        self.ip, self.args, self.pre = ip, list(args), list(pre)
        self.env = dict(os.environ, TZ="UTC")
        if dns is not None:
            self.env["DEMO_DNS"] = serve_dns(dns)
        self.start()

    def write(self, n, t):
        with open(self.dir + "/" + n + ".new", "wb") as f:
            f.write(t if isinstance(t, bytes) else t.encode())
        os.rename(self.dir + "/" + n + ".new", self.dir + "/" + n)

    def start(self):
        s = socket.socket()
        s.bind((self.ip, 0))
        self.port = s.getsockname()[1]
        s.close()
        self.err = open(self.dir + "/stderr", "ab")
        self.p = subprocess.Popen(self.pre + [BIN] + self.args + ["%s:%d" % (self.ip, self.port)], cwd=self.dir, env=self.env, stdout=self.err, stderr=self.err)
        procs.append(self.p)
        for _ in range(400):
            if self.p.poll() is not None:
                return
            try:
                socket.create_connection((self.ip, self.port), 1, source_address=("127.99.99.99", 0)).close()
                time.sleep(0.05)
                return
            except OSError:
                time.sleep(0.02)
        raise SystemExit("server does not come up")

    def up(self):
        return self.p.poll() is None

    def stop(self):
        self.p.kill()
        self.p.wait()

    def client(self, src="127.0.0.9"):
        return Client(self, src)

    def read(self, n):
        try:
            with open(self.dir + "/" + n, "rb") as f:
                return f.read().decode("latin-1")
        except FileNotFoundError:
            return ""

    def saved(self, d="spool"):
        return sorted(n for n in os.listdir(self.dir + "/" + d) if not n.startswith("."))


class Client:
    def __init__(self, srv, src):
        self.s = socket.create_connection((srv.ip, srv.port), 20, source_address=(src, 0))
        self.f = self.s.makefile("rb")
        self.greeting = self.reply()

    def reply(self):
        """The reply as (code, [text, ...]); (0, []) if the connection is closed."""
        t = []
        while True:
            try:
                l = self.f.readline()
            except OSError:
                return (0, [])
            if not l:
                return (0, [])
            l = l.decode("latin-1").rstrip("\r\n")
            t.append(l[4:])
            if len(l) < 4 or l[3] != "-":
                return (int(l[:3]), t)

    def send(self, b):
        try:
            self.s.sendall(b if isinstance(b, bytes) else b.encode("latin-1"))
        except OSError:
            pass

    def cmd(self, line):
        self.send(line + "\r\n")
        return self.reply()

    def code(self, line):
        return self.cmd(line)[0]

    def ehlo(self, name="mx.example.org"):
        return self.cmd("EHLO " + name)

    def mail(self, a):
        return self.code("MAIL FROM:<%s>" % a)

    def rcpt(self, a):
        return self.code("RCPT TO:<%s>" % a)

    def message(self, body):
        """DATA and, if that is accepted, the message."""
        r = self.cmd("DATA")
        if r[0] != 354:
            return r
        if isinstance(body, str):
            body = body.encode("latin-1")
        lines = body.split(b"\n")
        if lines[-1] == b"":
            lines.pop()
        self.send(b"".join((b"." if l.startswith(b".") else b"") + l + b"\r\n" for l in lines) + b".\r\n")
        return self.reply()

    def transaction(self, frm, to, body):
        for r in [self.mail(frm)] + [self.rcpt(a) for a in to]:
            if r // 100 != 2:
                return (r, [])
        return self.message(body)

    def starttls(self):
        r = self.code("STARTTLS")
        if r // 100 != 2:
            return r
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        ctx.check_hostname = False
        ctx.verify_mode = ssl.CERT_NONE
        self.s = ctx.wrap_socket(self.s)
        self.f = self.s.makefile("rb")
        return r

    def quit(self):
        r = self.code("QUIT")
        self.close()
        return r

    def close(self):
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.f.close()
        self.s.close()
        time.sleep(0.1)


def cert(srv_dir, n="cert"):
    subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-days", "30", "-subj", "/CN=" + n,
                    "-keyout", srv_dir + "/" + n + ".key", "-out", srv_dir + "/" + n + ".pem"], check=True, capture_output=True)


# ----- a tiny DNS server: {(name, type): [data, ...]}; data are texts; the
# value "FAIL" gives SERVFAIL

def enc_name(n):
    n = n.rstrip(".")
    return b"".join(bytes([len(x)]) + x.encode("latin-1") for x in n.split(".") if x) + b"\0"


def rdata(t, d):
    if t == "A":
        return socket.inet_aton(d)
    if t == "AAAA":
        return socket.inet_pton(socket.AF_INET6, d)
    if t == "MX":
        p, h = d.split()
        return struct.pack(">H", int(p)) + enc_name(h)
    if t == "TXT":
        return bytes([len(d)]) + d.encode("latin-1")
    return enc_name(d)


def serve_dns(zone):
    types = {1: "A", 12: "PTR", 15: "MX", 16: "TXT", 28: "AAAA"}
    names = {n for n, _ in zone}
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    s.bind(("127.0.0.1", 0))

    def run():
        while True:
            q, a = s.recvfrom(4096)
            i, ls = 12, []
            while q[i]:
                ls.append(q[i + 1:i + 1 + q[i]].decode("latin-1").lower())
                i += q[i] + 1
            name = ".".join(ls)
            t = types.get(struct.unpack(">H", q[i + 1:i + 3])[0], "?")
            v = zone.get((name, t))
            rc = 0
            if v == "FAIL":
                rc, v = 2, []
            elif v is None:
                rc, v = (0 if name in names else 3), []
            r = q[:2] + struct.pack(">HHHHH", 0x8180 | rc, 1, len(v), 0, 0) + q[12:i + 5]
            for d in v:
                b = rdata(t, d)
                r += b"\xc0\x0c" + q[i + 1:i + 5] + struct.pack(">IH", 60, len(b)) + b
            s.sendto(r, a)
    threading.Thread(target=run, daemon=True).start()
    return "127.0.0.1:%d" % s.getsockname()[1]


def run(demo):
    """Builds, runs demo() and exits 0 exactly if all its expectations hold."""
    code = 3
    try:
        build()
        demo()
        code = 1 if failed else 0
    finally:
        for p in procs:
            p.kill()
        shutil.rmtree(TMP, ignore_errors=True)
    sys.exit(code)


failed = []


def expect(what, got, want):
    if got != want:
        failed.append(what)
        print("FAIL %s: got %r, want %r" % (what, got, want))
    else:
        print("ok   %s" % what)
