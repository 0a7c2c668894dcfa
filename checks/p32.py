"""P32: every command sent to the TPM simulator is answered with its own complete response, however the stream is split."""

import contextlib
import io
import itertools
import socket
import struct

from lib.mc import Suite

# A stand-in for the two connections: a simulator that understands its protocol, and a network that splits the
# streams as the case says.  The real network is never used.


class Sim:
    """the simulator behind the sockets"""

    def __init__(self, replies, polls, acks, close_at):
        self.replies = list(replies)
        self.polls = polls
        self.acks = acks
        self.close_at = close_at  # number of bytes of all answers after which the connection is closed, or None
        self.plat = b""
        self.tpm = b""
        self.commands = []
        self.out = b""
        self.sent = 0

    def feed(self, port, data):
        if port == "plat":
            self.plat += data
            return
        self.tpm += data
        while len(self.tpm) >= 9:
            cmd, loc, n = struct.unpack(">LBL", self.tpm[:9])
            if cmd != 8:
                raise AssertionError(f"unknown command {cmd}")
            if len(self.tpm) < 9 + n:
                return
            self.commands.append((loc, self.tpm[9:9 + n]))
            self.tpm = self.tpm[9 + n:]
            r = self.replies.pop(0)
            self.out += bytes(4) * self.polls + struct.pack(">L", len(r)) + r + bytes(4) * self.acks

    def take(self, n):
        if self.close_at is not None:
            n = min(n, self.close_at - self.sent)
        d, self.out = self.out[:n], self.out[n:]
        self.sent += len(d)
        return d


class Sock:
    def __init__(self, net):
        self.net = net
        self.port = None
        self.closed = False

    def connect(self, addr):
        host, port = addr
        self.net.connected.append((host, port))
        self.port = {self.net.base: "tpm", self.net.base + 1: "plat"}[port]

    def send(self, data, flags=0):
        data = bytes(data)
        n = self.net.send_plan.pop(0) if self.net.send_plan else len(data)
        n = max(1, min(n, len(data))) if data else 0
        self.net.sim.feed(self.port, data[:n])
        return n

    def sendall(self, data, flags=0):
        data = bytes(data)
        while data:
            data = data[self.send(data):]

    def recv(self, n, flags=0):
        if n == 0:
            return b""
        if self.port != "tpm":
            raise AssertionError("nothing can be read from the control connection")
        sim = self.net.sim
        if flags & socket.MSG_WAITALL:
            out = b""
            while len(out) < n:
                d = self.recv(n - len(out))
                if not d:
                    break
                out += d
            return out
        if sim.close_at is not None and sim.sent >= sim.close_at:
            return b""
        if not sim.out:
            raise AssertionError("the library waits for data that the simulator will never send")
        k = self.net.recv_plan.pop(0) if self.net.recv_plan else n
        return sim.take(max(1, min(n, k)))

    def recv_into(self, buf, nbytes=0, flags=0):
        d = self.recv(nbytes or len(buf), flags)
        buf[:len(d)] = d
        return len(d)

    def makefile(self, mode="r", *a, **k):
        sock = self

        class Raw(io.RawIOBase):
            def readable(self):
                return True

            def writable(self):
                return True

            def readinto(self, b):
                return sock.recv_into(b)

            def write(self, b):
                return sock.send(b)

        return io.BufferedRWPair(Raw(), Raw()) if "r" in mode and "w" in mode else io.BufferedReader(Raw()) if "r" in mode else io.BufferedWriter(Raw())

    def close(self):
        self.closed = True

    def shutdown(self, how):
        self.closed = True

    def settimeout(self, t):
        pass

    def setblocking(self, f):
        pass

    def setsockopt(self, *a):
        pass


class Net:
    def __init__(self, sim, base=2321, send_plan=(), recv_plan=()):
        self.sim, self.base = sim, base
        self.send_plan, self.recv_plan = list(send_plan), list(recv_plan)
        self.connected = []

    @contextlib.contextmanager
    def active(self):
        net = self

        def create_connection(addr, *a, **k):
            s = Sock(net)
            s.connect(addr)
            return s

        old = socket.socket, socket.create_connection
        socket.socket, socket.create_connection = (lambda *a, **k: Sock(net)), create_connection
        try:
            yield self
        finally:
            socket.socket, socket.create_connection = old


POWER = struct.pack(">LLL", 2, 1, 11)
PAYLOADS = [b"\x80\x01\0\0\0\x0c\0\0\1\x44\0\0", b"", b"\0", b"\xff" * 300]


def open_sim(net, ctx, *a):
    from edk2toollib.tpm.tpm2_simulator import TpmSimulator

    t = TpmSimulator(*a)
    host = a[0] if a else "localhost"
    ctx.eq(sorted(net.connected), sorted([(host, net.base), (host, net.base + 1)]), "connections")
    ctx.eq(net.sim.plat, POWER, "control commands")
    return t


def splits(n, most):
    """all ways to split n bytes into chunks, with at most `most` cuts"""
    for k in range(most + 1):
        for cuts in itertools.combinations(range(1, n), k):
            at = [0, *cuts, n]
            yield [b - a for a, b in zip(at, at[1:])]


def gen_split(tier):
    most = 3 if tier == "quick" else 5
    for n in (1, 2, 10):
        for polls in (0, 1, 2):
            for sp in splits(4 * polls + 4 + n, most):
                yield [n, polls, sp, "recv"]
    # every split of a short answer
    for sp in splits(9, 8):
        yield [1, 1, sp, "recv"]
    # everything that is sent, split
    for sp in splits(12 + 9 + 4, 3 if tier == "quick" else 4):
        yield [4, 0, sp, "send"]


def run_split(case, ctx):
    n, polls, plan, what = case
    reply = bytes(range(1, n + 1))
    net = Net(Sim([reply, b"second"], polls, 1, None), **{what + "_plan": plan})
    with net.active():
        t = open_sim(net, ctx)
        ctx.eq(bytes(t.send_data(b"ping")), reply, "response")
        ctx.eq(bytes(t.send_data(b"")), b"second", "second response")
    ctx.eq(net.sim.commands, [(3, b"ping"), (3, b"")], "commands")
    ctx.state(case)


def gen_hist(tier):
    for k in range(1, 4 if tier == "quick" else 5):
        for t in itertools.product(range(6), repeat=k):
            for polls in (0, 1):
                for acks in (0, 1, 2):
                    for chunk in (1, 3, 4096):
                        yield [list(t), polls, acks, chunk]


def run_hist(case, ctx):
    t, polls, acks, chunk = case
    replies = [bytes([65 + i]) * (i * i + 1) + struct.pack(">L", i) for i in range(len(t))]
    net = Net(Sim(replies, polls, acks, None), 4000, [chunk] * 2000, [chunk] * 2000)
    want = []
    with net.active():
        s = open_sim(net, ctx, "host.example", 4000)
        for i, op in enumerate(t):
            if op < 4:
                want.append((3, PAYLOADS[op]))
                got = s.send_data(PAYLOADS[op])
            else:
                want.append((3, struct.pack(">HLLH", 0x8001, 12, 0x144, op - 4)))
                got = s.startup(op - 4)
            ctx.eq(bytes(got), replies[i], f"response {i}")
            ctx.eq(net.sim.commands, want, "commands")
            ctx.eq(net.sim.tpm, b"", "bytes of no command")
            ctx.state([t[:i + 1], polls, acks])
    ctx.eq(net.sim.plat, POWER, "control commands at the end")


def gen_close(tier):
    for n in (1, 6):
        for polls in (0, 1):
            total = 4 * polls + 4 + n
            for at in range(total + 5):
                for chunk in (1, 2, 4096):
                    yield [n, polls, at, chunk]


def run_close(case, ctx):
    """the simulator closes the connection: an error instead of a part of a response"""
    n, polls, at, chunk = case
    reply = b"r" * n
    total = 4 * polls + 4 + n
    net = Net(Sim([reply, b"x"], polls, 1, at), recv_plan=[chunk] * 100)
    with net.active():
        s = open_sim(net, ctx)
        for i in range(2):
            try:
                got = s.send_data(b"ping")
            except AssertionError:
                raise
            except Exception:
                ctx.true(i == 1 or at < total, "a complete response was refused")
                ctx.state(case)
                return
            ctx.true(i == 0 and at >= total, f"a response was made of an incomplete answer: {got!r}")
            ctx.eq(bytes(got), reply, "response")


def gen_size(tier):
    top = 17 if tier == "quick" else 21
    ns = sorted({2 ** k + d for k in range(top) for d in (-1, 0, 1)} - {0} | set(range(1, 1100 if tier == "quick" else 4200)))
    for n in ns:
        for what in ("reply", "command"):
            for chunk in (1000, 65535, 1 << 30):
                yield [n, what, chunk]


def run_size(case, ctx):
    """long commands and responses"""
    n, what, chunk = case
    long = bytes(i * 7 + i // 251 & 255 for i in range(n))
    reply, command = (long, b"c") if what == "reply" else (b"r", long)
    net = Net(Sim([reply, b"second"], 0, 0, None), send_plan=[chunk] * 3000, recv_plan=[chunk] * 3000)
    with net.active():
        t = open_sim(net, ctx)
        with contextlib.redirect_stdout(io.StringIO()):
            ctx.true(bytes(t.send_data(command)) == reply, "the response is not complete")
            ctx.eq(bytes(t.send_data(b"more")), b"second", "second response")
    ctx.true(net.sim.commands == [(3, command), (3, b"more")], "the commands are not complete")
    ctx.state(case)


SUITES = [
    Suite("sizes", gen_size, run_size, "lengths of commands and responses", {"quick": "all lengths to 1099, 2^k +-1 to 64 KiB", "thorough": "all lengths to 4199, 2^k +-1 to 1 MiB"}),
    Suite("splits", gen_split, run_split, "ways the network splits what is sent and received (a stand-in for the sockets)", {"quick": "all splits with <=3 cuts; all splits of a short answer", "thorough": "all splits with <=5 cuts"}),
    Suite("histories", gen_hist, run_hist, "sequences of commands, with polling results and acknowledgements", {"quick": "<=3 of 6 commands", "thorough": "<=4 of 6 commands"}),
    Suite("closed", gen_close, run_close, "the connection closed after every number of bytes", "all positions, 3 chunk sizes"),
]
