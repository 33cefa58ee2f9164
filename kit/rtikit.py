"""Starts the RTI that build.sh made and speaks the federates' side of its protocol over the loopback network."""
import os, socket, struct, subprocess, sys, time, atexit

FOREVER = (1 << 63) - 1
(REJECT, FED_IDS, TIMESTAMP, MESSAGE, RESIGN, TAGGED, NET, TAG, PTAG, LTC, STOP_REQ, STOP_REP, STOP_GRN, ADDR_Q, ADDR_R,
 ADDR_AD) = range(16)
P2P_ID, P2P_MSG, P2P_TAGGED, T1, T3, T4, PROBE, ABSENT, NEIGHBORS, FAILED = range(16, 26)
ACK, UDP_PORT = 255, 254
LEN = {TIMESTAMP: 8, TAG: 12, PTAG: 12, STOP_REQ: 12, STOP_GRN: 12, ABSENT: 16, ADDR_R: 8, ACK: 0, REJECT: 1}


class Fail(Exception):
    pass


def tag(t, m=0):
    return struct.pack("<qI", t, m)


class RTI:
    def __init__(self, n, *args, path="_build/rti/RTI", fid="x"):
        self.fid = fid
        for port in range(16000 + os.getpid() % 3000, 30000, 7):
            s = socket.socket()
            try:
                s.bind(("127.0.0.1", port))
                s.close()
            except OSError:
                continue
            self.port = port
            break
        self.p = subprocess.Popen([path, "-n", str(n), "-i", fid, "-p", str(self.port), "-c", "off"] + list(args),
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        atexit.register(self.kill)
        os.set_blocking(self.p.stdout.fileno(), False)

    def kill(self):
        try:
            self.p.kill()
        except Exception:
            pass

    def alive(self):
        return self.p.poll() is None

    def wait(self, t):
        try:
            return self.p.wait(t)
        except subprocess.TimeoutExpired:
            raise Fail("RTI did not terminate")

    def output(self):
        try:
            return self.p.stdout.read() or ""
        except Exception:
            return ""

    def connect(self):
        end = time.time() + 5
        while True:
            s = socket.socket()
            try:
                s.connect(("127.0.0.1", self.port))
                s.settimeout(5)
                s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                return s
            except OSError:
                s.close()
                if time.time() > end:
                    raise Fail("RTI does not listen")
                time.sleep(0.05)


class Fed:
    def __init__(self, rti, i, up=(), down=(), fid=None, start=True):
        """up: [(federate, delay)], down: [federate]"""
        self.i, self.s = i, rti.connect()
        fid = rti.fid if fid is None else fid
        self.s.sendall(struct.pack("<BHB", FED_IDS, i, len(fid)) + fid.encode())
        self.buf = b""
        k = self.read(1)[0]
        if k != ACK:
            raise Fail("federate %d rejected (%d)" % (i, k))
        self.s.sendall(struct.pack("<Bii", NEIGHBORS, len(up), len(down)) +
                       b"".join(struct.pack("<Hq", f, d) for f, d in up) + b"".join(struct.pack("<H", f) for f in down))
        self.s.sendall(struct.pack("<BH", UDP_PORT, 65535))

    def read(self, n, t=5):
        self.s.settimeout(t)
        while len(self.buf) < n:
            try:
                d = self.s.recv(65536)
            except socket.timeout:
                raise Fail("federate %d: nothing received" % self.i)
            except OSError as e:
                raise Fail("federate %d: %s" % (self.i, e))
            if not d:
                raise Fail("federate %d: socket closed" % self.i)
            self.buf += d
        r, self.buf = self.buf[:n], self.buf[n:]
        return r

    def send(self, b):
        self.s.sendall(b)

    def start(self, t):
        self.send(struct.pack("<Bq", TIMESTAMP, t))

    def recv(self, t=5):
        """next message: (type, payload)"""
        k = self.read(1, t)[0]
        if k == TAGGED:
            h = self.read(20, t)
            n = struct.unpack("<HHiqI", h)
            return k, (n, self.read(n[2], t))
        if k not in LEN:
            raise Fail("federate %d: unexpected message %d" % (self.i, k))
        p = self.read(LEN[k], t)
        if LEN[k] == 12:
            return k, struct.unpack("<qI", p)
        if LEN[k] == 8 and k == TIMESTAMP:
            return k, struct.unpack("<q", p)[0]
        return k, p

    def expect(self, kind, t=5):
        k, p = self.recv(t)
        if k != kind:
            raise Fail("federate %d: message %d %r instead of %d" % (self.i, k, p, kind))
        return p

    def quiet(self, t=0.5):
        """nothing may arrive for t seconds"""
        try:
            m = self.recv(t)
        except Fail:
            return
        raise Fail("federate %d: unexpected message %r" % (self.i, m))

    def net(self, t, m=0):
        self.send(bytes([NET]) + tag(t, m))

    def ltc(self, t, m=0):
        self.send(bytes([LTC]) + tag(t, m))

    def msg(self, dest, port, t, m=0, body=b"x"):
        self.send(struct.pack("<BHHiqI", TAGGED, port, dest, len(body), t, m) + body)

    def absent(self, dest, port, t, m=0):
        self.send(struct.pack("<BHHqI", ABSENT, port, dest, t, m))

    def stop(self, t, m=0):
        self.send(bytes([STOP_REQ]) + tag(t, m))

    def stop_reply(self, t, m=0):
        self.send(bytes([STOP_REP]) + tag(t, m))

    def resign(self):
        self.send(bytes([RESIGN]))

    def close(self):
        self.s.close()


def federation(rti, topo, t0=None):
    """topo: list of (up, down); connects all, agrees on the start time, returns (federates, start)"""
    fs = [Fed(rti, i, u, d) for i, (u, d) in enumerate(topo)]
    t0 = t0 or time.time_ns()
    for i, f in enumerate(fs):
        f.start(t0 + i)
    st = {f.expect(TIMESTAMP) for f in fs}
    if len(st) != 1:
        raise Fail("federates got different start times")
    return fs, st.pop()


def program(rti, *args):
    """starts the federate that build.sh made from demo.c"""
    p = subprocess.Popen([os.environ["PROG"]] + list(args), env=dict(os.environ, RTI_PORT=str(rti.port)))
    atexit.register(p.kill)
    return p


def main(fn):
    try:
        fn()
    except Fail as e:
        print("FAIL:", e)
        sys.exit(3)
    print("ok")
