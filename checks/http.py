"""The real server on a loopback port, and a plain client."""
import atexit, os, socket, subprocess, threading, time
import vlib


class Server:
    def __init__(self, exe):
        for _ in range(20):
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            self.port = s.getsockname()[1]
            s.close()
            self.p = subprocess.Popen([exe], env={"PATH": "/usr/bin:/bin", "RUST_LOG": "off", "PORT": str(self.port)}, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            atexit.register(self.stop)
            end = time.time() + 30
            while time.time() < end and self.p.poll() is None:
                try:
                    socket.create_connection(("127.0.0.1", self.port), timeout=1).close()
                    if self.p.poll() is None:
                        return
                except OSError:
                    time.sleep(.05)
            self.stop()
        raise vlib.ToolError("the server does not start")

    def alive(self):
        return self.p.poll() is None

    def stop(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()


class Addresses:
    """Loopback addresses, each another client to the server; one is given out for at most `n` requests."""
    def __init__(self, net, n=90):
        self.net, self.n, self.k, self.used, self.lock = net, n, 0, n, threading.Lock()

    def take(self, requests):
        with self.lock:
            if self.used + requests > self.n:
                self.k, self.used = self.k + 1, 0
                assert self.k < 65000
            self.used += requests
            return "127.%d.%d.%d" % (self.net, self.k // 250, self.k % 250 + 1)


class Conn:
    def __init__(self, port, ip, timeout=60):
        self.s = socket.create_connection(("127.0.0.1", port), source_address=(ip, 0), timeout=timeout)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""

    def send(self, data):
        self.s.sendall(data)

    def more(self):
        d = self.s.recv(65536)
        if not d:
            raise OSError("closed")
        self.buf += d

    def recv(self, bodiless=False):
        """(status, headers, body)"""
        while b"\r\n\r\n" not in self.buf:
            self.more()
        h, self.buf = self.buf.split(b"\r\n\r\n", 1)
        lines = h.split(b"\r\n")
        head = {}
        for l in lines[1:]:
            k, v = l.split(b":", 1)
            head[k.strip().lower().decode()] = v.strip().decode()
        if bodiless:
            body = b""
        elif head.get("transfer-encoding", "").lower() == "chunked":
            body = b""
            while True:
                while b"\r\n" not in self.buf:
                    self.more()
                size, self.buf = self.buf.split(b"\r\n", 1)
                n = int(size, 16)
                while len(self.buf) < n + 2:
                    self.more()
                body, self.buf = body + self.buf[:n], self.buf[n + 2:]
                if n == 0:
                    break
        else:
            n = int(head.get("content-length", "0"))
            while len(self.buf) < n:
                self.more()
            body, self.buf = self.buf[:n], self.buf[n:]
        return int(lines[0].split()[1]), head, body

    def close(self):
        self.s.close()


def request(method, path, body=None, headers=()):
    h = ["%s %s HTTP/1.1" % (method, path), "host: x"] + list(headers)
    if body is not None:
        h.append("content-length: %d" % len(body))
    return "\r\n".join(h).encode() + b"\r\n\r\n" + (body or b"")
