"""The engine, kept running: the bitcode is read once per server and each run is a fork of it."""
import os, queue, resource, select, signal, subprocess, threading, time


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_STACK, (256 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))


class Server:
    def __init__(self, sx, bc):
        self.p = subprocess.Popen([sx, "--bc", bc, "--serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                  start_new_session=True, preexec_fn=limits)

    def run(self, args, timeout):
        """-> (wait status or None, what was printed)"""
        try:
            self.p.stdin.write(("\t".join(args) + "\n").encode())
            self.p.stdin.flush()
        except OSError:
            return None, "the engine's server is gone"
        text, fd, end = b"", self.p.stdout.fileno(), time.time() + timeout
        while True:
            ready, _, _ = select.select([fd], [], [], max(0, end - time.time()))
            if not ready:
                return None, "no answer in time: " + text.decode(errors="replace")
            more = os.read(fd, 65536)
            text += more
            if not more:
                return None, text.decode(errors="replace")
            if text.endswith(b"\n") and b"\x01" in text:
                text, st = text.rsplit(b"\x01", 1)
                return int(st), text.decode(errors="replace")

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()


class Pool:
    """idle servers by bitcode; those in use can be ended at once"""
    def __init__(self):
        self.idle, self.busy, self.lock, self.stopped = {}, set(), threading.Lock(), threading.Event()

    def run(self, sx, bc, args, timeout):
        with self.lock:
            if self.stopped.is_set():
                return None, "cancelled"
            free = self.idle.setdefault(bc, [])
            s = free.pop() if free else Server(sx, bc)
            self.busy.add(s)
        st, text = s.run(args, timeout)
        with self.lock:
            self.busy.discard(s)
            if st is None or self.stopped.is_set():
                s.kill()
            else:
                self.idle[bc].append(s)
        return st, text

    def stop(self):
        with self.lock:
            self.stopped.set()
            for s in list(self.busy):
                try:
                    os.killpg(s.p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            self.drop()

    def drop(self):
        """end the idle servers"""
        for l in self.idle.values():
            while l:
                l.pop().kill()
