"""Drives a batch harness; a crash or time-out is a result, not an error."""
import json, os, subprocess, threading, time


class Crash(Exception):
    def __init__(self, kind, detail):
        Exception.__init__(self, kind)
        self.kind = kind
        self.detail = detail


class Hung(Exception):
    """the code under test hangs again and again: exploring further gives nothing"""


class Batch:
    hangs = 0
    def __init__(self, exe, env=None, limit_mb=4096):
        self.exe = exe
        self.env = {**os.environ, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=0:max_allocation_size_mb=2048", "UBSAN_OPTIONS": "print_stacktrace=1", **(env or {})}
        self.p = None
        self.n = 0

    def start(self):
        import tempfile
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=self.env)

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
            except Exception:
                pass
            try:
                self.p.wait(2)
            except Exception:
                self.p.kill(); self.p.wait()
            self.p.stdout.close()
            self.err.close()
            self.p = None

    def _dead(self, kind):
        rc = self.p.poll()
        if rc is None:
            try:
                rc = self.p.wait(5)
            except Exception:
                self.p.kill(); rc = self.p.wait()
        self.err.seek(0)
        e = self.err.read().decode("latin-1")
        self.p.stdout.close(); self.err.close()
        self.p = None
        if rc == 97:
            kind = "timeout"
            Batch.hangs += 1
            if Batch.hangs > 2:
                raise Hung()
        raise Crash(kind, "exit status %s\n%s" % (rc, e[-6000:]))

    def call(self, cmd, data):
        if isinstance(data, str):
            data = data.encode("latin-1")
        if self.p is None:
            self.start()
        self.n += 1
        try:
            self.p.stdin.write(b"%s %d\n" % (cmd.encode(), len(data)) + data)
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            self._dead("crash")
        if not line.endswith(b"\n") or line == b"\n":
            self._dead("crash")
        try:
            return json.loads(line)
        except ValueError:
            self._dead("crash")
