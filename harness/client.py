"""
The other end of worker.py: starts the project's interpreter on the repository's
working tree and sends it programs.
"""
import json
import os
import select
import subprocess
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
HERE = os.path.dirname(os.path.abspath(__file__))


class HarnessError(Exception):
    """Something is wrong with the harness or its environment."""


class Hang(Exception):
    """The code under test did not return."""


class Died(Exception):
    """The interpreter running the code under test went away."""


class Worker:
    def __init__(self, scratch):
        self.scratch = scratch
        self.process = None
        self.buffer = b""

    def start(self):
        env = {
            "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
            "HOME": self.scratch,
            "TMPDIR": self.scratch,
            "LANG": "C.UTF-8",
            "LC_ALL": "C.UTF-8",
            "PYTHONPATH": REPO,
            "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONPYCACHEPREFIX": os.path.join(self.scratch, "no-bytecode"),
            "PYTHONHASHSEED": "0",
            "OPENBLAS_NUM_THREADS": "1",
            "OMP_NUM_THREADS": "1",
            "VERIF_REPO": REPO,
            "VERIF_SCRATCH": self.scratch,
        }
        self.buffer = b""
        self.errors = open(os.path.join(self.scratch, "worker-errors"), "ab")
        self.process = subprocess.Popen(
            [PYTHON, "-W", "ignore", os.path.join(HERE, "worker.py")],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=self.errors,
            cwd=self.scratch,
            env=env,
        )
        try:
            ready = self._read(120)
        except (Hang, Died):
            self.stop()
            with open(os.path.join(self.scratch, "worker-errors"), "rb") as handle:
                text = handle.read()[-2000:].decode("utf-8", "replace")
            raise HarnessError("the worker did not start:\n" + text)
        if not ready.get("ready"):
            raise HarnessError("unexpected greeting of the worker")

    def stop(self):
        if self.process is not None:
            self.process.kill()
            self.process.wait()
            self.process.stdin.close()
            self.process.stdout.close()
            self.errors.close()
            self.process = None

    def _read(self, timeout):
        deadline = time.monotonic() + timeout
        descriptor = self.process.stdout.fileno()
        while b"\n" not in self.buffer:
            left = deadline - time.monotonic()
            if left <= 0:
                raise Hang()
            ready, _, _ = select.select([descriptor], [], [], left)
            if not ready:
                raise Hang()
            data = os.read(descriptor, 1 << 20)
            if not data:
                raise Died()
            self.buffer += data
        line, self.buffer = self.buffer.split(b"\n", 1)
        return json.loads(line)

    def _exchange(self, message, timeout):
        if self.process is None:
            self.start()
        try:
            self.process.stdin.write(json.dumps(message).encode() + b"\n")
            self.process.stdin.flush()
        except BrokenPipeError:
            raise Died()
        return self._read(timeout)

    def exchange(self, message, timeout=60):
        """
        One retry in a fresh interpreter, so that neither a busy machine nor an
        interpreter killed from outside looks like a failure of the package.
        """
        try:
            return self._exchange(message, timeout)
        except (Hang, Died):
            self.stop()
        try:
            return self._exchange(message, 2 * timeout)
        except (Hang, Died):
            self.stop()
            raise

    def run(self, steps):
        reply = self.exchange({"steps": steps})
        if "harness_error" in reply:
            raise HarnessError(reply["harness_error"])
        return reply["results"]

    def run_isolated(self, programs):
        """
        Every program (a list of steps) in its own pristine copy of the process.
        """
        reply = self.exchange(
            {"fork": True, "programs": [{"steps": steps} for steps in programs]}
        )
        results = []
        for entry in reply["forked"]:
            if "harness_error" in entry:
                raise HarnessError(entry["harness_error"])
            if entry.get("died"):
                raise Died()
            results.append(entry["results"])
        return results
