"""Paths, TLC runs, and the import of the code under test."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SQLPARAMS_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"

sys.dont_write_bytecode = True


class Machinery(Exception):
    """The check itself could not do its work."""


def import_repo():
    """Import sqlparams from the working tree, never from an installed copy."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import sqlparams
    where = os.path.realpath(os.path.dirname(sqlparams.__file__))
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise Machinery(f"sqlparams was imported from {where}, not from {REPO}")
    return sqlparams


class Scratch:
    """A directory of this run's own, removed at the end."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="sqlparams-verif-")

    def sub(self, name):
        d = os.path.join(self.dir, name)
        os.makedirs(d, exist_ok=True)
        return d

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def _classpath():
    d = os.path.dirname(TLAJAR)
    jars = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".jar"))
    jars.remove(TLAJAR)
    return ":".join([TLAJAR] + jars)


STAT = re.compile(r"^([\d,]+) states generated, ([\d,]+) distinct states found")
DIAM = re.compile(r"depth of the complete state graph search is (\d+)")


class TlcRun:
    """One TLC run.  Lines it prints with PrintT("@@" \\o json) go to `sink`."""

    def __init__(self, module, cfg, scratch, env=None, args=(), sink=None, timeout=800, heap="6g", workers=8, coverage=False, raw=False):
        wd = tempfile.mkdtemp(prefix="tlc", dir=scratch.dir)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), wd)
        with open(os.path.join(wd, "run.cfg"), "w") as fh:
            fh.write(cfg)
        cmd = ["java"] + (["-XX:+UseParallelGC"] if workers > 1 else ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"]) + [ "-Xss64m", f"-Xmx{heap}", f"-Djava.io.tmpdir={wd}", "-cp", _classpath(), "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(wd, "md"), "-config", "run.cfg", "-noGenerateSpecTE"]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += list(args) + [module]
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        t0 = time.time()
        self.log = []
        self.states = self.transitions = self.emitted = 0
        self.depth = 0
        p = subprocess.Popen(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        import threading
        self.timed_out = False

        def kill():
            self.timed_out = True
            p.kill()
        timer = threading.Timer(timeout, kill)
        timer.start()
        try:
            for line in p.stdout:
                if line.startswith('"@@'):
                    self.emitted += 1
                    if sink is not None:
                        body = json.loads(line)[2:]
                        sink(body if raw else json.loads(body))
                    continue
                m = STAT.match(line)
                if m:
                    self.transitions = int(m.group(1).replace(",", ""))
                    self.states = int(m.group(2).replace(",", ""))
                m = DIAM.search(line)
                if m:
                    self.depth = int(m.group(1))
                self.log.append(line)
            rc = p.wait()
        finally:
            timer.cancel()
            if p.poll() is None:
                p.kill()
                p.wait()
        self.wall = time.time() - t0
        self.rc = rc
        self.text = "".join(self.log)
        shutil.rmtree(wd, ignore_errors=True)
        self.ok = rc == 0
        if "-simulate" in args:
            for pat in (r"([\d,]+) states checked", r"number of states generated: ([\d,]+)"):
                ms = re.findall(pat, self.text)
                if ms:
                    self.states = self.transitions = int(ms[-1].replace(",", ""))

    def require(self):
        if not self.ok:
            at = self.text.find("Error:")
            tail = self.text[at:at + 3000] if at >= 0 else self.text[-3000:]
            raise Machinery(f"TLC exited with {self.rc}{' (timed out)' if self.timed_out else ''}:\n{tail}")
        return self
