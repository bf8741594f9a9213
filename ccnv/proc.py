"""Running programs under limits: CPU time decides, never the wall clock."""
import os, resource, signal, subprocess
from .engine import Violation, Inconclusive

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=2:handle_sigbus=2",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=99:print_stacktrace=0", LC_ALL="C")

resource.setrlimit(resource.RLIMIT_CORE, (0, 0))       # inherited: sanitizers set this one too when they start

class Out:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err
    @property
    def crashed(self):
        """Ended by a signal, a sanitizer or the recording allocator."""
        return self.rc < 0 or self.rc in (97, 99) or self.rc >= 128
    def why(self):
        t = self.err + "\n" + self.out[-300:]
        if self.rc == -signal.SIGXCPU: s = "does not terminate (CPU limit)"
        elif self.rc == -signal.SIGXFSZ: s = "writes without end"
        elif self.rc < 0: s = "ended by signal %d" % -self.rc
        else: s = "status %d" % self.rc
        for line in t.splitlines():
            if "ERROR: AddressSanitizer" in line or "runtime error:" in line or line.startswith("!MEM"):
                s += ": " + line.strip()[:200]
                break
        return s

def run(cmd, cwd, stdin=b"", cpu=10, wall=300, env=None, fsize=1 << 26, aux=None):
    """Runs cmd; output goes through files so that a runaway program cannot exhaust memory."""
    aux = aux or cwd
    op, ep = os.path.join(aux, ".out"), os.path.join(aux, ".err")
    if isinstance(stdin, str):
        stdin = stdin.encode("latin-1")
    ip = os.path.join(aux, ".in")
    with open(ip, "wb") as f:
        f.write(stdin)
    with open(ip, "rb") as i, open(op, "wb") as o, open(ep, "wb") as e:
        p = subprocess.Popen(cmd, cwd=cwd, stdin=i, stdout=o, stderr=e, env=env or ENV, start_new_session=True)
        try:
            resource.prlimit(p.pid, resource.RLIMIT_CPU, (cpu, cpu + 2))
            resource.prlimit(p.pid, resource.RLIMIT_FSIZE, (fsize, fsize))
        except (ProcessLookupError, PermissionError):
            pass
        try:
            rc = p.wait(timeout=wall)
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            p.wait()
            raise Inconclusive("wall clock limit: %s" % " ".join(cmd)[:200])
    if rc == -signal.SIGKILL:
        # the kernel ended it (memory): not the program's own doing unless it repeats; leave undecided
        raise Inconclusive("killed: %s" % " ".join(cmd)[:200])
    o = Out(rc, open(op, "rb").read().decode("latin-1"), open(ep, "rb").read().decode("latin-1"))
    if rc == 1 and "OOOPS your program crashed" in o.err: o.rc = -signal.SIGSEGV     # its handler of the signal exits
    return o
