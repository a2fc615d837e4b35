"""Persistent MPI workers: run one program text on N ranks, return each rank's output."""
import os, shutil, signal, socket, struct, subprocess, sys, tempfile, time, uuid

TICKS = os.sysconf("SC_CLK_TCK")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ENV = dict(
    OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
    OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
    OMPI_MCA_plm="isolated", OMPI_MCA_btl="self,vader",
    OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_mpi_yield_when_idle="1",
    OMPI_MCA_orte_abort_timeout="5", OMPI_MCA_btl_base_warn_component_unused="0",
    OMPI_MCA_mca_base_component_show_load_errors="0",
    ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=0:detect_odr_violation=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
    UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1",
    LC_ALL="C.UTF-8", OMP_NUM_THREADS="1",
)

class Failure(Exception):
    """the code under test crashed or hung"""
    def __init__(self, kind, detail):
        super().__init__(kind + ": " + detail[-3000:])
        self.kind, self.detail = kind, detail

class HarnessError(Exception):
    pass

class Worker:
    def __init__(self, exe, np, timeout=60.0):
        self.exe, self.np, self.timeout = exe, np, timeout
        self.proc = None
        self.count = 0
        self.history = []

    def start(self):
        self.stop()
        base = os.environ.get("VERIF_SCRATCH") or "/tmp"
        self.dir = tempfile.mkdtemp(prefix="vw", dir=base)
        self.scratch = os.path.join(self.dir, "s")
        os.mkdir(self.scratch)
        path = os.path.join(self.dir, "k")
        srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        srv.bind(path); srv.listen(1)
        env = dict(os.environ); env.update(ENV)
        env["TMPDIR"] = self.dir
        env["OMPI_MCA_orte_tmpdir_base"] = self.dir
        self.err = open(os.path.join(self.dir, "err"), "wb")
        self.proc = subprocess.Popen(["mpirun", "-np", str(self.np), self.exe, path, self.scratch],
                                     stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err, env=env,
                                     start_new_session=True)
        srv.settimeout(60)
        try:
            self.sock, _ = srv.accept()
        except socket.timeout:
            msg = self.tail(); self.stop()
            raise HarnessError("worker did not start: " + msg)
        finally:
            srv.close()
        self.count = 0
        self.history = []
        self.pids = self._tree()[1:]

    def _tree(self):
        """our mpirun and the processes below it"""
        pids = [self.proc.pid]
        try:
            ps = subprocess.run(["ps", "-eo", "pid,ppid"], capture_output=True, text=True).stdout.split("\n")[1:]
            kids = {}
            for l in ps:
                if l.strip():
                    p, q = map(int, l.split()); kids.setdefault(q, []).append(p)
            i = 0
            while i < len(pids):
                pids += kids.get(pids[i], []); i += 1
        except Exception: pass
        return pids

    def _cpu(self):
        """seconds of processor time each of the ranks has used"""
        res = []
        for p in self.pids:
            try:
                with open("/proc/%d/stat" % p) as f: v = f.read().rsplit(")", 1)[1].split()
                res.append((int(v[11]) + int(v[12])) / TICKS)
            except (OSError, ValueError, IndexError): res.append(0.0)
        return res

    def tail(self, n=6000):
        try:
            with open(os.path.join(self.dir, "err"), "rb") as f:
                data = f.read().decode("utf8", "replace")
            k = data.find("ERROR: AddressSanitizer")
            if k >= 0: return data[max(0, k - 50):k + n]
            return data[-n:]
        except OSError:
            return ""

    def stop(self):
        if self.proc is None: return
        try: self.sock.close()
        except Exception: pass
        try:
            self.proc.wait(timeout=0.5)
        except subprocess.TimeoutExpired:
            self.proc.terminate()
            try:
                self.proc.wait(timeout=3)
            except subprocess.TimeoutExpired:
                self._kill_tree()
        self.err.close()
        shutil.rmtree(self.dir, ignore_errors=True)
        self.proc = None

    def _kill_tree(self):
        # only processes below our own mpirun
        pids = self._tree()
        for p in reversed(pids):
            try: os.kill(p, signal.SIGKILL)
            except OSError: pass
        try: self.proc.wait(timeout=5)
        except subprocess.TimeoutExpired: pass

    def _recv(self, n, limit):
        b = bytearray()
        while len(b) < n:
            self.sock.settimeout(2)
            try: x = self.sock.recv(min(1 << 20, n - len(b)))
            except socket.timeout:
                # The limit counts the processor time of the busiest rank (a rank that waits for a message polls), so
                # that a machine with other work does not make a case look like one that never ends.
                wall = time.monotonic() - self.t0
                if wall > 8 * limit or (wall > limit and max([b - a for a, b in zip(self.cpu0, self._cpu())] or [wall]) > limit): raise
                continue
            if not x: raise EOFError()
            b += x
        return bytes(b)

    def run(self, text, timeout=None):
        """returns a list with one list of lines per rank; raises Failure"""
        if self.proc is None or self.count >= 400:
            self.start()
        self.count += 1
        self.history.append(text)
        data = text.encode()
        limit = timeout or self.timeout
        self.t0 = time.monotonic(); self.cpu0 = self._cpu()
        try:
            self.sock.settimeout(8 * limit)
            self.sock.sendall(struct.pack("<I", len(data)) + data)
            hdr = struct.unpack("<%dI" % self.np, self._recv(4 * self.np, limit))
            body = self._recv(sum(hdr), limit)
        except socket.timeout:
            t = self.tail(); self._kill_tree(); self.stop()
            raise Failure("hang", "no answer within the time limit\n" + t)
        except (EOFError, BrokenPipeError, ConnectionResetError):
            try: self.proc.wait(timeout=8)
            except subprocess.TimeoutExpired: self._kill_tree()
            t = self.tail(); self.stop()
            if "HARNESS:" in t:
                raise HarnessError(t)
            raise Failure("crash", t)
        outs, p = [], 0
        for n in hdr:
            outs.append(body[p:p + n].decode("utf8", "replace").split("\n")[:-1]); p += n
        return outs
