"""A simulated run of the command line tool, or of a program using the library."""

import gc
import io
import os
import sys
import traceback

from . import image, kernel, seams

FD_IN, FD_OUT, FD_ERR = (os.open(os.devnull, os.O_RDWR) for _ in range(3))


def _wrap_out(raw, unbuffered, errors, line_buffering, size=8192):
    if unbuffered:
        buf = raw
    else:
        buf = io.BufferedWriter(raw, size)
    return io.TextIOWrapper(
        buf, "utf-8", errors, newline="\n", line_buffering=line_buffering, write_through=unbuffered
    )


class Std:
    """Description of the three standard streams of a process.

    stdin:  bytes | ("pipe", Pipe) | ("tty",) | ("file", path)
    stdout: ("capture",) | ("pipe", Pipe) | ("tty",) | ("file", path) | ("append", path)
    """

    def __init__(self, stdin=b"", stdout=("capture",)):
        self.stdin = stdin
        self.stdout = stdout


def open_std(proc, std):
    """Attach standard streams; called inside the simulation (main or task)."""
    proc.err = seams.Dev("stderr")
    proc.out = seams.Dev("stdout")
    si = std.stdin
    if isinstance(si, (bytes, bytearray)):
        raw = seams.SimIn(proc, "stdin", data=bytes(si), fd=FD_IN)
    elif si[0] == "pipe":
        raw = seams.SimIn(proc, "stdin", pipe=si[1], fd=FD_IN)
    elif si[0] == "tty":
        raw = seams.SimIn(proc, "stdin", tty=True, fd=FD_IN)
    elif si[0] == "file":
        raw = seams.SimFileIO(proc, si[1], "r", "stdin")
    else:
        raise kernel.HarnessError("stdin %r" % (si,))
    proc.rawin = raw
    proc.stdin = io.TextIOWrapper(io.BufferedReader(raw, proc.sim.bufsize or 8192), "utf-8")
    so = std.stdout
    tty = False
    if so[0] == "capture":
        raw = seams.SimOut(proc, "stdout", dev=proc.out, fd=FD_OUT)
    elif so[0] == "tty":
        tty = True
        raw = seams.SimOut(proc, "stdout", dev=proc.out, tty=True, fd=FD_OUT)
    elif so[0] == "pipe":
        raw = seams.SimOut(proc, "stdout", pipe=so[1], fd=FD_OUT)
    elif so[0] in ("file", "append"):
        # the shell opened it before the process existed: no event
        raw = seams.SimFileIO(proc, so[1], "w" if so[0] == "file" else "a", "stdout")
    else:
        raise kernel.HarnessError("stdout %r" % (so,))
    proc.rawout = raw
    proc.stdout = _wrap_out(raw, proc.unbuffered, "strict", tty, proc.sim.bufsize or 8192)
    raw = seams.SimOut(proc, "stderr", dev=proc.err, tty=False, fd=FD_ERR)
    proc.rawerr = raw
    proc.stderr = _wrap_out(raw, proc.unbuffered, "backslashreplace", True)


def _drop_click_caches():
    """click remembers the streams of every process it ever served."""
    import click._compat as c

    for fn in (c._default_text_stdin, c._default_text_stdout, c._default_text_stderr):
        for cell in fn.__closure__ or ():
            if hasattr(cell.cell_contents, "clear"):
                cell.cell_contents.clear()


def close_std(proc):
    """The kernel closes the descriptors of a process that is gone."""
    _drop_click_caches()
    was = proc.alive
    proc.alive = False
    for raw in (proc.rawin, proc.rawout, proc.rawerr):
        try:
            raw.close()
        except Exception:
            pass
    for fd in list(proc.osfds) + list(proc.dups):
        try:
            seams.REAL_OSCLOSE(fd)
        except OSError:
            pass
    proc.osfds = {}
    proc.dups = {}
    proc.alive = was


def _report(exc):
    """What the interpreter does with an uncaught exception."""
    try:
        sys.stderr.write("".join(traceback.format_exception(exc)))
        sys.stderr.flush()
    except kernel.SimCrash:
        raise
    except (Exception, KeyboardInterrupt):
        pass


def _flush():
    """flush_std_files() of the interpreter; False if stdout failed."""
    ok = True
    out = sys.stdout
    if out is not None and not out.closed:
        try:
            out.flush()
        except kernel.SimCrash:
            raise
        except BaseException as e:
            ok = False
            try:
                sys.stderr.write("Exception ignored in: <stdout>\n%r\n" % (e,))
            except kernel.SimCrash:
                raise
            except BaseException:
                pass
    err = sys.stderr
    if err is not None and not err.closed:
        try:
            err.flush()
        except kernel.SimCrash:
            raise
        except BaseException:
            ok = False
    return ok


def interpret(proc, body):
    """Run body() as the main program of `proc`; sets proc.code."""
    code = None
    crashed = False
    try:
        try:
            mods = image.new_image()
            proc.modules = mods
            try:
                body()
                code = 0
            except SystemExit as e:
                c = e.code
                if c is None:
                    code = 0
                elif isinstance(c, int):
                    code = c & 0xFF
                else:
                    code = 1
                    try:
                        sys.stderr.write(str(c) + "\n")
                    except Exception:
                        pass
                e.__traceback__ = None
            except (kernel.SimCrash, kernel.StepCap):
                raise
            except KeyboardInterrupt as e:
                code = 130
                _report(e)
                e.__traceback__ = None
            except BaseException as e:
                code = 1
                proc.exc = "%s: %s" % (type(e).__name__, e)
                _report(e)
                e.__traceback__ = None
            if not _flush():
                code = 120
            # finalisation: remaining objects are destroyed, which may write
            gc.collect()
            if not proc.alive:
                raise kernel.SimCrash()
            if not _flush():
                code = 120
        except kernel.SimCrash as e:
            e.__traceback__ = None
            crashed = True
        except (KeyboardInterrupt, MemoryError) as e:
            # raised while the interpreter reports or finalises
            e.__traceback__ = None
            code = code or 130
        if crashed:
            gc.collect()
        proc.code = None if crashed else code
        proc.sim.note("exit", proc.name, proc.code)
    finally:
        sys.settrace(None)
        close_std(proc)
    return proc.code


def cli(proc, argv):
    """Body of a command-line run; argv without the program name."""

    def body():
        sys.argv = ["age"] + list(argv)
        sys.modules["age.cli"].main(args=list(argv), prog_name="age")

    return lambda: interpret(proc, body)


class Result:
    def __init__(self, proc):
        self.code = proc.code
        self.out = bytes(proc.out.data)
        self.err = bytes(proc.err.data)
        self.crashed = proc.crashed
        self.io = proc.io
        self.events = list(proc.events)
        self.fired = list(proc.fired)
        self.exc = getattr(proc, "exc", None)

    def __repr__(self):
        return "<code=%r out=%r err=%r>" % (self.code, self.out[:80], self.err[-300:])


_n = 0


def run_cli(
    sim, argv, home, stdin=b"", stdout=("capture",), passwords=(), faults=(), seg=None,
    unbuffered=False, name=None, trace=None, version="study", umask=0o022,
):
    """One process, alone in its own scheduler turn of `sim`."""
    p = sim.proc(
        name or "p%d" % len(sim.procs), home, faults=faults, seg=seg, unbuffered=unbuffered,
        passwords=passwords,
    )
    p.version = version
    p.umask = umask
    open_std(p, Std(stdin, stdout))
    sim.spawn(p.name, cli(p, argv), p, trace)
    sim.run()
    return Result(p)


def run_body(sim, fn, home, name=None, faults=(), seg=None, passwords=(), trace=None, version="study"):
    """A library-using program alone in its process; returns (proc, value)."""
    p = sim.proc(name or "p%d" % len(sim.procs), home, faults=faults, seg=seg, passwords=passwords)
    p.version = version
    open_std(p, Std())
    box = {}

    def body():
        box["v"] = fn(p)

    sim.spawn(p.name, lambda: interpret(p, body), p, trace)
    sim.run()
    return p, box.get("v")
