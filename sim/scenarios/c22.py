"""C22 - a key that others can read is never stored without a warning."""

import os
import re
import stat

from .. import world

MODES = [0o600, 0o600, 0o400, 0o700, 0o644, 0o640, 0o604, 0o660, 0o666, 0o620, 0o602, 0o610, 0o601, 0o606, 0o777, 0o1600, 0o2600, 0o4600]
UMASKS = [0o022, 0o077, 0o027, 0o072, 0o177, 0o002, 0o007, 0o070, 0, 0o066, 0o067, 0o076]
WARNING = re.compile(r"(?i)permission|other users|accessible|readable")


def gen(r, tier):
    plan = {
        "runs": [gen_run(r) for _ in range(r.choice([1, 2, 3]))],
        "near": r.random() < 0.3,
        "entropy": r.randrange(1 << 30),
        "bufsize": r.choice([None, None, 16]),
    }
    return plan


def gen_run(r):
    d = {
        "out": r.choice(["o", "o", "o", "redirect", "append", "symlink", "capture", "tty", "other"]),
        "exists": r.random() < 0.6,
        "mode": r.choice(MODES),
        "umask": r.choice(UMASKS),
        "owner": r.choice([None, None, None, [12345, None], [None, 12345], [12345, 12345]]),
        "unbuffered": r.random() < 0.3,
        "file": r.choice(["a", "b"]),
        "write": r.choice([None, None, 1, 50]),
        "faults": [],
    }
    if r.random() < 0.3:
        f = world.gen_out_fault(r)
        f["not_target"] = "stderr"
        d["faults"] = [f]
    return d


def run(plan, ctx):
    home = ctx.home("home")
    ctx.write("w/.keep", b"")
    for i, d in enumerate(plan["runs"]):
        one(plan, ctx, home, i, d)
        if ctx.violations:
            return


def one(plan, ctx, home, i, d):
    name = "w/" + d["file"]

    def once(faults, tag):
        argv, sout = ["generate"], ("capture",)
        if os.path.lexists(ctx.path(name)):
            os.unlink(ctx.path(name))
        if d["exists"] and d["out"] != "capture":
            ctx.write(name, b"# earlier\n")
            if d["owner"] and os.geteuid() == 0:
                os.chown(ctx.path(name), *[-1 if x is None else x for x in d["owner"]])
            os.chmod(ctx.path(name), d["mode"])
        if d["out"] == "o":
            argv += ["-o", ctx.path(name)]
        elif d["out"] == "symlink":
            link = ctx.path("w/link%d%s" % (i, tag))
            os.symlink(d["file"], link)
            argv += ["-o", link]
        elif d["out"] in ("redirect", "append"):
            if not d["exists"]:
                # the shell makes it
                ctx.write(name, b"")
                os.chmod(ctx.path(name), 0o666 & ~d["umask"])
            sout = ("file" if d["out"] == "redirect" else "append", ctx.path(name))
        elif d["out"] == "tty":
            sout = ("tty",)
        elif d["out"] == "other":
            # two paths at once: the key goes to one, standard output to another
            argv += ["-o", ctx.path(name)]
            ctx.write("w/stdout", b"")
            os.chmod(ctx.path("w/stdout"), 0o644 if d["mode"] & 1 else 0o600)
            sout = ("file", ctx.path("w/stdout"))
        was = stat.S_IMODE(os.stat(ctx.path(name)).st_mode) if os.path.exists(ctx.path(name)) else None
        s = ctx.sim({"entropy": plan["entropy"] + i, "bufsize": plan["bufsize"]})
        r = ctx.cli(argv, home, sim=s, name="g%d%s" % (i, tag), stdout=sout, umask=d["umask"], unbuffered=d["unbuffered"], seg={"write": d["write"]}, faults=faults, near=plan["near"])
        return r, was

    r, was = once((), "")
    judge(ctx, d, name, r, was)
    if ctx.violations or not d["faults"]:
        return
    faults = world.resolve(d["faults"], r.events)
    r, was = once(faults, "f")
    if r.fired:
        judge(ctx, d, name, r, was)


def judge(ctx, d, name, r, was):
    if r.code != 0:
        return
    warned = bool(WARNING.search(r.err.decode("utf-8", "replace")))
    if d["out"] in ("capture", "tty"):
        if warned:
            ctx.violate("no-file", "generate to a pipe or terminal warns about file permissions")
        return
    if not os.path.exists(ctx.path(name)) or b"AGE-SECRET-KEY-1" not in (ctx.read(name) or b""):
        return
    mode = stat.S_IMODE(os.stat(ctx.path(name)).st_mode)
    ctx.trivial = False
    ctx.probes["exposed" if mode & 0o077 else "private"] += 1
    if mode & 0o077 and not warned:
        return ctx.violate("silent", "generate (%s) leaves a key in a file of mode %o without a warning" % (d["out"], mode))
    if not mode & 0o077 and warned and not (was or 0) & 0o077:
        return ctx.violate("unfounded", "generate (%s) warns about a file of mode %o" % (d["out"], mode))
