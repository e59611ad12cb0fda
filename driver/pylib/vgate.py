"""Runs inside the interpreter of a schedule (spec/MC_Streams.tla): modules call at()."""
import io, sys

fails = []
stop = None  # set by the harness: waits for the schedule


class Capture(io.StringIO):
    """What the user had as sys.stdout or sys.stderr."""

    def __init__(self):
        super().__init__()
        self.tokens = []

    def write(self, s):
        if s.strip():
            self.tokens.append(s.strip())
        return len(s)


orig = {"out": Capture(), "err": Capture()}
own = {"out": Capture(), "err": Capture()}


def start(first):
    for s, what in first.items():
        setattr(sys, "std" + s, orig[s] if what == "orig" else None)


def state():
    def name(s):
        x = getattr(sys, "std" + s)
        return "orig" if x is orig[s] else "own" if x is own[s] else "none" if x is None else "null"
    return {"out": name("out"), "err": name("err"), "cap": {s: list(c.tokens) for s, c in orig.items()}, "fails": list(fails)}


ROUTES = [
    lambda f: f.write("text"), lambda f: f.writelines(["a\n", "b\n"]), lambda f: f.flush(),
    lambda f: print("\udcff\0\U0001F600\xe9", file=f, flush=True), lambda f: f.write("x" * 100000),
    lambda f: f.buffer.write(b"\xff\0"), lambda f: f.buffer.flush(), lambda f: f.isatty(),
    lambda f: print("a", "b", sep="\0", end="\r\n", file=f), lambda f: f.encoding.lower(), lambda f: f.write(""),
]


def write(token):
    for s in ("out", "err"):
        f = getattr(sys, "std" + s)
        if f is None:
            continue
        try:
            if s == "out":
                print(token)
            else:
                sys.stderr.write(token + "\n")
            if f is not orig[s] and f is not own[s]:
                for r in ROUTES:
                    r(f)
        except BaseException as e:
            fails.append(f"writing to a muted {s} raised {e!r}")


def at(gate, swap=()):
    who = stop("?")
    write(who + gate + "b")
    stop(gate)
    write(who + gate + "a")
    for s in swap:
        setattr(sys, "std" + s, own[s])


def once(gate):
    """A metaclass whose classes stop at the gate when their docstring is read for the first time."""
    class M(type):
        seen = False

        @property
        def __doc__(cls):
            if not M.seen:
                M.seen = True
                at(gate)
                if cls.fail:
                    raise RuntimeError("no docstring")
            elif cls.fail:
                raise RuntimeError("no docstring")
            return None
    return M
