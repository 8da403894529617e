"""Reads a Code_Aster command file by executing it as the Python program it is, with recording stand-ins."""
import re


class CommError(Exception):
    pass


class Concept:
    __slots__ = ("name", "cmd", "kw", "seq", "alive")

    def __init__(self, cmd, kw, seq):
        self.name, self.cmd, self.kw, self.seq, self.alive = None, cmd, kw, seq, True

    def __repr__(self):
        return "<%s:%s>" % (self.name, self.cmd)

    def __getattr__(self, k):
        # methods of the concept, as in MODES.LIST_VARI_ACCES()['NUME_ORDRE']
        if k.startswith("_"):
            raise AttributeError(k)
        return Expr("%s.%s" % (self.name, k), self)


class Expr:
    """a Python expression on a concept, kept as text"""

    def __init__(self, text, concept):
        self._t, self._c = text, concept

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        return Expr("%s.%s" % (self._t, k), self._c)

    def __call__(self, *a, **kw):
        return Expr("%s(%s)" % (self._t, ",".join([repr(x) for x in a] + ["%s=%r" % x for x in kw.items()])), self._c)

    def __getitem__(self, k):
        if k == "FREQ" and self._t.endswith(".LIST_VARI_ACCES()"):
            return ModeList(self._c)
        return Expr("%s[%r]" % (self._t, k), self._c)

    def __repr__(self):
        return "<%s>" % self._t


class F(dict):
    pass


# the frequencies that the commands written by VEGA are given when they ask for those of the modes
MODES = (3.7, 11.25, 12.5, 40.1, 87.3, 205.6, 1033.)


class ModeList(list):
    """the frequencies of a concept, as sampled above"""

    def __init__(self, concept):
        list.__init__(self, MODES)
        self._c = concept


def _import(name, *a):
    if name != "numpy":
        raise CommError("import of %s" % name)
    return __import__("numpy")


def concepts_in(v):
    if isinstance(v, Concept):
        yield v
    elif isinstance(v, (Expr, ModeList)):
        yield v._c
    elif isinstance(v, dict):
        for x in v.values():
            yield from concepts_in(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from concepts_in(x)


class Comm:
    """calls: [(result name or None, command, kwargs)] in file order"""

    def __init__(self, text):
        self.text = text
        self.calls = []
        self.by_name = {}
        code = re.sub(r"#[^\n]*", "", text)
        # names in call position are commands
        commands = set(re.findall(r"\b([A-Z][A-Z0-9_]*)\s*\(", re.sub(r"'[^'\n]*'", "''", code)))
        comm = self

        def make(cmd):
            def call(*a, **kw):
                if cmd == "CO" and len(a) == 1 and isinstance(a[0], str) and not kw:
                    # a concept created under this name by the command it is given to
                    c = Concept("CO", {}, len(comm.calls))
                    comm.calls.append([None, "CO", {}])
                    names[a[0]] = c
                    return c
                if a:
                    raise CommError("%s called with positional arguments" % cmd)
                for c in concepts_in(kw):
                    if not c.alive:
                        raise CommError("%s uses %s after its destruction" % (cmd, c.name))
                c = Concept(cmd, kw, len(comm.calls))
                comm.calls.append([None, cmd, kw])
                if cmd == "DETRUIRE":
                    for x in concepts_in(kw):
                        x.alive = False
                return c
            return call

        class NS(dict):
            def __missing__(s, k):
                if k in ("zip", "range", "len"):
                    raise KeyError(k)
                if k == "_F":
                    return lambda **kw: F(kw)
                if k in commands:
                    return make(k)
                raise CommError("name %s is used but never defined" % k)

            def __setitem__(s, k, v):
                if isinstance(v, Concept):
                    old = dict.get(s, k)
                    reuse = v.kw.get("reuse")
                    if reuse is not None and old is None:
                        raise CommError("reuse of undefined concept %s" % k)
                    if reuse is None and old is not None and old.alive:
                        raise CommError("concept %s defined twice" % k)
                    if reuse is not None and reuse is not old:
                        raise CommError("reuse mismatch for %s" % k)
                    if v.name is None or comm.calls[v.seq][0] is None:       # otherwise k is another name of it
                        v.name = k
                        comm.calls[v.seq][0] = k
                    if len(k) > 8:
                        raise CommError("concept name %s longer than 8 characters" % k)
                    comm.by_name.setdefault(k, v)
                dict.__setitem__(s, k, v)

        names = NS()
        try:
            prog = compile(text, "comm", "exec")
        except SyntaxError as e:
            raise CommError("not a valid command file: %s" % e)
        try:
            exec(prog, {"__builtins__": {"__import__": _import, "zip": zip, "range": range, "len": len}}, names)
        except CommError:
            raise
        except Exception as e:
            raise CommError("command file cannot be evaluated: %r" % e)

    def all(self, cmd):
        return [(n, kw) for n, c, kw in self.calls if c == cmd]

    def one(self, cmd):
        r = self.all(cmd)
        return r[0][1] if r else None


def tup(v):
    """Aster accepts a bare item where a list of one is meant."""
    if v is None:
        return ()
    if isinstance(v, (tuple, list)):
        return tuple(v)
    return (v,)
