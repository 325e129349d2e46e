# Histories of the Python objects: workload, reference model and oracles.
# Every decision comes from the simulator's tapes (sim.W / sim.F).
import gc, json
import _sim as sim
import _satyr3 as S

U32 = (1 << 32) - 1
U64 = (1 << 64) - 1
TYPES = {"core": 1, "python": 2, "koops": 3, "java": 4, "gdb": 5, "ruby": 6, "js": 7}

FRAMES = {
    "gdb": (S.GdbFrame, dict(function_name="s", function_type="s", number="u32", source_file="s", source_line="u32",
                             signal_handler_called="b", address="u64", library_name="s")),
    "core": (S.CoreFrame, dict(address="u64", build_id="s", build_id_offset="u64", function_name="s", file_name="s",
                               fingerprint="s", fingerprint_hashed="b")),
    "java": (S.JavaFrame, dict(name="s", file_name="s", file_line="u32", class_path="s", is_native="b", is_exception="b", message="s")),
    "koops": (S.KerneloopsFrame, dict(reliable="b", address="u64", function_name="s", function_offset="u64", function_length="u64",
                                      module_name="s", from_address="u64", from_function_name="s", from_function_offset="u64",
                                      from_function_length="u64", from_module_name="s", special_stack="s")),
    "python": (S.PythonFrame, dict(file_name="s", special_file="b", file_line="u32", function_name="s", special_function="b", line_contents="s")),
    "ruby": (S.RubyFrame, dict(file_name="s", file_line="u32", special_function="b", function_name="s", block_level="u32", rescue_level="u32")),
    "js": (S.JavaScriptFrame, dict(file_name="s", file_line="u32", line_column="u32", function_name="s")),
}
KINDS = {}          # kind -> (class, attributes, {list member: item kind}, {object member: kinds}, read-only attributes)
for k, (c, a) in FRAMES.items():
    KINDS["f:" + k] = (c, a, {}, {}, {})
KINDS["t:gdb"] = (S.GdbThread, dict(number="u32"), {"frames": "f:gdb"}, {}, {})
KINDS["t:core"] = (S.CoreThread, {}, {"frames": "f:core"}, {}, {})
KINDS["t:java"] = (S.JavaThread, dict(name="s"), {"frames": "f:java"}, {}, {})
KINDS["s:koops"] = (S.Kerneloops, dict(version="s", raw_oops="s"), {"frames": "f:koops"}, {}, dict(modules=NotImplementedError, taint_flags=NotImplementedError))
KINDS["s:python"] = (S.PythonStacktrace, dict(exception_name="s"), {"frames": "f:python"}, {}, {})
KINDS["s:ruby"] = (S.RubyStacktrace, dict(exception_name="s"), {"frames": "f:ruby"}, {}, {})
KINDS["s:js"] = (S.JavaScriptStacktrace, dict(exception_name="s"), {"frames": "f:js"}, {}, {})
KINDS["m:gdb"] = (S.GdbStacktrace, {}, {"threads": "t:gdb", "libs": "lib"}, {}, {})
KINDS["m:core"] = (S.CoreStacktrace, dict(signal="u16", executable="s", only_crash_thread="b"), {"threads": "t:core"}, {}, {})
KINDS["m:java"] = (S.JavaStacktrace, {}, {"threads": "t:java"}, {}, {})
KINDS["lib"] = (S.GdbSharedlib, dict(start_address="u64", end_address="u64", soname="s", symbols="sym"), {}, {}, {})
KINDS["os"] = (S.OperatingSystem, dict(name="s", version="s", architecture="s", cpe="s", uptime="u64"), {}, {}, {})
KINDS["rpm"] = (S.RpmPackage, dict(name="s", epoch="u32", version="s", release="s", architecture="s", install_time="u64", role="role"), {}, {}, {})
KINDS["report"] = (S.Report, dict(reporter_name="s", reporter_version="s", user_root="b", user_local="b", component_name="s", serial="u32", report_type="rt"),
                   {"packages": "rpm"}, {"operating_system": ("os",), "stacktrace": ("m:core", "m:java", "s:koops", "s:python", "s:ruby", "s:js", "m:gdb")},
                   dict(report_version=AttributeError, auth=NotImplementedError))
CLASS_KIND = {v[0]: k for k, v in KINDS.items()}
LIST_TYPES = [list, tuple, dict, type(None), int, str]
REPORT_TYPES = ["core", "python", "kerneloops", "java", "ruby", "javascript", "gdb"]
RT_KIND = {"core": "m:core", "python": "s:python", "kerneloops": "s:koops", "java": "m:java", "ruby": "s:ruby", "javascript": "s:js", "gdb": "m:gdb"}


def raised(got):
    return isinstance(got, tuple) and got[:1] == ("raised",)

def fail(cls, msg):
    sim.violation(cls, msg)


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


# ------------------------------------------------------------------ library calls
class Raised:
    __slots__ = ("type", "msg")

    def __init__(self, e):
        self.type = type(e)
        self.msg = str(e)

    def __repr__(self):
        return "raises %s(%s)" % (self.type.__name__, short(self.msg))


ARM = 0             # the allocation of the next library call that fails (0: none)


def runs_code(x):
    return isinstance(x, (Raises, Evil)) or isinstance(x, (tuple, list)) and any(runs_code(y) for y in x)


def lib(f, *a):
    """One library call; the exception becomes a value."""
    global ARM
    arm, ARM = ARM, 0
    if arm and any(runs_code(x) for x in a):
        arm = 0         # CPython itself does not survive a failure on entry to a Python function
    try:
        return f(arm, *a)
    except SystemError as e:
        fail("exception:system", "%s: %s" % (f.__name__, e))
    except Exception as e:
        e.__traceback__ = None
        return Raised(e)


def read(o, name):
    return lib(sim.get, o, name)


def must(r, what):
    if isinstance(r, Raised):
        fail("exception:unexpected", "%s %r" % (what, r))
    return r


# ------------------------------------------------------------------ model
class Org:          # where an object came from: builds an object with the same hidden state
    __slots__ = ("how", "a")

    def __init__(self, how, *a):
        self.how = how
        self.a = a


class M:
    __slots__ = ("kind", "obj", "org", "attrs", "lists", "subs", "bad", "ro", "users")

    def __init__(self, kind, org):
        self.kind = kind
        self.org = org
        self.obj = None         # set while the history holds a reference of its own
        self.attrs = {}
        self.lists = {}
        self.subs = {}
        self.bad = {}           # members written with something that is not a proper list or object


def adopt(o, kind, org):
    """The model of an object whose content is accepted as it is."""
    m = M(kind, org)
    cls, attrs, lists, subs, ro = KINDS[kind]
    if type(o) is not cls:
        fail("type", "expected %s, got %s" % (cls.__name__, type(o).__name__))
    for n in attrs:
        m.attrs[n] = must(read(o, n), n)
    for n, ik in lists.items():
        l = must(read(o, n), n)
        m.lists[n] = [adopt(c, ik, Org("child", org, n, i)) for i, c in enumerate(l)]
    for n, kinds in subs.items():
        c = must(read(o, n), n)
        m.subs[n] = None if c is None else adopt(c, CLASS_KIND[type(c)], Org("child", org, n, -1))
    for n in ro:
        m.ro = None
    return m


def content(o, depth=0):
    """What can be read from an object, as plain data."""
    if type(o) not in CLASS_KIND:
        if isinstance(o, (list, tuple)):
            return [content(x) for x in o]
        return o
    cls, attrs, lists, subs, ro = KINDS[CLASS_KIND[type(o)]]
    r = [CLASS_KIND[type(o)]]
    for n in list(attrs) + list(ro):
        v = read(o, n)
        if isinstance(v, Raised):
            fail("exception:read", "reading %s.%s %r" % (cls.__name__, n, v))
        r.append((n, v))
    for n in lists:
        v = read(o, n)
        if isinstance(v, Raised):
            v = ("raised", v.type.__name__)
        elif isinstance(v, list):
            v = [content(x) for x in v]
        r.append((n, v))
    for n in subs:
        v = read(o, n)
        r.append((n, ("raised", v.type.__name__) if isinstance(v, Raised) else content(v)))
    return r


def check(m, o, path):
    """The object reads as the model says."""
    cls, attrs, lists, subs, ro = KINDS[m.kind]
    if type(o) is not cls:
        fail("content:type", "%s is a %s, not a %s" % (path, type(o).__name__, cls.__name__))
    if m.obj is not None and m.obj is not o:
        fail("content:identity", "%s is not the object that was put there" % path)
    for n in attrs:
        v = read(o, n)
        if isinstance(v, Raised) or v != m.attrs[n] or type(v) is not type(m.attrs[n]):
            fail("content:attribute", "%s.%s reads %s, last written %s" % (path, n, short(v), short(m.attrs[n])))
    for n in lists:
        v = read(o, n)
        if n in m.bad:
            check_bad(m.bad[n], v, path + "." + n)
            continue
        if isinstance(v, Raised) or type(v) is not list or len(v) != len(m.lists[n]):
            fail("content:list", "%s.%s reads %s, last written %d items" % (path, n, short(v), len(m.lists[n])))
        for i, c in enumerate(v):
            check(m.lists[n][i], c, "%s.%s[%d]" % (path, n, i))
    for n in subs:
        v = read(o, n)
        if n in m.bad:
            check_bad(m.bad[n], v, path + "." + n)
        elif m.subs[n] is None:
            if v is not None:
                fail("content:member", "%s.%s reads %s, last written None" % (path, n, short(v)))
        else:
            check(m.subs[n], v, path + "." + n)


def check_bad(b, v, path):
    if b[0] == "deleted":
        if not (isinstance(v, Raised) and v.type is AttributeError):
            fail("content:deleted", "%s reads %s after it was deleted" % (path, short(v)))
    elif v is not b[1]:
        fail("content:member", "%s is not the value that was written" % path)


def closure(m, seen=None):
    if seen is None:
        seen = []
    seen.append(m)
    for l in m.lists.values():
        for c in l:
            closure(c, seen)
    for c in m.subs.values():
        if c is not None:
            closure(c, seen)
    return seen


def has_bad(m):
    return any(x.bad for x in closure(m))


def tangled(m):
    """The same object is used in two places of one object."""
    ids = [id(x) for x in closure(m)]
    return len(set(ids)) != len(ids)


def freeze(m, memo=None):
    """An independent copy of the model."""
    if memo is None:
        memo = {}
    if id(m) in memo:
        return memo[id(m)]
    r = memo[id(m)] = M(m.kind, m.org)
    r.attrs = dict(m.attrs)
    r.lists = {n: [freeze(c, memo) for c in l] for n, l in m.lists.items()}
    r.subs = {n: None if c is None else freeze(c, memo) for n, c in m.subs.items()}
    r.bad = dict(m.bad)
    return r


# ------------------------------------------------------------------ a twin without a history
def build(org, memo):
    if id(org) in memo:
        return memo[id(org)]
    if org.how == "new":
        r = must(lib(sim.call, KINDS[org.a[0]][0], org.a[1]), "constructing again")
    elif org.how == "json":
        r = must(lib(sim.method, KINDS[org.a[0]][0], "from_json", (org.a[1],)), "from_json again")
    elif org.how == "child":
        r = must(read(build(org.a[0], memo), org.a[1]), "member")
        if org.a[2] >= 0:
            if type(r) is not list or org.a[2] >= len(r):
                fail("twin:child", "%s[%d] is missing in an object built the same way" % (org.a[1], org.a[2]))
            r = r[org.a[2]]
    elif org.how == "copy":
        r = must(lib(sim.method, twin(org.a[0], {}), "dup", ()), "dup again")
    elif org.how == "mut":
        r = twin(org.a[0], {})
        must(lib(sim.method, r, org.a[1], org.a[2]), org.a[1] + " again")
    elif org.how == "result":
        r = must(lib(sim.method, twin(org.a[0], {}), org.a[1], org.a[2]), org.a[1] + " again")
    memo[id(org)] = r
    memo[("keep", id(org))] = org
    return r


def prebuild(m, memo):
    """Everything is taken from where it came from before anything is moved."""
    for x in closure(m):
        if ("twin", id(x)) not in memo:
            build(x.org, memo)


def twin(m, memo):
    k = ("twin", id(m))
    if k in memo:
        return memo[k]
    prebuild(m, memo)
    o = memo[k] = build(m.org, memo)
    # several models may come from the same origin only if they are the same object
    for n, v in m.attrs.items():
        if read(o, n) != v:
            must(lib(sim.set, o, n, v), "writing %s" % n)
    for n, l in m.lists.items():
        must(lib(sim.set, o, n, [twin(c, memo) for c in l]), "writing %s" % n)
    for n, c in m.subs.items():
        must(lib(sim.set, o, n, None if c is None else twin(c, memo)), "writing %s" % n)
    return o


# ------------------------------------------------------------------ values
def gen_str():
    w = sim.W(6)
    if w <= 2:
        return sim.ident()
    if w == 3:
        return sim.gentext().replace("\0", "")
    if w == 4:
        return sim.path()
    return ["", "main", "??", "abort", "\u017elu\u0165", "a b\tc", "\U0001f4a5", "<module>", "x" * 300][sim.W(9)]


def gen_int(hi):
    w = sim.W(6)
    if w <= 2:
        return sim.W(200)
    if w == 3:
        return hi - (1 if hi == U64 else 0)
    if w == 4:
        return min(sim.u64(), hi - 1)
    return min(sim.u32(), hi)


def value(t):
    """A valid value and what it must read back as."""
    if t == "s":
        v = gen_str()
        return v, v
    if t == "b":
        v = [False, True, 0, 1, "", "x", [], [0], None][sim.W(9)]
        return v, bool(v)
    if t == "u16":
        v = gen_int(65535)
        return v, v
    if t == "u32":
        v = gen_int(U32)
        return v, v
    if t == "u64":
        if sim.W(6) == 5:
            return None, None
        v = gen_int(U64)
        return v, v
    if t == "sym":
        v = [S.SYMS_OK, S.SYMS_NOT_FOUND, S.SYMS_WRONG][sim.W(3)]
        return v, v
    if t == "role":
        v = [S.ROLE_UNKNOWN, S.ROLE_AFFECTED][sim.W(2)]
        return v, v
    if t == "rt":
        v = REPORT_TYPES[sim.W(len(REPORT_TYPES))]
        return v, v


class Raises:
    def __bool__(self):
        raise ZeroDivisionError("no truth")

    def __index__(self):
        raise ZeroDivisionError("no index")

    def __float__(self):
        raise ZeroDivisionError("no float")


def bad_value(t):
    if t == "s":
        return [None, 7, b"bytes", [], "\ud800", "nul\0inside"][sim.W(6)]
    if t == "b":
        return Raises()
    if t in ("u16", "u32", "u64"):
        hi = dict(u16=65535, u32=U32, u64=U64)[t]
        l = [-1, "7", hi + 1, 1.5, -(1 << 63), 1 << 63, 1 << 64, (1 << 64) + 5, 1 << 200, Raises(), [], None, hi + 6]
        v = l[sim.W(len(l))]
        if t == "u64" and (v is None or v == 1 << 63):
            v = -2
        return v
    return [-1, 1 << 70, "nosuch", Raises(), 77, None][sim.W(6)]


# ------------------------------------------------------------------ the history
class World:
    def __init__(self):
        self.slots = []
        self.extra = []     # matrices, parts, dendrograms: (kind, object, model)
        self.evil_used = False


w = None
MAXSLOT = 7


def hold(m, o):
    for s in w.slots:
        if s is m:
            return m
    m.obj = o
    w.slots.append(m)
    if len(w.slots) > MAXSLOT:
        drop(sim.W(len(w.slots) - 1))
    return m


def drop(i):
    m = w.slots.pop(i)
    m.obj = None


def check_all(why):
    for i, m in enumerate(w.slots):
        check(m, m.obj, "%s: object %d (%s)" % (why, i, KINDS[m.kind][0].__name__))


def some_kind(prefixes=None):
    ks = [k for k in KINDS if prefixes is None or k[0] in prefixes]
    return ks[sim.W(len(ks))]


TEXT_KINDS = ("m:gdb", "m:java", "s:koops", "s:python", "s:ruby", "s:js")


def create(kind=None):
    if kind is None:
        r = sim.W(10)
        kind = some_kind("m" if r < 3 else "s" if r < 6 else "t" if r == 6 else "f" if r == 7 else "r" if r == 8 else "lo")
    cls = KINDS[kind][0]
    way = sim.W(4)
    if kind in TEXT_KINDS and way in (1, 2):
        args = (sim.text(TYPES[kind[2:]]),)
        org = Org("new", kind, args)
        o = lib(sim.call, cls, args)
    elif kind[0] in "ms" and kind != "m:gdb" and way == 3 or kind == "m:core" and way:
        text = sim.trace_json(TYPES[kind[2:]])
        org = Org("json", kind, text)
        o = lib(sim.method, cls, "from_json", (text,))
    elif kind in FRAME_TEXT and way in (1, 2):
        text, says = frame_text(kind)
        args = (text,)
        org = Org("new", kind, args)
        o = lib(sim.call, cls, args)
    elif kind == "t:gdb" and way:
        args = ("".join("f%d lib%d\n" % (sim.W(5), sim.W(3)) for i in range(sim.W(6))), True)
        org = Org("new", kind, args)
        o = lib(sim.call, cls, args)
    elif kind == "report" and way:
        args = (sim.report_json([1, 2, 3, 4, 6, 7][sim.W(6)]),)
        org = Org("new", kind, args)
        o = lib(sim.call, cls, args)
    elif kind == "os" and way:
        args = tuple(gen_str() for i in range(sim.W(4)))
        org = Org("new", kind, args)
        o = lib(sim.call, cls, args)
    elif kind == "rpm" and way:
        args = (gen_str(), gen_int(U32), gen_str(), gen_str(), gen_str())[:sim.W(6)]
        org = Org("new", kind, args)
        o = lib(sim.call, cls, args)
    else:
        args = ()
        org = Org("new", kind, args)
        o = lib(sim.call, cls, ())
    if isinstance(o, Raised):
        if sim.fired():
            return None
        fail("exception:create", "%s%s %r" % (cls.__name__, short(org.a[1:]), o))
    sim.ev("create %s" % kind)
    m = adopt(o, kind, org)
    if org.how == "new" and kind == "os":
        for n, v in zip(("name", "version", "architecture"), org.a[1]):
            if m.attrs[n] != v:
                fail("content:new", "OperatingSystem%s.%s reads %s" % (short(args), n, short(m.attrs[n])))
    if org.how == "new" and kind == "rpm":
        for i, (n, d) in enumerate((("name", None), ("epoch", 0), ("version", None), ("release", None), ("architecture", None))):
            v = args[i] if i < len(args) else d
            if m.attrs[n] != v:
                fail("content:new", "RpmPackage%s.%s reads %s" % (short(args), n, short(m.attrs[n])))
    if org.how == "json":
        json_content(m, o, json.loads(text))
    if org.how == "new" and kind in FRAME_TEXT and args:
        for n, v in says.items():
            if m.attrs[n] != v:
                fail("content:text", "%s%s.%s reads %s, the text says %s" % (cls.__name__, short(args), n, short(m.attrs[n]), short(v)))
        sim.probe("py_frame_text")
    return hold(m, o)


def json_content(m, o, j):
    """What was read from JSON reads as the JSON says."""
    def same(x, d, path):
        for n in KINDS[x.kind][1]:
            if n in ("special_function", "special_file") and type(d.get(n)) is str:
                if x.attrs[n] is not True or x.attrs[n[8:] + "_name"] != d[n]:
                    fail("content:json", "%s.%s reads %s, the JSON says %s is special" % (path, n, short(x.attrs[n]), short(d[n])))
            elif n in d and type(d[n]) in (int, str) and x.attrs[n] != (None if d[n] == U64 else d[n]):
                fail("content:json", "%s.%s reads %s, the JSON says %s" % (path, n, short(x.attrs[n]), short(d[n])))
    def frames(x, l, path):
        if len(x.lists["frames"]) != len(l):
            fail("content:json", "%s has %d frames, the JSON %d" % (path, len(x.lists["frames"]), len(l)))
        for i, (f, d) in enumerate(zip(x.lists["frames"], l)):
            same(f, d, "%s frame %d" % (path, i))
    what = KINDS[m.kind][0].__name__
    same(m, j, what)
    if m.kind[0] == "s":
        frames(m, j.get("stacktrace") or j.get("frames") or [], what)
    else:
        l = j.get("stacktrace") or j.get("threads") or []
        if len(m.lists["threads"]) != len(l):
            fail("content:json", "%s has %d threads, the JSON %d" % (what, len(m.lists["threads"]), len(l)))
        for i, (t, d) in enumerate(zip(m.lists["threads"], l)):
            same(t, d, "thread %d" % i)
            frames(t, d.get("frames") or [], "thread %d" % i)
        if m.kind == "m:core":
            c = [i for i, d in enumerate(l) if d.get("crash_thread")]
            if len(c) == 1 and must(read(o, "crash_thread"), "crash_thread") is not read(o, "threads")[c[0]]:
                fail("crash_thread:json", "crash_thread is not thread %d, which the JSON marks" % c[0])
    sim.probe("py_json_content")


def crash_at(o):
    c = must(read(o, "crash_thread"), "crash_thread")
    return [i for i, t in enumerate(must(read(o, "threads"), "threads")) if t is c]


FRAME_TEXT = ("f:gdb", "f:java", "f:koops", "f:python", "f:ruby", "f:js")


def frame_text(kind):
    f = ["main", "foo_bar", "run", "x1"][sim.W(4)]
    p = ["a.c", "b.py", "lib/c.rb", "/usr/lib/d.js"][sim.W(4)]
    n, k = 1 + sim.W(3000), 1 + sim.W(90)
    a = 0x400000 + sim.W(1 << 20)
    if kind == "f:gdb":
        if sim.W(2):
            return "#%d  0x%016x in %s (a=1) at %s:%d\n" % (k, a, f, p, n), dict(number=k, address=a, function_name=f, source_file=p, source_line=n)
        return "#%d  %s () at %s:%d\n" % (k, f, p, n), dict(number=k, function_name=f, source_file=p, source_line=n)
    if kind == "f:java":
        if sim.W(3) == 2:
            return "\tat a.B.%s(Native Method)\n" % f, dict(name="a.B." + f, is_native=True, file_name=None)
        return "\tat a.B.%s(%s.java:%d)\n" % (f, f, n), dict(name="a.B." + f, is_native=False, file_name=f + ".java", file_line=n)
    if kind == "f:koops":
        if sim.W(2):
            return " [<%016x>] ? %s+0x%x/0x%x [mod]\n" % (a, f, k, n + 100), dict(address=a, function_name=f, function_offset=k, function_length=n + 100, module_name="mod", reliable=False)
        return " [<%016x>] %s+0x%x/0x%x\n" % (a, f, k, n + 100), dict(address=a, function_name=f, function_offset=k, function_length=n + 100, module_name=None, reliable=True)
    if kind == "f:python":
        if sim.W(3) == 2:
            return "  File \"<string>\", line %d, in <module>\n" % n, dict(file_name="string", special_file=True, file_line=n, function_name="module", special_function=True)
        return "  File \"%s\", line %d, in %s\n    x = %d\n" % (p, n, f, k), dict(file_name=p, special_file=False, file_line=n, function_name=f, special_function=False, line_contents="x = %d" % k)
    if kind == "f:ruby":
        if sim.W(2):
            return "%s:%d:in `block (%d levels) in %s'" % (p, n, k + 1, f), dict(file_name=p, file_line=n, function_name=f, block_level=k + 1, rescue_level=0, special_function=False)
        return "%s:%d:in `%s'" % (p, n, f), dict(file_name=p, file_line=n, function_name=f, block_level=0, rescue_level=0, special_function=False)
    return "at %s (%s:%d:%d)" % (f, p, n, k), dict(file_name=p, file_line=n, line_column=k, function_name=f)


BAD_TEXT = ["", "x", "{", "[]", "{\"type\": \"core\"}", "{\"stacktrace\": 5}", "Thread 1 (", "#0 ", "nul\0inside", "Traceback\n", "at ", ":1:in `"]


def bad_create():
    """A constructor call that cannot succeed."""
    sim.count("badvalue")
    kind = some_kind()
    cls = KINDS[kind][0]
    way = sim.W(5)
    if way == 0:
        r = lib(sim.call, cls, (Raises(), 1, 2, 3, 4, 5, 6))
        if not isinstance(r, Raised) and kind not in ("lib", "t:core", "f:core"):
            fail("badvalue:accepted", "%s accepts arguments of a wrong type" % cls.__name__)
    elif way == 1:
        bases = [S.BaseFrame, S.BaseThread, S.SingleThreadStacktrace, S.MultiThreadStacktrace]
        b = bases[sim.W(4)]
        r = lib(sim.call, b, ())
        if not isinstance(r, Raised):
            fail("badvalue:accepted", "%s can be instantiated" % b.__name__)
        if b in bases[2:]:
            r = lib(sim.method, b, "from_json", ("{}",))
            if not isinstance(r, Raised):
                fail("badvalue:accepted", "%s.from_json returns an object" % b.__name__)
    elif way == 2 and kind[0] in "ms":
        t = BAD_TEXT[sim.W(len(BAD_TEXT))]
        lib(sim.method, cls, "from_json", (t,))
    else:
        t = BAD_TEXT[sim.W(len(BAD_TEXT))]
        if kind in TEXT_KINDS and sim.W(2):
            t = sim.text(TYPES[kind[2:]])
            t = t[:sim.W(len(t) + 1)]
        lib(sim.call, cls, (t,))
    sim.ev("bad create %s %d" % (kind, way))


class Evil:
    """A number whose conversion changes the object it is used on."""
    def __init__(self, m, o, v):
        self.m, self.o, self.v = m, o, v

    def act(self):
        sim.count("reenter")
        for n in self.m.lists:
            l = read(self.o, n)
            if type(l) is list and n not in self.m.bad:
                del l[:]
                del self.m.lists[n][:]           # other objects might share the list
        gc.collect()

    def __index__(self):
        sim.outside(self.act)
        return self.v

    def __bool__(self):
        sim.outside(self.act)
        return bool(self.v)

    def __float__(self):
        sim.outside(self.act)
        return float(self.v)


def pick():
    return w.slots[sim.W(len(w.slots))] if w.slots else None


def write_attr():
    m = pick()
    cls, attrs, lists, subs, ro = KINDS[m.kind]
    names = list(attrs)
    if not names:
        return
    n = names[sim.W(len(names))]
    t = attrs[n]
    mode = sim.W(8)
    if mode == 7 and t in ("b", "u16", "u32") and lists:
        v = Evil(m, m.obj, 1)
        r = lib(sim.set, m.obj, n, v)
        if isinstance(r, Raised):
            if not sim.fired():
                fail("exception:write", "%s.%s = object with the value 1 %r" % (cls.__name__, n, r))
        else:
            m.attrs[n] = True if t == "b" else 1
        v.m = v.o = None
        sim.ev("reentrant write %s" % n)
    elif mode >= 5:
        sim.count("badvalue")
        if sim.W(6) == 5:
            r = lib(sim.delete, m.obj, n) if False else lib(lambda arm, o, x: sim.delete(o, x), m.obj, n)
            if not isinstance(r, Raised):
                fail("badvalue:deleted", "%s.%s can be deleted" % (cls.__name__, n))
        else:
            v = bad_value(t)
            r = lib(sim.set, m.obj, n, v)
            if not isinstance(r, Raised):
                fail("badvalue:accepted", "%s.%s accepts %s" % (cls.__name__, n, short(v)))
            if type(v) is Raises and not sim.fired() and r.type not in (ZeroDivisionError, TypeError):
                fail("exception:replaced", "%s.%s = object that raises %r" % (cls.__name__, n, r))
        sim.ev("bad write %s.%s" % (m.kind, n))
    else:
        v, want = value(t)
        r = lib(sim.set, m.obj, n, v)
        if isinstance(r, Raised):
            if not sim.fired():
                fail("exception:write", "%s.%s = %s %r" % (cls.__name__, n, short(v), r))
        else:
            m.attrs[n] = want
        sim.ev("write %s.%s" % (m.kind, n))
    for n, e in ro.items():
        r = lib(sim.set, m.obj, n, None)
        if not (isinstance(r, Raised) and r.type is e) and not sim.fired():
            fail("badvalue:readonly", "%s.%s = None %r" % (cls.__name__, n, r))


def item_for(kind):
    """An object to put into a list: one that is held, or a new one."""
    have = [s for s in w.slots if s.kind == kind]
    if have and sim.W(3) == 2:
        return have[sim.W(len(have))]
    if kind[0] == "t" and sim.W(3) == 2:          # a thread out of a whole stack trace
        src = [s for s in w.slots if s.kind == "m:" + kind[2:] and s.lists["threads"] and "threads" not in s.bad]
        if src:
            s = src[sim.W(len(src))]
            i = sim.W(len(s.lists["threads"]))
            return hold(s.lists["threads"][i], read(s.obj, "threads")[i])
    return create(kind)


def write_list():
    ms = [s for s in w.slots if KINDS[s.kind][2]]
    if not ms:
        return
    m = ms[sim.W(len(ms))]
    names = list(KINDS[m.kind][2])
    n = names[sim.W(len(names))]
    ik = KINDS[m.kind][2][n]
    o = m.obj
    if n in m.bad:
        mode = 5
    else:
        mode = sim.W(16)
    cur = m.lists[n]
    l = None if n in m.bad else must(read(o, n), n)
    sim.ev("list %s.%s %d" % (m.kind, n, mode))
    sim.state("%s.%s %d %d %d" % (m.kind, n, mode, min(len(cur), 4), len(w.slots)))
    if mode in (0, 1, 2):
        c = item_for(ik)
        if c is None:
            return
        i = sim.W(len(cur) + 1)
        l.insert(i, c.obj)
        cur.insert(i, c)
    elif mode in (3, 4) and cur:
        i = sim.W(len(cur))
        del l[i]
        del cur[i]
    elif mode == 5:
        k = sim.W(3)
        if n in m.bad:
            del m.bad[n]
            cur = m.lists[n] = []
        new = list(cur)[:k] if sim.W(2) else []
        objs = [l[i] for i in range(len(new))] if new else []
        for i in range(k):
            c = item_for(ik)
            if c is not None:
                new.append(c)
                objs.append(c.obj)
        r = lib(sim.set, o, n, objs)
        if isinstance(r, Raised):
            fail("exception:write", "assigning a list %r" % r)
        m.lists[n] = new
    elif mode == 6:
        l.reverse()
        cur.reverse()
    elif mode == 7 and sim.W(2):
        del l[:]
        del cur[:]
    elif mode == 8:
        k = sim.W(len(cur) + 1)
        del l[k:]
        del cur[k:]
    elif mode == 9 and cur:            # look at one item and keep it
        i = sim.W(len(cur))
        hold(cur[i], l[i])
    elif mode == 10:                   # the whole list moves to or is shared with another object
        others = [s for s in w.slots if s is not m and n in s.lists and KINDS[s.kind][2].get(n) == ik]
        if others:
            p = others[sim.W(len(others))]
            if sim.W(2):
                must(lib(sim.set, p.obj, n, list(l)), n)
                p.lists[n] = list(cur)
            else:
                must(lib(sim.set, p.obj, n, l), n)     # the very same list object
                p.lists[n] = cur
            p.bad.pop(n, None)
    elif mode == 11 and sim.W(3) == 2:
        sim.count("badvalue")
        v = [(), None, 5, "x", {}][sim.W(5)]
        must(lib(sim.set, o, n, v), n)
        m.bad[n] = ("value", v)
        m.lists[n] = []
    elif mode == 12 and sim.W(3) == 2:
        sim.count("badvalue")
        v = list(l)
        v.insert(sim.W(len(v) + 1), [None, 3, "f", S.BaseFrame, [], S.OperatingSystem()][sim.W(6)])
        must(lib(sim.set, o, n, v), n)
        m.bad[n] = ("value", v)
        m.lists[n] = []
    elif mode == 13 and sim.W(3) == 2:
        sim.count("badvalue")
        must(lib(lambda arm, a, b: sim.delete(a, b), o, n), n)
        m.bad[n] = ("deleted",)
        m.lists[n] = []
    elif mode == 14 and cur and sim.W(2):   # the same object twice
        i = sim.W(len(cur))
        j = sim.W(len(cur) + 1)
        l.insert(j, l[i])
        cur.insert(j, cur[i])


def write_sub():
    ms = [s for s in w.slots if KINDS[s.kind][3]]
    if not ms:
        return
    m = ms[sim.W(len(ms))]
    o = m.obj
    names = list(KINDS[m.kind][3])
    n = names[sim.W(len(names))]
    mode = sim.W(8)
    sim.ev("member %s %d" % (n, mode))
    if mode < 5:
        kinds = KINDS[m.kind][3][n]
        k = kinds[sim.W(len(kinds))]
        if n == "stacktrace" and sim.W(4):
            k = RT_KIND[m.attrs["report_type"]] if m.attrs["report_type"] in RT_KIND else k
        c = item_for(k)
        if c is None:
            return
        must(lib(sim.set, o, n, c.obj), n)
        m.subs[n] = c
        m.bad.pop(n, None)
    elif mode == 5:
        must(lib(sim.set, o, n, None), n)
        m.subs[n] = None
        m.bad.pop(n, None)
    elif mode == 6:
        if m.subs[n] is not None and n not in m.bad:
            hold(m.subs[n], must(read(o, n), n))
    elif sim.W(2):
        sim.count("badvalue")
        if sim.W(2) and n not in m.bad:
            must(lib(lambda arm, a, b: sim.delete(a, b), o, n), n)
            m.bad[n] = ("deleted",)
        else:
            v = [5, "x", [], S.GdbFrame][sim.W(4)]
            must(lib(sim.set, o, n, v), n)
            m.bad[n] = ("value", v)
        m.subs[n] = None


# name -> (kinds, arguments, needs what the lists hold)
def arg_frames():
    return (sim.W(6),)


def address_in(m):
    libs = m.lists["libs"]
    if libs and sim.W(2):
        l = libs[sim.W(len(libs))]
        a = l.attrs[("start_address", "end_address")[sim.W(2)]]
        if a is not None:
            return min(max(a + sim.W(3) - 1, 0), U64 - 1)
    return sim.u64() >> 1 if sim.W(2) else sim.W(500)


def ops_for(m):
    k = m.kind
    r = [("str", None)]
    if k[0] == "f":
        r += [("short_string", ()), ("dup", ()), ("equals", "peer")]
        if k == "f:gdb":
            r += [("calls_func", (gen_str(),)), ("calls_func_in_file", (gen_str(), gen_str()))]
    if k[0] in "ts":
        r += [("dup", ()), ("equals", "peer"), ("distance", "peer"), ("get_duphash", "duphash")]
    if k in ("t:gdb", "t:java"):
        r += [("quality", ()), ("quality_counts", ()), ("format_funs", ())]
    if k[0] == "s":
        r += [("crash_thread", "get")]
    if k[0] in "sm":
        r += [("to_short_text", (sim.W(8),) if sim.W(2) else ()), ("get_bthash", (sim.W(3),) if sim.W(2) else ()), ("dup", ())]
    if k == "s:koops":
        r += [("normalize", ()), ("modules", "get"), ("taint_flags", "get")]
    if k[0] == "m":
        r += [("crash_thread", "get")]
    if k == "m:gdb":
        r += [("find_crash_frame", ()), ("limit_frame_depth", (sim.W(7),)), ("quality_simple", ()), ("quality_complex", ()),
              ("find_address", (address_in(m),)), ("set_libnames", ()), ("normalize", ())]
    if k == "report":
        r += [("to_json", ()), ("to_json", ()), ("auth", "get"), ("report_version", "get")]
    return r


MUTATORS = ("limit_frame_depth", "set_libnames", "normalize")


def result(r):
    if isinstance(r, Raised):
        return ("raised", r.type.__name__)
    return content(r)


def invoke(o, op, args, kw=None):
    if op == "str":
        return lib(sim.str, o)
    if kw == "get":
        return read(o, op)
    return lib(sim.method, o, op, args)


def held_refs():
    return [sim.refs(s.obj) for s in w.slots]


def compute():
    global ARM
    m = pick()
    o = m.obj
    ops = ops_for(m)
    op, args = ops[sim.W(len(ops))]
    kw = None
    evil = None
    peer = None
    if args is None:
        args = ()
    elif args == "get":
        kw, args = "get", ()
    elif args == "peer":
        peers = [s for s in w.slots if s.kind == m.kind]
        if sim.W(6) == 5:
            peers = w.slots
        peer = peers[sim.W(len(peers))]
        args = (peer.obj,)
        if op == "distance" and sim.W(2):
            args += ([S.DISTANCE_LEVENSHTEIN, S.DISTANCE_JARO_WINKLER, S.DISTANCE_JACCARD, S.DISTANCE_DAMERAU_LEVENSHTEIN, -1, max(DISTANCES) + 1][sim.W(6)],)
    elif args == "duphash":
        args = (sim.W(7), [S.DUPHASH_NORMAL, S.DUPHASH_NOHASH, S.DUPHASH_NONORMALIZE, S.DUPHASH_NOHASH | S.DUPHASH_NONORMALIZE, S.DUPHASH_KOOPS_COMPAT | S.DUPHASH_NOHASH][sim.W(5)], gen_str())[:sim.W(4)]
    bad = has_bad(m) or (peer is not None and has_bad(peer))
    if args and type(args[0]) is int and KINDS[m.kind][2] and sim.W(8) == 7 and not bad:
        evil = Evil(m, o, args[0])
        args = (evil,) + args[1:]
    if sim.W(20) == 19 and not kw and op != "str":
        sim.count("badvalue")
        args = [(Raises(),), (1, 2, 3, 4, 5), (None,), (1 << 80,), ("x", "y", "z", "u", "v")][sim.W(5)]
        evil = peer = None
        wrong = True
    else:
        wrong = False
    frozen = None if bad else freeze(m)
    fpeer = None if bad or peer is None else (frozen if peer is m else freeze(peer))
    # sharing between the two survives freezing
    if peer is not None and not bad and peer is not m:
        memo = {}
        frozen = freeze(m, memo)
        fpeer = freeze(peer, memo)
    tang = tangled(m) or (peer is not None and tangled(peer))
    refs = held_refs()
    arefs = [sim.refs(a) for a in args]
    replaced = id(read(o, "crashframe")) if op == "find_crash_frame" else 0
    if not sim.clean() and sim.F(6) == 5:
        ARM = 1 + sim.F(14)
    sim.ev("call %s.%s%s" % (m.kind, op, " bad" if bad else ""))
    r = invoke(o, op, args, kw)
    fired = sim.fired()
    if evil is not None:
        evil.m = evil.o = None
        frozen = freeze(m)                       # conversion of the arguments comes first
        args = (evil.v,) + args[1:]
    got = result(r)
    what = "%s.%s%s" % (KINDS[m.kind][0].__name__, op, "" if kw else short(tuple("object" if type(a) in CLASS_KIND else a for a in args)))
    if isinstance(r, Raised) and r.type is MemoryError and not fired:
        fail("exception:memory", "%s %r although memory was there" % (what, r))
    mutated = op in MUTATORS and not isinstance(r, Raised)
    same_type = peer is None or peer.kind == m.kind
    if bad:
        needs = op not in ("str", "short_string", "calls_func", "calls_func_in_file") and kw is None or (op == "crash_thread" and m.kind[0] == "m")
        if needs and not isinstance(r, Raised):
            if not (m.kind == "report" and m.attrs["report_type"] in ("invalid", "gdb")) and same_type:
                fail("badlist:accepted", "%s returned %s although a list holds a wrong value" % (what, short(got)))
    elif wrong:
        pass                                     # no crash, no leak, nothing changed
    elif fired and isinstance(r, Raised):
        pass
    elif tang:
        if not isinstance(r, Raised):
            compare(m, frozen, fpeer, op, args, kw, got, what, True)
    else:
        compare(m, frozen, fpeer, op, args, kw, got, what, False)
    if not mutated and evil is None:
        # references: r itself holds one
        for s, before in zip(w.slots, refs):
            now = sim.refs(s.obj) - (1 if s.obj is r else 0)
            if replaced == id(s.obj) and not isinstance(r, Raised):
                now += 1
            if now != before:
                fail("references", "%s changed the reference count of a %s from %d to %d" % (what, type(s.obj).__name__, before, now))
    if mutated:
        # everything below the object is new; what was held stays as it was
        frozen2 = frozen
        org = Org("mut", frozen2, op, args)
        nm = adopt(o, m.kind, org)
        if op == "limit_frame_depth":
            n = args[0]
            for t_old, t_new in zip(frozen2.lists["threads"], nm.lists["threads"]):
                a = [f.attrs for f in t_old.lists["frames"][:n]]
                b = [f.attrs for f in t_new.lists["frames"]]
                if a != b:
                    fail("mutator:limit", "%s leaves %s, expected %s" % (what, short(b), short(a)))
            if len(frozen2.lists["threads"]) != len(nm.lists["threads"]):
                fail("mutator:limit", "%s changed the number of threads" % what)
        if "libs" in m.lists:                    # not touched
            if [x.attrs for x in m.lists["libs"]] != [x.attrs for x in nm.lists["libs"]]:
                fail("mutator:libs", "%s changed the libraries" % what)
            nm.lists["libs"] = m.lists["libs"]
        m.org, m.attrs, m.lists, m.bad = org, nm.attrs, nm.lists, {}
        sim.probe("py_mutator")
    elif not isinstance(r, Raised):
        k = CLASS_KIND.get(type(r))
        if k is not None and op == "dup":
            d = adopt(r, k, Org("copy", frozen))
            if k == "m:core" and not bad and not tang and crash_at(r) != crash_at(o):
                fail("dup:crash_thread", "the crash thread is %s in the original and %s in the copy" % (crash_at(o), crash_at(r)))
            if k[0] in "fts" and sim.W(3):
                near(m, o, d, r)
            if sim.W(2):
                hold(d, r)
        elif k is not None and op == "crash_thread" and m.kind[0] == "m":
            for i, t in enumerate(m.lists["threads"]):
                if read(o, "threads")[i] is r:
                    if sim.W(2):
                        hold(t, r)
                    break
            else:
                fail("crash_thread:foreign", "crash_thread is not one of the threads")
        elif k is not None and op == "find_crash_frame":
            d = adopt(r, k, Org("result", frozen, op, args))
            c = must(read(o, "crashframe"), "crashframe")
            if c is not r:
                fail("crashframe", "crashframe is not the frame that was found")
            if sim.W(2):
                hold(d, r)
        elif k == "lib" and op == "find_address":
            for i, t in enumerate(m.lists["libs"]):
                if read(o, "libs")[i] is r:
                    break
            else:
                fail("find_address:foreign", "find_address returns an object that is not in libs")
    r = None
    sim.state("%s %s %s" % (m.kind, op, "raised" if raised(got) else "ok"))


# what a comparison looks at
COMPARED = {
    "core": ("build_id", "build_id_offset", "function_name", "file_name", "fingerprint"),
    "gdb": ("function_name", "function_type", "source_file", "source_line", "library_name"),
    "java": ("name", "class_path", "file_name", "is_native", "file_line"),
    "koops": tuple(FRAMES["koops"][1]), "python": tuple(FRAMES["python"][1]), "ruby": tuple(FRAMES["ruby"][1]), "js": tuple(FRAMES["js"][1]),
}


def differ(a, b):
    """The first compared detail in which two frames or threads differ."""
    if a.kind[0] == "f":
        names = COMPARED[a.kind[2:]]
        first = {"f:gdb": "signal_handler_called", "f:java": "is_exception"}.get(a.kind)
        if first:
            if a.attrs[first] != b.attrs[first]:
                return first
            if a.attrs[first]:
                names = ("name",) if a.kind == "f:java" else ()
        for n in names:
            if (a.attrs[n] or None) != (b.attrs[n] or None):
                return n
        return None
    if "frames" not in a.lists:
        return None
    for n in ("number", "name"):
        if n in a.attrs and (a.attrs[n] or None) != (b.attrs[n] or None):
            return n
    if len(a.lists["frames"]) != len(b.lists["frames"]):
        return "the number of frames"
    for i, (x, y) in enumerate(zip(a.lists["frames"], b.lists["frames"])):
        d = differ(x, y)
        if d:
            return "%s of frame %d" % (d, i)
    return None


def near(m, o, d, r):
    """One detail of the copy is changed; comparing tells."""
    c, x = d, r
    fr = d.lists.get("frames")
    if fr and sim.W(4):
        i = sim.W(len(fr))
        c, x = fr[i], read(r, "frames")[i]
    names = [n for n in KINDS[c.kind][1]]
    if not names:
        return
    n = names[sim.W(len(names))]
    t = KINDS[c.kind][1][n]
    v, want = value(t)
    if t[0] == "u" and type(c.attrs[n]) is int and sim.W(2):
        v = want = (c.attrs[n] + [1, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 33][sim.W(6)]) & {"u16": 65535, "u32": U32, "u64": U64}[t]
    if v == U64 or isinstance(lib(sim.set, x, n, v), Raised):
        return
    c.attrs[n] = want
    w = differ(m, d)
    for a, b in ((o, r), (r, o)):
        got = result(lib(sim.method, a, "equals", (b,)))
        if w and got is not False:
            fail("equals:different", "%s.equals is %s although %s was changed in the copy" % (type(o).__name__, short(got), w))
    sim.probe("py_equals_near" + ("" if w else "_same"))


def compare(m, frozen, fpeer, op, args, kw, got, what, tang):
    """The same call on objects without a history."""
    memo = {}
    if fpeer is not None:
        prebuild(fpeer, memo)
    t = twin(frozen, memo)
    targs = args
    if fpeer is not None:
        targs = (t if fpeer is frozen else twin(fpeer, memo),) + args[1:]
    if op == "equals" and fpeer is not None and m.kind == fpeer.kind and not tang:
        # judged without the library: equal content is equal
        if content(t) == content(targs[0]) and got is not True:
            fail("equals", "%s is %r for objects with equal content" % (what, got))
        d = differ(m, fpeer)
        if d and got is not False:
            fail("equals:different", "%s is %r although the two differ in %s" % (what, got, d))
        sim.probe("py_equals_" + ("different" if d else "other"))
    if fpeer is not None and fpeer is not frozen and not tang:
        memo2 = {}                   # objects that share nothing
        targs = (twin(fpeer, memo2),) + args[1:]
    if tang:
        return
    judge(m, fpeer, op, args, got, what)
    # what an argument defaults to, said explicitly
    if not raised(got) and kw is None:
        if op in ("to_short_text", "get_bthash", "get_duphash") and not targs:
            targs = (0,) if op != "get_duphash" else (0, S.DUPHASH_NORMAL)
        elif op == "get_duphash" and len(targs) == 1:
            targs += (S.DUPHASH_NORMAL,)
        elif op == "distance" and len(targs) == 1:
            targs += (S.DISTANCE_LEVENSHTEIN,)
    want = result(invoke(t, op, targs, kw))
    if got != want:
        fail("history:" + op, "%s gives %s, and %s for objects with the same content and no history" % (what, short(got), short(want)))
    if op == "dup" and not raised(got):
        mine = content(t)
        if got != mine:
            fail("dup", "the copy reads %s, the original %s" % (diff(got, mine), diff(mine, got)))
    if op == "to_json" and not raised(got):
        back = lib(sim.call, S.Report, (got,))
        if isinstance(back, Raised):
            fail("to_json", "the report's JSON cannot be read back: %r" % back)
        json_check(frozen, adopt(back, "report", Org("new", "report", (got,))))
    if m.kind[0] == "m" and op in ("to_short_text", "crash_thread"):
        # the short text is that of the crash thread
        other = read(t, "crash_thread") if op == "to_short_text" else lib(sim.method, t, "to_short_text", ())
        none = got is None or raised(got), other is None or isinstance(other, Raised)
        if none[0] != none[1]:
            fail("crash_thread:text", "%s gives %s and %s gives %s" % (what, short(got), "crash_thread" if op == "to_short_text" else "to_short_text", "nothing" if none[1] else "something"))
        sim.probe("py_crash_thread_" + ("none" if none[0] else "some"))
    if op == "str" and type(got) is not str:
        fail("str", "%s gives %s" % (what, short(got)))


DISTANCES = (S.DISTANCE_LEVENSHTEIN, S.DISTANCE_JARO_WINKLER, S.DISTANCE_JACCARD, S.DISTANCE_DAMERAU_LEVENSHTEIN)


def may_raise(m, peer, op, args):
    """The exceptions a call on healthy objects has reasons for."""
    if peer is not None and peer.kind != m.kind:
        return ("TypeError",)
    if op == "distance":
        return ("ValueError",) if len(args) > 1 and args[1] not in DISTANCES else ()
    if op == "limit_frame_depth":
        return ("ValueError",) if args[0] < 1 else ()
    if op in ("to_short_text", "find_crash_frame"):
        return ("LookupError",) if m.kind[0] == "m" else ()
    if op == "get_duphash":
        return ("RuntimeError",)
    if op == "to_json":
        st = m.subs["stacktrace"]
        return ("TypeError",) if st is not None and RT_KIND.get(m.attrs["report_type"]) != st.kind else ()
    return ()


def judge(m, peer, op, args, got, what):
    """Results that follow from the content, worked out without the library."""
    if raised(got):
        if got[1] not in may_raise(m, peer, op, args):
            fail("exception:unfounded", "%s raises %s" % (what, got[1]))
        sim.probe("py_raises")
        return
    if op in ("quality", "quality_counts", "quality_simple"):
        frames = [f.attrs for t in m.lists["threads"] for f in t.lists["frames"]] if op == "quality_simple" else [f.attrs for f in m.lists["frames"]]
        if m.kind == "t:java":
            good = sum(1 for a in frames if a["is_native"] or a["file_name"] is not None)
        else:
            good = sum(1 for a in frames if a["signal_handler_called"] or (a["function_name"] not in (None, "??") and a["source_file"]))
        if op == "quality_counts":
            if got != [good, len(frames)]:
                fail("quality", "%s is %s, the frames say %s" % (what, short(got), (good, len(frames))))
        else:
            want = good / len(frames) if frames else 0 if op == "quality_simple" else 1
            if abs(got - want) > 1e-6:
                fail("quality", "%s is %r, the frames say %r" % (what, got, want))
        sim.probe("py_quality")
    if op == "find_address" and not isinstance(args[0], Evil):
        for l in m.lists["libs"]:
            a, b = (U64 if l.attrs[n] is None else l.attrs[n] for n in ("start_address", "end_address"))
            if a <= args[0] <= b:
                break
        else:
            l = None
        want = None if l is None or args[0] == U64 else [(n, l.attrs[n]) for n in KINDS["lib"][1]]
        have = None if got is None else got[1:1 + len(KINDS["lib"][1])]
        if have != want:
            fail("find_address", "%s gives %s, expected %s" % (what, short(have), short(want)))
        sim.probe("py_find_address" + ("" if l is None else "_hit"))


def diff(a, b):
    if type(a) is list and type(b) is list and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y)
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y)
    return short(a)


def json_check(m, b):
    """What the JSON holds, against what was written to the objects."""
    def same(path, a, c):
        if a != c and not (a in ("", None) and c in ("", None)):
            fail("to_json:content", "%s is %s in the JSON, last written %s" % (path, short(c), short(a)))
    for n in ("reporter_name", "reporter_version") + (("report_type",) if m.attrs["report_type"] != "gdb" else ()):
        same(n, m.attrs[n], b.attrs[n])
    same("packages", len(m.lists["packages"]), len(b.lists["packages"]))
    for x, y in zip(m.lists["packages"], b.lists["packages"]):
        for n in ("name", "epoch", "version", "release", "architecture", "install_time", "role"):
            same("package." + n, x.attrs[n], y.attrs[n])
    if m.subs["operating_system"] is not None and b.subs["operating_system"] is not None:
        for n in ("name", "version", "architecture", "cpe", "uptime"):
            same("operating_system." + n, m.subs["operating_system"].attrs[n], b.subs["operating_system"].attrs[n])
    x, y = m.subs["stacktrace"], b.subs["stacktrace"]
    if x is None or m.attrs["report_type"] in ("gdb", "invalid"):
        return
    if y is None:
        fail("to_json:content", "the JSON has no stack trace")
    xt = x.lists["threads"] if x.kind[0] == "m" else [x]
    yt = y.lists["threads"] if y.kind[0] == "m" else [y]
    same("number of threads", len(xt), len(yt))
    for p, q in zip(xt, yt):
        pf = [f.attrs.get("function_name", f.attrs.get("name")) for f in p.lists["frames"]]
        qf = [f.attrs.get("function_name", f.attrs.get("name")) for f in q.lists["frames"]]
        same("frames", [f or None for f in pf], [f or None for f in qf])


# ------------------------------------------------------------------ distances and clusters
def matrix():
    global ARM
    r = sim.W(10)
    mats = [e for e in w.extra if e[0] == "d"]
    if r < 3 or not w.extra:
        groups = {}
        for s in w.slots:
            if s.kind[0] in "ts" and not has_bad(s) and not tangled(s):
                groups.setdefault(s.kind, []).append(s)
            if s.kind[0] == "m" and not has_bad(s) and not tangled(s):
                for i, t in enumerate(s.lists["threads"]):
                    groups.setdefault(t.kind, []).append(t)
        kinds = [k for k in groups if groups[k]]
        if not kinds:
            return
        g = groups[kinds[sim.W(len(kinds))]]
        ms = [g[sim.W(len(g))] for i in range(1 + sim.W(5))]
        objs = []
        memo = {}
        for t in ms:
            objs.append(t.obj if t.obj is not None else twin(freeze(t), {}))
        ty = [S.DISTANCE_LEVENSHTEIN, S.DISTANCE_JACCARD, S.DISTANCE_DAMERAU_LEVENSHTEIN, S.DISTANCE_JARO_WINKLER, 50][sim.W(5) if sim.W(3) == 2 else sim.W(3)]
        n = len(objs)
        mm = sim.W(n + 2)
        if sim.W(12) == 11:
            objs.append([None, 5, S.GdbFrame(), S.CoreThread()][sim.W(4)])
            bad = True
        else:
            bad = False
        ok = not bad and n >= 2 and mm >= 1 and ty not in (50, S.DISTANCE_JARO_WINKLER)
        if not sim.clean() and sim.F(6) == 5:
            ARM = 1 + sim.F(8)
        if sim.W(2):
            sim.ev("matrix %d %d" % (mm, n))
            refs = [sim.refs(x) for x in objs]
            d = lib(sim.call, S.Distances, (objs, mm, ty))
            if [sim.refs(x) for x in objs] != refs:
                fail("references", "Distances() changed a thread's reference count")
            if isinstance(d, Raised):
                if ok and not sim.fired():
                    fail("matrix:raised", "Distances(%d threads, %d, %d) %r" % (n, mm, ty, d))
                return
            if not ok:
                if not bad or objs[-1] is None:
                    fail("matrix:accepted", "Distances(%d threads, %d, %d)%s works" % (n, mm, ty, " with a wrong object" if bad else ""))
                return
            rows, cols = must(lib(sim.method, d, "get_size", ()), "get_size")
            want = {}
            for i in range(rows):
                for j in range(cols):
                    if i < j:
                        want[i, j] = apart(ms[i], ms[j], ty)
                    elif i == j:
                        want[i, j] = 0.0
            if rows != min(mm, n - 1) or cols != n:
                fail("matrix:size", "%d by %d matrix for m=%d and %d threads" % (rows, cols, mm, n))
            w.extra.append(("d", d, (rows, cols, want)))
        else:
            parts(ms, objs, n, mm, ty, ok, bad)
        return
    if r == 3:
        rows, cols = sim.W(6), sim.W(6)
        if sim.W(8) == 7:
            cols = [46341, (1 << 31) - 1, -1, 1 << 31, 70000, -(1 << 31)][sim.W(6)]
            d = lib(sim.call, S.Distances, (rows, cols))
            if not isinstance(d, Raised) and cols < 0:
                fail("matrix:accepted", "Distances(%d, %d) works" % (rows, cols))
            d = lib(sim.method, S.DistancesPart, "create", (cols, rows))
            if not isinstance(d, Raised) and (cols < 0 or rows == 0):
                fail("matrix:accepted", "DistancesPart.create(%d, %d) works" % (cols, rows))
            return
        d = lib(sim.call, S.Distances, (rows, cols))
        if isinstance(d, Raised):
            if rows >= 1 and cols >= 2 and not sim.fired():
                fail("matrix:raised", "Distances(%d, %d) %r" % (rows, cols, d))
            return
        if rows < 1 or cols < 2:
            fail("matrix:accepted", "Distances(%d, %d) works" % (rows, cols))
        rows = min(rows, cols - 1)
        w.extra.append(("d", d, (rows, cols, {(i, j): 0.0 if i == j else None for i in range(rows) for j in range(i, cols)})))
        return
    if not mats:
        return
    e = mats[sim.W(len(mats))]
    d, (rows, cols, want) = e[1], e[2]
    if r == 4:
        i, j = sim.W(rows + 1), sim.W(cols + 1)
        v = [0.0, 1.0, 0.25, 0.75][sim.W(4)]
        x = [v, Raises(), "x"][sim.W(3) if sim.W(4) == 3 else 0]
        q = lib(sim.method, d, "set_distance", (i, j, x))
        if x is not v or i >= rows or j >= cols:
            if not isinstance(q, Raised):
                fail("matrix:accepted", "set_distance(%d, %d, %s) works on a %d by %d matrix" % (i, j, short(x), rows, cols))
        else:
            must(q, "set_distance")
            if i != j:
                want[min(i, j), max(i, j)] = v
                if max(i, j) < rows and False:
                    pass
        sim.ev("set_distance")
    elif r == 5:
        if not sim.clean() and sim.F(4) == 3:
            ARM = 1 + sim.F(2)
        c = lib(sim.method, d, "dup", ())
        if isinstance(c, Raised):
            if not sim.fired():
                fail("matrix:raised", "dup %r" % c)
        else:
            w.extra.append(("d", c, (rows, cols, dict(want))))
        sim.ev("matrix dup")
    elif r in (6, 7):
        if rows != cols - 1 or any(v is None for v in want.values()):
            return
        if not sim.clean() and sim.F(4) == 3:
            ARM = 1 + sim.F(2)
        g = lib(sim.call, S.Dendrogram, (d,))
        if isinstance(g, Raised):
            if not sim.fired():
                fail("dendrogram:raised", "%r" % g)
            return
        size = must(lib(sim.method, g, "get_size", ()), "get_size")
        if size != cols:
            fail("dendrogram:size", "%d objects for %d threads" % (size, cols))
        order = [must(lib(sim.method, g, "get_object", (i,)), "get_object") for i in range(size)]
        if sorted(order) != list(range(size)):
            fail("dendrogram:order", "%r" % order)
        levels = [must(lib(sim.method, g, "get_merge_level", (i,)), "get_merge_level") for i in range(size - 1)]
        for i in (-1, size - 1, size, size + 1, 1 << 20):
            q = lib(sim.method, g, "get_merge_level", (i,))
            if not isinstance(q, Raised):
                fail("dendrogram:range", "get_merge_level(%d) of %d objects is %s" % (i, size, short(q)))
        for i in (-1, size, 1 << 20):
            q = lib(sim.method, g, "get_object", (i,))
            if not isinstance(q, Raised):
                fail("dendrogram:range", "get_object(%d) of %d objects is %s" % (i, size, short(q)))
        w.extra.append(("g", g, (order, levels)))
        sim.ev("dendrogram %d" % size)
    else:
        gs = [x for x in w.extra if x[0] == "g"]
        if not gs:
            return
        g, (order, levels) = gs[sim.W(len(gs))][1:]
        lv = [0.0, 0.3, 0.5, 1.0, 2.0][sim.W(5)]
        mn = 1 + sim.W(3)
        if not sim.clean() and sim.F(4) == 3:
            ARM = 1 + sim.F(8)
        c = lib(sim.method, g, "cut", (lv, mn))
        if isinstance(c, Raised):
            if not sim.fired():
                fail("dendrogram:cut", "%r" % c)
            return
        got = sorted(sorted(x) for x in c)
        runs, cur = [], [order[0]]
        for i, l in enumerate(levels):
            if l > lv:
                runs.append(cur)
                cur = []
            cur.append(order[i + 1])
        runs.append(cur)
        want = sorted(sorted(x) for x in runs if len(x) >= mn)
        if got != want:
            fail("dendrogram:cut", "cut(%g, %d) gives %r, expected %r" % (lv, mn, got, want))
        sim.ev("cut %d" % len(c))


def apart(a, b, ty):
    """The distance of fresh copies of two threads, with nothing in common."""
    x, y = twin(freeze(a), {}), twin(freeze(b), {})
    v = must(lib(sim.method, x, "distance", (y, ty)), "distance")
    if a.kind != "t:gdb" or not any(f.attrs["function_name"] == "??" for t in (a, b) for f in t.lists["frames"]):
        return v
    # a matrix pairs the unknown functions of two gdb threads first
    d = must(lib(sim.call, S.Distances, ([x, y], 1, ty)), "two threads")
    return must(lib(sim.method, d, "get_distance", (0, 1)), "get_distance")


def parts(ms, objs, n, mm, ty, ok, bad):
    global ARM
    np = 1 + sim.W(4)
    arm = ARM
    ps = lib(sim.method, S.DistancesPart, "create", (n, np, mm, ty))
    sim.ev("parts %d %d" % (n, np))
    okp = n >= 2 and ty not in (50, S.DISTANCE_JARO_WINKLER)
    if mm == 0:
        mm = n - 1
    if isinstance(ps, Raised):
        if okp and not sim.fired():
            fail("parts:raised", "create(%d, %d, %d, %d) %r" % (n, np, mm, ty, ps))
        return
    if not okp or len(ps) > np:
        fail("parts:created", "create(%d, %d, %d, %d) gives %d parts" % (n, np, mm, ty, len(ps)))
    done = []
    for p in ps:
        if sim.W(4) == 3:                   # sent to a worker and back
            cls, st = must(lib(sim.method, p, "__reduce__", ()), "__reduce__")
            p = must(lib(sim.call, cls, st), "part from its state")
        if sim.W(8) == 7:
            sim.count("badvalue")
            q = lib(sim.method, p, "compute", (objs[:n - 1],))
            if not isinstance(q, Raised):
                fail("parts:accepted", "compute() with too few threads works")
        q = lib(sim.method, p, "compute", (objs,))
        if isinstance(q, Raised):
            if not bad and not sim.fired():
                fail("parts:raised", "compute %r" % q)
            return
        if bad:
            if objs[-1] is None:
                fail("parts:accepted", "compute() with a wrong object works")
            return
        if sim.W(3) == 2:
            cls, st = must(lib(sim.method, p, "__reduce__", ()), "__reduce__")
            if sim.W(4) == 3:
                forge(cls, st, objs)
            if sim.W(4) == 3:               # a damaged state
                sim.count("badvalue")
                lst = st[7]
                v = [lst + [0.5], lst[:-1], lst + [1.0] * 50, [Raises()] * len(lst), ["x"] * len(lst), 5][sim.W(6)]
                q = lib(sim.call, cls, st[:7] + (v,))
                if not isinstance(q, Raised) and v != lst:
                    fail("parts:accepted", "a part of length %d accepts %s" % (len(lst), short(v)))
            p = must(lib(sim.call, cls, st), "part from its state")
            back = must(lib(sim.method, p, "__reduce__", ()), "__reduce__")
            if back[1] != st:
                fail("parts:state", "a part's state changes from %s to %s" % (short(st), short(back[1])))
        done.append(p)
    k = sim.W(4)
    if k == 3:
        done.reverse()
    if sim.W(6) == 5:
        sim.count("badvalue")
        v = [[], [None], done[:-1] + [5], done[:-1] if len(done) > 1 else []][sim.W(4)]
        q = lib(sim.method, S.Distances, "merge_parts", (v,))
        if not isinstance(q, Raised):
            fail("parts:accepted", "merge_parts accepts a list of %d for %d parts" % (len(v), len(done)))
    if sim.W(6) == 5:
        done.insert(sim.W(len(done) + 1), done[sim.W(len(done))])
    if not sim.clean() and sim.F(6) == 5:
        ARM = 1 + sim.F(3)
    d = lib(sim.method, S.Distances, "merge_parts", (done,))
    if isinstance(d, Raised):
        if not sim.fired():
            fail("parts:raised", "merging all parts %r" % d)
        return
    rows, cols = must(lib(sim.method, d, "get_size", ()), "get_size")
    want = {}
    for i in range(rows):
        for j in range(cols):
            if i < j:
                want[i, j] = apart(ms[i], ms[j], ty)
            elif i == j:
                want[i, j] = 0.0
    w.extra.append(("d", d, (rows, cols, want)))


def forge(cls, st, objs):
    """A part from a state in which one number is wrong."""
    sim.count("badvalue")
    m, n, mb, nb, ln, ty, ck, lst = st
    v = [-1, 0, 1, m, n, n - 1, n + 1, 1 << 20][sim.W(8)]
    k = sim.W(6)
    if k == 0:
        m = v
    elif k == 1:
        mb = v
    elif k == 2:
        nb = v
    elif k == 3:
        ln += 1 + sim.W(4) * n
    elif k == 4:
        ty = [S.DISTANCE_JARO_WINKLER, max(DISTANCES) + 1, 50][sim.W(3)]
    else:
        mb, nb = nb, mb
    left = -1
    if 1 <= m < n and 0 <= mb < m and mb < nb < n:
        left = n - nb + sum(n - 1 - i for i in range(mb + 1, m))
    q = lib(sim.call, cls, (m, n, mb, nb, ln, ty, ck, None))
    if isinstance(q, Raised):
        if ty in DISTANCES and ty != S.DISTANCE_JARO_WINKLER and left >= 0 and ln <= left and not sim.fired():
            fail("parts:raised", "part from %s %r" % (short((m, n, mb, nb, ln, ty)), q))
        return
    if ty not in DISTANCES or ty == S.DISTANCE_JARO_WINKLER or m < 1 or ln > max(left, 0):
        fail("parts:accepted", "a part is made from %s" % short((m, n, mb, nb, ln, ty)))
    lib(sim.method, q, "compute", (objs,))       # touches nothing outside
    sim.probe("py_forged_part")


def check_extra():
    for k, o, mod in w.extra:
        if k == "d":
            rows, cols, want = mod
            if must(lib(sim.method, o, "get_size", ()), "get_size") != (rows, cols):
                fail("matrix:size", "size changed")
            for (i, j), v in want.items():
                g = must(lib(sim.method, o, "get_distance", (i, j)), "get_distance")
                if v is not None and g != v:
                    fail("matrix:value", "distance (%d,%d) is %r, expected %r" % (i, j, g, v))
            if not isinstance(lib(sim.method, o, "get_distance", (rows, 0)), Raised) or not isinstance(lib(sim.method, o, "get_distance", (0, cols)), Raised):
                fail("matrix:range", "an index outside the matrix is accepted")
        else:
            order, levels = mod
            if [lib(sim.method, o, "get_object", (i,)) for i in range(len(order))] != order or [lib(sim.method, o, "get_merge_level", (i,)) for i in range(len(levels))] != levels:
                fail("dendrogram:changed", "a dendrogram changed")


def demangle():
    s = ["_Z3foov", "_ZN1a1bE", "main", "", "_Z", "_ZNSt6vectorIiSaIiEE9push_backERKi"][sim.W(6)]
    r = lib(sim.call, S.demangle_symbol, (s,))
    if not isinstance(r, str) and not sim.fired():
        fail("demangle", "demangle_symbol(%r) %r" % (s, r))
    if s == "_Z3foov" and r != "foo()" and not sim.fired():
        fail("demangle", "demangle_symbol(%r) is %r" % (s, r))


def run():
    global w, ARM
    w = World()
    n = 1 + sim.W(14)
    if n > 10 and sim.W(2):
        n += sim.W(31)
    for step in range(n):
        if not sim.clean() and sim.F(10) == 9:
            ARM = 1 + sim.F(10)
        else:
            ARM = 0
        r = sim.W(16)
        if not w.slots or r == 0:
            create()
        elif r == 1:
            bad_create()
        elif r in (2, 3, 4):
            write_attr()
        elif r in (5, 6, 7, 8):
            ARM = 0
            write_list()
        elif r == 9:
            ARM = 0
            write_sub()
        elif r in (10, 11, 12):
            ARM = 0
            compute()
        elif r == 13:
            ARM = 0
            matrix()
        elif r == 14:
            drop(sim.W(len(w.slots)))
            sim.ev("drop")
        else:
            ARM = 0
            if w.extra and sim.W(2):
                del w.extra[sim.W(len(w.extra))]
            demangle()
        ARM = 0
        if not sim.clean() and sim.F(5) == 4:
            sim.count("gc")
            gc.collect()
        check_all("after step %d" % step)
        check_extra()
    if n > 3:
        sim.nontrivial()
    # everything goes, in a drawn order
    while w.slots or w.extra:
        if w.extra and sim.W(2):
            del w.extra[sim.W(len(w.extra))]
        elif w.slots:
            drop(sim.W(len(w.slots)))
            check_all("while objects go away")
        else:
            del w.extra[0]


def end():
    global w
    w = None
    gc.collect()


gc.disable()
